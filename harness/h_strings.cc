// P03 number parsing, P04 range/repeat expansion, P05 string scanning/matching.
#include "vpt.h"

#include <charconv>
#include <cstring>
#include <regex>

#include "common/StringTools.h"

using namespace dp3::common;
using vpt::Src;
using vpt::Throws;

namespace {

const std::string kWs = " \t\n\v\f\r";

// ---------------------------------------------------------------- P03
struct IntText {
  std::string text;
  bool valid;        // matches [ws][+-]digits[ws] or [ws]0xhex[ws]
  bool negative;
  bool hex;
  bool huge;         // magnitude >= 2^100
  unsigned __int128 mag;
};

std::string GenWs(Src& s) { return s.chance(1, 3) ? s.str(kWs, 1, 3) : std::string(); }

// Reference recogniser: independent of strtol.
IntText ParseRef(const std::string& t) {
  IntText r{t, false, false, false, false, 0};
  size_t a = 0, b = t.size();
  while (a < b && kWs.find(t[a]) != std::string::npos) ++a;
  while (b > a && kWs.find(t[b - 1]) != std::string::npos) --b;
  std::string u = t.substr(a, b - a);
  if (u.empty()) return r;
  size_t k = 0;
  int base = 10;
  if (u.size() > 2 && u[0] == '0' && (u[1] == 'x' || u[1] == 'X')) {
    base = 16;
    k = 2;
    r.hex = true;
  } else if (u[0] == '+' || u[0] == '-') {
    r.negative = u[0] == '-';
    k = 1;
  }
  if (k == u.size()) return r;
  for (; k < u.size(); ++k) {
    int d;
    char c = u[k];
    if (c >= '0' && c <= '9')
      d = c - '0';
    else if (base == 16 && c >= 'a' && c <= 'f')
      d = c - 'a' + 10;
    else if (base == 16 && c >= 'A' && c <= 'F')
      d = c - 'A' + 10;
    else
      return r;
    if (r.mag >> 100)
      r.huge = true;
    else
      r.mag = r.mag * base + d;
  }
  r.valid = true;
  return r;
}

std::string ToDec(unsigned __int128 v) {
  if (v == 0) return "0";
  std::string r;
  while (v) {
    r.insert(r.begin(), char('0' + int(v % 10)));
    v /= 10;
  }
  return r;
}

// A text aimed at an integer type with magnitude limits.
std::string GenIntText(Src& s, int bits) {
  switch (s.draw(9)) {
    case 0:
    case 1: {  // near a power-of-two limit of some width
      int w = s.pick({7, 8, 15, 16, 31, 32, 63, 64, bits, bits - 1});
      unsigned __int128 v = (static_cast<unsigned __int128>(1) << w);
      int64_t d = s.i(-3, 3);
      if (d < 0)
        v -= -d;
      else
        v += d;
      if (s.chance(1, 4)) {
        std::string h;
        char buf[40];
        snprintf(buf, sizeof buf, s.b() ? "0x%llx" : "0X%llX", (unsigned long long)v);
        h = buf;
        if (v >> 64) h.insert(2, "1");
        return GenWs(s) + h + GenWs(s);
      }
      return GenWs(s) + (s.b() ? "-" : (s.chance(1, 5) ? "+" : "")) +
             std::string(s.chance(1, 5) ? s.n(1, 4) : 0, '0') + ToDec(v) + GenWs(s);
    }
    case 2:  // hexadecimal
      return GenWs(s) + s.pick<std::string>({"0x", "0X"}) +
             s.str("0123456789abcdefABCDEF", 1, 17) + GenWs(s);
    case 3: {  // digits with junk somewhere
      std::string t = s.str("0123456789", 1, 6);
      t.insert(s.n(0, t.size()), s.str("xX-+.,abf_ 1e:;", 1, 2));
      return GenWs(s) + t + GenWs(s);
    }
    case 4:  // arbitrary short text
      return s.str("0123456789+-xXaAfF. \t", 1, 6);
    case 5:  // long digit strings
      return GenWs(s) + (s.b() ? "-" : "") + s.str("0123456789", 18, 26) + GenWs(s);
    default: {
      int digits = int(s.i(1, 20));
      return GenWs(s) + (s.chance(1, 3) ? "-" : (s.chance(1, 6) ? "+" : "")) +
             s.str("0123456789", digits, digits) + GenWs(s);
    }
  }
}

template <typename T>
void CheckInt(Src& s, T (*f)(const std::string&), const char* name) {
  constexpr bool uns = std::is_unsigned_v<T>;
  const std::string t = GenIntText(s, sizeof(T) * 8);
  s.note("type", name);
  s.note("text", t);
  const IntText r = ParseRef(t);
  bool blank = true;
  for (char c : t) blank = blank && kWs.find(c) != std::string::npos;
  if (blank) throw vpt::Discard{};  // meaning of a blank value is not claimed
  bool in_range = r.valid && !r.huge;
  if (in_range) {
    if (uns)
      in_range = !r.negative && r.mag <= std::numeric_limits<T>::max();
    else if (r.negative)
      in_range = r.mag <= static_cast<unsigned __int128>(std::numeric_limits<T>::max()) + 1;
    else
      in_range = r.mag <= static_cast<unsigned __int128>(std::numeric_limits<T>::max());
  }
  if (uns && r.valid && r.negative && r.mag == 0) throw vpt::Discard{};  // "-0": not claimed
  bool threw = false;
  T got = 0;
  try {
    got = f(t);
  } catch (const std::exception&) {
    threw = true;
  }
  s.nontrivial(in_range ? "accepted" : (r.valid ? "out-of-range" : "malformed"));
  if (r.valid && r.hex) s.label("hex");
  if (in_range) {
    CHECK(!threw, "valid value rejected", t);
    const T want = r.negative ? static_cast<T>(-static_cast<__int128>(r.mag)) : static_cast<T>(r.mag);
    CHECK_EQ(got, want, t);
  } else {
    CHECK(threw, "invalid or out-of-range text accepted as", got, t);
  }
}

}  // namespace

PROP("P03.integers", 400000, 8000000) {
  switch (s.draw(9)) {
    case 0: CheckInt<int>(s, strToInt, "int"); break;
    case 1: CheckInt<int16_t>(s, strToInt16, "int16"); break;
    case 2: CheckInt<int32_t>(s, strToInt32, "int32"); break;
    case 3: CheckInt<int64_t>(s, strToInt64, "int64"); break;
    case 4: CheckInt<long>(s, strToLong, "long"); break;
    case 5: CheckInt<unsigned int>(s, strToUint, "uint"); break;
    case 6: CheckInt<uint16_t>(s, strToUint16, "uint16"); break;
    case 7: CheckInt<uint32_t>(s, strToUint32, "uint32"); break;
    case 8: CheckInt<uint64_t>(s, strToUint64, "uint64"); break;
    case 9: CheckInt<unsigned long>(s, strToUlong, "ulong"); break;
  }
}

namespace {
template <typename T>
void CheckFloat(Src& s, T (*f)(const std::string&)) {
  // [sign] digits [. digits] [e [sign] digits], at least one mantissa digit.
  std::string body;
  size_t before = s.n(0, s.chance(1, 5) ? 30 : 6);
  size_t after = before == 0 ? s.n(1, 8) : s.n(0, 8);
  for (size_t k = 0; k < before; ++k) body += char('0' + s.draw(9));
  if (after > 0 || s.chance(1, 4)) {
    body += '.';
    for (size_t k = 0; k < after; ++k) body += char('0' + s.draw(9));
  }
  if (s.chance(1, 2)) {
    body += s.b() ? 'e' : 'E';
    if (s.b()) body += s.b() ? '-' : '+';
    body += std::to_string(s.n(0, s.chance(1, 4) ? (sizeof(T) == 4 ? 50 : 320) : 12));
  }
  const bool neg = s.b();
  const std::string sign = neg ? "-" : (s.chance(1, 4) ? "+" : "");
  std::string good = sign + body;
  const bool corrupt = s.chance(1, 3);
  if (!corrupt) {
    const std::string t = GenWs(s) + good + GenWs(s);
    s.note("text", t);
    double d = 0;
    T want = 0;
    auto res = std::from_chars(body.data(), body.data() + body.size(), want);
    (void)d;
    if (res.ec == std::errc::result_out_of_range) {
      // Overflow must be rejected; underflow may be rounded or rejected.
      long double ld = strtold(body.c_str(), nullptr);
      if (ld > 1) {
        CHECK(Throws([&] { f(t); }), "overflow accepted", t);
        s.nontrivial("overflow");
      }
      return;
    }
    if (want != 0 && std::abs(want) < std::numeric_limits<T>::min() * 2) return;
    if (want == 0) {
      // Exact zero or complete underflow: only all-zero mantissas are claimed.
      for (char c : body) {
        if (c == 'e' || c == 'E') break;
        if (c >= '1' && c <= '9') return;
      }
    }
    if (neg) want = -want;
    s.nontrivial("valid");
    const T got = f(t);
    CHECK_EQ(got, want, t);
  } else {
    std::string t = good;
    switch (s.draw(4)) {
      case 0: t += s.str("abcdgxyz,;:_", 1, 3); break;
      case 1: t = s.str("bcdgxyz,;:_", 1, 2) + t; break;
      case 2: t += GenWs(s) + " " + s.str("0123456789", 1, 3); break;
      case 3: t += s.pick<std::string>({"..1", "e", "-", "+", ".1.", "e+"}); break;
      case 4: t = s.pick<std::string>({"-", "+", ".", "e5", "--1", "+-1", "-.", "abc", "1,5"}); break;
    }
    t = GenWs(s) + t + GenWs(s);
    // Keep only texts that are certainly not decimal numbers.
    static const std::regex number(R"(\s*[-+]?(\d+\.?\d*|\.\d+)([eE][-+]?\d+)?\s*)");
    if (std::regex_match(t, number)) return;
    s.note("text", t);
    s.nontrivial("malformed");
    bool threw = false;
    T v = 0;
    try {
      v = f(t);
    } catch (const std::exception&) {
      threw = true;
    }
    CHECK(threw, "malformed number accepted as", v, t);
  }
}
}  // namespace

PROP("P03.floats", 200000, 4000000) { CheckFloat<float>(s, strToFloat); }
PROP("P03.doubles", 200000, 4000000) { CheckFloat<double>(s, strToDouble); }

PROP("P03.bools", 40000, 400000) {
  std::string t = s.chance(1, 2)
                      ? s.pick<std::string>({"true", "TRUE", "True", "t", "T", "false", "False", "FALSE",
                                             "f", "F", "yes", "Yes", "Y", "y", "no", "No", "N", "n", "1",
                                             "0"})
                      : s.str("tTfFyYnN01abcdegzZ29-+.", 1, 5);
  s.note("text", t);
  s.nontrivial();
  const char c = t[0];
  const bool is_t = std::string("tTyY1").find(c) != std::string::npos;
  const bool is_f = std::string("fFnN0").find(c) != std::string::npos;
  bool threw = false, got = false;
  try {
    got = strToBool(t);
  } catch (const std::exception&) {
    threw = true;
  }
  if (is_t || is_f) {
    CHECK(!threw, "boolean text rejected", t);
    CHECK_EQ(got, is_t, t);
  } else {
    CHECK(threw, "non-boolean text accepted", t);
  }
}

// ---------------------------------------------------------------- P04
namespace {

// Splits on top level commas; trims blanks; quotes and brackets protect.
std::vector<std::string> SplitTop(const std::string& t) {
  std::vector<std::string> r;
  std::string cur;
  int depth = 0;
  char quote = 0;
  for (char c : t) {
    if (quote) {
      if (c == quote) quote = 0;
      cur += c;
      continue;
    }
    if (c == '\'' || c == '"') quote = c;
    if (c == '[' || c == '(' || c == '{') ++depth;
    if (c == ']' || c == ')' || c == '}') --depth;
    if (c == ',' && depth == 0) {
      r.push_back(cur);
      cur.clear();
    } else
      cur += c;
  }
  r.push_back(cur);
  for (auto& x : r) {
    size_t a = x.find_first_not_of(" \t");
    size_t b = x.find_last_not_of(" \t");
    x = a == std::string::npos ? "" : x.substr(a, b - a + 1);
  }
  return r;
}
// Removes blanks outside quotes.
std::string Squeeze(const std::string& t) {
  std::string r;
  char q = 0;
  for (char c : t) {
    if (q) {
      if (c == q) q = 0;
    } else if (c == '\'' || c == '"')
      q = c;
    else if (c == ' ' || c == '\t')
      continue;
    r += c;
  }
  return r;
}

struct Piece {
  std::string text;
  std::vector<std::string> expect;
  bool interesting = false;
};

std::string Pad(int v, int width) {
  std::string r = std::to_string(v);
  while (int(r.size()) < width) r = "0" + r;
  return r;
}

std::string Blank(Src& s) { return s.chance(1, 6) ? s.str(" \t", 1, 2) : ""; }

Piece GenAtom(Src& s) {
  Piece p;
  switch (s.draw(4)) {
    case 0: p.text = s.str("0123456789", 1, 3); break;
    case 1: p.text = s.str("abcXYZ_", 1, 4) + s.str("0123456789", 0, 2); break;
    case 2: p.text = s.str("123456789", 1, 2) + "." + s.str("0123456789", 1, 2); break;
    case 3: {  // quoted text protects everything inside
      char q = s.b() ? '\'' : '"';
      p.text = q + s.str("ab1.2*,;[]() :", 0, 5) +
               s.pick<std::string>({"1..3", "2*x", "", "3*(1;2)", "..", "*"}) + q;
      p.interesting = true;
      break;
    }
    case 4: p.text = "-" + s.str("0123456789", 1, 2); break;
  }
  p.expect = {p.text};
  return p;
}

Piece GenRange(Src& s) {
  Piece p;
  p.interesting = true;
  std::string prefix = s.str("abCS_-", 0, 3);
  if (s.chance(1, 6) && !prefix.empty()) prefix = prefix.substr(0, 1) + s.str("123", 1, 1) + prefix;
  std::string suffix = s.chance(1, 3) ? s.str("xyHBA", 1, 1) + s.str("xy1B", 0, 2) : "";
  const int width = int(s.i(1, 4));
  int lo = int(s.i(0, s.chance(1, 8) ? 2000 : 120));
  int hi = lo + int(s.i(-6, 15));
  if (hi < 0) hi = 0;
  const std::string lo_text = Pad(lo, width);
  const std::string hi_text = s.b() ? Pad(hi, width) : std::to_string(hi);
  const bool braces = s.chance(1, 5);
  const bool repeat = !prefix.empty() && !braces && s.chance(1, 4);
  p.text = prefix + (braces ? "{" : "") + lo_text + Blank(s) + ".." + Blank(s) +
           (repeat ? prefix : "") + hi_text + (braces ? "}" : "") + suffix;
  const int w = int(lo_text.size());
  for (int v = lo;; v += lo <= hi ? 1 : -1) {
    p.expect.push_back(prefix + Pad(v, w) + suffix);
    if (v == hi) break;
  }
  // Optionally a second range in the same word: all combinations, first
  // counter slowest.
  if (!braces && !suffix.empty() && s.chance(1, 3)) {
    int lo2 = int(s.i(0, 12)), hi2 = lo2 + int(s.i(-2, 3));
    if (hi2 < 0) hi2 = 0;
    const int w2 = int(s.i(1, 2));
    const std::string l2 = Pad(lo2, w2), mid = s.str("mn", 1, 1), end = s.str("k", 0, 1);
    p.text += mid + l2 + ".." + std::to_string(hi2) + end;
    std::vector<std::string> all;
    for (auto& e : p.expect)
      for (int v = lo2;; v += lo2 <= hi2 ? 1 : -1) {
        all.push_back(e + mid + Pad(v, int(l2.size())) + end);
        if (v == hi2) break;
      }
    p.expect = all;
  }
  return p;
}

Piece GenItem(Src& s, int depth, bool ranges);

Piece GenRepeat(Src& s, int depth, bool ranges) {
  Piece p;
  p.interesting = true;
  const int n = int(s.i(1, depth > 1 ? 4 : 12));
  const int kind = int(s.draw(3));
  Piece inner;
  std::string body;
  if (kind == 0 || depth <= 0) {
    inner = (ranges && s.chance(1, 3)) ? GenRange(s) : GenAtom(s);
    body = inner.text;
  } else if (kind == 1) {
    inner = GenItem(s, depth - 1, ranges);
    body = inner.text;
    // a repeat of a repeat written without parentheses: 3*2*x
  } else if (kind == 2) {  // parenthesised group, ; or , separated
    const int m = int(s.i(1, 3));
    body = "(" + Blank(s);
    for (int k = 0; k < m; ++k) {
      Piece e = GenItem(s, depth - 1, ranges);
      if (k) body += s.b() ? ";" : ",";
      body += Blank(s) + e.text + Blank(s);
      inner.expect.insert(inner.expect.end(), e.expect.begin(), e.expect.end());
    }
    body += ")";
  } else {  // bracketed group keeps its brackets: n copies of a sub-array
    const int m = int(s.i(1, 3));
    body = "[";
    std::string flat;
    for (int k = 0; k < m; ++k) {
      Piece e = GenItem(s, 0, ranges);
      if (k) body += ",";
      body += Blank(s) + e.text;
      for (auto& x : e.expect) flat += (flat.empty() ? "" : ",") + x;
    }
    body += "]";
    inner.expect = {"[" + flat + "]"};
  }
  p.text = std::to_string(n) + Blank(s) + "*" + Blank(s) + body;
  for (int k = 0; k < n; ++k)
    p.expect.insert(p.expect.end(), inner.expect.begin(), inner.expect.end());
  return p;
}

Piece GenItem(Src& s, int depth, bool ranges) {
  switch (s.draw(3)) {
    case 0: return GenAtom(s);
    case 1: return ranges ? GenRange(s) : GenAtom(s);
    default: return depth >= 0 ? GenRepeat(s, depth, ranges) : GenAtom(s);
  }
}

void CompareLists(const std::string& got_text, const std::vector<std::string>& want) {
  const std::vector<std::string> got = SplitTop(got_text);
  CHECK_EQ(got.size(), want.size(), "expansion:", got_text);
  for (size_t k = 0; k < want.size(); ++k)
    CHECK_EQ(Squeeze(got[k]), Squeeze(want[k]), "element", k, "of", got_text);
}

}  // namespace

PROP("P04.ranges", 120000, 2500000) {
  const size_t n = s.n(1, 5);
  std::string text;
  std::vector<std::string> want;
  for (size_t k = 0; k < n; ++k) {
    Piece p = s.chance(2, 3) ? GenRange(s) : GenAtom(s);
    if (k) text += "," + Blank(s);
    text += p.text;
    want.insert(want.end(), p.expect.begin(), p.expect.end());
    if (p.interesting) s.nontrivial();
  }
  s.note("text", text);
  CompareLists(expandRangeString(text), want);
}

PROP("P04.repeats", 120000, 2500000) {
  const size_t n = s.n(1, 4);
  std::string text;
  std::vector<std::string> want;
  for (size_t k = 0; k < n; ++k) {
    Piece p = s.chance(2, 3) ? GenRepeat(s, 2, false) : GenAtom(s);
    if (want.size() + p.expect.size() > 3000) break;
    if (k) text += "," + Blank(s);
    text += p.text;
    want.insert(want.end(), p.expect.begin(), p.expect.end());
    if (p.interesting) s.nontrivial();
  }
  if (want.empty()) throw vpt::Discard{};
  s.note("text", text);
  CompareLists(expandMultString(text), want);
}

PROP("P04.arrays", 160000, 3000000) {
  const size_t n = s.n(1, 5);
  std::string text = Blank(s) + "[" + Blank(s);
  std::vector<std::string> want;
  bool nt = false;
  for (size_t k = 0; k < n; ++k) {
    Piece p = GenItem(s, 2, true);
    if (want.size() + p.expect.size() > 3000) break;
    if (k) text += Blank(s) + "," + Blank(s);
    text += p.text;
    want.insert(want.end(), p.expect.begin(), p.expect.end());
    nt = nt || p.interesting;
  }
  if (want.empty()) throw vpt::Discard{};
  text += Blank(s) + "]" + Blank(s);
  s.note("text", text);
  if (nt) s.nontrivial();
  std::string out = expandArrayString(text);
  size_t a = out.find_first_not_of(" \t"), b = out.find_last_not_of(" \t");
  CHECK(a != std::string::npos && out[a] == '[' && out[b] == ']', "brackets kept", out);
  CompareLists(out.substr(a + 1, b - a - 1), want);
  // Expansion is idempotent.
  CHECK_EQ(expandArrayString(out), out);
}

PROP("P04.passthrough", 60000, 1000000) {
  // Text without brackets around it is returned unchanged by the array
  // expansion; text without unquoted .. or n* is unchanged by all of them.
  std::string t = s.str("ab12,;*. ()", 0, 12);
  s.note("text", t);
  CHECK_EQ(expandArrayString("x" + t), "x" + t);
  std::string u;
  for (size_t k = s.n(0, 5); k > 0; --k) u += GenAtom(s).text + s.pick<std::string>({",", ", ", " "});
  s.note("plain", u);
  s.nontrivial();
  CHECK_EQ(expandRangeString(u), u);
  CHECK_EQ(expandMultString(u), u);
  CHECK_EQ(expandArrayString("[" + u + "]"), "[" + u + "]");
}

PROP("P04.unbalanced", 60000, 1000000) {
  // Any text: the expansions return or throw a std::exception; unbalanced
  // quotes are rejected.
  std::string t = s.str("'\"[](){}*;,.. 123ab", 0, 14);
  // Keep repeat counts small.
  static const std::regex big(R"(\d{4,}\s*\*)");
  if (std::regex_search(t, big)) throw vpt::Discard{};
  // Nested repeats can multiply: bound the product.
  double prod = 1;
  static const std::regex digits(R"(\d+)");
  for (std::sregex_iterator it(t.begin(), t.end(), digits), e; it != e; ++it)
    prod *= 1 + atof(it->str().c_str());
  if (prod > 1e5) throw vpt::Discard{};
  s.note("text", t);
  s.nontrivial();
  try {
    expandRangeString(t);
  } catch (const std::exception&) {
  }
  try {
    expandMultString(t);
  } catch (const std::exception&) {
  }
  try {
    expandArrayString(t);
  } catch (const std::exception&) {
  }
  std::string u = s.str("abc12, ", 0, 6) + (s.b() ? "'" : "\"") + s.str("abc12, .*", 1, 6);
  s.note("open quote", u);
  CHECK(Throws([&] { expandMultString(u); }), "unbalanced quote accepted", u);
  CHECK(Throws([&] { expandRangeString(u); }), "unbalanced quote accepted", u);
}

// ---------------------------------------------------------------- P05
PROP("P05.tokenize", 100000, 1500000) {
  const std::string text = s.str("ab,;. x", 0, 14);
  const std::string delims = s.str(",;. x", 0, 3);
  s.note("text", text);
  s.note("delims", delims);
  if (!text.empty() && !delims.empty()) s.nontrivial();
  std::vector<std::string> want;
  std::string cur;
  for (char c : text) {
    if (delims.find(c) != std::string::npos) {
      if (!cur.empty()) want.push_back(cur);
      cur.clear();
    } else
      cur += c;
  }
  if (!cur.empty()) want.push_back(cur);
  CHECK_EQ(stringtools::tokenize(text, delims), want);
}

namespace {
bool Glob(const char* p, const char* t) {
  if (!*p) return !*t;
  if (*p == '*') return Glob(p + 1, t) || (*t && Glob(p, t + 1));
  if (!*t) return false;
  return (*p == '?' || *p == *t) && Glob(p + 1, t + 1);
}
}  // namespace

PROP("P05.patterns", 100000, 1500000) {
  // A station-name pattern (* any text, ? one character, everything else
  // literal) selects exactly the names a glob matcher selects.
  const std::string pattern = s.str("aAB1._-*?*", 0, 8);
  std::string name;
  if (s.chance(2, 3)) {
    // derive a name from the pattern so that matches are common
    for (char c : pattern) {
      if (c == '*')
        name += s.str("aAB1._-", 0, 3);
      else if (c == '?')
        name += s.str("aAB1._-", 1, 1);
      else
        name += c;
    }
    if (!name.empty() && s.chance(1, 3)) name[s.n(0, name.size() - 1)] = "aAB1._-"[s.draw(6)];
    if (s.chance(1, 6)) name += "B";
  } else
    name = s.str("aAB1._-", 0, 8);
  s.note("pattern", pattern);
  s.note("name", name);
  const bool want = Glob(pattern.c_str(), name.c_str());
  s.nontrivial(want ? "match" : "no match");
  CHECK_EQ(std::regex_match(name, std::regex(PatternToRegex(pattern))), want, PatternToRegex(pattern));
}

PROP("P05.compare", 100000, 1500000) {
  const std::string alpha = "abABzZ019_.-";
  const std::string a = s.str(alpha, 0, 5);
  std::string b = s.b() ? s.str(alpha, 0, 5) : a;
  if (s.b())
    for (char& c : b)
      if (s.b()) c = s.b() ? toupper(c) : tolower(c);
  s.note("a", a);
  s.note("b", b);
  s.nontrivial();
  auto up = [](std::string x) {
    for (char& c : x) c = toupper(c);
    return x;
  };
  const stringtools::Compare normal, normal2(stringtools::Compare::NORMAL),
      nocase(stringtools::Compare::NOCASE);
  CHECK_EQ(normal(a, b), a < b);
  CHECK_EQ(normal2(a, b), a < b);
  CHECK_EQ(nocase(a, b), up(a) < up(b));
  CHECK_EQ(nocase(b, a), up(b) < up(a));
}

PROP("P05.blanks_and_quotes", 150000, 2500000) {
  const std::string t = s.str(" \t\n\r\v\fab'\"[]()", 0, 16);
  const unsigned st = unsigned(s.n(0, t.size()));
  const unsigned end = unsigned(s.n(st, t.size()));
  s.note("text", t);
  s.note("st", st);
  s.note("end", end);
  s.nontrivial();
  unsigned l = st;
  while (l < end && isspace((unsigned char)t[l])) ++l;
  CHECK_EQ(lskipws(t, st, end), l);
  unsigned r = end;
  while (r > st && isspace((unsigned char)t[r - 1])) --r;
  CHECK_EQ(rskipws(t, st, end), r);
  if (st < t.size()) {
    // End of a quoted part: just after the next occurrence of the same quote.
    size_t k = st + 1;
    while (k < t.size() && t[k] != t[st]) ++k;
    if (t[st] == '\'' || t[st] == '"') {
      if (k < t.size())
        CHECK_EQ(skipQuoted(t, st), unsigned(k + 1));
      else
        CHECK(Throws([&] { skipQuoted(t, st); }), "open quote accepted");
    }
  }
}

namespace {
// Reference: position after the character closing the group opened at st.
int BalancedRef(const std::string& t, size_t st, size_t end, char close) {
  const char open = t[st];
  int depth = 1;
  for (size_t k = st + 1; k < end; ++k) {
    if (t[k] == close) {
      if (--depth == 0) return int(k + 1);
    } else if (t[k] == open) {
      ++depth;
    } else if (t[k] == '\'' || t[k] == '"') {
      size_t q = t.find(t[k], k + 1);
      if (q == std::string::npos) return -1;
      k = q;
    }
  }
  return -1;
}
}  // namespace

PROP("P05.balanced", 150000, 2500000) {
  const char open = s.pick({'[', '(', '{', 'x'});
  const char close = open == '[' ? ']' : open == '(' ? ')' : open == '{' ? '}' : 'x';
  std::string t = s.str("ab ", 0, 3);
  const unsigned st = unsigned(t.size());
  t += open + s.str(std::string("ab,'\"") + open + close + close, 0, 14);
  const unsigned end = s.chance(1, 3) ? unsigned(s.n(st + 1, t.size())) : unsigned(t.size());
  s.note("text", t);
  s.note("st", st);
  s.note("end", end);
  const int want = BalancedRef(t, st, end, close);
  s.nontrivial(want < 0 ? "unbalanced" : "balanced");
  if (want < 0)
    CHECK(Throws([&] { skipBalanced(t, st, end, close); }), "unbalanced text accepted");
  else
    CHECK_EQ(skipBalanced(t, st, end, close), unsigned(want));
}

PROP("P05.format", 30000, 300000) {
  // printf-like formatting gives exactly what the C library gives, for
  // results up to the documented 10 kB; longer results are cut, not overrun.
  std::string a = s.str("abc %d", 0, 12);
  if (s.chance(1, 6)) {
    size_t n = s.chance(1, 2) ? s.n(10200, 10300) : s.n(0, 20000);
    a = std::string(n, 'q');
  }
  const int i = int(s.i(-100000, 100000));
  const double d = s.sym(1e6);
  const char* fmt = "<%s> %d|%5.2f|%%|%-8d|";
  std::string want(a.size() + 256, 0);
  int len = snprintf(&want[0], want.size(), fmt, a.c_str(), i, d, i);
  want.resize(len);
  s.note("len", len);
  s.nontrivial(len > 10239 ? "long" : "short");
  const std::string got = formatString(fmt, a.c_str(), i, d, i);
  if (len <= 10239) {
    CHECK_EQ(got, want);
  } else {
    CHECK(got.size() >= 10239 && want.compare(0, got.size(), got) == 0, "cut result must be a prefix",
          got.size());
  }
}

VPT_MAIN
