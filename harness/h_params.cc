// P06 structured parameter values, P07 parameter sets, P08 node descriptions.
#include "vpt.h"

#include <unistd.h>

#include "common/NodeDesc.h"
#include "common/ParameterRecord.h"
#include "common/ParameterSet.h"
#include "common/ParameterValue.h"
#include "common/VdsPartDesc.h"

using dp3::common::NodeDesc;
using dp3::common::ParameterRecord;
using dp3::common::ParameterSet;
using dp3::common::ParameterValue;
using vpt::Src;
using vpt::Throws;

namespace {

std::string Ws(Src& s) { return s.chance(1, 4) ? s.str(" \t", 1, 2) : ""; }

// A scalar: its text in a parameter file and the string it denotes.
struct Scalar {
  std::string text, value;
};

Scalar GenScalar(Src& s, bool allow_empty = false) {
  Scalar r;
  const size_t parts = s.n(allow_empty ? 0 : 1, 3);
  for (size_t k = 0; k < parts; ++k) {
    switch (s.draw(3)) {
      case 0:
      case 1: {
        std::string t = s.str("abcXYZ0123456789_-+./:*", 1, 5);
        r.text += t;
        r.value += t;
        break;
      }
      case 2: {
        const char q = s.b() ? '"' : '\'';
        std::string t = s.str(std::string("ab1 ,;[](){}:=#\\") + (q == '"' ? '\'' : '"'), 0, 6);
        r.text += q + t + q;
        r.value += t;
        break;
      }
      case 3: {
        std::string t = "f(" + s.str("abc,1 ", 0, 5) + ")";
        r.text += t;
        r.value += t;
        break;
      }
    }
  }
  return r;
}

// A value tree.
struct Node {
  enum Kind { kScalar, kVector, kRecord } kind = kScalar;
  Scalar scalar;
  std::vector<Node> items;
  std::vector<Scalar> names;
  std::string text;
};

Node GenNode(Src& s, int depth) {
  Node n;
  const uint64_t k = depth > 0 ? s.draw(3) : 0;
  if (k <= 1) {
    n.scalar = GenScalar(s);
    n.text = n.scalar.text;
    return n;
  }
  const size_t count = s.n(0, 4);
  n.kind = k == 2 ? Node::kVector : Node::kRecord;
  n.text = n.kind == Node::kVector ? "[" : "{";
  std::set<std::string> used;
  for (size_t i = 0; i < count; ++i) {
    Node child = GenNode(s, depth - 1);
    if (n.kind == Node::kRecord) {
      Scalar name;
      if (s.b()) {
        name.value = s.str("abcdefgh_123", 1, 4);
        name.text = name.value;
      } else {
        const char q = s.b() ? '"' : '\'';
        name.value = s.str("ab ,:[]{}#", 1, 4);
        name.text = q + name.value + q;
      }
      if (!used.insert(name.value).second) continue;
      if (!n.items.empty()) n.text += ",";
      n.text += Ws(s) + name.text + Ws(s) + ":" + Ws(s) + child.text + Ws(s);
      n.names.push_back(name);
    } else {
      if (!n.items.empty()) n.text += ",";
      n.text += Ws(s) + child.text + Ws(s);
    }
    n.items.push_back(child);
  }
  n.text += Ws(s) + (n.kind == Node::kVector ? "]" : "}");
  return n;
}

void CompareNode(const ParameterValue& v, const Node& n) {
  CHECK_EQ(v.get(), n.text);
  switch (n.kind) {
    case Node::kScalar:
      CHECK_EQ(v.getString(), n.scalar.value);
      break;
    case Node::kVector: {
      CHECK(v.isVector(), "vector not recognised", n.text);
      std::vector<ParameterValue> items = v.getVector();
      CHECK_EQ(items.size(), n.items.size(), n.text);
      for (size_t k = 0; k < items.size(); ++k) CompareNode(items[k], n.items[k]);
      std::vector<std::string> strings = v.getStringVector();
      CHECK_EQ(strings.size(), n.items.size());
      for (size_t k = 0; k < items.size(); ++k)
        if (n.items[k].kind == Node::kScalar) CHECK_EQ(strings[k], n.items[k].scalar.value);
      break;
    }
    case Node::kRecord: {
      CHECK(v.isRecord(), "record not recognised", n.text);
      ParameterRecord rec = v.getRecord();
      CHECK_EQ(size_t(rec.size()), n.items.size(), n.text);
      for (size_t k = 0; k < n.items.size(); ++k) {
        CHECK(rec.isDefined(n.names[k].value), "record field missing", n.names[k].value);
        CompareNode(rec.get(n.names[k].value), n.items[k]);
      }
      break;
    }
  }
}

}  // namespace

PROP("P06.structure", 60000, 1200000) {
  const Node n = GenNode(s, 3);
  const std::string text = Ws(s) + n.text + Ws(s);
  s.note("text", text);
  if (n.kind != Node::kScalar && !n.items.empty())
    s.nontrivial("compound");
  else if (n.text != n.scalar.value)
    s.nontrivial("quoted scalar");
  ParameterValue v(text);
  CompareNode(v, n);
  if (n.kind == Node::kScalar && !(n.text.front() == '[' && n.text.back() == ']')) {
    // A scalar is a vector of one element.
    const std::vector<std::string> one = v.getStringVector();
    CHECK_EQ(one, std::vector<std::string>{n.scalar.value});
  }
  // Not trimmed on request.
  CHECK_EQ(ParameterValue(text, false).get(), text);
}

PROP("P06.record_print", 30000, 500000) {
  // A printed record reads back as the same record.
  Node n;
  for (int tries = 0; tries < 5; ++tries) {
    n = GenNode(s, 2);
    if (n.kind == Node::kRecord) break;
  }
  if (n.kind != Node::kRecord) throw vpt::Discard{};
  s.note("text", n.text);
  for (const Scalar& name : n.names)
    if (name.value.find('\'') != std::string::npos) throw vpt::Discard{};
  if (!n.items.empty()) s.nontrivial();
  std::ostringstream os;
  os << ParameterValue(n.text).getRecord();
  ParameterRecord again = ParameterValue(os.str()).getRecord();
  CHECK_EQ(size_t(again.size()), n.items.size(), os.str());
  for (size_t k = 0; k < n.items.size(); ++k) CompareNode(again.get(n.names[k].value), n.items[k]);
}

PROP("P06.unbalanced", 40000, 600000) {
  // A vector or record with a missing or surplus bracket, brace or quote is
  // rejected, never silently split somewhere.
  Node n = GenNode(s, 3);
  if (n.kind == Node::kScalar) throw vpt::Discard{};
  std::string inner = n.text.substr(1, n.text.size() - 2);
  // Positions outside quotes.
  std::vector<size_t> places;
  char q = 0;
  for (size_t k = 0; k <= inner.size(); ++k) {
    if (!q) places.push_back(k);
    if (k == inner.size()) break;
    if (q) {
      if (inner[k] == q) q = 0;
    } else if (inner[k] == '\'' || inner[k] == '"')
      q = inner[k];
  }
  const char c = s.pick({'[', ']', '{', '}', '(', ')'});
  std::string bad = inner;
  bad.insert(s.pick(places), 1, c);
  bad = "[" + bad + "]";
  s.note("text", bad);
  s.nontrivial();
  CHECK(Throws([&] { ParameterValue(bad).getVector(); }), "unbalanced vector accepted", bad);
  // Open quote.
  std::string open = "[" + inner + (inner.empty() ? "" : ",") + "'abc]";
  CHECK(Throws([&] { ParameterValue(open).getVector(); }), "open quote accepted", open);
  if (n.kind == Node::kVector) CHECK(Throws([&] { ParameterValue(n.text).getRecord(); }), "vector taken as record");
  // A closing bracket before the opening one at the outermost level.
  std::vector<size_t> top;
  int depth = 0;
  q = 0;
  for (size_t k = 0; k <= inner.size(); ++k) {
    if (!q && depth == 0) top.push_back(k);
    if (k == inner.size()) break;
    const char x = inner[k];
    if (q) {
      if (x == q) q = 0;
    } else if (x == '\'' || x == '"')
      q = x;
    else if (x == '[' || x == '{' || x == '(')
      ++depth;
    else if (x == ']' || x == '}' || x == ')')
      --depth;
  }
  const std::string pair = s.pick<std::string>({"][", "}{", ")("});
  size_t p1 = s.pick(top), p2 = s.pick(top);
  if (p1 > p2) std::swap(p1, p2);
  std::string rev = inner;
  rev.insert(p2, 1, pair[1]);
  rev.insert(p1, 1, pair[0]);
  rev = "[" + rev + "]";
  s.note("reversed", rev);
  CHECK(Throws([&] { ParameterValue(rev).getVector(); }), "reversed brackets accepted", rev);
}

namespace {
template <typename T>
std::string NumText(Src& s, T v) {
  std::ostringstream o;
  o.precision(17);
  o << +v;
  return Ws(s) + o.str() + Ws(s);
}
template <typename T>
T GenInt(Src& s) {
  if (s.chance(1, 3)) {
    T v = s.b() ? std::numeric_limits<T>::max() : std::numeric_limits<T>::min();
    uint64_t d = s.draw(3);
    return v == std::numeric_limits<T>::max() ? T(v - d) : T(v + d);
  }
  if (s.b()) return T(s.draw(20));
  return T(s.draw(~0ull));
}
template <typename T, typename One, typename Vec, typename SetOne, typename SetVec>
void IntGetters(Src& s, One one, Vec vec, SetOne set_one, SetVec set_vec) {
  std::vector<T> want;
  std::string text = "[";
  const size_t n = s.n(0, 5);
  for (size_t k = 0; k < n; ++k) {
    want.push_back(GenInt<T>(s));
    text += (k ? "," : "") + NumText(s, want.back());
  }
  text += "]";
  s.note("text", text);
  if (n) s.nontrivial();
  const ParameterValue v(text);
  CHECK(vec(v) == want, "vector getter", text);
  ParameterSet ps;
  ps.add("k", text);
  CHECK(set_vec(ps, "k") == want, "parameter set vector getter", text);
  for (T w : want) {
    const ParameterValue sv(NumText(s, w));
    // Compare in a wide type: a getter whose return type cannot hold the
    // value is a violation as well.
    const auto got = one(sv);
    CHECK(static_cast<__int128>(got) == static_cast<__int128>(w), "scalar getter", +w, "got", +got);
    ps.replace("one", sv.get());
    CHECK(static_cast<__int128>(set_one(ps, "one")) == static_cast<__int128>(w), "set getter", +w);
  }
}
}  // namespace

#define GETTERS(T, N)                                                            \
  IntGetters<T>(                                                                 \
      s, [](const ParameterValue& v) { return v.get##N(); },                     \
      [](const ParameterValue& v) { return v.get##N##Vector(); },                \
      [](const ParameterSet& p, const char* k) { return p.get##N(k); },          \
      [](const ParameterSet& p, const char* k) { return p.get##N##Vector(k); })

PROP("P06.integer_getters", 40000, 600000) {
  switch (s.draw(7)) {
    case 0: GETTERS(int, Int); break;
    case 1: GETTERS(unsigned int, Uint); break;
    case 2: GETTERS(int16_t, Int16); break;
    case 3: GETTERS(uint16_t, Uint16); break;
    case 4: GETTERS(int32_t, Int32); break;
    case 5: GETTERS(uint32_t, Uint32); break;
    case 6: GETTERS(int64_t, Int64); break;
    case 7: GETTERS(uint64_t, Uint64); break;
  }
}

PROP("P06.other_getters", 40000, 600000) {
  std::vector<double> d;
  std::vector<float> f;
  std::vector<bool> b;
  std::string td = "[", tb = "[";
  const size_t n = s.n(0, 5);
  for (size_t k = 0; k < n; ++k) {
    double v = s.chance(1, 3) ? s.sym(1e9) : s.sym(1) * std::pow(10.0, double(s.i(-30, 30)));
    if (std::abs(v) < 1e-36) v = 0;
    char buf[64];
    snprintf(buf, sizeof buf, "%.17g", v);
    d.push_back(v);
    f.push_back(strtof(buf, nullptr));
    td += std::string(k ? "," : "") + Ws(s) + buf + Ws(s);
    const bool bv = s.b();
    b.push_back(bv);
    tb += std::string(k ? "," : "") + Ws(s) +
          (bv ? s.pick<std::string>({"true", "T", "yes", "1", "True"})
              : s.pick<std::string>({"false", "F", "no", "0", "False"}));
  }
  td += "]";
  tb += "]";
  s.note("doubles", td);
  s.note("bools", tb);
  if (n) s.nontrivial();
  ParameterSet ps;
  ps.add("d", td);
  ps.add("b", tb);
  CHECK(ParameterValue(td).getDoubleVector() == d, td);
  CHECK(ps.getDoubleVector("d") == d, td);
  CHECK(ParameterValue(td).getFloatVector() == f, td);
  CHECK(ps.getFloatVector("d") == f, td);
  CHECK(ParameterValue(tb).getBoolVector() == b, tb);
  CHECK(ps.getBoolVector("b") == b, tb);
  // An absent key gives the default, without and with expansion.
  CHECK(ps.getDoubleVector("absent", d) == d, "default vector");
  CHECK(ps.getBoolVector("absent", b, true) == b, "default vector");
  if (n) {
    ps.add("d0", ParameterValue(td).getVector()[0].get());
    CHECK_EQ(ps.getDouble("d0"), d[0]);
    CHECK_EQ(ps.getDouble("d0", 42.0), d[0]);
    CHECK_EQ(ps.getFloat("d0"), f[0]);
  }
  CHECK_EQ(ps.getDouble("absent", 42.5), 42.5);
}

PROP("P06.times", 40000, 600000) {
  // A time is an integer with an optional unit of seconds, minutes or hours.
  std::string t = "[";
  std::vector<time_t> want;
  const size_t n = s.n(1, 3);
  for (size_t k = 0; k < n; ++k) {
    const int64_t v = s.i(-100000, 100000);
    const int u = int(s.draw(3));
    std::string unit = u == 0   ? ""
                       : u == 1 ? s.pick<std::string>({"s", "S", "sec", "seconds"})
                       : u == 2 ? s.pick<std::string>({"m", "M", "min", "minutes"})
                                : s.pick<std::string>({"h", "H", "hour", "hours"});
    if (u > 0 && s.chance(1, 12)) unit += std::string(s.n(0, 4000), 'x');
    const std::string text = std::to_string(v) + (u && s.chance(1, 4) ? " " : "") + unit;
    want.push_back(v * (u == 2 ? 60 : u == 3 ? 3600 : 1));
    s.note("time", text.substr(0, 60));
    s.nontrivial(u > 1 ? "scaled unit" : "seconds");
    CHECK_EQ(ParameterValue(text).getTime(), want.back(), text.substr(0, 60));
    t += (k ? "," : "") + text;
  }
  CHECK(ParameterValue(t + "]").getTimeVector() == want, t.substr(0, 200));
  CHECK(Throws([&] { ParameterValue(s.str("abcx:", 1, 4)).getTime(); }), "non-time accepted");
}

PROP("P06.expand", 30000, 500000) {
  // Expandable vectors: ranges and repeats denote the same list as writing
  // all elements out.
  std::string shortt = "[", longt = "[";
  std::vector<int> want;
  const size_t n = s.n(1, 4);
  for (size_t k = 0; k < n; ++k) {
    if (k) shortt += ",";
    shortt += Ws(s);
    switch (s.draw(2)) {
      case 0: {
        int v = int(s.i(0, 500));
        shortt += std::to_string(v);
        want.push_back(v);
        break;
      }
      case 1: {
        int a = int(s.i(0, 100)), b = a + int(s.i(0, 12));
        if (s.chance(1, 3)) std::swap(a, b);
        shortt += std::to_string(a) + ".." + std::to_string(b);
        for (int v = a;; v += a <= b ? 1 : -1) {
          want.push_back(v);
          if (v == b) break;
        }
        break;
      }
      default: {
        int v = int(s.i(0, 100)), c = int(s.i(1, 6));
        shortt += std::to_string(c) + "*" + std::to_string(v);
        for (int k2 = 0; k2 < c; ++k2) want.push_back(v);
      }
    }
    shortt += Ws(s);
  }
  shortt += "]";
  s.note("text", shortt);
  s.nontrivial();
  ParameterSet ps;
  ps.add("v", shortt);
  CHECK(ps.getIntVector("v", true) == want, shortt);
  CHECK(ps.getIntVector("v", std::vector<int>{7}, true) == want, shortt);
  CHECK(ParameterValue(shortt).expand().getIntVector() == want, shortt);
  // Ranges with leading zeros or unequal widths pad their elements.
  std::vector<int> ws;
  for (const std::string& v : ps.getStringVector("v", true)) ws.push_back(std::stoi(v));
  CHECK(ws == want, shortt);
  std::vector<double> wd(want.begin(), want.end());
  CHECK(ps.getDoubleVector("v", true) == wd, shortt);
}

// ---------------------------------------------------------------- P07
namespace {

std::string Lower(std::string x) {
  for (char& c : x) c = char(tolower(c));
  return x;
}

struct Model {
  bool nocase = false;
  std::map<std::string, std::string> kv;  // canonical key -> value text
  std::set<std::string> asked;            // keys read
  std::set<std::string> unsure;           // read, later redefined or removed
  std::string C(const std::string& k) const { return nocase ? Lower(k) : k; }
  void Set(const std::string& k, const std::string& v) {
    if (asked.count(C(k))) unsure.insert(C(k));
    kv[C(k)] = v;
  }
  void Erase(const std::string& ck) {
    if (asked.count(ck)) unsure.insert(ck);
    kv.erase(ck);
  }
};

std::string GenKey(Src& s) {
  static const std::vector<std::string> parts = {"a", "b", "ab", "A", "msin", "step1", "step10", "Step1", "x_y"};
  std::string k = s.pick(parts);
  for (size_t n = s.n(0, 2); n > 0; --n) k += "." + s.pick(parts);
  return k;
}

// A value that is legal in a file.
std::string GenFileValue(Src& s) {
  switch (s.draw(5)) {
    case 0: return std::to_string(s.i(-1000, 1000));
    case 1: return "[" + s.str("abc123", 1, 3) + "," + s.str("abc123", 1, 3) + "]";
    case 2: {
      Scalar v = GenScalar(s);
      std::string t = v.text;
      // A trailing backslash is a continuation mark in files.
      return t;
    }
    case 3: return "";
    case 4: return s.str("abc", 1, 3) + " " + s.str("xyz", 1, 3);
    default: return s.pick<std::string>({"true", "f", "1.5", "'a # b'", "\"x=y\"", "{a:1}"});
  }
}

// Renders definitions as a parameter file with comments, blank lines, odd
// spacing and continuation lines.
std::string Render(Src& s, const std::vector<std::pair<std::string, std::string>>& defs) {
  std::string t;
  auto junk = [&]() {
    if (s.chance(1, 6)) t += Ws(s) + "# comment = " + s.str("ab=#'\"", 0, 4) + "\n";
    if (s.chance(1, 8)) t += Ws(s) + "\n";
  };
  for (size_t k = 0; k < defs.size(); ++k) {
    junk();
    const std::string& v = defs[k].second;
    std::string key = defs[k].first;
    if (s.chance(1, 8)) key = s.b() ? "'" + key + "'" : "\"" + key + "\"";
    t += Ws(s) + key + Ws(s) + "=" + Ws(s);
    // Split an unquoted vector after its comma, or a two word value at the
    // blank, into continuation lines.
    size_t cut = std::string::npos;
    if (v.find_first_of("'\"") == std::string::npos) {
      if (v.size() > 1 && v[0] == '[') cut = v.find(',');
      if (cut == std::string::npos && v.find(' ') != std::string::npos) cut = v.find(' ');
    }
    if (cut != std::string::npos && s.chance(1, 2)) {
      t += v.substr(0, cut + 1) + (s.b() ? " \\" : "") + (s.chance(1, 5) ? " # note" : "") + "\n";
      junk();
      t += Ws(s) + v.substr(cut + 1);
    } else
      t += v;
    if (s.chance(1, 6)) t += Ws(s) + " # trailing 'comment";
    if (s.chance(1, 8)) t += "  ";
    if (k + 1 < defs.size() || s.b()) t += "\n";
  }
  return t;
}

// Value comparison modulo the blank a continuation inserts.
std::string NoBlanks(const std::string& v) {
  std::string r;
  for (char c : v)
    if (c != ' ' && c != '\t') r += c;
  return r;
}

void CompareSet(const ParameterSet& ps, const Model& m) {
  CHECK_EQ(size_t(ps.size()), m.kv.size());
  CHECK_EQ(ps.empty(), m.kv.empty());
  std::string prev;
  bool first = true;
  const ParameterSet& cps = ps;
  for (auto it = cps.begin(); it != cps.end(); ++it) {
    auto f = m.kv.find(m.C(it->first));
    CHECK(f != m.kv.end(), "unexpected key", it->first);
    CHECK_EQ(NoBlanks(it->second.get()), NoBlanks(f->second), "key", it->first);
    if (!first) CHECK(prev != m.C(it->first), "duplicate key", prev);
    prev = m.C(it->first);
    first = false;
  }
  std::set<std::string> unused;
  for (auto& k : ps.unusedKeys()) unused.insert(m.C(k));
  for (auto& e : m.kv) {
    if (m.unsure.count(e.first)) continue;
    CHECK_EQ(unused.count(e.first) == 0, m.asked.count(e.first) == 1, "use tracking of key", e.first);
  }
}

}  // namespace

PROP("P07.histories", 30000, 600000) {
  Model m;
  m.nocase = s.chance(1, 3);
  ParameterSet ps(m.nocase);
  ParameterSet shared = ps;  // copies refer to the same collection
  ParameterSet assigned(!m.nocase);
  assigned.add("other", "1");
  assigned = ps;
  if (s.b()) assigned = static_cast<const ParameterSet&>(assigned);
  const size_t steps = s.n(1, 12);
  auto vary = [&](std::string k) {
    if (m.nocase)
      for (char& c : k)
        if (s.chance(1, 4)) c = s.b() ? char(toupper(c)) : char(tolower(c));
    return k;
  };
  auto some_key = [&]() {
    if (!m.kv.empty() && s.chance(2, 3)) {
      auto it = m.kv.begin();
      std::advance(it, s.n(0, m.kv.size() - 1));
      return vary(it->first);
    }
    return GenKey(s);
  };
  int kinds = 0;
  for (size_t step = 0; step < steps; ++step) {
    const int op = int(s.draw(11));
    s.note("op", op);
    switch (op) {
      case 0: {
        const std::string k = some_key(), v = GenScalar(s, true).text;
        s.note("key", k);
        bool threw = Throws([&] { ps.add(k, v); });
        CHECK_EQ(threw, m.kv.count(m.C(k)) == 1, "add of", k);
        if (!threw) m.Set(k, v);
        break;
      }
      case 1: {
        const std::string k = some_key(), v = GenScalar(s, true).text;
        s.note("key", k);
        ps.replace(k, v);
        m.Set(k, v);
        ++kinds;
        break;
      }
      case 2: {
        const std::string k = some_key();
        s.note("key", k);
        ps.remove(k);
        m.Erase(m.C(k));
        break;
      }
      case 3: {
        std::vector<std::string> args;
        for (size_t n = s.n(0, 4); n > 0; --n) {
          if (s.chance(1, 5)) {
            args.push_back(s.str("abc-", 1, 5));  // not key=value: ignored
          } else {
            std::string k = some_key(), v = GenScalar(s, true).text;
            if (s.chance(1, 4)) v += "=" + v;  // only the first = separates
            args.push_back(k + "=" + v);
            m.Set(k, v);
          }
        }
        s.note("args", args);
        ps.adoptArguments(args);
        ++kinds;
        break;
      }
      case 4:
      case 5: {
        std::vector<std::pair<std::string, std::string>> defs;
        const std::string prefix = s.chance(1, 3) ? "pre." : "";
        for (size_t n = s.n(1, 5); n > 0; --n) defs.emplace_back(s.b() ? some_key() : GenKey(s), GenFileValue(s));
        const std::string text = Render(s, defs);
        s.note("file", text);
        for (auto& d : defs) m.Set(prefix + d.first, d.second);
        ps.adoptBuffer(text, prefix);
        ++kinds;
        break;
      }
      case 6: {
        ParameterSet other(m.nocase);
        const std::string prefix = s.chance(1, 3) ? "sub." : "";
        std::vector<std::pair<std::string, std::string>> added;
        for (size_t n = s.n(0, 3); n > 0; --n) {
          std::string k = GenKey(s), v = GenScalar(s, true).text;
          other.replace(k, v);
          added.emplace_back(k, v);
        }
        for (auto& d : added) m.Set(prefix + d.first, d.second);
        ps.adoptCollection(other, prefix);
        ++kinds;
        break;
      }
      case 7: {  // adopting itself under a prefix duplicates every entry
        if (m.kv.size() > 12) break;
        ps.adoptCollection(ps, "self.");
        auto copy = m.kv;
        for (auto& e : copy) m.Set("self." + e.first, e.second);
        break;
      }
      case 8: {
        std::string base = some_key();
        base = base.substr(0, s.n(0, base.size()));
        const std::string prefix = s.chance(1, 3) ? "new." : "";
        s.note("base", base);
        ParameterSet sub = ps.makeSubset(base, prefix);
        Model ms;
        ms.nocase = m.nocase;
        for (auto& e : m.kv)
          if (e.first.compare(0, base.size(), m.C(base)) == 0) {
            ms.kv[m.C(prefix) + e.first.substr(base.size())] = e.second;
            m.asked.insert(e.first);
          }
        CompareSet(sub, ms);
        if (!ms.kv.empty()) ++kinds;
        break;
      }
      case 9: {
        std::string base = some_key();
        base = base.substr(0, s.n(1, base.size()));
        s.note("base", base);
        ps.subtractSubset(base);
        for (auto it = m.kv.begin(); it != m.kv.end();) {
          auto next = std::next(it);
          if (it->first.compare(0, base.size(), m.C(base)) == 0) m.Erase(std::string(it->first));
          it = next;
        }
        break;
      }
      case 10: {  // read a key
        const std::string k = some_key();
        s.note("key", k);
        auto f = m.kv.find(m.C(k));
        CHECK_EQ(ps.isDefined(k), f != m.kv.end(), k);
        if (f == m.kv.end()) {
          CHECK(Throws([&] { ps.getString(k); }), "read of absent key must fail", k);
          CHECK_EQ(ps.getString(k, "the default"), "the default");
          CHECK_EQ(ps.getInt(k, 17), 17);
          CHECK_EQ(ps.getBool(k, true), true);
        } else {
          CHECK_EQ(NoBlanks(ps.getString(k)), NoBlanks(ParameterValue(f->second).getString()), k);
          CHECK_EQ(NoBlanks(ps.getString(k, "zz")), NoBlanks(ParameterValue(f->second).getString()), k);
          m.asked.insert(f->first);
          ++kinds;
        }
        break;
      }
      default: {
        // Saved and read back: the same collection. (An unquoted '=' in a
        // value can be given as argument, but has no file syntax.)
        bool writable = true;
        for (auto& e : m.kv) {
          char q = 0;
          for (char c : e.second) {
            if (q) {
              if (c == q) q = 0;
            } else if (c == '\'' || c == '"')
              q = c;
            else if (c == '=')
              writable = false;
          }
        }
        if (!writable) break;
        std::string buf;
        ps.writeBuffer(buf);
        ParameterSet again(m.nocase);
        again.adoptBuffer(buf);
        Model plain = m;
        plain.asked.clear();
        plain.unsure.clear();
        CompareSet(again, plain);
        std::ostringstream os, os2;
        os << ps;
        ps.writeStream(os2);
        CHECK_EQ(os.str(), buf);
        CHECK_EQ(os2.str(), buf);
        ++kinds;
      }
    }
    CompareSet(ps, m);
  }
  CompareSet(shared, m);
  CompareSet(assigned, m);
  if (s.chance(1, 4)) {
    assigned.replace("via.the.copy", "2");
    CHECK_EQ(ps.getString("via.the.copy"), "2");
  }
  if (kinds >= 2 && !m.kv.empty()) s.nontrivial(m.nocase ? "case-insensitive" : "case-sensitive");
}

PROP("P07.files", 6000, 100000) {
  // Written to a file (fresh or appended) and read back.
  char dir[] = "/tmp/vptparsetXXXXXX";
  if (!mkdtemp(dir)) throw std::runtime_error("mkdtemp");
  const std::string path = std::string(dir) + "/p";
  struct Cleanup {
    std::string p, d;
    ~Cleanup() {
      unlink(p.c_str());
      rmdir(d.c_str());
    }
  } cleanup{path, dir};
  Model m;
  ParameterSet a, b;
  for (size_t n = s.n(1, 6); n > 0; --n) {
    std::string k = GenKey(s), v = GenScalar(s).text;
    a.replace(k, v);
    m.Set(k, v);
  }
  a.writeFile(path);
  if (s.b()) a.writeFile(path);  // overwrites
  ParameterSet ra(path);
  CompareSet(ra, m);
  const bool append = s.b();
  for (size_t n = s.n(1, 4); n > 0; --n) {
    std::string k = GenKey(s), v = GenScalar(s).text;
    b.replace(k, v);
    s.note("second", k + "=" + v);
  }
  if (!append) m.kv.clear();
  const ParameterSet& cb = b;
  for (auto it = cb.begin(); it != cb.end(); ++it) m.Set(it->first, it->second.get());
  b.writeFile(path, append);
  ParameterSet rb;
  rb.adoptFile(path);
  s.note("append", append);
  s.nontrivial(append ? "append" : "overwrite");
  CompareSet(rb, m);
  CHECK(Throws([&] { ParameterSet(std::string(dir) + "/absent"); }), "missing file accepted");
}

PROP("P07.continuation", 40000, 600000) {
  // A value continued on further lines is joined with a blank, or without one
  // in front of a quote; comments, blank lines and a trailing backslash do not
  // become part of it.
  std::string text, want_all;
  std::vector<std::pair<std::string, std::string>> want;
  for (size_t d = s.n(1, 3); d > 0; --d) {
    const std::string key = "key" + std::to_string(d);
    std::string value;
    text += Ws(s) + key + Ws(s) + "=" + Ws(s);
    bool some = false;
    for (size_t parts = s.n(0, 4); parts > 0; --parts) {
      std::string p = s.pick<std::string>({"abc", "[a,", "12]", "x", "'a  b'", "\"q = r # s\"", "b,c", "1.5", "'x'y"});
      const bool quoted = p[0] == '\'' || p[0] == '"';
      value += (value.empty() || quoted ? "" : " ") + p;
      text += Ws(s) + p;
      some = true;
      if (s.chance(1, 4)) text += Ws(s) + " \\";
      if (s.chance(1, 5)) text += " # it's = [a";
      text += Ws(s) + "\n";
      if (s.chance(1, 6)) text += Ws(s) + "\n";
      if (s.chance(1, 6)) text += Ws(s) + "# comment = 1\n";
    }
    if (!some) text += "\n";
    want.emplace_back(key, value);
  }
  s.note("text", text);
  if (want.size() > 1) s.nontrivial();
  ParameterSet ps;
  ps.adoptBuffer(text);
  CHECK_EQ(size_t(ps.size()), want.size());
  for (auto& w : want) CHECK_EQ(ps.get(w.first).get(), w.second, w.first);
}

PROP("P07.malformed", 40000, 600000) {
  // Arbitrary text either gives a collection or a clean error; a definition
  // without a key is an error.
  std::string t = s.str("ab=#'\" \t\\.,[]1\n\n", 0, 24);
  s.note("text", t);
  s.nontrivial();
  ParameterSet ps;
  try {
    ps.adoptBuffer(t);
    std::string buf;
    ps.writeBuffer(buf);
    for (auto& k : ps.unusedKeys()) CHECK(!k.empty(), "empty key stored");
  } catch (const vpt::Fail&) {
    throw;
  } catch (const std::exception&) {
  }
  std::string e = (s.b() ? "a=1\n" : "") + Ws(s) + s.pick<std::string>({"", "''", "\"\""}) + Ws(s) + "=" + Ws(s) +
                  s.str("ab1", 0, 3) + "\n";
  s.note("no key", e);
  ParameterSet ps2;
  CHECK(Throws([&] { ps2.adoptBuffer(e); }), "definition without a key accepted", e);
}

PROP("P07.module_names", 30000, 400000) {
  // Module lookups on hierarchical keys with distinct segment names.
  std::vector<std::string> segs = {"obs", "pipe", "ddecal", "solve", "par", "beam"};
  s.shuffle(segs);
  const size_t n = s.n(2, 5);
  std::string key;
  for (size_t k = 0; k < n; ++k) key += (k ? "." : "") + segs[k];
  s.note("key", key);
  s.nontrivial();
  ParameterSet ps;
  ps.add(key, "1");
  std::string want;
  for (size_t k = 0; k + 2 < n; ++k) want += segs[k] + ".";
  CHECK_EQ(ps.locateModule(segs[n - 2]), want, segs[n - 2]);
  CHECK_EQ(ps.locateModule("absent"), std::string());
  std::string full;
  for (size_t k = 0; k + 1 < n; ++k) {
    full += (k ? "." : "") + segs[k];
    CHECK_EQ(ps.fullModuleName(segs[k]), full);
  }
  CHECK_EQ(ps.fullModuleName("absent"), std::string());
  // Several segments; parts of a segment name are no name.
  for (size_t a = 0; a + 1 < n; ++a) {
    std::string until, part;
    for (size_t k = 0; k + 1 < n; ++k) {
      until += (k ? "." : "") + segs[k];
      if (k >= a) {
        part += (k > a ? "." : "") + segs[k];
        CHECK_EQ(ps.fullModuleName(part), until, part);
      }
    }
    CHECK_EQ(ps.fullModuleName(segs[a].substr(1)), std::string());
    CHECK_EQ(ps.fullModuleName(segs[a].substr(0, segs[a].size() - 1)), std::string());
  }
  CHECK_EQ(ps.fullModuleName(key), std::string());
  // An index behind a name.
  const int index = int(s.i(-50, 5000));
  const char* marks = s.pick({"[]", "{}", "()"});
  const std::string label = key + marks[0] + std::to_string(index) + marks[1];
  CHECK_EQ(dp3::common::indexValue(label, marks), index, label);
  CHECK_EQ(dp3::common::indexValue(key, marks), 0);
  CHECK_EQ(dp3::common::indexValue(label.substr(0, label.size() - 1), marks), 0);
  CHECK_EQ(dp3::common::indexValue(key + marks[0] + "9" + marks[1] + "." + label, marks), index);
  std::string mod;
  for (size_t k = 0; k + 1 < n; ++k) mod += (k ? "." : "") + segs[k];
  CHECK_EQ(dp3::common::keyName(key), segs[n - 1]);
  CHECK_EQ(dp3::common::moduleName(key), mod);
  const std::string line = key + " = " + s.str("ab=1", 0, 5);
  CHECK_EQ(dp3::common::keyPart(line), key + " ");
  CHECK_EQ(dp3::common::keyPart(line) + "=" + dp3::common::valuePart(line), line);
}

// ---------------------------------------------------------------- P08
namespace {
std::string GenMount(Src& s) {
  std::string m;
  for (size_t n = s.n(1, 3); n > 0; --n) m += "/" + s.pick<std::string>({"data", "data1", "d", "local", "auto"});
  return m;
}
}  // namespace

PROP("P08.find_file_system", 60000, 1000000) {
  NodeDesc node;
  std::vector<std::pair<std::string, std::string>> mounts;
  std::set<std::string> seen;
  const size_t n = s.n(0, 6);
  for (size_t k = 0; k < n; ++k) {
    std::string m = s.chance(1, 6) ? "/" : GenMount(s);
    std::string stripped = m.size() > 5 && m.substr(0, 6) == "/auto/" ? m.substr(5) : m;
    if (m.size() > 5 && m.substr(0, 5) == "/auto" && m[5] != '/') continue;
    if (m == "/auto") continue;
    if (!seen.insert(stripped).second) continue;
    const std::string fs = "fs" + std::to_string(k);
    node.addFileSys(fs, m);
    mounts.emplace_back(stripped, fs);
  }
  s.note("mounts", mounts);
  CHECK_EQ(node.getFileSys().size(), mounts.size());
  for (size_t k = 0; k < mounts.size(); ++k) {
    CHECK_EQ(node.getMountPoints()[k], mounts[k].first);
    CHECK_EQ(node.getFileSys()[k], mounts[k].second);
  }
  std::string file;
  if (!mounts.empty() && s.chance(2, 3)) {
    file = s.pick(mounts).first;
    if (file == "/") file = "";
    file += s.pick<std::string>({"/", "2/", "x"}) + (s.b() ? "sub/" : "") + "file.ms";
    if (file[0] != '/') file = "/" + file;
  } else
    file = GenMount(s) + "/file";
  s.note("file", file);
  // Longest mount point that is a leading directory of the file.
  std::string want;
  size_t best = 0;
  for (auto& m : mounts) {
    const std::string dir = m.first == "/" ? "/" : m.first + "/";
    if (file.compare(0, dir.size(), dir) == 0 && dir.size() > best) {
      best = dir.size();
      want = m.second;
    }
  }
  if (mounts.size() > 1) s.nontrivial(want.empty() ? "none" : best == 1 ? "root" : "mount");
  CHECK_EQ(node.findFileSys(file), want);
}

PROP("P08.node_round_trip", 30000, 500000) {
  NodeDesc node;
  node.setName(s.str("abnode0123", 1, 8));
  node.setType(NodeDesc::NodeType(s.draw(3)));
  const size_t n = s.n(1, 4);
  std::vector<std::string> fs, mp;
  for (size_t k = 0; k < n; ++k) {
    fs.push_back(s.str("abfs:/1", 1, 6));
    mp.push_back("/data" + std::to_string(k) + s.str("abc", 0, 3));
    node.addFileSys(fs.back(), s.chance(1, 3) ? "/auto" + mp.back() : mp.back());
  }
  const std::string prefix = s.b() ? "Node" + std::to_string(s.n(0, 20)) + "." : "";
  std::ostringstream os;
  node.write(os, prefix);
  s.note("text", os.str());
  s.nontrivial();
  ParameterSet ps;
  ps.adoptBuffer(os.str());
  NodeDesc again(ps.makeSubset(prefix));
  CHECK_EQ(again.getName(), node.getName());
  CHECK_EQ(int(again.getType()), int(node.getType()));
  CHECK_EQ(again.getFileSys(), fs);
  CHECK_EQ(again.getMountPoints(), mp);
  // A mount list that does not match the file systems is rejected.
  ps.replace(prefix + "NodeMountPoints", "[/a]");
  if (n != 1) CHECK(Throws([&] { NodeDesc bad(ps.makeSubset(prefix)); }), "length mismatch accepted");
  ps.replace(prefix + "NodeFileSys", "[x]");
  ps.replace(prefix + "NodeMountPoints", s.pick<std::string>({"[a/b]", "['']", "[b]"}));
  CHECK(Throws([&] { NodeDesc bad(ps.makeSubset(prefix)); }), "relative mount point accepted");
}

PROP("P08.extra_parameters", 20000, 200000) {
  // The extra parameters of a data set description: the last value wins.
  dp3::common::VdsPartDesc vds;
  std::map<std::string, std::string> m;
  const size_t n = s.n(1, 6);
  for (size_t k = 0; k < n; ++k) {
    std::string key = s.pick<std::string>({"a", "b", "c"}), v = s.str("xyz1", 1, 3);
    vds.addParm(key, v);
    m[key] = v;
  }
  s.note("parms", m);
  if (m.size() < n) s.nontrivial();
  CHECK_EQ(size_t(vds.getParms().size()), m.size());
  for (auto& e : m) CHECK_EQ(vds.getParms().getString(e.first), e.second);
  vds.clearParms();
  CHECK(vds.getParms().empty());
}

VPT_MAIN
