// Minimal stand-ins for casacore's String, Regex, Quantity and MVAngle.
#ifndef MINI_CASA_UTIL_H_
#define MINI_CASA_UTIL_H_
#include <cctype>
#include <cstdio>
#include <cstdlib>
#include <regex>
#include "casa_arrays.h"
namespace casacore {
class Regex {
 public:
  Regex() {}
  explicit Regex(const std::string& s) : s_(s), r_(s, std::regex::ECMAScript) {}
  Regex(const std::string& s, bool) : Regex(s) {}
  // Shell-like glob to regular expression.
  static std::string fromPattern(const std::string& p) {
    std::string r;
    int brace = 0;
    for (size_t i = 0; i < p.size(); ++i) {
      char c = p[i];
      if (c == '*')
        r += ".*";
      else if (c == '?')
        r += '.';
      else if (c == '[') {
        size_t j = i + 1;
        if (j < p.size() && (p[j] == '!' || p[j] == '^')) ++j;
        if (j < p.size() && p[j] == ']') ++j;
        while (j < p.size() && p[j] != ']') ++j;
        if (j >= p.size())
          r += "\\[";
        else {
          std::string b = p.substr(i + 1, j - i - 1);
          if (!b.empty() && b[0] == '!') b[0] = '^';
          r += "[" + b + "]";
          i = j;
        }
      } else if (c == '{') {
        ++brace;
        r += "((";
      } else if (c == '}' && brace) {
        --brace;
        r += "))";
      } else if (c == ',' && brace)
        r += ")|(";
      else if (c == '\\' && i + 1 < p.size()) {
        r += '\\';
        r += p[++i];
      } else if (std::string("^$.|()+\\{}]").find(c) != std::string::npos) {
        r += '\\';
        r += c;
      } else
        r += c;
    }
    return r;
  }
  static std::string fromString(const std::string& p) {
    std::string r;
    for (char c : p) {
      if (std::string("^$.|()+*?[]{}\\").find(c) != std::string::npos) r += '\\';
      r += c;
    }
    return r;
  }
  static std::string fromSQLPattern(const std::string& p) { return p; }
  static std::string makeCaseInsensitive(const std::string& p) {
    std::string r;
    for (char c : p)
      if (std::isalpha(static_cast<unsigned char>(c)))
        r += std::string("[") + char(std::tolower(c)) + char(std::toupper(c)) + "]";
      else
        r += c;
    return r;
  }
  // Length of the match at the start, or npos.
  std::string::size_type match(const char* s, size_t len, size_t pos = 0) const {
    std::cmatch m;
    if (std::regex_search(s + pos, s + len, m, r_, std::regex_constants::match_continuous)) return m.length(0);
    return std::string::npos;
  }
  std::string::size_type fullMatch(const char* s, size_t len) const {
    return std::regex_match(s, s + len, r_) ? len : std::string::npos;
  }
  const std::string& regexp() const { return s_; }
  const std::regex& get() const { return r_; }

 private:
  std::string s_;
  std::regex r_;
};

class String : public std::string {
 public:
  using std::string::string;
  String() {}
  String(const std::string& s) : std::string(s) {}
  String(std::string&& s) : std::string(std::move(s)) {}
  bool matches(const Regex& r) const { return std::regex_match(static_cast<const std::string&>(*this), r.get()); }
  int gsub(const Regex& r, const std::string& to) {
    std::string n = std::regex_replace(static_cast<const std::string&>(*this), r.get(), to);
    int changed = n != static_cast<const std::string&>(*this);
    std::string::operator=(n);
    return changed;
  }
  // Position of the first match.
  size_type index(const Regex& r) const {
    std::smatch m;
    const std::string& s = *this;
    return std::regex_search(s, m, r.get()) ? size_type(m.position(0)) : npos;
  }
  String from(size_type p) const { return p == npos ? String() : String(substr(p)); }
  String before(size_type p) const { return p == npos ? String() : String(substr(0, p)); }
  String after(size_type p) const { return p == npos ? String() : String(substr(p + 1)); }
  bool startsWith(const std::string& p) const { return compare(0, p.size(), p) == 0; }
  bool contains(const std::string& s) const { return find(s) != npos; }
  bool contains(char c) const { return find(c) != npos; }
  void downcase() {
    for (char& c : *this) c = std::tolower(c);
  }
  void upcase() {
    for (char& c : *this) c = std::toupper(c);
  }
  static String toString(double v) {
    std::ostringstream o;
    o << v;
    return o.str();
  }
};
inline String upcase(const std::string& s) {
  String r(s);
  r.upcase();
  return r;
}
inline String downcase(const std::string& s) {
  String r(s);
  r.downcase();
  return r;
}
inline int stringToVector_(const std::string&) { return 0; }

class Unit {
 public:
  Unit() {}
  Unit(const char* s) : s_(s) {}
  Unit(const std::string& s) : s_(s) {}
  const std::string& getName() const { return s_; }
  bool operator==(const Unit& o) const { return s_ == o.s_; }
  // Factor to the base unit; kind: 'a' angle (rad), 'l' length (m), 't' time (s), 'f' frequency (Hz), '1' none.
  double factor(char* kind) const {
    static const struct {
      const char* n;
      char k;
      double f;
    } t[] = {{"", '1', 1},          {"rad", 'a', 1},        {"deg", 'a', M_PI / 180}, {"arcmin", 'a', M_PI / 180 / 60},
             {"arcsec", 'a', M_PI / 180 / 3600},            {"m", 'l', 1},          {"km", 'l', 1e3},
             {"cm", 'l', 0.01},     {"s", 't', 1},          {"ms", 't', 1e-3},      {"min", 't', 60},
             {"h", 't', 3600},      {"d", 't', 86400},      {"Hz", 'f', 1},         {"kHz", 'f', 1e3},
             {"MHz", 'f', 1e6},     {"GHz", 'f', 1e9},      {"Jy", 'j', 1},         {"Jy/beam", 'j', 1},
             {"hz", 'f', 1},        {"us", 't', 1e-6},      {"THz", 'f', 1e12},     {"mHz", 'f', 1e-3},
             {"mm", 'l', 1e-3},     {"Mm", 'l', 1e6}};
    for (const auto& e : t)
      if (s_ == e.n) {
        *kind = e.k;
        return e.f;
      }
    throw AipsError("unknown unit " + s_);
  }

 private:
  std::string s_;
};
template <typename T>
class Quantum {
 public:
  Quantum() : v_() {}
  Quantum(const T& v, const Unit& u = Unit()) : v_(v), u_(u) {}
  const T& getValue() const { return v_; }
  T getValue(const Unit& u, bool require_conform = false) const {
    char a, b;
    double f1 = u_.factor(&a), f2 = u.factor(&b);
    // Angles and times convert into each other (24 h is a turn).
    if (a == 'a' && b == 't') return v_ * (f1 / f2 * 86400 / (2 * M_PI));
    if (a == 't' && b == 'a') return v_ * (f1 / f2 * 2 * M_PI / 86400);
    if (a != b && (require_conform || a != '1')) throw AipsError("unit mismatch");
    return v_ * (f1 / f2);
  }
  // Value in the base unit (rad, m, s, Hz).
  T getBaseValue() const {
    char a;
    return v_ * u_.factor(&a);
  }
  Quantum get(const Unit& u) const { return Quantum(getValue(u), u); }
  void setValue(const T& v) { v_ = v; }
  void setUnit(const Unit& u) { u_ = u; }
  std::string getUnit() const { return u_.getName(); }
  bool isConform(const Unit& u) const {
    char a, b;
    u_.factor(&a);
    u.factor(&b);
    return a == b;
  }
  static bool read(Quantum<double>& q, const std::string& s) {
    const char* p = s.c_str();
    char* e;
    double v = std::strtod(p, &e);
    if (e == p) return false;
    std::string u;
    for (; *e; ++e)
      if (!std::isspace(static_cast<unsigned char>(*e))) u += *e;
    try {
      char k;
      Unit(u).factor(&k);
    } catch (const AipsError&) {
      return false;
    }
    q = Quantum<double>(v, Unit(u));
    return true;
  }

 private:
  T v_;
  Unit u_;
};
typedef Quantum<double> Quantity;

class MVAngle {
 public:
  enum formatTypes { ANGLE, TIME };
  class Format {
   public:
    Format(formatTypes t, unsigned p = 0) : t_(t), p_(p) {}
    formatTypes t_;
    unsigned p_;
  };
  MVAngle(double rad = 0) : v_(rad) {}
  MVAngle(const Quantity& q) : v_(q.getValue("rad")) {}
  double radian() const { return v_; }
  double degree() const { return v_ * 180 / M_PI; }
  // hh:mm:ss.s, +dd.mm.ss.s, XhYmZs, XdYmZs or a value with an angle unit.
  static bool read(Quantity& q, const std::string& in) {
    std::string s;
    for (char c : in)
      if (!std::isspace(static_cast<unsigned char>(c))) s += c;
    std::smatch m;
    static const std::regex col(R"(([+-]?)(\d+):(\d+)(?::(\d+(?:\.\d*)?))?)");
    static const std::regex dot(R"(([+-]?)(\d+)\.(\d+)\.(\d+(?:\.\d*)?))");
    static const std::regex hms(R"(([+-]?)(\d+)[hH](?:(\d+)[mM](?:(\d+(?:\.\d*)?)[sS]?)?)?)");
    static const std::regex dms(R"(([+-]?)(\d+)[dD](?:(\d+)[mM](?:(\d+(?:\.\d*)?)[sS]?)?)?)");
    bool hours;
    if (std::regex_match(s, m, col) || std::regex_match(s, m, hms))
      hours = true;
    else if (std::regex_match(s, m, dot) || std::regex_match(s, m, dms))
      hours = false;
    else {
      Quantity t;
      if (!Quantity::read(t, s)) return false;
      if (t.getUnit().empty()) t.setUnit("rad");
      if (!t.isConform("rad") && !t.isConform("s")) return false;
      q = t;
      return true;
    }
    auto num = [&](int k) { return m[k].matched ? std::strtod(m[k].str().c_str(), nullptr) : 0.0; };
    double v = num(2) + num(3) / 60 + num(4) / 3600;
    if (hours) v *= 15;
    if (m[1].str() == "-") v = -v;
    q = Quantity(v, "deg");
    return true;
  }
  static bool read(Quantity& q, const std::string& in, bool) { return read(q, in); }
  void print(std::ostream& o, const Format& f) const {
    double v = v_ * 180 / M_PI;
    char buf[64];
    if (f.t_ == TIME) {
      v = std::fmod(v / 15, 24);
      if (v < 0) v += 24;
      const int h = int(v), mm = int((v - h) * 60);
      snprintf(buf, sizeof buf, "%02d:%02d:%06.3f", h, mm, ((v - h) * 60 - mm) * 60);
    } else {
      const char sg = v < 0 ? '-' : '+';
      v = std::abs(v);
      const int h = int(v), mm = int((v - h) * 60);
      snprintf(buf, sizeof buf, "%c%03d.%02d.%06.3f", sg, h, mm, ((v - h) * 60 - mm) * 60);
    }
    o << buf;
  }

 private:
  double v_;
};
// Date and time; days since MJD 0.
struct Time { double modifiedJulianDay() const { return 60000.25; } };
class MVTime {
 public:
  enum formatTypes { YMD, DMY };
  struct Format { explicit Format(formatTypes, unsigned = 0) {} };
  explicit MVTime(double day = 0) : d_(day) {}
  explicit MVTime(const Quantity& q) : d_(q.getValue("d")) {}
  double day() const { return d_; }
  // yyyy/mm/dd[/hh:mm:ss], ddMonyyyy[/hh:mm:ss].
  static bool read(Quantity& q, const std::string& in, bool = true) {
    std::string s;
    for (char c : in) if (!std::isspace(static_cast<unsigned char>(c))) s += std::tolower(static_cast<unsigned char>(c));
    static const std::regex ymd(R"((\d{4})[/-](\d{1,2})[/-](\d{1,2})(?:[/t](\d+):(\d+)(?::(\d+(?:\.\d*)?))?)?)");
    static const std::regex dmy(R"((\d{1,2})-?([a-z]{3})[a-z]*-?(\d{4})(?:/(\d+):(\d+)(?::(\d+(?:\.\d*)?))?)?)");
    static const std::string months = "janfebmaraprmayjunjulaugsepoctnovdec";
    std::smatch m;
    int y, mo, d;
    if (std::regex_match(s, m, ymd)) { y = std::stoi(m[1]); mo = std::stoi(m[2]); d = std::stoi(m[3]); }
    else if (std::regex_match(s, m, dmy)) {
      const size_t p = months.find(m[2].str());
      if (p == std::string::npos || p % 3) return false;
      y = std::stoi(m[3]); mo = int(p) / 3 + 1; d = std::stoi(m[1]);
    } else return false;
    auto num = [&](int k) { return m[k].matched ? std::strtod(m[k].str().c_str(), nullptr) : 0.0; };
    const long a = (14 - mo) / 12, yy = y + 4800 - a, mm = mo + 12 * a - 3;
    const long jdn = d + (153 * mm + 2) / 5 + 365 * yy + yy / 4 - yy / 100 + yy / 400 - 32045;
    q = Quantity(double(jdn - 2400001) + (num(4) + num(5) / 60 + num(6) / 3600) / 24, "d");
    return true;
  }
 private:
  double d_;
};
inline std::ostream& operator<<(std::ostream& o, const MVTime::Format&) { return o; }
inline std::ostream& operator<<(std::ostream& o, const MVTime& t) { return o << t.day() << "d"; }
template <typename T> void objcopy(T* to, const T* from, size_t n) { std::copy_n(from, n, to); }
template <typename T, typename I = unsigned> struct GenSortIndirect {
  template <typename V> static size_t sort(V& index, const Array<T>& data) {
    index.resize(data.size());
    size_t n = 0;
    for (auto& i : index) i = n++;
    std::stable_sort(index.data(), index.data() + n, [&](auto a, auto b) { return data.ref(a) < data.ref(b); });
    return n;
  }
};
template <typename T> class Block {
 public:
  Block() {}
  explicit Block(size_t n) : v_(new T[n]()), n_(n) {}
  Block(size_t n, const T& x) : Block(n) { *this = x; }
  Block(const Block& o) : Block(o.n_) { std::copy_n(o.v_.get(), n_, v_.get()); }
  Block& operator=(const Block& o) { if (this != &o) { Block b(o); std::swap(v_, b.v_); std::swap(n_, b.n_); } return *this; }
  Block& operator=(const T& x) { std::fill_n(v_.get(), n_, x); return *this; }
  void resize(size_t n, bool = false, bool copy = true) {
    std::unique_ptr<T[]> q(new T[n]());
    if (copy) std::copy_n(v_.get(), std::min(n, n_), q.get());
    v_ = std::move(q);
    n_ = n;
  }
  T& operator[](size_t i) { return v_[i]; }
  const T& operator[](size_t i) const { return v_[i]; }
  size_t size() const { return n_; }
  size_t nelements() const { return n_; }
  T* storage() { return v_.get(); }
  const T* storage() const { return v_.get(); }
  T* begin() { return v_.get(); } T* end() { return v_.get() + n_; }
  const T* begin() const { return v_.get(); } const T* end() const { return v_.get() + n_; }
 private:
  std::unique_ptr<T[]> v_;
  size_t n_ = 0;
};
inline const Regex RXidentifier("[A-Za-z_][A-Za-z0-9_]*");
}  // namespace casacore
#endif
