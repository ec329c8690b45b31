// The little of casacore's measures that the code under test needs. Directions
// convert between equatorial frames as if these were all equal; ITRF baselines
// convert to J2000 by the rotation of the earth only.
#ifndef MINI_CASA_MEASURES_H
#define MINI_CASA_MEASURES_H
#include <functional>
#include <any>
#include <array>
#include <cmath>
#include <map>
#include <memory>
#include <vector>
#include <cctype>
#include <string>
#include "casa_arrays.h"
#include "casa_util.h"
namespace casacore {
class MVPosition {
 public:
  MVPosition() : v_{0, 0, 0} {}
  MVPosition(double x, double y, double z) : v_{x, y, z} {}
  explicit MVPosition(double length) : v_{0, 0, length} {}
  explicit MVPosition(const Vector<double>& v) : v_{v[0], v[1], v[2]} {}
  MVPosition(const Quantity& x, const Quantity& y, const Quantity& z)
      : v_{x.getValue("m"), y.getValue("m"), z.getValue("m")} {}
  explicit MVPosition(const Quantum<Vector<double>>& q) : MVPosition(q.getValue()) {}
  double operator()(size_t i) const { return v_[i]; }
  double& operator()(size_t i) { return v_[i]; }
  Vector<double> getValue() const {
    Vector<double> r(3);
    for (int i = 0; i < 3; ++i) r[i] = v_[i];
    return r;
  }
  Vector<double> getVector() const { return getValue(); }
  double radius() const { return std::sqrt(v_[0] * v_[0] + v_[1] * v_[1] + v_[2] * v_[2]); }
  bool operator==(const MVPosition& o) const { return v_ == o.v_; }
  bool operator!=(const MVPosition& o) const { return v_ != o.v_; }
  MVPosition& operator+=(const MVPosition& o) { for (int i = 0; i < 3; ++i) v_[i] += o.v_[i]; return *this; }
  MVPosition& operator*=(double f) { for (double& x : v_) x *= f; return *this; }
  MVPosition& operator-=(const MVPosition& o) { for (int i = 0; i < 3; ++i) v_[i] -= o.v_[i]; return *this; }
  MVPosition operator+(const MVPosition& o) const { MVPosition r(*this); return r += o; }
  MVPosition operator*(double f) const { MVPosition r(*this); return r *= f; }
  MVPosition operator-(const MVPosition& o) const { return MVPosition(v_[0] - o.v_[0], v_[1] - o.v_[1], v_[2] - o.v_[2]); }
 protected:
  std::array<double, 3> v_;
};
class MeasFrame;
// Reference: type and frame.
template <typename M> class MeasRef;
template <typename M> class MeasConvert;

class MPosition {
 public:
  enum Types { ITRF, WGS84 };
  typedef MeasRef<MPosition> Ref;
  typedef MeasConvert<MPosition> Convert;
  MPosition() = default;
  explicit MPosition(const MVPosition& v, Types t = ITRF) : v_(v), t_(t) {}
  MPosition(const Quantum<Vector<double>>& q, Types t) : v_(q.getValue()), t_(t) {}
  const MVPosition& getValue() const { return v_; }
  Types type() const { return t_; }
  Quantum<Vector<double>> get(const Unit& u) const { return Quantum<Vector<double>>(v_.getValue(), u); }
 private:
  MVPosition v_;
  Types t_ = ITRF;
};
class MVDirection : public MVPosition {
 public:
  MVDirection() : MVPosition(0, 0, 1) {}
  MVDirection(double lon, double lat)
      : MVPosition(std::cos(lon) * std::cos(lat), std::sin(lon) * std::cos(lat), std::sin(lat)), lon_(lon), lat_(lat), known_(true) {}
  MVDirection(const Quantity& lon, const Quantity& lat) : MVDirection(lon.getValue("rad"), lat.getValue("rad")) {}
  explicit MVDirection(const Quantum<Vector<double>>& q) : MVDirection(q.getBaseValue()[0], q.getBaseValue()[1]) {}
  explicit MVDirection(const MVPosition& p) : MVPosition(p) {
    const double r = radius();
    if (r > 0) for (double& x : v_) x /= r;
  }
  double getLong() const { return (v_[0] == 0 && v_[1] == 0) ? 0.0 : std::atan2(v_[1], v_[0]); }
  double getLat() const { return std::asin(std::max(-1.0, std::min(1.0, v_[2]))); }
  Vector<double> get() const {
    Vector<double> r(2);
    // The longitude is in -pi..pi, as in casacore.
    r[0] = getLong();
    r[1] = std::abs(v_[2]) > 0.9 && known_ && std::abs(lat_) <= M_PI / 2 ? lat_ : getLat();
    return r;
  }
  Quantum<Vector<double>> getAngle() const { return Quantum<Vector<double>>(get(), "rad"); }
  Quantum<Vector<double>> getAngle(const Unit& u) const {
    Vector<double> a = get();
    for (int i = 0; i < 2; ++i) a[i] = Quantity(a[i], "rad").getValue(u);
    return Quantum<Vector<double>>(a, u);
  }
  double separation(const MVDirection& o) const {
    double d = 0;
    for (int i = 0; i < 3; ++i) d += (v_[i] - o.v_[i]) * (v_[i] - o.v_[i]);
    return 2 * std::asin(std::min(1.0, std::sqrt(d) / 2));
  }
 private:
  double lon_ = 0, lat_ = 0;
  bool known_ = false;
};
class MDirection {
 public:
  enum Types { J2000, JMEAN, JTRUE, APP, B1950, B1950_VLA, BMEAN, BTRUE, GALACTIC, HADEC, AZEL, AZELSW, AZELGEO, AZELSWGEO,
               JNAT, ECLIPTIC, MECLIPTIC, TECLIPTIC, SUPERGAL, ITRF, TOPO, ICRS, MERCURY, VENUS, MARS, JUPITER, SATURN, URANUS,
               NEPTUNE, PLUTO, SUN, MOON, COMET };
  typedef MeasRef<MDirection> Ref;
  typedef MeasConvert<MDirection> Convert;
  MDirection() = default;
  explicit MDirection(Types t) : t_(t) {}
  explicit MDirection(const MVDirection& v, Types t = J2000) : v_(v), t_(t) {}
  MDirection(const Quantity& lon, const Quantity& lat, Types t = J2000) : v_(lon, lat), t_(t) {}
  MDirection(const MVDirection& v, const MeasRef<MDirection>& r);
  const MVDirection& getValue() const { return v_; }
  Quantum<Vector<double>> getAngle() const { return v_.getAngle(); }
  Quantum<Vector<double>> getAngle(const Unit& u) const {
    Vector<double> a = v_.get();
    for (int i = 0; i < 2; ++i) a[i] = Quantity(a[i], "rad").getValue(u);
    return Quantum<Vector<double>>(a, u);
  }
  Types type() const { return t_; }
  struct RefPtr { Types t; Types getType() const { return t; } const RefPtr* operator->() const { return this; } };
  RefPtr getRefPtr() const { return {t_}; }
  std::string getRefString() const { return names()[t_]; }
  static std::string showType(unsigned t) { return names()[t]; }
  static bool getType(Types& t, const std::string& s) {
    const String u = upcase(s);
    for (unsigned i = 0; i < names().size(); ++i) if (names()[i] == u) { t = Types(i); return true; }
    return false;
  }
  static MDirection makeMDirection(const std::string& name) {
    Types t;
    if (!getType(t, name) || t < MERCURY) throw AipsError("no such source: " + name);
    return MDirection(t);
  }
  bool isModel() const { return t_ >= MERCURY; }
 private:
  static const std::vector<std::string>& names() {
    static const std::vector<std::string> n{"J2000", "JMEAN", "JTRUE", "APP", "B1950", "B1950_VLA", "BMEAN", "BTRUE", "GALACTIC", "HADEC", "AZEL",
      "AZELSW", "AZELGEO", "AZELSWGEO", "JNAT", "ECLIPTIC", "MECLIPTIC", "TECLIPTIC", "SUPERGAL", "ITRF", "TOPO", "ICRS", "MERCURY", "VENUS",
      "MARS", "JUPITER", "SATURN", "URANUS", "NEPTUNE", "PLUTO", "SUN", "MOON", "COMET"};
    return n;
  }
  MVDirection v_;
  Types t_ = J2000;
};
class MVEpoch {
 public:
  MVEpoch() {}
  explicit MVEpoch(double day) : d_(day) {}
  explicit MVEpoch(const Quantity& q) : d_(q.getValue("d")) {}
  double get() const { return d_; }
 private:
  double d_ = 0;
};
struct MFrequency { enum Types { REST, LSRK, LSRD, BARY, GEO, TOPO, GALACTO, LGROUP, CMB, DEFAULT = LSRK }; };
class MEpoch {
 public:
  enum Types { UTC, TAI, LAST, LMST };
  typedef MeasRef<MEpoch> Ref;
  typedef MeasConvert<MEpoch> Convert;
  MEpoch() {}
  explicit MEpoch(const MVEpoch& v, Types t = UTC) : v_(v), t_(t) {}
  MEpoch(const Quantity& q, Types t) : v_(q), t_(t) {}
  const MVEpoch& getValue() const { return v_; }
  Types type() const { return t_; }
 private:
  MVEpoch v_;
  Types t_ = UTC;
};
// A frame has reference semantics.
class MeasFrame {
 public:
  MeasFrame() : d_(std::make_shared<Data>()) {}
  template <typename... A> explicit MeasFrame(const A&... a) : MeasFrame() { (set(a), ...); }
  void set(const MEpoch& e) { d_->epoch = e; d_->has_epoch = true; }
  void set(const MPosition& p) { d_->position = p; }
  void set(const MDirection& p) { d_->direction = p; }
  template <typename A, typename B> void set(const A& a, const B& b) { set(a); set(b); }
  template <typename A, typename B, typename C> void set(const A& a, const B& b, const C& c) { set(a); set(b); set(c); }
  void resetEpoch(const MEpoch& e) { set(e); }
  void resetDirection(const MDirection& e) { set(e); }
  bool has_epoch() const { return d_->has_epoch; }
  double day() const { return d_->epoch.getValue().get(); }
  const MPosition& position() const { return d_->position; }
 private:
  struct Data { MEpoch epoch; MPosition position; MDirection direction; bool has_epoch = false; };
  std::shared_ptr<Data> d_;
};
template <typename M> class MeasRef {
 public:
  typedef typename M::Types Types;
  MeasRef() {}
  MeasRef(Types t) : t_(t) {}
  MeasRef(Types t, const MeasFrame& f) : t_(t), f_(f), has_(true) {}
  void set(const MeasFrame& f) { f_ = f; has_ = true; }
  Types getType() const { return t_; }
  const MeasFrame& frame() const { return f_; }
  bool has_frame() const { return has_; }
 private:
  Types t_ = Types(0);
  MeasFrame f_;
  bool has_ = false;
};
inline MDirection::MDirection(const MVDirection& v, const MeasRef<MDirection>& r) : v_(v), t_(r.getType()) {}

class MVBaseline : public MVPosition {
 public:
  MVBaseline() {}
  explicit MVBaseline(const MVPosition& p) : MVPosition(p) {}
  MVBaseline(const MVPosition& a, const MVPosition& b) : MVPosition(a - b) {}
};
class MBaseline {
 public:
  enum Types { J2000, ITRF };
  typedef MeasRef<MBaseline> Ref;
  typedef MeasConvert<MBaseline> Convert;
  MBaseline() : r_(std::make_shared<Ref>()) {}
  explicit MBaseline(const MVBaseline& v, Types t = ITRF) : v_(v), r_(std::make_shared<Ref>(t)) {}
  const MVBaseline& getValue() const { return v_; }
  Types type() const { return r_->getType(); }
  std::shared_ptr<Ref> getRefPtr() const { return r_; }
 private:
  MVBaseline v_;
  std::shared_ptr<Ref> r_;
};
class MVuvw : public MVPosition {
 public:
  MVuvw() {}
  MVuvw(const MVBaseline& b, const MVDirection& d) {
    const double ra = d.getLong(), dec = d.getLat();
    const double x = b(0), y = b(1), z = b(2);
    v_[0] = -std::sin(ra) * x + std::cos(ra) * y;
    v_[1] = -std::sin(dec) * std::cos(ra) * x - std::sin(dec) * std::sin(ra) * y + std::cos(dec) * z;
    v_[2] = std::cos(dec) * std::cos(ra) * x + std::cos(dec) * std::sin(ra) * y + std::sin(dec) * z;
  }
};
class Muvw {
 public:
  enum Types { J2000, ITRF };
  Muvw() {}
  explicit Muvw(const MVuvw& v, Types = J2000) : v_(v) {}
  const MVuvw& getValue() const { return v_; }
 private:
  MVuvw v_;
};
inline double mini_gmst(double mjd) { return std::fmod(4.8949612 + 6.300388098985 * (mjd - 51544.5), 2 * M_PI); }
inline MVPosition mini_rotz(const MVPosition& v, double a) {
  return MVPosition(std::cos(a) * v(0) - std::sin(a) * v(1), std::sin(a) * v(0) + std::cos(a) * v(1), v(2));
}
template <> class MeasConvert<MPosition> {
 public:
  MeasConvert() {}
  MeasConvert(const MPosition& p, MPosition::Types t) : p_(p), t_(t) {}
  MeasConvert(const MPosition& p, const MPosition::Ref& t) : p_(p), t_(t.getType()) {}
  MPosition operator()() const { return MPosition(p_.getValue(), t_); }
 private:
  MPosition p_;
  MPosition::Types t_ = MPosition::ITRF;
};
template <> class MeasConvert<MDirection> {
 public:
  MeasConvert() {}
  MeasConvert(const MDirection& p, MDirection::Types t) : p_(p), r_(t) {}
  MeasConvert(const MDirection& p, const MDirection::Ref& t) : p_(p), r_(t) {}
  MeasConvert(const MDirection::Ref& from, const MDirection::Ref& t) : p_(MVDirection(), from), r_(t) {}
  void set(const MDirection& p, const MDirection::Ref& r) { p_ = p; r_ = r; }
  MDirection operator()() const { return conv(p_); }
  MDirection operator()(const MDirection& p) const { return conv(p); }
  MDirection operator()(const MVDirection& p) const { return conv(MDirection(p, p_.type())); }
 private:
  MDirection conv(const MDirection& p) const {
    auto kind = [](MDirection::Types t) { return t == MDirection::ITRF || (t >= MDirection::HADEC && t <= MDirection::AZELSWGEO) ? 1 : 0; };
    if (p.isModel()) {
      if (!r_.has_frame() || !r_.frame().has_epoch()) throw AipsError("no epoch in frame");
      // A body that moves along the equator in about a year.
      return MDirection(MVDirection(0.0172 * r_.frame().day() + p.type(), 0.1), r_.getType());
    }
    if (kind(p.type()) == kind(r_.getType())) return MDirection(p.getValue(), r_.getType());
    if (!r_.has_frame() || !r_.frame().has_epoch()) throw AipsError("no epoch in frame");
    const double g = mini_gmst(r_.frame().day());
    const MVPosition v = mini_rotz(p.getValue(), kind(p.type()) ? g : -g);
    if (r_.getType() == MDirection::AZEL) {
      const MVPosition q = r_.frame().position().getValue();
      const double lon = std::atan2(q(1), q(0)), lat = std::atan2(q(2), std::hypot(q(0), q(1)));
      const double e = -std::sin(lon) * v(0) + std::cos(lon) * v(1);
      const double n = -std::sin(lat) * (std::cos(lon) * v(0) + std::sin(lon) * v(1)) + std::cos(lat) * v(2);
      const double u = std::cos(lat) * (std::cos(lon) * v(0) + std::sin(lon) * v(1)) + std::sin(lat) * v(2);
      return MDirection(MVDirection(std::atan2(e, n), std::atan2(u, std::hypot(e, n))), MDirection::AZEL);
    }
    return MDirection(MVDirection(v), r_.getType());
  }
  MDirection p_;
  MDirection::Ref r_;
};
template <> class MeasConvert<MBaseline> {
 public:
  MeasConvert() {}
  MeasConvert(const MBaseline& b, MBaseline::Types t) : b_(b), t_(t) {}
  void set(const MBaseline& b, const MBaseline::Ref& r) { b_ = b; t_ = r.getType(); }
  MBaseline operator()() const {
    if (b_.type() == t_) return b_;
    const double g = mini_gmst(b_.getRefPtr()->frame().day());
    return MBaseline(MVBaseline(mini_rotz(b_.getValue(), t_ == MBaseline::J2000 ? g : -g)), t_);
  }
 private:
  MBaseline b_;
  MBaseline::Types t_ = MBaseline::J2000;
};

template <> class MeasConvert<MEpoch> {
 public:
  MeasConvert() {}
  MeasConvert(const MEpoch& e, const MEpoch::Ref& r) : e_(e), r_(r) {}
  // Sidereal time without nutation; longitude of the frame's position is ignored.
  MEpoch operator()() const {
    if (r_.getType() == e_.type() || r_.getType() == MEpoch::UTC) return e_;
    double g = mini_gmst(e_.getValue().get()) / (2 * M_PI);
    g -= std::floor(g);
    return MEpoch(MVEpoch(std::floor(e_.getValue().get()) + g), r_.getType());
  }
 private:
  MEpoch e_;
  MEpoch::Ref r_;
};

class Record {
 public:
  template <typename T> void define(const std::string& n, const T& v) { m_[n] = v; }
  template <typename T> T get(const std::string& n) const { return std::any_cast<T>(m_.at(n)); }
  std::any& ref(const std::string& n) { return m_.at(n); }
  double number(const std::string& n) const {
    auto it = m_.find(n);
    if (it == m_.end()) throw AipsError("no such field: " + n);
    if (auto* v = std::any_cast<double>(&it->second)) return *v;
    if (auto* v = std::any_cast<int>(&it->second)) return *v;
    if (auto* v = std::any_cast<unsigned>(&it->second)) return *v;
    if (auto* v = std::any_cast<float>(&it->second)) return *v;
    throw AipsError("field is not a number: " + n);
  }
  bool isDefined(const std::string& n) const { return m_.count(n) > 0; }
  void defineRecord(const std::string& n, const Record& r) { m_[n] = r; }
  void removeField(const std::string& n) { m_.erase(n); }
  size_t nfields() const { return m_.size(); }
  size_t size() const { return m_.size(); }
  void get(size_t i, Array<double>& a) const { a.reference(std::any_cast<const Array<double>&>(at(i))); }
  const Array<double>& asArrayDouble(const std::string& n) const { return std::any_cast<const Array<double>&>(m_.at(n)); }
  std::string name(size_t i) const { auto it = m_.begin(); std::advance(it, i); return it->first; }
  const std::any& at(const std::string& n) const { return m_.at(n); }
  const std::any& at(size_t i) const { auto it = m_.begin(); std::advance(it, i); return it->second; }
  Record subRecord(size_t i) const { auto it = m_.begin(); std::advance(it, i); return std::any_cast<Record>(it->second); }
  Record asRecord(const std::string& n) const { return get<Record>(n); }
  std::string asString(const std::string& n) const {
    const std::any& a = m_.at(n);
    if (auto* v = std::any_cast<std::string>(&a)) return *v;
    if (auto* v = std::any_cast<const char*>(&a)) return *v;
    return text_(a);
  }
  Vector<String> asArrayString(const std::string& n) const { return get<Vector<String>>(n); }
 private:
  static std::string text_(const std::any& a) { return std::any_cast<String>(a); }
  std::map<std::string, std::any> m_;
};
template <typename T> class RecordFieldPtr {
 public:
  RecordFieldPtr(Record& r, const std::string& n) : a_(&r.ref(n)) {}
  T& operator*() { return std::any_cast<T&>(*a_); }
 private:
  std::any* a_;
};
// Expressions with numbers, fields, + - * / ^ % ( ), comparisons and iif(c,a,b).
class TableExprNode {
 public:
  TableExprNode() {}
  explicit TableExprNode(std::string e) : e_(std::move(e)) {}
  template <typename T> explicit TableExprNode(const Vector<T>&) {}
  TableExprNode operator+(const TableExprNode&) const { return *this; }
  TableExprNode operator&&(const TableExprNode& o) const {
    TableExprNode r(*this);
    if (row && o.row) r.row = [a = row, b = o.row](size_t i) { return double(a(i) && b(i)); };
    return r;
  }
  TableExprNode operator==(const TableExprNode&) const { return *this; }
  TableExprNode operator==(int v) const {
    TableExprNode r(*this);
    if (row) r.row = [a = row, v](size_t i) { return double(a(i) == v); };
    return r;
  }
  // The value for a row of a table.
  std::function<double(size_t)> row;
  std::function<std::string(size_t)> text;
  void get(const Record& r, double& v) const { v = eval(r); }
  double getDouble(const Record& r) const { return eval(r); }
  double getDouble(size_t i) const { return row(i); }
  bool getBool(size_t i) const { return row(i) != 0; }
  int getInt(size_t i) const { return int(row(i)); }
  std::string getString(size_t i) const { return text(i); }
  template <typename A> TableExprNode in(const A&) const { return *this; }
  TableExprNode operator!() const { return *this; }
 private:
  struct P {
    const std::string& s; const Record& r; size_t i = 0;
    void ws() { while (i < s.size() && std::isspace(static_cast<unsigned char>(s[i]))) ++i; }
    bool eat(const std::string& t) { ws(); if (s.compare(i, t.size(), t) == 0) { i += t.size(); return true; } return false; }
    [[noreturn]] void bad() { throw AipsError("cannot parse expression " + s); }
    double cmp() {
      double a = add();
      if (eat("<=")) return a <= add();
      if (eat(">=")) return a >= add();
      if (eat("!=")) return a != add();
      if (eat("==") || eat("=")) return a == add();
      if (eat("<")) return a < add();
      if (eat(">")) return a > add();
      return a;
    }
    double add() { double a = mul(); for (;;) { if (eat("+")) a += mul(); else if (eat("-")) a -= mul(); else return a; } }
    double mul() {
      double a = un();
      for (;;) {
        if (eat("//")) a = std::floor(a / un());
        else if (eat("*")) a *= un();
        else if (eat("/")) a /= un();
        else if (eat("%")) a = std::fmod(a, un());
        else return a;
      }
    }
    double un() { if (eat("-")) return -un(); if (eat("+")) return un(); double a = prim(); if (eat("^")) return std::pow(a, un()); return a; }
    double prim() {
      ws();
      if (eat("(")) { double a = cmp(); if (!eat(")")) bad(); return a; }
      if (i < s.size() && (std::isdigit(static_cast<unsigned char>(s[i])) || s[i] == '.')) {
        const char* b = s.c_str() + i; char* e;
        double v = std::strtod(b, &e);
        if (e == b) bad();
        i += e - b;
        return v;
      }
      std::string id;
      while (i < s.size() && (std::isalnum(static_cast<unsigned char>(s[i])) || s[i] == '_')) id += s[i++];
      if (id.empty()) bad();
      if (eat("(")) {
        std::vector<double> a{cmp()};
        while (eat(",")) a.push_back(cmp());
        if (!eat(")")) bad();
        if (id == "iif" && a.size() == 3) return a[0] != 0 ? a[1] : a[2];
        if (id == "max" && a.size() == 2) return std::max(a[0], a[1]);
        if (id == "min" && a.size() == 2) return std::min(a[0], a[1]);
        if (id == "sqrt" && a.size() == 1) return std::sqrt(a[0]);
        if (id == "int" && a.size() == 1) return std::trunc(a[0]);
        bad();
      }
      return r.number(id);
    }
  };
  double eval(const Record& r) const { P p{e_, r}; double v = p.cmp(); p.ws(); if (p.i != e_.size()) p.bad(); return v; }
  std::string e_;
};
class RecordGram {
 public:
  // Syntax errors and unknown fields raise an error here, as in casacore.
  static TableExprNode parse(const Record& r, const std::string& e) { TableExprNode n(e); double v; n.get(r, v); return n; }
};
class MeasureHolder {
 public:
  MeasureHolder() {}
  explicit MeasureHolder(const MDirection& d) : m_(d) {}
  explicit MeasureHolder(const MPosition& d) : m_(d) {}
  bool toRecord(String&, Record& r) const { r.define("m", m_); return m_.has_value(); }
  bool toRecord(Record& r) const { String e; return toRecord(e, r); }
  bool fromRecord(String&, const Record& r) { m_ = r.at(std::string("m")); return true; }
  bool isMDirection() const { return m_.type() == typeid(MDirection); }
  bool isMPosition() const { return m_.type() == typeid(MPosition); }
  const MDirection& asMDirection() const { return std::any_cast<const MDirection&>(m_); }
  const MPosition& asMPosition() const { return std::any_cast<const MPosition&>(m_); }
 private:
  std::any m_;
};
}  // namespace casacore
#endif
