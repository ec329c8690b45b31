// Stand-ins for the small classes of aocommon and schaapcommon that DP3 uses.
#ifndef VERIF_MINI_AO_H_
#define VERIF_MINI_AO_H_
#include <algorithm>
#include <cmath>
#include <complex>
#include <condition_variable>
#include <cstddef>
#include <deque>
#include <functional>
#include <iosfwd>
#include <limits>
#include <memory>
#include <mutex>
#include <optional>
#include <set>
#include <stdexcept>
#include <string>
#include <thread>
#include <vector>

namespace aocommon {

constexpr double kSpeedOfLight = 299792458.0;

// Unlike std::vector<bool>, holds addressable elements.
template <typename T> class UVector {
 public:
  using value_type = T;
  using iterator = T*;
  using const_iterator = const T*;
  UVector() {}
  explicit UVector(size_t n) { resize(n); }
  UVector(size_t n, const T& v) { resize(n, v); }
  UVector(std::initializer_list<T> l) { assign(l.begin(), l.end()); }
  template <typename It, typename = decltype(*std::declval<It>())> UVector(It b, It e) { assign(b, e); }
  UVector(const UVector& o) { assign(o.begin(), o.end()); }
  UVector(UVector&& o) noexcept : p_(std::move(o.p_)), n_(o.n_), c_(o.c_) { o.n_ = o.c_ = 0; }
  UVector& operator=(const UVector& o) { if (this != &o) assign(o.begin(), o.end()); return *this; }
  UVector& operator=(UVector&& o) noexcept { p_ = std::move(o.p_); n_ = o.n_; c_ = o.c_; o.n_ = o.c_ = 0; return *this; }
  template <typename It> void assign(It b, It e) { n_ = 0; for (; b != e; ++b) push_back(*b); }
  void assign(size_t n, const T& v) { n_ = 0; resize(n, v); }
  void resize(size_t n) { reserve(n); n_ = n; }
  void resize(size_t n, const T& v) { const size_t o = n_; resize(n); for (size_t i = o; i < n; ++i) p_[i] = v; }
  void reserve(size_t n) {
    if (n <= c_) return;
    std::unique_ptr<T[]> q(new T[n]());
    std::copy_n(p_.get(), n_, q.get());
    p_ = std::move(q);
    c_ = n;
  }
  void push_back(const T& v) { if (n_ == c_) reserve(c_ ? 2 * c_ : 4); p_[n_++] = v; }
  void emplace_back(const T& v) { push_back(v); }
  void clear() { n_ = 0; }
  void shrink_to_fit() {}
  template <typename It> T* insert(const T* pos, It b, It e) {
    const size_t k = pos - begin();
    UVector r(begin(), begin() + k);
    for (; b != e; ++b) r.push_back(*b);
    r.append(begin() + k, end());
    swap(r);
    return begin() + k;
  }
  T* insert(const T* pos, size_t n, const T& v) { const UVector r(n, v); return insert(pos, r.begin(), r.end()); }
  T* insert(const T* pos, const T& v) { return insert(pos, size_t(1), v); }
  void append(const T* b, const T* e) { for (; b != e; ++b) push_back(*b); }
  void pop_back() { --n_; }
  T& at(size_t i) { if (i >= n_) throw std::out_of_range("UVector"); return p_[i]; }
  const T& at(size_t i) const { if (i >= n_) throw std::out_of_range("UVector"); return p_[i]; }
  void swap(UVector& o) { std::swap(p_, o.p_); std::swap(n_, o.n_); std::swap(c_, o.c_); }
  friend void swap(UVector& a, UVector& b) { a.swap(b); }
  size_t size() const { return n_; }
  size_t capacity() const { return c_; }
  bool empty() const { return n_ == 0; }
  T* data() { return p_.get(); } const T* data() const { return p_.get(); }
  T* begin() { return p_.get(); } T* end() { return p_.get() + n_; }
  const T* begin() const { return p_.get(); } const T* end() const { return p_.get() + n_; }
  const T* cbegin() const { return p_.get(); } const T* cend() const { return p_.get() + n_; }
  T& operator[](size_t i) { return p_[i]; } const T& operator[](size_t i) const { return p_[i]; }
  T& front() { return p_[0]; } T& back() { return p_[n_ - 1]; }
  const T& front() const { return p_[0]; } const T& back() const { return p_[n_ - 1]; }
  bool operator==(const UVector& o) const { return n_ == o.n_ && std::equal(begin(), end(), o.begin()); }
 private:
  std::unique_ptr<T[]> p_;
  size_t n_ = 0, c_ = 0;
};

template <typename V> class MC2x2DiagBase;

// Complex 2x2 matrix; V is the real type.
template <typename V> class MC2x2Base {
 public:
  using value_type = std::complex<V>;
  MC2x2Base() : d_{} {}
  template <typename U> requires(!std::is_same_v<U, V>) MC2x2Base(const MC2x2Base<U>& o) { for (int i = 0; i < 4; ++i) d_[i] = value_type(V(o.Get(i).real()), V(o.Get(i).imag())); }
  template <typename U> explicit MC2x2Base(const U* p) { for (int i = 0; i < 4; ++i) d_[i] = value_type(p[i]); }
  template <typename U> explicit MC2x2Base(const std::complex<U>* p) { for (int i = 0; i < 4; ++i) d_[i] = value_type(V(p[i].real()), V(p[i].imag())); }
  MC2x2Base(V a, V b, V c, V d) : d_{a, b, c, d} {}
  MC2x2Base(value_type a, value_type b, value_type c, value_type d) : d_{a, b, c, d} {}
  explicit MC2x2Base(const MC2x2DiagBase<V>& o);
  static MC2x2Base Zero() { return MC2x2Base(); }
  static MC2x2Base Unity() { return MC2x2Base(V(1), V(0), V(0), V(1)); }
  static MC2x2Base NaN() { const V n = std::numeric_limits<V>::quiet_NaN(); return MC2x2Base(value_type(n, n), value_type(n, n), value_type(n, n), value_type(n, n)); }
  const value_type& operator[](size_t i) const { return d_[i]; }
  value_type& operator[](size_t i) { return d_[i]; }
  const value_type& Get(size_t i) const { return d_[i]; }
  void Set(size_t i, value_type v) { d_[i] = v; }
  const value_type* Data() const { return d_; }
  value_type* Data() { return d_; }
  MC2x2Base Multiply(const MC2x2Base& o) const {
    return MC2x2Base(d_[0] * o.d_[0] + d_[1] * o.d_[2], d_[0] * o.d_[1] + d_[1] * o.d_[3], d_[2] * o.d_[0] + d_[3] * o.d_[2], d_[2] * o.d_[1] + d_[3] * o.d_[3]);
  }
  MC2x2Base MultiplyHerm(const MC2x2Base& o) const { return Multiply(o.HermTranspose()); }
  MC2x2Base HermThenMultiply(const MC2x2Base& o) const { return HermTranspose().Multiply(o); }
  MC2x2Base HermTranspose() const { return MC2x2Base(std::conj(d_[0]), std::conj(d_[2]), std::conj(d_[1]), std::conj(d_[3])); }
  MC2x2Base Transpose() const { return MC2x2Base(d_[0], d_[2], d_[1], d_[3]); }
  MC2x2Base Conjugate() const { return MC2x2Base(std::conj(d_[0]), std::conj(d_[1]), std::conj(d_[2]), std::conj(d_[3])); }
  value_type Determinant() const { return d_[0] * d_[3] - d_[1] * d_[2]; }
  bool Invert() {
    const value_type det = Determinant();
    if (det == value_type(0)) return false;
    *this = MC2x2Base(d_[3] / det, -d_[1] / det, -d_[2] / det, d_[0] / det);
    return true;
  }
  MC2x2Base Inverse() const { MC2x2Base r(*this); r.Invert(); return r; }
  value_type Trace() const { return d_[0] + d_[3]; }
  MC2x2Base& operator+=(const MC2x2Base& o) { for (int i = 0; i < 4; ++i) d_[i] += o.d_[i]; return *this; }
  MC2x2Base& operator-=(const MC2x2Base& o) { for (int i = 0; i < 4; ++i) d_[i] -= o.d_[i]; return *this; }
  MC2x2Base& operator*=(const MC2x2Base& o) { *this = Multiply(o); return *this; }
  template <typename S> requires(std::is_arithmetic_v<S>) MC2x2Base& operator*=(S s) { for (auto& x : d_) x *= V(s); return *this; }
  MC2x2Base& operator*=(value_type s) { for (auto& x : d_) x *= s; return *this; }
  template <typename S> requires(std::is_arithmetic_v<S>) MC2x2Base& operator/=(S s) { for (auto& x : d_) x /= V(s); return *this; }
  MC2x2Base& operator/=(value_type s) { for (auto& x : d_) x /= s; return *this; }
  MC2x2Base operator+(const MC2x2Base& o) const { MC2x2Base r(*this); return r += o; }
  MC2x2Base operator-(const MC2x2Base& o) const { MC2x2Base r(*this); return r -= o; }
  MC2x2Base operator-() const { return MC2x2Base(-d_[0], -d_[1], -d_[2], -d_[3]); }
  MC2x2Base operator*(const MC2x2Base& o) const { return Multiply(o); }
  template <typename S> requires(std::is_arithmetic_v<S>) MC2x2Base operator*(S s) const { MC2x2Base r(*this); return r *= s; }
  MC2x2Base operator*(value_type s) const { MC2x2Base r(*this); return r *= s; }
  template <typename S> requires(std::is_arithmetic_v<S>) MC2x2Base operator/(S s) const { MC2x2Base r(*this); return r /= s; }
  template <typename S> requires(std::is_arithmetic_v<S>) friend MC2x2Base operator*(S s, const MC2x2Base& m) { return m * s; }
  friend MC2x2Base operator*(value_type s, const MC2x2Base& m) { return m * s; }
  bool operator==(const MC2x2Base& o) const { return std::equal(d_, d_ + 4, o.d_); }
  bool operator!=(const MC2x2Base& o) const { return !(*this == o); }
  bool IsFinite() const { for (auto& x : d_) if (!std::isfinite(x.real()) || !std::isfinite(x.imag())) return false; return true; }
  void AddWithFactorAndAssign(const MC2x2Base& a, const MC2x2Base& b, V f) { *this = a + b * f; }
  template <typename U> void AssignTo(std::complex<U>* p) const { for (int i = 0; i < 4; ++i) p[i] = std::complex<U>(U(d_[i].real()), U(d_[i].imag())); }
  V SumOfAbs() const { V s = 0; for (auto& x : d_) s += std::abs(x); return s; }
 private:
  value_type d_[4];
};
template <typename V> class MC2x2DiagBase {
 public:
  using value_type = std::complex<V>;
  MC2x2DiagBase() : d_{} {}
  template <typename U> requires(!std::is_same_v<U, V>) MC2x2DiagBase(const MC2x2DiagBase<U>& o) { for (int i = 0; i < 2; ++i) d_[i] = value_type(V(o.Get(i).real()), V(o.Get(i).imag())); }
  MC2x2DiagBase(V a, V b) : d_{a, b} {}
  MC2x2DiagBase(value_type a, value_type b) : d_{a, b} {}
  template <typename U> explicit MC2x2DiagBase(const std::complex<U>* p) { for (int i = 0; i < 2; ++i) d_[i] = value_type(V(p[i].real()), V(p[i].imag())); }
  explicit MC2x2DiagBase(const MC2x2Base<V>& m) : d_{m.Get(0), m.Get(3)} {}
  static MC2x2DiagBase Zero() { return MC2x2DiagBase(); }
  static MC2x2DiagBase Unity() { return MC2x2DiagBase(V(1), V(1)); }
  const value_type& operator[](size_t i) const { return d_[i]; }
  value_type& operator[](size_t i) { return d_[i]; }
  const value_type& Get(size_t i) const { return d_[i]; }
  void Set(size_t i, value_type v) { d_[i] = v; }
  const value_type* Data() const { return d_; }
  value_type* Data() { return d_; }
  MC2x2DiagBase HermTranspose() const { return MC2x2DiagBase(std::conj(d_[0]), std::conj(d_[1])); }
  MC2x2DiagBase Conjugate() const { return HermTranspose(); }
  value_type Trace() const { return d_[0] + d_[1]; }
  MC2x2DiagBase& operator+=(const MC2x2DiagBase& o) { d_[0] += o.d_[0]; d_[1] += o.d_[1]; return *this; }
  MC2x2DiagBase& operator-=(const MC2x2DiagBase& o) { d_[0] -= o.d_[0]; d_[1] -= o.d_[1]; return *this; }
  MC2x2DiagBase operator+(const MC2x2DiagBase& o) const { MC2x2DiagBase r(*this); return r += o; }
  MC2x2DiagBase operator-(const MC2x2DiagBase& o) const { MC2x2DiagBase r(*this); return r -= o; }
  MC2x2DiagBase operator*(const MC2x2DiagBase& o) const { return MC2x2DiagBase(d_[0] * o.d_[0], d_[1] * o.d_[1]); }
  MC2x2Base<V> operator*(const MC2x2Base<V>& m) const { return MC2x2Base<V>(d_[0] * m.Get(0), d_[0] * m.Get(1), d_[1] * m.Get(2), d_[1] * m.Get(3)); }
  template <typename S> requires(std::is_arithmetic_v<S>) MC2x2DiagBase operator*(S s) const { return MC2x2DiagBase(d_[0] * V(s), d_[1] * V(s)); }
  MC2x2DiagBase operator*(value_type s) const { return MC2x2DiagBase(d_[0] * s, d_[1] * s); }
  template <typename S> requires(std::is_arithmetic_v<S>) MC2x2DiagBase operator/(S s) const { return MC2x2DiagBase(d_[0] / V(s), d_[1] / V(s)); }
  bool operator==(const MC2x2DiagBase& o) const { return d_[0] == o.d_[0] && d_[1] == o.d_[1]; }
  bool IsFinite() const { for (auto& x : d_) if (!std::isfinite(x.real()) || !std::isfinite(x.imag())) return false; return true; }
  template <typename U> void AssignTo(std::complex<U>* p) const { for (int i = 0; i < 2; ++i) p[i] = std::complex<U>(U(d_[i].real()), U(d_[i].imag())); }
 private:
  value_type d_[2];
};
template <typename V> MC2x2Base<V>::MC2x2Base(const MC2x2DiagBase<V>& o) : d_{o.Get(0), value_type(0), value_type(0), o.Get(1)} {}
template <typename V> MC2x2Base<V> operator*(const MC2x2Base<V>& m, const MC2x2DiagBase<V>& d) { return MC2x2Base<V>(m.Get(0) * d.Get(0), m.Get(1) * d.Get(1), m.Get(2) * d.Get(0), m.Get(3) * d.Get(1)); }
template <typename V> MC2x2DiagBase<V> Diagonal(const MC2x2Base<V>& m) { return MC2x2DiagBase<V>(m.Get(0), m.Get(3)); }
template <typename V> MC2x2DiagBase<V> Diagonal(const MC2x2DiagBase<V>& m) { return m; }
template <typename V> V Norm(const MC2x2Base<V>& m) { V s = 0; for (int i = 0; i < 4; ++i) s += std::norm(m.Get(i)); return s; }
template <typename V> V Norm(const MC2x2DiagBase<V>& m) { return std::norm(m.Get(0)) + std::norm(m.Get(1)); }
template <typename V> MC2x2Base<V> HermTranspose(const MC2x2Base<V>& m) { return m.HermTranspose(); }
template <typename V> MC2x2DiagBase<V> HermTranspose(const MC2x2DiagBase<V>& m) { return m.HermTranspose(); }
template <typename V> MC2x2Base<V> HermitianSquare(const MC2x2Base<V>& m) { return m.HermTranspose() * m; }
template <typename V> MC2x2Base<V> ElementProduct(const MC2x2Base<V>& a, const MC2x2Base<V>& b) { return MC2x2Base<V>(a.Get(0) * b.Get(0), a.Get(1) * b.Get(1), a.Get(2) * b.Get(2), a.Get(3) * b.Get(3)); }
template <typename V> std::complex<V> Trace(const MC2x2Base<V>& m) { return m.Trace(); }
template <typename V> std::complex<V> Trace(const MC2x2DiagBase<V>& m) { return m.Trace(); }
using MC2x2 = MC2x2Base<double>;
using MC2x2F = MC2x2Base<float>;
using MC2x2Diag = MC2x2DiagBase<double>;
using MC2x2FDiag = MC2x2DiagBase<float>;
// Functions on four consecutive complex elements.
struct Matrix2x2 {
  template <typename A> static bool IsFinite(const A* m) { for (int i = 0; i < 4; ++i) if (!std::isfinite(m[i].real()) || !std::isfinite(m[i].imag())) return false; return true; }
  template <typename D, typename A, typename B> static void ATimesB(std::complex<D>* d, const A* a, const B* b) {
    d[0] = a[0] * b[0] + a[1] * b[2]; d[1] = a[0] * b[1] + a[1] * b[3]; d[2] = a[2] * b[0] + a[3] * b[2]; d[3] = a[2] * b[1] + a[3] * b[3];
  }
  template <typename D, typename A, typename B> static void ATimesHermB(std::complex<D>* d, const A* a, const B* b) {
    using std::conj;
    d[0] = a[0] * conj(b[0]) + a[1] * conj(b[1]); d[1] = a[0] * conj(b[2]) + a[1] * conj(b[3]); d[2] = a[2] * conj(b[0]) + a[3] * conj(b[1]); d[3] = a[2] * conj(b[2]) + a[3] * conj(b[3]);
  }
  template <typename T> static bool Invert(T* m) {
    const T det = m[0] * m[3] - m[1] * m[2];
    if (det == T(0)) return false;
    const T a = m[0];
    m[0] = m[3] / det; m[1] = -m[1] / det; m[2] = -m[2] / det; m[3] = a / det;
    return true;
  }
};

enum class PolarizationEnum { StokesI, StokesQ, StokesU, StokesV, RR, RL, LR, LL, XX, XY, YX, YY, FullStokes, Instrumental, DiagonalInstrumental };
struct Polarization {
  using PolarizationEnum = aocommon::PolarizationEnum;
  static PolarizationEnum AipsIndexToEnum(int i) {
    if (i < 1 || i > 12) throw std::runtime_error("bad polarization index");
    return PolarizationEnum(i - 1);
  }
  static constexpr PolarizationEnum StokesI = PolarizationEnum::StokesI, StokesQ = PolarizationEnum::StokesQ, StokesU = PolarizationEnum::StokesU, StokesV = PolarizationEnum::StokesV;
  static constexpr PolarizationEnum RR = PolarizationEnum::RR, RL = PolarizationEnum::RL, LR = PolarizationEnum::LR, LL = PolarizationEnum::LL;
  static constexpr PolarizationEnum XX = PolarizationEnum::XX, XY = PolarizationEnum::XY, YX = PolarizationEnum::YX, YY = PolarizationEnum::YY;
  static constexpr PolarizationEnum FullStokes = PolarizationEnum::FullStokes, Instrumental = PolarizationEnum::Instrumental, DiagonalInstrumental = PolarizationEnum::DiagonalInstrumental;
};

namespace system { inline size_t ProcessorCount() { return 4; } inline long TotalMemory() { return 8l << 30; } }

// Blocking queue between a writer and readers.
template <typename T> class Lane {
 public:
  using value_type = T;
  Lane() : cap_(64) {}
  explicit Lane(size_t cap) : cap_(cap) {}
  typedef size_t size_type;
  // As in aocommon, a resized lane is empty and can be written again.
  void resize(size_t n) { std::lock_guard<std::mutex> l(m_); cap_ = n; q_.clear(); end_ = false; }
  void write(const T& v) { T c(v); put(std::move(c)); }
  void write(T&& v) { put(std::move(v)); }
  template <typename... A> void emplace(A&&... a) { put(T(std::forward<A>(a)...)); }
  void write(const T* v, size_t n) { for (size_t i = 0; i < n; ++i) write(v[i]); }
  void move_write(T* v, size_t n) { for (size_t i = 0; i < n; ++i) put(std::move(v[i])); }
  bool read(T& v) {
    std::unique_lock<std::mutex> l(m_);
    c_.wait(l, [&] { return !q_.empty() || end_; });
    if (q_.empty()) return false;
    v = std::move(q_.front());
    q_.pop_front();
    c_.notify_all();
    return true;
  }
  size_t read(T* v, size_t n) {
    size_t k = 0;
    while (k < n && read(v[k])) ++k;
    return k;
  }
  void write_end() { std::lock_guard<std::mutex> l(m_); end_ = true; c_.notify_all(); }
  void clear() { std::lock_guard<std::mutex> l(m_); q_.clear(); end_ = false; }
  bool empty() { std::lock_guard<std::mutex> l(m_); return q_.empty(); }
  size_t size() { std::lock_guard<std::mutex> l(m_); return q_.size(); }
  size_t capacity() const { return cap_; }
 private:
  void put(T&& v) {
    std::unique_lock<std::mutex> l(m_);
    c_.wait(l, [&] { return q_.size() < cap_; });
    if (end_) return;
    q_.push_back(std::move(v));
    c_.notify_all();
  }
  size_t cap_;
  std::deque<T> q_;
  std::mutex m_;
  std::condition_variable c_;
  bool end_ = false;
};
template <typename T> using Queue_ = std::deque<T>;
// Queue with random access.
template <typename T> class Queue {
 public:
  size_t Size() const { return q_.size(); }
  bool Empty() const { return q_.empty(); }
  T& operator[](size_t i) { return q_[i]; }
  const T& operator[](size_t i) const { return q_[i]; }
  T& Front() { return q_.front(); }
  void PushBack(T v) { q_.push_back(std::move(v)); }
  template <typename... A> T& EmplaceBack(A&&... a) { return q_.emplace_back(std::forward<A>(a)...); }
  T PopFront() { T v = std::move(q_.front()); q_.pop_front(); return v; }
  void Clear() { q_.clear(); }
 private:
  std::deque<T> q_;
};
template <typename T> class OptionalNumber {
 public:
  OptionalNumber() {}
  OptionalNumber(T v) : v_(v) {}
  bool HasValue() const { return v_.has_value(); }
  T operator*() const { return *v_; }
  T ValueOr(T d) const { return v_.value_or(d); }
  explicit operator bool() const { return v_.has_value(); }
  friend std::ostream& operator<<(std::ostream& os, const OptionalNumber& n) { if (n.v_) os << *n.v_; else os << "unset"; return os; }
 private:
  std::optional<T> v_;
};
}  // namespace aocommon

namespace schaapcommon {
class ThreadPool {
 public:
  static ThreadPool& GetInstance() { static ThreadPool t; return t; }
  size_t NThreads() const { return n_; }
  void SetNThreads(size_t n) { n_ = n ? n : 1; }
  // Run f(thread index) on every thread.
  template <typename F> void ExecuteInParallel(F f) {
    std::vector<std::thread> t;
    for (size_t i = 1; i < n_; ++i) t.emplace_back([&f, i] { f(i); });
    f(0);
    for (auto& x : t) x.join();
  }
  template <typename F> void StartParallelExecution(F f) {
    f_ = f;
    for (size_t i = 1; i < n_; ++i) t_.emplace_back([this, i] { f_(i); });
  }
  void FinishParallelExecution() {
    f_(0);
    for (auto& x : t_) x.join();
    t_.clear();
  }
 private:
  size_t n_ = 1;
  std::function<void(size_t)> f_;
  std::vector<std::thread> t_;
};
// The loops run their chunks one after the other, in an order that differs from
// the natural one, so that dependence on the order shows.
template <typename F> void mini_chunk(F& f, size_t a, size_t b, size_t thread) {
  if constexpr (std::is_invocable_v<F, size_t, size_t, size_t>) f(a, b, thread);
  else f(a, b);
}
template <typename I = size_t, typename F> void RunStaticFor(I start, I end, F f) {
  const size_t n = ThreadPool::GetInstance().NThreads();
  if (end <= start) return;
  const size_t cnt = end - start, chunks = std::min(n, cnt);
  for (size_t c = chunks; c-- > 0;) mini_chunk(f, start + cnt * c / chunks, start + cnt * (c + 1) / chunks, c);
}
template <typename I = size_t, typename F> void RunConstrainedStaticFor(I start, I end, size_t n, F f) {
  if (end <= start) return;
  const size_t cnt = end - start, chunks = std::min(std::max<size_t>(1, n), cnt);
  for (size_t c = chunks; c-- > 0;) mini_chunk(f, start + cnt * c / chunks, start + cnt * (c + 1) / chunks, c);
}
template <typename I> class StaticFor {
 public:
  StaticFor() {}
  template <typename F> void Run(I s, I e, F f) { RunStaticFor<size_t>(size_t(s), size_t(e), f); }
  template <typename F> void ConstrainedRun(I s, I e, size_t n, F f) { RunConstrainedStaticFor<size_t>(size_t(s), size_t(e), n, f); }
};
template <typename I> class DynamicFor {
 public:
  DynamicFor() {}
  template <typename F> void Run(I s, I e, F f) {
    const size_t n = ThreadPool::GetInstance().NThreads();
    for (I i = e; i-- > s;) {
      if constexpr (std::is_invocable_v<F, size_t, size_t>) f(i, size_t(i) % n);
      else f(i);
    }
  }
  template <typename F> void ConstrainedRun(I s, I e, size_t n, F f) {
    for (I i = e; i-- > s;) {
      if constexpr (std::is_invocable_v<F, size_t, size_t>) f(i, size_t(i) % std::max<size_t>(1, n));
      else f(i);
    }
  }
};
class RecursiveFor {
 public:
  RecursiveFor() { instance() = this; }
  ~RecursiveFor() { instance() = nullptr; }
  static RecursiveFor* GetInstance() { return instance(); }
  template <typename F> void Run(size_t s, size_t e, F f) {
    const size_t n = ThreadPool::GetInstance().NThreads();
    for (size_t i = e; i-- > s;) {
      if constexpr (std::is_invocable_v<F, size_t, size_t>) f(i, i % n);
      else f(i);
    }
  }
  template <typename F> void ConstrainedRun(size_t s, size_t e, size_t n, F f) {
    if constexpr (std::is_invocable_v<F, size_t, size_t, size_t>) RunConstrainedStaticFor<size_t>(s, e, n, f);
    else Run(s, e, f);
  }
  template <typename F> static void NestedRun(size_t s, size_t e, F f) { RecursiveFor* r = instance(); if (r) r->Run(s, e, f); else { RecursiveFor q; q.Run(s, e, f); } }
 private:
  static RecursiveFor*& instance() { static RecursiveFor* p = nullptr; return p; }
};
}  // namespace schaapcommon
#endif
