// Minimal stand-in for casacore's array classes: column-major, reference
// semantics on copy construction, value semantics on assignment, as casacore.
#ifndef MINI_CASA_ARRAYS_H_
#define MINI_CASA_ARRAYS_H_
#include <algorithm>
#include <cassert>
#include <complex>
#include <cstddef>
#include <cstdint>
#include <cmath>
#include <initializer_list>
#include <iterator>
#include <memory>
#include <ostream>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

#define CASACORE_MAJOR_VERSION 3
#define CASACORE_MINOR_VERSION 5
#define CASACORE_PATCH_VERSION 0
namespace casacore {
using std::vector;
using std::ostream;
using std::string;  // casacore/casa/aips.h leaks this in the real library too
typedef bool Bool;
typedef int Int;
typedef unsigned int uInt;
typedef long long Int64;
typedef unsigned long long rownr_t;
typedef float Float;
typedef double Double;
typedef std::complex<float> Complex;
typedef std::complex<double> DComplex;
constexpr bool True = true, False = false;

enum StorageInitPolicy { COPY, TAKE_OVER, SHARE };

class AipsError : public std::runtime_error {
 public:
  explicit AipsError(const std::string& s = "") : std::runtime_error(s) {}
  std::string getMesg() const { return what(); }
};
class ArrayError : public AipsError {
  using AipsError::AipsError;
};
class ArrayConformanceError : public ArrayError {
  using ArrayError::ArrayError;
};

class IPosition {
 public:
  IPosition() {}
  explicit IPosition(size_t n) : v_(n, 0) {}
  IPosition(size_t n, ssize_t a) : v_(n, a) {}
  template <typename... R>
  IPosition(size_t n, ssize_t a, ssize_t b, R... r) : v_{a, b, static_cast<ssize_t>(r)...} {
    if (v_.size() != n) throw AipsError("IPosition size");
  }
  IPosition(std::initializer_list<ssize_t> l) : v_(l) {}
  size_t size() const { return v_.size(); }
  size_t nelements() const { return v_.size(); }
  bool empty() const { return v_.empty(); }
  ssize_t& operator[](size_t i) { return v_.at(i); }
  ssize_t operator[](size_t i) const { return v_.at(i); }
  ssize_t& operator()(size_t i) { return v_.at(i); }
  ssize_t operator()(size_t i) const { return v_.at(i); }
  bool isEqual(const IPosition& o) const { return v_ == o.v_; }
  bool operator==(const IPosition& o) const { return v_ == o.v_; }
  bool operator!=(const IPosition& o) const { return v_ != o.v_; }
  bool operator!=(size_t n) const { for (ssize_t x : v_) if (size_t(x) != n) return true; return false; }
  bool operator==(size_t n) const { return !(*this != n); }
  ssize_t product() const {
    ssize_t p = 1;
    for (ssize_t x : v_) p *= x;
    return v_.empty() ? 0 : p;
  }
  auto begin() const { return v_.begin(); }
  auto end() const { return v_.end(); }
  void resize(size_t n) { v_.resize(n); }
  std::string toString() const {
    std::ostringstream o;
    o << '[';
    for (size_t i = 0; i < v_.size(); ++i) o << (i ? ", " : "") << v_[i];
    o << ']';
    return o.str();
  }

 private:
  std::vector<ssize_t> v_;
};
inline std::ostream& operator<<(std::ostream& o, const IPosition& p) { return o << p.toString(); }

template <typename T>
class Vector;
template <typename T>
class Matrix;
template <typename T>
class Cube;

template <typename T>
class Array {
 public:
  typedef T value_type;
  class iterator {
   public:
    typedef std::forward_iterator_tag iterator_category;
    typedef T value_type;
    typedef std::ptrdiff_t difference_type;
    typedef T* pointer;
    typedef T& reference;
    iterator() : a_(nullptr), i_(0) {}
    iterator(const Array* a, size_t i) : a_(a), i_(i) {}
    T& operator*() const { return a_->ref(i_); }
    T* operator->() const { return &a_->ref(i_); }
    iterator& operator++() {
      ++i_;
      return *this;
    }
    iterator operator++(int) {
      iterator c = *this;
      ++i_;
      return c;
    }
    bool operator==(const iterator& o) const { return i_ == o.i_; }
    bool operator!=(const iterator& o) const { return i_ != o.i_; }

   private:
    const Array* a_;
    size_t i_;
  };
  typedef iterator const_iterator;
  typedef T* contiter;
  typedef const T* const_contiter;

  Array() {}
  explicit Array(const IPosition& shape) { alloc(shape); }
  Array(const IPosition& shape, const T& v) {
    alloc(shape);
    set(v);
  }
  Array(const IPosition& shape, T* p, StorageInitPolicy pol = COPY) {
    if (pol == COPY) {
      alloc(shape);
      std::copy(p, p + n_, base());
    } else {
      store_ = pol == SHARE ? std::shared_ptr<T[]>(p, [](T*) {}) : std::shared_ptr<T[]>(p);
      ptr_ = p;
      setShape(shape);
    }
  }
  Array(const IPosition& shape, const T* p) {
    alloc(shape);
    std::copy(p, p + n_, base());
  }
  Array(const Array&) = default;  // reference semantics
  virtual ~Array() = default;
  Array& operator=(const Array& o) {
    if (this == &o) return *this;
    if (n_ == 0 && shape_.product() == 0)
      resizeNoCopy(o.shape_);
    else if (!(shape_ == o.shape_))
      throw ArrayConformanceError("Array::operator=");
    copyFrom(o);
    return *this;
  }
  Array& operator=(const T& v) {
    set(v);
    return *this;
  }
  void set(const T& v) {
    for (size_t i = 0; i < n_; ++i) ref(i) = v;
  }
  void assign(const Array& o) {
    if (this == &o) return;
    Array c(o.copy());
    if (!(shape_ == o.shape_) || n_ == 0) resizeNoCopy(o.shape_);
    copyFrom(c);
  }
  void reference(const Array& o) {
    store_ = o.store_;
    ptr_ = o.ptr_;
    shape_ = o.shape_;
    stride_ = o.stride_;
    n_ = o.n_;
  }
  Array copy() const {
    Array r(shape_);
    r.copyFrom(*this);
    return r;
  }
  void unique() { reference(copy()); }
  void resize() { resizeNoCopy(IPosition()); }
  virtual void resize(const IPosition& s, bool keep = false) {
    if (shape_ == s) return;
    if (keep) {
      Array old(*this);
      resizeNoCopy(s);
      if (old.ndim() == ndim() && ndim() > 0) {
        for (size_t i = 0; i < old.n_; ++i) {
          IPosition p = old.pos(i);
          bool in = true;
          for (size_t d = 0; d < p.size(); ++d) in = in && p[d] < shape_[d];
          if (in) (*this)(p) = old.ref(i);
        }
      }
    } else
      resizeNoCopy(s);
  }
  const IPosition& shape() const { return shape_; }
  size_t ndim() const { return shape_.size(); }
  size_t size() const { return n_; }
  size_t nelements() const { return n_; }
  bool empty() const { return n_ == 0; }
  T& operator()(const IPosition& p) { return ptr_[off(p)]; }
  const T& operator()(const IPosition& p) const { return ptr_[off(p)]; }
  template <typename S> requires requires(const S& s) { s.length(); }
  Array operator()(const S& s) const {
    IPosition last(s.start());
    for (size_t i = 0; i < last.size(); ++i) last[i] += s.length()[i] - 1;
    return (*this)(s.start(), last);
  }
  Array operator()(const IPosition& blc, const IPosition& trc) const {
    Array r(*this);
    r.n_ = 1;
    for (size_t d = 0; d < ndim(); ++d) {
      if (blc[d] < 0 || trc[d] >= shape_[d] || blc[d] > trc[d] + 1) throw ArrayError("slice");
      r.shape_[d] = trc[d] - blc[d] + 1;
      r.n_ *= r.shape_[d];
    }
    if (r.n_) r.ptr_ = ptr_ + off(blc);
    return r;
  }
  T* data() { return ptr_; }
  const T* data() const { return ptr_; }
  T* getStorage(bool& d) {
    d = false;
    if (!contiguousStorage()) throw ArrayError("getStorage: not contiguous");
    return ptr_;
  }
  const T* getStorage(bool& d) const { return const_cast<Array*>(this)->getStorage(d); }
  void putStorage(T*&, bool) {}
  void freeStorage(const T*&, bool) const {}
  bool contiguousStorage() const {
    ssize_t s = 1;
    for (size_t d = 0; d < ndim(); ++d) {
      if (shape_[d] > 1 && stride_[d] != s) return false;
      s *= shape_[d];
    }
    return true;
  }
  iterator begin() const { return iterator(this, 0); }
  iterator end() const { return iterator(this, n_); }
  T* cbegin() {
    if (!contiguousStorage()) throw ArrayError("cbegin");
    return ptr_;
  }
  T* cend() { return cbegin() + n_; }
  const T* cbegin() const { return const_cast<Array*>(this)->cbegin(); }
  const T* cend() const { return cbegin() + n_; }
  std::vector<T> tovector() const { return std::vector<T>(begin(), end()); }
  Array reform(const IPosition& s) const {
    if (s.product() != shape_.product()) throw ArrayConformanceError("reform");
    Array r(*this);
    if (!contiguousStorage()) r.reference(copy());
    r.setShape(s);
    return r;
  }
  T& ref(size_t i) const { return ptr_[off(pos(i))]; }
  IPosition pos(size_t i) const {
    IPosition p(ndim(), ssize_t(0));
    for (size_t d = 0; d < ndim(); ++d) {
      p[d] = i % shape_[d];
      i /= shape_[d];
    }
    return p;
  }

 protected:
  size_t off(const IPosition& p) const {
    if (p.size() != ndim()) throw ArrayError("index dimensionality");
    ssize_t o = 0;
    for (size_t d = 0; d < ndim(); ++d) {
      if (p[d] < 0 || p[d] >= shape_[d]) throw ArrayError("index out of range");
      o += p[d] * stride_[d];
    }
    return o;
  }
  T* base() { return ptr_; }
  void setShape(const IPosition& s) {
    shape_ = s;
    stride_ = s;
    ssize_t st = 1;
    for (size_t d = 0; d < s.size(); ++d) {
      stride_[d] = st;
      st *= s[d];
    }
    n_ = s.product();
  }
  void alloc(const IPosition& s) {
    setShape(s);
    store_ = std::shared_ptr<T[]>(new T[n_ ? n_ : 1]());
    ptr_ = store_.get();
  }
  void resizeNoCopy(const IPosition& s) { alloc(s); }
  void copyFrom(const Array& o) {
    for (size_t i = 0; i < n_; ++i) ref(i) = o.ref(i);
  }
  std::shared_ptr<T[]> store_;
  T* ptr_ = nullptr;
  IPosition shape_, stride_;
  size_t n_ = 0;
  friend class Vector<T>;
  friend class Matrix<T>;
  friend class Cube<T>;
};

template <typename T>
class Vector : public Array<T> {
 public:
  Vector() { this->alloc(IPosition(1, 0)); }
  explicit Vector(size_t n) { this->alloc(IPosition(1, ssize_t(n))); }
  explicit Vector(const IPosition& s) { this->alloc(s); }
  Vector(size_t n, const T& v) : Vector(n) { this->set(v); }
  Vector(const IPosition& s, T* p, StorageInitPolicy pol) : Array<T>(s, p, pol) {}
  Vector(const std::vector<T>& v) : Vector(v.size()) { std::copy(v.begin(), v.end(), this->ptr_); }
  template <typename U>
  explicit Vector(const std::vector<U>& v) : Vector(v.size()) {
    std::copy(v.begin(), v.end(), this->ptr_);
  }
  Vector(std::initializer_list<T> v) : Vector(v.size()) { std::copy(v.begin(), v.end(), this->ptr_); }
  template <typename It>
  Vector(It b, size_t n, int) : Vector(n) {
    std::copy_n(b, n, this->ptr_);
  }
  Vector(const Vector&) = default;
  Vector(const Array<T>& a) : Array<T>(a) {
    if (a.ndim() != 1) {
      if (a.ndim() == 0) this->alloc(IPosition(1, 0));
      else Array<T>::reference(a.reform(IPosition(1, a.size())));
    }
  }
  Vector& operator=(const Vector& o) {
    if (this != &o) {
      if (this->n_ != o.n_) {
        if (this->n_ != 0) throw ArrayConformanceError("Vector::operator=");
        this->alloc(o.shape_);
      }
      this->copyFrom(o);
    }
    return *this;
  }
  Vector& operator=(const Array<T>& o) { return *this = Vector(o); }
  Vector& operator=(const T& v) {
    this->set(v);
    return *this;
  }
  using Array<T>::resize;
  void resize(size_t n, bool keep = false) { Array<T>::resize(IPosition(1, ssize_t(n)), keep); }
  T& operator[](size_t i) { return this->ptr_[check(i)]; }
  const T& operator[](size_t i) const { return this->ptr_[check(i)]; }
  T& operator()(size_t i) { return this->ptr_[check(i)]; }
  const T& operator()(size_t i) const { return this->ptr_[check(i)]; }
  using Array<T>::operator();

 private:
  size_t check(size_t i) const {
    if (i >= this->n_) throw ArrayError("Vector index");
    return i * this->stride_[0];
  }
};

template <typename T>
class Matrix : public Array<T> {
 public:
  Matrix() { this->alloc(IPosition(2, 0, 0)); }
  Matrix(size_t r, size_t c) { this->alloc(IPosition(2, r, c)); }
  Matrix(size_t r, size_t c, const T& v) : Matrix(r, c) { this->set(v); }
  explicit Matrix(const IPosition& s) { this->alloc(s); }
  Matrix(const IPosition& s, const T& v) {
    this->alloc(s);
    this->set(v);
  }
  Matrix(const IPosition& s, T* p, StorageInitPolicy pol) : Array<T>(s, p, pol) {}
  Matrix(const Matrix&) = default;
  Matrix(const Array<T>& a) : Array<T>(a) {
    if (a.ndim() != 2) throw ArrayConformanceError("Matrix(Array)");
  }
  Matrix& operator=(const Matrix& o) {
    if (this != &o) {
      if (!(this->shape_ == o.shape_)) {
        if (this->n_ != 0) throw ArrayConformanceError("Matrix::operator=");
        this->alloc(o.shape_);
      }
      this->copyFrom(o);
    }
    return *this;
  }
  Matrix& operator=(const Array<T>& o) { return *this = Matrix(o); }
  Matrix& operator=(const T& v) {
    this->set(v);
    return *this;
  }
  using Array<T>::resize;
  void resize(size_t r, size_t c) { Array<T>::resize(IPosition(2, r, c)); }
  size_t nrow() const { return this->shape_[0]; }
  size_t ncolumn() const { return this->shape_[1]; }
  T& operator()(size_t r, size_t c) { return this->ptr_[this->off(IPosition(2, r, c))]; }
  const T& operator()(size_t r, size_t c) const { return this->ptr_[this->off(IPosition(2, r, c))]; }
  using Array<T>::operator();
  Vector<T> column(size_t c) const {
    Array<T> s = (*this)(IPosition(2, 0, c), IPosition(2, nrow() - 1, c));
    return Slice(s, 0);
  }
  Vector<T> row(size_t r) const {
    Array<T> s = (*this)(IPosition(2, r, 0), IPosition(2, r, ncolumn() - 1));
    return Slice(s, 1);
  }
  Vector<T> diagonal() const {
    Array<T> s(*this);
    s.shape_ = IPosition(1, std::min(nrow(), ncolumn()));
    s.n_ = s.shape_[0];
    IPosition st(1, this->stride_[0] + this->stride_[1]);
    s.stride_ = st;
    return Vector<T>(s);
  }

 private:
  static Vector<T> Slice(Array<T>& s, int axis) {
    IPosition sh(1, s.shape_[axis]), st(1, s.stride_[axis]);
    s.shape_ = sh;
    s.stride_ = st;
    return Vector<T>(s);
  }
};

template <typename T>
class Cube : public Array<T> {
 public:
  Cube() { this->alloc(IPosition(3, 0, 0, 0)); }
  Cube(size_t a, size_t b, size_t c) { this->alloc(IPosition(3, a, b, c)); }
  Cube(size_t a, size_t b, size_t c, const T& v) : Cube(a, b, c) { this->set(v); }
  explicit Cube(const IPosition& s) { this->alloc(s); }
  Cube(const IPosition& s, T* p, StorageInitPolicy pol) : Array<T>(s, p, pol) {}
  Cube(const Cube&) = default;
  Cube(const Array<T>& a) : Array<T>(a) {
    if (a.ndim() != 3) throw ArrayConformanceError("Cube(Array)");
  }
  Cube& operator=(const Cube& o) {
    if (this != &o) {
      if (!(this->shape_ == o.shape_)) {
        if (this->n_ != 0) throw ArrayConformanceError("Cube::operator=");
        this->alloc(o.shape_);
      }
      this->copyFrom(o);
    }
    return *this;
  }
  Cube& operator=(const T& v) {
    this->set(v);
    return *this;
  }
  using Array<T>::resize;
  void resize(size_t a, size_t b, size_t c) { Array<T>::resize(IPosition(3, a, b, c)); }
  size_t nrow() const { return this->shape_[0]; }
  size_t ncolumn() const { return this->shape_[1]; }
  size_t nplane() const { return this->shape_[2]; }
  T& operator()(size_t a, size_t b, size_t c) { return this->ptr_[this->off(IPosition(3, a, b, c))]; }
  const T& operator()(size_t a, size_t b, size_t c) const { return this->ptr_[this->off(IPosition(3, a, b, c))]; }
  using Array<T>::operator();
};

template <typename T>
std::ostream& operator<<(std::ostream& o, const Array<T>& a) {
  o << '[';
  size_t k = 0;
  for (const T& v : a) o << (k++ ? ", " : "") << v;
  return o << ']';
}

// ArrayMath / ArrayLogical
#define MINI_ARR_OP(op)                                                              \
  template <typename T>                                                              \
  Array<T> operator op(const Array<T>& a, const Array<T>& b) {                       \
    if (!(a.shape() == b.shape())) throw ArrayConformanceError("array arithmetic");  \
    Array<T> r = a.copy();                                                           \
    for (size_t i = 0; i < r.size(); ++i) r.ref(i) = a.ref(i) op b.ref(i);           \
    return r;                                                                        \
  }                                                                                  \
  template <typename T>                                                              \
  Array<T> operator op(const Array<T>& a, const typename Array<T>::value_type& b) {  \
    Array<T> r = a.copy();                                                           \
    for (size_t i = 0; i < r.size(); ++i) r.ref(i) = a.ref(i) op b;                  \
    return r;                                                                        \
  }                                                                                  \
  template <typename T>                                                              \
  Array<T> operator op(const typename Array<T>::value_type& b, const Array<T>& a) {  \
    Array<T> r = a.copy();                                                           \
    for (size_t i = 0; i < r.size(); ++i) r.ref(i) = b op a.ref(i);                  \
    return r;                                                                        \
  }
MINI_ARR_OP(+)
MINI_ARR_OP(-)
MINI_ARR_OP(*)
MINI_ARR_OP(/)
#undef MINI_ARR_OP
template <typename T>
void operator+=(Array<T>& a, const Array<T>& b) {
  for (size_t i = 0; i < a.size(); ++i) a.ref(i) += b.ref(i);
}
template <typename T>
void operator-=(Array<T>& a, const Array<T>& b) {
  for (size_t i = 0; i < a.size(); ++i) a.ref(i) -= b.ref(i);
}
template <typename T>
void operator*=(Array<T>& a, const typename Array<T>::value_type& b) {
  for (size_t i = 0; i < a.size(); ++i) a.ref(i) *= b;
}
template <typename T>
void operator/=(Array<T>& a, const typename Array<T>::value_type& b) {
  for (size_t i = 0; i < a.size(); ++i) a.ref(i) /= b;
}
template <typename T>
void operator+=(Array<T>& a, const typename Array<T>::value_type& b) {
  for (size_t i = 0; i < a.size(); ++i) a.ref(i) += b;
}
template <typename T>
T sum(const Array<T>& a) {
  T r = T();
  for (const T& v : a) r += v;
  return r;
}
template <typename T>
T max(const Array<T>& a) {
  return *std::max_element(a.begin(), a.end());
}
template <typename T>
T min(const Array<T>& a) {
  return *std::min_element(a.begin(), a.end());
}
#define MINI_ARR_LOGIC(op)                                                       \
  inline Array<bool> operator op(const Array<bool>& a, const Array<bool>& b) {   \
    Array<bool> r(a.copy());                                                     \
    auto i = r.begin();                                                          \
    for (auto j = b.begin(); j != b.end(); ++j, ++i) *i = *i op *j;              \
    return r;                                                                    \
  }
MINI_ARR_LOGIC(&&)
MINI_ARR_LOGIC(||)
#undef MINI_ARR_LOGIC
inline size_t ntrue(const Array<bool>& a) {
  size_t n = 0;
  for (bool v : a) n += v;
  return n;
}
inline size_t nfalse(const Array<bool>& a) { return a.size() - ntrue(a); }
// The number of false values along the first two of three axes.
inline Array<size_t> partialNFalse(const Array<bool>& a, const IPosition& axes) {
  if (a.ndim() != 3 || axes.size() != 2 || axes[0] != 0 || axes[1] != 1) throw ArrayError("mini-casacore: partialNFalse");
  Array<size_t> r(IPosition(1, a.shape()[2]));
  const size_t m = a.shape()[0] * a.shape()[1];
  size_t i = 0;
  for (auto& x : r) x = 0;
  for (auto it = a.begin(); it != a.end(); ++it, ++i) r.ref(i / m) += !*it;
  return r;
}
inline Array<bool> operator==(const Array<size_t>& a, size_t v) {
  Array<bool> r(a.shape());
  for (size_t i = 0; i < a.size(); ++i) r.ref(i) = a.ref(i) == v;
  return r;
}
inline bool anyTrue(const Array<bool>& a) { return ntrue(a) > 0; }
inline bool allTrue(const Array<bool>& a) { return ntrue(a) == a.size(); }
template <typename T>
bool anyEQ(const Array<T>& a, const T& v) {
  return std::find(a.begin(), a.end(), v) != a.end();
}
template <typename T>
bool allEQ(const Array<T>& a, const T& v) {
  return std::all_of(a.begin(), a.end(), [&](const T& x) { return x == v; });
}
template <typename T>
bool allEQ(const Array<T>& a, const Array<T>& b) {
  if (!(a.shape() == b.shape())) return false;
  for (size_t i = 0; i < a.size(); ++i)
    if (!(a.ref(i) == b.ref(i))) return false;
  return true;
}
template <typename T>
void indgen(Array<T>& a, T start = T(), T inc = T(1)) {
  for (size_t i = 0; i < a.size(); ++i) {
    a.ref(i) = start;
    start += inc;
  }
}
template <typename T>
void convertArray(Array<T>& to, const Array<T>& from) {
  to = from;
}
template <typename To, typename From>
void convertArray(Array<To>& to, const Array<From>& from) {
  for (size_t i = 0; i < to.size(); ++i) to.ref(i) = To(from.ref(i));
}
template <typename T>
Matrix<T> transpose(const Matrix<T>& m) {
  Matrix<T> r(m.ncolumn(), m.nrow());
  for (size_t i = 0; i < m.nrow(); ++i)
    for (size_t j = 0; j < m.ncolumn(); ++j) r(j, i) = m(i, j);
  return r;
}
template <typename T>
Matrix<T> product(const Matrix<T>& a, const Matrix<T>& b) {
  Matrix<T> r(a.nrow(), b.ncolumn(), T());
  for (size_t i = 0; i < a.nrow(); ++i)
    for (size_t j = 0; j < b.ncolumn(); ++j)
      for (size_t k = 0; k < a.ncolumn(); ++k) r(i, j) += a(i, k) * b(k, j);
  return r;
}

// BasicMath/Math.h, as documented by casacore: relative comparison.
inline bool near(double a, double b, double tol) {
  if (tol <= 0) return a == b;
  if (a == b) return true;
  if (a == 0) return std::abs(b) <= (1 + tol) * 2.2250738585072014e-308;
  if (b == 0) return std::abs(a) <= (1 + tol) * 2.2250738585072014e-308;
  if ((a > 0) != (b > 0)) return false;
  return std::abs(a - b) <= tol * std::max(std::abs(a), std::abs(b));
}
inline bool near(double a, double b) { return near(a, b, 1.0e-13); }
inline bool near(float a, float b) { return near(double(a), double(b), 1.0e-5); }
inline bool nearAbs(double a, double b, double tol = 1.0e-13) { return a == b || std::abs(b - a) <= tol; }
template <typename T>
bool isFinite(const T& v) {
  return std::isfinite(v);
}
namespace C {
constexpr double c = 299792458.0;
constexpr double pi = M_PI;
constexpr double _2pi = 2 * M_PI;
constexpr double degree = M_PI / 180.0;
constexpr double arcsec = M_PI / 180.0 / 3600.0;
}  // namespace C
template <typename T> struct SumSqr { T operator()(const T& l, const T& r) const { return l + r * r; } };
template <typename C, typename V> inline int linearSearch1(const C& c, const V& v) {
  int i = 0;
  for (auto it = c.begin(); it != c.end(); ++it, ++i) if (*it == v) return i;
  return -1;
}
class Slicer {
 public:
  enum LengthOrLast { endIsLength, endIsLast };
  Slicer() {}
  Slicer(const IPosition& s, const IPosition& l, LengthOrLast o = endIsLength) : s_(s), l_(l) {
    if (o == endIsLast) for (size_t i = 0; i < l_.size(); ++i) l_[i] = l_[i] - s_[i] + 1;
  }
  const IPosition& start() const { return s_; }
  const IPosition& length() const { return l_; }
 private:
  IPosition s_, l_;
};
}  // namespace casacore
using std::string;  // leaked by casacore headers
#endif
