// A small eager stand-in for the parts of xtensor that DP3 uses. Containers own
// their elements, views refer to a container's elements, all functions return
// evaluated containers.
#ifndef VERIF_MINI_XT_H_
#define VERIF_MINI_XT_H_

// xtensor leaves new elements of trivial types as they are; complex numbers get
// the value zero with the usual standard libraries. A harness sets this to 1 for
// code that counts on it.
#ifndef MINIXT_ZERO_CPLX
#define MINIXT_ZERO_CPLX 0
#endif
#include <algorithm>
#include <array>
#include <cassert>
#include <cmath>
#include <complex>
#include <cstddef>
#include <cstring>
#include <functional>
#include <initializer_list>
#include <limits>
#include <memory>
#include <numeric>
#include <ostream>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <vector>

namespace xt {

enum class layout_type { dynamic = 0, any = 1, row_major = 2, column_major = 3 };

constexpr int kDyn = -1;
constexpr size_t kMaxDim = 8;

// Run-time shape of limited size.
struct svector {
  using value_type = size_t;
  size_t v_[kMaxDim] = {};
  size_t n_ = 0;
  svector() = default;
  explicit svector(size_t n, size_t v = 0) : n_(n) { std::fill_n(v_, n, v); }
  svector(std::initializer_list<size_t> l) { for (size_t x : l) push_back(x); }
  template <typename It, typename = decltype(*std::declval<It>())> svector(It b, It e) { for (; b != e; ++b) push_back(*b); }
  template <size_t N> svector(const std::array<size_t, N>& a) : svector(a.begin(), a.end()) {}
  svector(const std::vector<size_t>& a) : svector(a.begin(), a.end()) {}
  void push_back(size_t x) { assert(n_ < kMaxDim); v_[n_++] = x; }
  size_t size() const { return n_; }
  void resize(size_t n) { n_ = n; }
  bool empty() const { return n_ == 0; }
  size_t& operator[](size_t i) { return v_[i]; }
  const size_t& operator[](size_t i) const { return v_[i]; }
  size_t* begin() { return v_; } size_t* end() { return v_ + n_; }
  const size_t* begin() const { return v_; } const size_t* end() const { return v_ + n_; }
  size_t* data() { return v_; } const size_t* data() const { return v_; }
  size_t& front() { return v_[0]; } size_t& back() { return v_[n_ - 1]; }
  const size_t& front() const { return v_[0]; } const size_t& back() const { return v_[n_ - 1]; }
  friend bool operator==(const svector& a, const svector& b) { return a.n_ == b.n_ && std::equal(a.begin(), a.end(), b.begin()); }
  friend bool operator!=(const svector& a, const svector& b) { return !(a == b); }
};
template <size_t N> bool operator==(const std::array<size_t, N>& a, const svector& b) { return svector(a) == b; }
template <size_t N> bool operator==(const svector& a, const std::array<size_t, N>& b) { return a == svector(b); }

template <int N> struct shape_of { using type = std::array<size_t, N>; };
template <> struct shape_of<kDyn> { using type = svector; };
template <int N> using shape_t = typename shape_of<N>::type;
template <typename T, size_t N> using static_shape_ = std::array<T, N>;
template <typename T> using dynamic_shape = svector;
template <typename T, size_t N> using static_shape = std::array<T, N>;

template <int N, typename S> shape_t<N> to_shape(const S& s) {
  if constexpr (N == kDyn) {
    return svector(s.begin(), s.end());
  } else {
    if (s.size() != size_t(N)) throw std::runtime_error("mini-xt: wrong number of dimensions");
    shape_t<N> r{};
    std::copy(s.begin(), s.end(), r.begin());
    return r;
  }
}
template <typename I, size_t K> std::array<size_t, K> shape(const I (&l)[K]) {
  std::array<size_t, K> r{};
  for (size_t i = 0; i < K; ++i) r[i] = l[i];
  return r;
}

// Type traits.
struct xbase {};
template <typename E> constexpr bool is_x = std::is_base_of_v<xbase, std::decay_t<E>>;
template <typename E> concept XExpr = is_x<E>;
template <typename T> struct is_cplx : std::false_type {};
template <typename T> struct is_cplx<std::complex<T>> : std::true_type {};
template <typename T> constexpr bool is_scalar_v = std::is_arithmetic_v<std::decay_t<T>> || is_cplx<std::decay_t<T>>::value;
template <typename T> concept XScalar = is_scalar_v<T>;
template <typename T> struct real_of { using type = T; };
template <typename T> struct real_of<std::complex<T>> { using type = T; };
template <typename A, typename B> struct promo {
  using R = decltype(typename real_of<A>::type() + typename real_of<B>::type());
  using type = std::conditional_t<is_cplx<A>::value || is_cplx<B>::value, std::complex<R>, R>;
};
template <typename A, typename B> using promo_t = typename promo<A, B>::type;
template <typename T> struct big { using type = std::conditional_t<std::is_floating_point_v<T>, double, std::conditional_t<std::is_signed_v<T>, long long, unsigned long long>>; };
template <> struct big<long double> { using type = long double; };
template <> struct big<bool> { using type = long long; };
template <typename T> struct big<std::complex<T>> { using type = std::complex<double>; };
template <typename T> using big_t = typename big<T>::type;
template <typename To, typename From> To conv(const From& f) {
  if constexpr (is_cplx<To>::value) {
    using R = typename To::value_type;
    if constexpr (is_cplx<From>::value) return To(R(f.real()), R(f.imag()));
    else return To(R(f), R(0));
  } else return static_cast<To>(f);
}
constexpr int max_rank(int a, int b) { return a == kDyn || b == kDyn ? kDyn : (a > b ? a : b); }

template <typename T, int N, layout_type L = layout_type::row_major> class container;
template <typename T, int N> class xview;

template <typename T, size_t N, layout_type L = layout_type::row_major> using xtensor = container<T, int(N), L>;
template <typename T, layout_type L = layout_type::row_major> using xarray = container<T, kDyn, L>;
template <typename T, size_t N> using xtensor_view = xview<T, int(N)>;

inline size_t prod_shape(const svector& s) { size_t r = 1; for (size_t x : s) r *= x; return r; }

// Common description of strided elements, with optional index tables.
struct layout_info {
  svector shape;
  std::ptrdiff_t strides[kMaxDim] = {};
  std::shared_ptr<std::vector<std::ptrdiff_t>> table[kMaxDim];
  bool tables = false;
  std::ptrdiff_t off(size_t d, size_t i) const {
    if (tables && table[d]) return (*table[d])[i];
    return std::ptrdiff_t(i) * strides[d];
  }
};

// Call f(offset) for each element in row-major order.
template <typename F> void for_each_offset(const layout_info& l, F&& f) {
  const size_t n = l.shape.size();
  const size_t total = prod_shape(l.shape);
  if (total == 0) return;
  size_t idx[kMaxDim] = {};
  for (size_t k = 0; k < total; ++k) {
    std::ptrdiff_t o = 0;
    for (size_t d = 0; d < n; ++d) o += l.off(d, idx[d]);
    f(o);
    for (size_t d = n; d-- > 0;) {
      if (++idx[d] < l.shape[d]) break;
      idx[d] = 0;
    }
  }
}
inline svector broadcast_shapes(const svector& a, const svector& b) {
  const size_t n = std::max(a.size(), b.size());
  svector r(n, 1);
  for (size_t i = 0; i < n; ++i) {
    const size_t x = i < n - a.size() ? 1 : a[i - (n - a.size())];
    const size_t y = i < n - b.size() ? 1 : b[i - (n - b.size())];
    if (x != y && x != 1 && y != 1) throw std::runtime_error("mini-xt: incompatible shapes");
    r[i] = x == 1 ? y : x;
  }
  return r;
}
// Layout of the same elements broadcast to a larger shape.
inline layout_info broadcast_layout(const layout_info& l, const svector& s) {
  if (l.shape == s) return l;
  layout_info r;
  r.shape = s;
  r.tables = l.tables;
  if (l.shape.size() > s.size()) {
    // Only allowed if the surplus leading dimensions are 1.
    throw std::runtime_error("mini-xt: cannot broadcast to fewer dimensions");
  }
  const size_t lead = s.size() - l.shape.size();
  for (size_t d = 0; d < s.size(); ++d) {
    if (d < lead) { r.strides[d] = 0; continue; }
    const size_t k = d - lead;
    if (l.shape[k] == s[d]) { r.strides[d] = l.strides[k]; r.table[d] = l.table[k]; }
    else if (l.shape[k] == 1) {
      r.strides[d] = 0;
      if (l.table[k]) { r.table[d] = std::make_shared<std::vector<std::ptrdiff_t>>(s[d], (*l.table[k])[0]); }
    } else throw std::runtime_error("mini-xt: incompatible shapes");
  }
  return r;
}

// Row-major element iterator.
template <typename T> class xiter {
 public:
  using iterator_category = std::random_access_iterator_tag;
  using value_type = std::remove_const_t<T>;
  using difference_type = std::ptrdiff_t;
  using pointer = T*;
  using reference = T&;
  xiter() = default;
  xiter(T* p, std::shared_ptr<const layout_info> l, std::ptrdiff_t k) : p_(p), l_(std::move(l)), k_(k) {}
  T& operator*() const { return p_[offset(k_)]; }
  T* operator->() const { return &**this; }
  T& operator[](std::ptrdiff_t i) const { return p_[offset(k_ + i)]; }
  xiter& operator++() { ++k_; return *this; }
  xiter operator++(int) { xiter r(*this); ++k_; return r; }
  xiter& operator--() { --k_; return *this; }
  xiter operator--(int) { xiter r(*this); --k_; return r; }
  xiter& operator+=(std::ptrdiff_t n) { k_ += n; return *this; }
  xiter& operator-=(std::ptrdiff_t n) { k_ -= n; return *this; }
  friend xiter operator+(xiter a, std::ptrdiff_t n) { a.k_ += n; return a; }
  friend xiter operator+(std::ptrdiff_t n, xiter a) { a.k_ += n; return a; }
  friend xiter operator-(xiter a, std::ptrdiff_t n) { a.k_ -= n; return a; }
  friend std::ptrdiff_t operator-(const xiter& a, const xiter& b) { return a.k_ - b.k_; }
  friend bool operator==(const xiter& a, const xiter& b) { return a.k_ == b.k_; }
  friend auto operator<=>(const xiter& a, const xiter& b) { return a.k_ <=> b.k_; }

 private:
  std::ptrdiff_t offset(std::ptrdiff_t k) const {
    std::ptrdiff_t o = 0;
    for (size_t d = l_->shape.size(); d-- > 0;) {
      const size_t n = l_->shape[d];
      o += l_->off(d, size_t(k) % n);
      k /= std::ptrdiff_t(n);
    }
    return o;
  }
  T* p_ = nullptr;
  std::shared_ptr<const layout_info> l_;
  std::ptrdiff_t k_ = 0;
};

template <typename Self> auto info(const Self& s) { return s.layout_info_(); }

// Shared member functions.
template <typename Derived> struct xops;

template <typename D, typename T, int N> class xcommon : public xbase {
 public:
  using value_type = std::remove_const_t<T>;
  static constexpr int rank_ = N;
  static constexpr std::size_t rank = N == kDyn ? std::size_t(-1) : std::size_t(N);
  using size_type = size_t;
  using shape_type = shape_t<N>;
  using reference = T&;
  using const_reference = const T&;

  D& self() { return static_cast<D&>(*this); }
  const D& self() const { return static_cast<const D&>(*this); }

  size_t dimension() const { return self().layout_info_().shape.size(); }

  // Assignment of elements from an expression or scalar, with broadcasting.
  template <typename E> void assign_elements(const E& e) {
    const layout_info l = self().layout_info_();
    auto* p = self().ptr_();
    if constexpr (is_x<E>) {
      const layout_info r = broadcast_layout(fit_layout(e.layout_info_(), l.shape), l.shape);
      std::vector<char> overlap;
      using V = typename E::value_type;
      // Evaluate first: the operands may share elements.
      std::unique_ptr<V[]> tmp(new V[std::max<size_t>(1, prod_shape(l.shape))]);
      size_t k = 0;
      const auto* q = e.ptr_();
      for_each_offset(r, [&](std::ptrdiff_t o) { tmp[k++] = q[o]; });
      k = 0;
      for_each_offset(l, [&](std::ptrdiff_t o) { p[o] = conv<value_type>(tmp[k++]); });
    } else {
      const value_type v = conv<value_type>(e);
      for_each_offset(l, [&](std::ptrdiff_t o) { p[o] = v; });
    }
  }
  static layout_info fit_layout(layout_info l, const svector& target) {
    // Drop surplus leading dimensions of length one.
    while (l.shape.size() > target.size() && l.shape[0] == 1) {
      layout_info r;
      r.tables = l.tables;
      for (size_t d = 1; d < l.shape.size(); ++d) {
        r.shape.push_back(l.shape[d]);
        r.strides[d - 1] = l.strides[d];
        r.table[d - 1] = l.table[d];
      }
      l = r;
    }
    return l;
  }
};

template <typename T> struct nd_ref_index {};

template <typename L> std::ptrdiff_t index_offset(const L& l, const size_t* idx, size_t n) {
  // Missing indices are zero on the left; surplus ones on the left are dropped.
  const size_t d = l.shape.size();
  std::ptrdiff_t o = 0;
  for (size_t k = 0; k < d; ++k) {
    if (n < d && k < d - n) { o += l.off(k, 0); continue; }
    o += l.off(k, idx[n >= d ? k + (n - d) : k - (d - n)]);
  }
  return o;
}

#define MINIXT_ACCESS(CT, CONSTNESS)                                                                       \
  template <typename... I> CT& operator()(I... i) CONSTNESS {                                             \
    const size_t idx[sizeof...(I) + 1] = {size_t(i)..., 0};                                                \
    return ptr_()[index_offset(lay_(), idx, sizeof...(I))];                                                \
  }                                                                                                        \
  template <typename... I> CT& at(I... i) CONSTNESS { return (*this)(i...); }                             \
  template <typename... I> CT& unchecked(I... i) CONSTNESS { return (*this)(i...); }                      \
  template <typename I> requires std::is_integral_v<I> CT& operator[](I i) CONSTNESS { return (*this)(i); } \
  template <size_t K> CT& operator[](const std::array<size_t, K>& a) CONSTNESS {                          \
    return ptr_()[index_offset(lay_(), a.data(), K)];                                                      \
  }                                                                                                        \
  CT& operator[](const svector& a) CONSTNESS { return ptr_()[index_offset(lay_(), a.data(), a.size())]; } \
  CT& operator[](const std::vector<size_t>& a) CONSTNESS { return ptr_()[index_offset(lay_(), a.data(), a.size())]; } \
  template <typename It> CT& element(It b, It e) CONSTNESS {                                              \
    svector a(b, e);                                                                                       \
    return (*this)[a];                                                                                     \
  }                                                                                                        \
  CT& flat(size_t k) CONSTNESS { return *(begin() + k); }                                                 \
  CT& front() CONSTNESS { return *begin(); }                                                              \
  CT& back() CONSTNESS { return *(begin() + (size() - 1)); }

#define MINIXT_COMPOUND(OP)                                                                     \
  template <typename E> auto operator OP##=(const E& e)->decltype(*this) {                      \
    static_assert(is_x<E> || is_scalar_v<E>);                                                   \
    this->assign_elements(*this OP e);                                                          \
    return *this;                                                                               \
  }
#define MINIXT_COMPOUNDS \
  MINIXT_COMPOUND(+) MINIXT_COMPOUND(-) MINIXT_COMPOUND(*) MINIXT_COMPOUND(/) MINIXT_COMPOUND(&) MINIXT_COMPOUND(|) MINIXT_COMPOUND(^)

// Nested initializer lists.
template <typename T, int N> struct nested { using type = std::initializer_list<typename nested<T, N - 1>::type>; };
template <typename T> struct nested<T, 1> { using type = std::initializer_list<T>; };
template <typename T> struct nested<T, 0> { struct none {}; using type = none; };
template <typename T> struct nested<T, kDyn> { struct none {}; using type = none; };

template <typename T, int N, layout_type L> class container : public xcommon<container<T, N, L>, T, N> {
  using Base = xcommon<container<T, N, L>, T, N>;

 public:
  using value_type = T;
  using shape_type = shape_t<N>;
  using iterator = T*;
  using const_iterator = const T*;
  static constexpr layout_type static_layout = L;

  container() : shape_(to_shape<N>(svector(N == kDyn ? 0 : N, 0))) { alloc_(N <= 0 ? 1 : 0); set_strides_(); }
  container(const container& o) : shape_(o.shape_) { alloc_(o.n_); set_strides_(); std::copy_n(o.p_.get(), n_, p_.get()); }
  container(container&& o) noexcept : shape_(o.shape_), p_(std::move(o.p_)), n_(o.n_), l_(o.l_) { o.clear_(); }
  explicit container(const shape_type& s) : shape_(s) { alloc_(prod_(s)); set_strides_(); }
  container(const shape_type& s, const T& v) : shape_(s) { alloc_(prod_(s)); set_strides_(); std::fill_n(p_.get(), n_, v); }
  explicit container(const shape_type& s, layout_type) : container(s) {}
  container(typename nested<T, N>::type l) requires(N > 0) {
    svector s(static_cast<size_t>(N), 0);
    nested_shape_<N>(l, s, 0);
    shape_ = to_shape<N>(s);
    alloc_(prod_shape(s));
    set_strides_();
    size_t k = 0;
    nested_fill_<N>(l, k);
  }
  container(std::initializer_list<T> l) requires(N == kDyn) {
    shape_ = svector{l.size()};
    alloc_(l.size()); set_strides_();
    std::copy(l.begin(), l.end(), p_.get());
  }
  container(const T& v) requires(N == 0) { alloc_(1); p_[0] = v; }
  template <typename E> requires(is_x<E> && !std::is_same_v<std::decay_t<E>, container>)
  container(const E& e) : container() { from_(e); }
  container& operator=(const container& o) { if (this != &o) { container c(o); *this = std::move(c); } return *this; }
  container& operator=(container&& o) noexcept {
    if (this != &o) { shape_ = o.shape_; p_ = std::move(o.p_); n_ = o.n_; l_ = o.l_; o.clear_(); }
    return *this;
  }
  template <typename E> requires(is_x<E> && !std::is_same_v<std::decay_t<E>, container>)
  container& operator=(const E& e) { from_(e); return *this; }
  template <typename S> requires(is_scalar_v<S>) container& operator=(const S& s) { this->assign_elements(s); return *this; }
  static container from_shape(const shape_type& s) { return container(s); }
  template <typename S> static container from_shape(const S& s) { return container(to_shape<N>(s)); }

  template <typename S> void resize(const S& s, bool = false) { resize_(to_shape<N>(s)); }
  void resize(const shape_type& s, bool = false) { resize_(s); }
  template <typename S> container& reshape(const S& s) { reshape_(to_shape<N>(s)); return *this; }
  container& reshape(const shape_type& s) { reshape_(s); return *this; }

  const shape_type& shape() const { return shape_; }
  size_t shape(size_t i) const { return shape_[i]; }
  size_t size() const { return n_; }
  bool empty() const { return n_ == 0; }
  T* data() { return p_.get(); }
  const T* data() const { return p_.get(); }
  std::array<std::ptrdiff_t, N == kDyn ? 1 : (N > 0 ? N : 1)> strides() const {
    std::array<std::ptrdiff_t, N == kDyn ? 1 : (N > 0 ? N : 1)> r{};
    for (size_t i = 0; i < r.size(); ++i) r[i] = shape_[i] == 1 ? 0 : l_.strides[i];
    return r;
  }
  layout_type layout() const { return L; }
  void fill(const T& v) { std::fill_n(p_.get(), n_, v); }
  template <typename E> void assign(const E& e) { *this = e; }
  T* begin() { return p_.get(); } T* end() { return p_.get() + n_; }
  const T* begin() const { return p_.get(); } const T* end() const { return p_.get() + n_; }
  const T* cbegin() const { return p_.get(); } const T* cend() const { return p_.get() + n_; }
  auto& storage() { return *this; }
  const auto& storage() const { return *this; }
  operator T() const requires(N == 0) { return p_[0]; }
  T* ptr_() { return p_.get(); }
  const T* ptr_() const { return p_.get(); }
  const layout_info& layout_info_() const { return l_; }
  const layout_info& lay_() const { return l_; }
  std::shared_ptr<const void> owner_() const { return nullptr; }
  std::shared_ptr<const void> release_() { return std::shared_ptr<const void>(p_.release(), [](const void* p) { delete[] static_cast<const T*>(p); }); }
  MINIXT_ACCESS(T, )
  MINIXT_ACCESS(const T, const)
  MINIXT_COMPOUNDS

 private:
  static size_t prod_(const shape_type& s) { size_t r = 1; for (size_t x : s) r *= x; return r; }
  void alloc_(size_t n) { n_ = n; p_.reset(new T[n]()); if constexpr (std::is_floating_point_v<T> || (is_cplx<T>::value && !MINIXT_ZERO_CPLX)) poison_(); }
  void poison_() {
    // Elements are unspecified after a resize: make use of them visible.
    if constexpr (is_cplx<T>::value) { using R = typename T::value_type; std::fill_n(p_.get(), n_, T(R(7.7e33), R(-7.7e33))); }
    else std::fill_n(p_.get(), n_, T(7.7e33));
  }
  void clear_() { shape_ = to_shape<N>(svector(N == kDyn ? 0 : N, 0)); n_ = 0; p_.reset(new T[1]()); if (N <= 0) n_ = 1; set_strides_(); }
  void set_strides_() {
    l_ = layout_info();
    l_.shape = svector(shape_.begin(), shape_.end());
    std::ptrdiff_t s = 1;
    const size_t n = l_.shape.size();
    for (size_t k = 0; k < n; ++k) {
      const size_t d = L == layout_type::column_major ? k : n - 1 - k;
      l_.strides[d] = s;
      s *= l_.shape[d];
    }
  }
  void resize_(const shape_type& s) {
    if (s == shape_ && p_) return;
    const size_t n = prod_(s);
    shape_ = s;
    if (n != n_ || !p_) alloc_(n);
    set_strides_();
  }
  void reshape_(const shape_type& s) {
    if (prod_(s) != n_) throw std::runtime_error("mini-xt: cannot reshape");
    shape_ = s; set_strides_();
  }
  template <typename E> void from_(const E& e) {
    const layout_info l = e.layout_info_();
    svector s = l.shape;
    if constexpr (N != kDyn) {
      while (s.size() < size_t(N)) { svector t{1}; for (size_t x : s) t.push_back(x); s = t; }
      if (s.size() > size_t(N)) throw std::runtime_error("mini-xt: too many dimensions");
    }
    container c(to_shape<N>(s));
    c.assign_elements(e);
    *this = std::move(c);
  }
  template <int K, typename X> static void nested_shape_(const X& l, svector& s, size_t d) {
    s[d] = l.size();
    if constexpr (K > 1) { if (l.size()) nested_shape_<K - 1>(*l.begin(), s, d + 1); }
  }
  template <int K, typename X> void nested_fill_(const X& l, size_t& k) {
    for (const auto& x : l) {
      if constexpr (K > 1) nested_fill_<K - 1>(x, k);
      else this->flat_row_(k++) = x;
    }
  }
  T& flat_row_(size_t k) {
    std::ptrdiff_t o = 0;
    for (size_t d = l_.shape.size(); d-- > 0;) { o += l_.strides[d] * std::ptrdiff_t(k % l_.shape[d]); k /= l_.shape[d]; }
    return p_[o];
  }
  shape_type shape_{};
  std::unique_ptr<T[]> p_;
  size_t n_ = 0;
  layout_info l_;
};

template <typename T, int N> class xview : public xcommon<xview<T, N>, T, N> {
 public:
  using value_type = std::remove_const_t<T>;
  using shape_type = shape_t<N>;
  using iterator = xiter<T>;
  using const_iterator = xiter<const T>;
  xview() = default;
  xview(T* p, layout_info l, std::shared_ptr<const void> owner = nullptr)
      : p_(p), l_(std::move(l)), owner_h_(std::move(owner)), shape_(to_shape<N>(l_.shape)) {}
  xview(const xview&) = default;
  // A view of non-constant elements can be used as a view of constant ones.
  template <typename U> requires(std::is_same_v<const U, T>) xview(const xview<U, N>& o) : xview(o.ptr_(), o.layout_info_(), o.owner_()) {}
  xview& operator=(const xview& o) { this->assign_elements(o); return *this; }
  template <typename E> requires(is_x<E> || is_scalar_v<E>) xview& operator=(const E& e) { this->assign_elements(e); return *this; }
  const shape_type& shape() const { return shape_; }
  size_t shape(size_t i) const { return shape_[i]; }
  size_t size() const { return prod_shape(l_.shape); }
  bool empty() const { return size() == 0; }
  T* data() const { return p_; }
  std::array<std::ptrdiff_t, N == kDyn ? 1 : (N > 0 ? N : 1)> strides() const {
    std::array<std::ptrdiff_t, N == kDyn ? 1 : (N > 0 ? N : 1)> r{};
    for (size_t i = 0; i < r.size() && i < l_.shape.size(); ++i) r[i] = l_.shape[i] == 1 ? 0 : l_.strides[i];
    return r;
  }
  void fill(const value_type& v) { this->assign_elements(v); }
  auto storage() const { return *this; }
  iterator begin() const { return iterator(p_, std::make_shared<layout_info>(l_), 0); }
  iterator end() const { return iterator(p_, std::make_shared<layout_info>(l_), size()); }
  const_iterator cbegin() const { return const_iterator(p_, std::make_shared<layout_info>(l_), 0); }
  const_iterator cend() const { return const_iterator(p_, std::make_shared<layout_info>(l_), size()); }
  operator value_type() const requires(N == 0) { return *p_; }
  // Pointer to elements; const for views of temporaries too.
  T* ptr_() const { return p_; }
  const layout_info& layout_info_() const { return l_; }
  const layout_info& lay_() const { return l_; }
  std::shared_ptr<const void> owner_() const { return owner_h_; }
  MINIXT_ACCESS(T, const)
  MINIXT_COMPOUNDS
  // Re-seat (used for spans, where assignment of a span re-seats in xtensor's adaptor).
  void reset_(const xview& o) { p_ = o.p_; l_ = o.l_; owner_h_ = o.owner_h_; shape_ = o.shape_; }

 private:
  T* p_ = nullptr;
  layout_info l_;
  std::shared_ptr<const void> owner_h_;
  shape_type shape_{};
};

template <typename E> using elem_t = std::conditional_t<std::is_const_v<std::remove_pointer_t<decltype(std::declval<E&>().ptr_())>>,
                                                        const typename std::decay_t<E>::value_type, typename std::decay_t<E>::value_type>;
template <typename E> constexpr int rank_v = std::decay_t<E>::rank_;

// Makes a view of all elements of a container or view; keeps temporaries alive.
template <typename E> auto as_view(E&& e) {
  using D = std::decay_t<E>;
  if constexpr (std::is_lvalue_reference_v<E>) {
    return xview<elem_t<std::remove_reference_t<E>>, rank_v<E>>(e.ptr_(), e.layout_info_(), e.owner_());
  } else {
    if constexpr (requires(D d) { d.release_(); }) {
      auto* p = const_cast<typename D::value_type*>(e.ptr_());
      layout_info l = e.layout_info_();
      return xview<typename D::value_type, rank_v<E>>(p, l, const_cast<D&>(e).release_());
    } else {
      return xview<elem_t<D>, rank_v<E>>(e.ptr_(), e.layout_info_(), e.owner_());
    }
  }
}

// ---- slices
struct all_slice {};
struct newaxis_slice {};
struct ellipsis_slice {};
inline all_slice all() { return {}; }
inline newaxis_slice newaxis() { return {}; }
inline ellipsis_slice ellipsis() { return {}; }
namespace placeholders { struct xtuph {}; inline constexpr xtuph _{}; }
struct range_slice { std::ptrdiff_t b, e, s; bool hb, he; };
template <typename T> auto rng_val(const T& v) { if constexpr (std::is_same_v<T, placeholders::xtuph>) return std::pair<bool, std::ptrdiff_t>(false, 0); else return std::pair<bool, std::ptrdiff_t>(true, v); }
template <typename A, typename B> range_slice range(const A& a, const B& b) { auto x = rng_val(a), y = rng_val(b); return {x.second, y.second, 1, x.first, y.first}; }
template <typename A, typename B, typename S> range_slice range(const A& a, const B& b, const S& st) { auto x = rng_val(a), y = rng_val(b); return {x.second, y.second, std::ptrdiff_t(st), x.first, y.first}; }
struct keep_slice { std::vector<std::ptrdiff_t> i; };
template <typename C> requires requires(const C& c) { c.begin(); } keep_slice keep(const C& c) { keep_slice k; for (auto x : c) k.i.push_back(x); return k; }
template <typename... I> requires(std::is_integral_v<I> && ...) keep_slice keep(I... i) { return keep_slice{{std::ptrdiff_t(i)...}}; }
struct drop_slice { std::vector<std::ptrdiff_t> i; };
template <typename C> requires requires(const C& c) { c.begin(); } drop_slice drop(const C& c) { drop_slice k; for (auto x : c) k.i.push_back(x); return k; }
template <typename... I> requires(std::is_integral_v<I> && ...) drop_slice drop(I... i) { return drop_slice{{std::ptrdiff_t(i)...}}; }

template <typename S> constexpr int slice_delta() {
  using D = std::decay_t<S>;
  if constexpr (std::is_integral_v<D>) return -1;
  else if constexpr (std::is_same_v<D, newaxis_slice>) return 1;
  else return 0;
}
struct view_builder {
  const layout_info& in;
  layout_info out;
  std::ptrdiff_t base = 0;
  size_t d = 0;
  explicit view_builder(const layout_info& l) : in(l) { out.tables = false; }
  void need() { if (d >= in.shape.size()) throw std::runtime_error("mini-xt: too many slices"); }
  void add(size_t n, std::ptrdiff_t stride, std::shared_ptr<std::vector<std::ptrdiff_t>> t = nullptr) {
    const size_t k = out.shape.size();
    out.shape.push_back(n);
    out.strides[k] = stride;
    if (t) { out.table[k] = t; out.tables = true; }
  }
  template <typename I> requires std::is_integral_v<I> void slice(I i) {
    need();
    std::ptrdiff_t k = std::ptrdiff_t(i);
    if (std::is_signed_v<I> && k < 0) k += in.shape[d];
    base += in.off(d, size_t(k));
    ++d;
  }
  void slice(all_slice) { need(); add(in.shape[d], in.strides[d], in.table[d]); ++d; }
  void slice(newaxis_slice) { add(1, 0); }
  void slice(range_slice r) {
    need();
    const std::ptrdiff_t n = in.shape[d];
    std::ptrdiff_t b = r.hb ? r.b : (r.s > 0 ? 0 : n - 1), e = r.he ? r.e : (r.s > 0 ? n : -1);
    if (r.hb && b < 0) b += n;
    if (r.he && e < 0) e += n;
    if (r.s > 0) { b = std::min(b, n); e = std::min(e, n); }
    const size_t cnt = r.s > 0 ? (e > b ? (e - b + r.s - 1) / r.s : 0) : (b > e ? (b - e - r.s - 1) / -r.s : 0);
    if (in.table[d]) {
      auto t = std::make_shared<std::vector<std::ptrdiff_t>>();
      for (size_t i = 0; i < cnt; ++i) t->push_back(in.off(d, size_t(b + std::ptrdiff_t(i) * r.s)));
      add(cnt, 0, t);
    } else {
      base += b * in.strides[d];
      add(cnt, r.s * in.strides[d]);
    }
    ++d;
  }
  void slice(const keep_slice& k) {
    need();
    auto t = std::make_shared<std::vector<std::ptrdiff_t>>();
    for (std::ptrdiff_t i : k.i) {
      if (i < 0) i += in.shape[d];
      if (size_t(i) >= in.shape[d]) throw std::runtime_error("mini-xt: keep index out of range");
      t->push_back(in.off(d, size_t(i)));
    }
    add(k.i.size(), 0, t);
    ++d;
  }
  void slice(const drop_slice& k) {
    need();
    keep_slice r;
    for (size_t i = 0; i < in.shape[d]; ++i) if (std::find(k.i.begin(), k.i.end(), std::ptrdiff_t(i)) == k.i.end()) r.i.push_back(i);
    slice(r);
  }
  void rest() { while (d < in.shape.size()) slice(all_slice()); }
};

template <typename E, typename... S> auto view(E&& e, S&&... s) {
  static_assert(is_x<E>);
  auto v = as_view(std::forward<E>(e));
  constexpr int kDelta = (0 + ... + slice_delta<S>());
  constexpr int kN = rank_v<E> == kDyn ? kDyn : rank_v<E> + kDelta;
  view_builder b(v.layout_info_());
  (b.slice(s), ...);
  b.rest();
  return xview<std::remove_pointer_t<decltype(v.ptr_())>, kN>(v.ptr_() + b.base, std::move(b.out), v.owner_());
}
template <typename E, typename... S> auto strided_view(E&& e, S&&... s) { return view(std::forward<E>(e), std::forward<S>(s)...); }
template <typename E> auto row(E&& e, std::ptrdiff_t i) { return view(std::forward<E>(e), i, all()); }
template <typename E> auto col(E&& e, std::ptrdiff_t i) { return view(std::forward<E>(e), all(), i); }

// Views of real and imaginary parts of complex elements.
template <typename T, int N> auto part_view(xview<T, N> v, int part) {
  using C = std::remove_const_t<T>;
  using R = std::conditional_t<std::is_const_v<T>, const typename C::value_type, typename C::value_type>;
  layout_info l = v.layout_info_();
  for (size_t d = 0; d < l.shape.size(); ++d) {
    l.strides[d] *= 2;
    if (l.table[d]) { auto t = std::make_shared<std::vector<std::ptrdiff_t>>(*l.table[d]); for (auto& x : *t) x *= 2; l.table[d] = t; }
  }
  return xview<R, N>(reinterpret_cast<R*>(v.ptr_()) + part, l, v.owner_());
}

// ---- element-wise functions
template <typename E> svector shp(const E& e) { return e.layout_info_().shape; }
template <typename F, typename E> auto map1(const E& e, F f) {
  using V = typename std::decay_t<E>::value_type;
  using R = std::decay_t<decltype(f(std::declval<V>()))>;
  container<R, rank_v<E>> r(to_shape<rank_v<E>>(shp(e)));
  R* q = r.data();
  const auto* p = e.ptr_();
  for_each_offset(e.layout_info_(), [&](std::ptrdiff_t o) { *q++ = f(V(p[o])); });
  return r;
}
template <typename F, typename A, typename B> auto map2(const A& a, const B& b, F f) {
  if constexpr (is_x<A> && is_x<B>) {
    using VA = typename A::value_type; using VB = typename B::value_type;
    using R = std::decay_t<decltype(f(std::declval<VA>(), std::declval<VB>()))>;
    constexpr int N = max_rank(rank_v<A>, rank_v<B>);
    const svector s = broadcast_shapes(shp(a), shp(b));
    container<R, N> r(to_shape<N>(s));
    const layout_info la = broadcast_layout(a.layout_info_(), s), lb = broadcast_layout(b.layout_info_(), s);
    const size_t n = s.size(), total = prod_shape(s);
    size_t idx[kMaxDim] = {};
    R* q = r.data();
    const auto* p1 = a.ptr_(); const auto* p2 = b.ptr_();
    for (size_t k = 0; k < total; ++k) {
      std::ptrdiff_t o1 = 0, o2 = 0;
      for (size_t d = 0; d < n; ++d) { o1 += la.off(d, idx[d]); o2 += lb.off(d, idx[d]); }
      q[k] = f(VA(p1[o1]), VB(p2[o2]));
      for (size_t d = n; d-- > 0;) { if (++idx[d] < s[d]) break; idx[d] = 0; }
    }
    return r;
  } else if constexpr (is_x<A>) {
    return map1(a, [&](auto x) { return f(x, b); });
  } else {
    return map1(b, [&](auto x) { return f(a, x); });
  }
}
template <typename A, typename B> concept Operands = (is_x<A> && (is_x<B> || is_scalar_v<B>)) || (is_scalar_v<A> && is_x<B>);

#define MINIXT_ARITH(OP)                                                        \
  template <typename A, typename B> requires Operands<A, B>                     \
  auto operator OP(const A& a, const B& b) {                                    \
    return map2(a, b, [](auto x, auto y) {                                      \
      using P = promo_t<decltype(x), decltype(y)>;                              \
      if constexpr (is_cplx<P>::value && !is_cplx<decltype(x)>::value) return P(typename P::value_type(x) OP P(conv<P>(y)));   \
      else if constexpr (is_cplx<P>::value && !is_cplx<decltype(y)>::value) return P(conv<P>(x) OP typename P::value_type(y)); \
      else return P(conv<P>(x) OP conv<P>(y));                                  \
    });                                                                         \
  }
MINIXT_ARITH(+) MINIXT_ARITH(-) MINIXT_ARITH(*) MINIXT_ARITH(/)
#define MINIXT_BIT(OP)                                                          \
  template <typename A, typename B> requires Operands<A, B>                     \
  auto operator OP(const A& a, const B& b) { return map2(a, b, [](auto x, auto y) { using R = std::conditional_t<std::is_same_v<decltype(x), bool> && std::is_same_v<decltype(y), bool>, bool, decltype(x OP y)>; return R(x OP y); }); }
MINIXT_BIT(&) MINIXT_BIT(|) MINIXT_BIT(^) MINIXT_BIT(%)
#define MINIXT_LOGIC(OP)                                                        \
  template <typename A, typename B> requires Operands<A, B>                     \
  auto operator OP(const A& a, const B& b) { return map2(a, b, [](auto x, auto y) -> bool { return x OP y; }); }
MINIXT_LOGIC(&&) MINIXT_LOGIC(||) MINIXT_LOGIC(<) MINIXT_LOGIC(>) MINIXT_LOGIC(<=) MINIXT_LOGIC(>=)
template <XExpr A> auto operator!(const A& a) { return map1(a, [](auto x) -> bool { return !x; }); }
template <XExpr A> auto operator~(const A& a) { return map1(a, [](auto x) { return ~x; }); }
template <XExpr A> auto operator-(const A& a) { return map1(a, [](auto x) { return -x; }); }
template <XExpr A> auto operator+(const A& a) { return map1(a, [](auto x) { return +x; }); }

template <typename X, typename Y> bool eq_(const X& x, const Y& y) { using P = promo_t<X, Y>; return conv<P>(x) == conv<P>(y); }
template <typename A, typename B> requires Operands<A, B> auto equal(const A& a, const B& b) { return map2(a, b, [](auto x, auto y) -> bool { return eq_(x, y); }); }
template <typename A, typename B> requires Operands<A, B> auto not_equal(const A& a, const B& b) { return map2(a, b, [](auto x, auto y) -> bool { return !eq_(x, y); }); }
template <XExpr A, XExpr B> bool operator==(const A& a, const B& b) {
  if (!(shp(a) == shp(b))) return false;
  auto e = equal(a, b);
  return std::all_of(e.begin(), e.end(), [](bool x) { return x; });
}
template <XExpr A, XExpr B> bool operator!=(const A& a, const B& b) { return !(a == b); }
#define MINIXT_CMPF(NAME, OP) template <typename A, typename B> requires Operands<A, B> auto NAME(const A& a, const B& b) { return a OP b; }
MINIXT_CMPF(less, <) MINIXT_CMPF(greater, >) MINIXT_CMPF(less_equal, <=) MINIXT_CMPF(greater_equal, >=)

template <XExpr E> auto real(E&& e) {
  if constexpr (is_cplx<typename std::decay_t<E>::value_type>::value) return part_view(as_view(std::forward<E>(e)), 0);
  else return as_view(std::forward<E>(e));
}
template <XExpr E> auto imag(E&& e) {
  if constexpr (is_cplx<typename std::decay_t<E>::value_type>::value) return part_view(as_view(std::forward<E>(e)), 1);
  else return map1(e, [](auto x) { return decltype(x)(0); });
}
template <XExpr E> auto conj(const E& e) { return map1(e, [](auto x) { if constexpr (is_cplx<decltype(x)>::value) return std::conj(x); else return x; }); }
template <XExpr E> auto norm(const E& e) { return map1(e, [](auto x) { return std::norm(x); }); }
template <XExpr E> auto arg(const E& e) { return map1(e, [](auto x) { return std::arg(x); }); }
template <XExpr E> auto angle(const E& e) { return arg(e); }
#define MINIXT_F1(NAME) template <XExpr E> auto NAME(const E& e) { return map1(e, [](auto x) { using std::NAME; return NAME(x); }); }
MINIXT_F1(abs) MINIXT_F1(sqrt) MINIXT_F1(exp) MINIXT_F1(log) MINIXT_F1(log10) MINIXT_F1(sin) MINIXT_F1(cos) MINIXT_F1(tan) MINIXT_F1(atan) MINIXT_F1(floor) MINIXT_F1(ceil) MINIXT_F1(round) MINIXT_F1(fabs)
template <XExpr E> auto square(const E& e) { return map1(e, [](auto x) { return x * x; }); }
template <typename A, typename B> requires Operands<A, B> auto pow(const A& a, const B& b) { return map2(a, b, [](auto x, auto y) { using P = promo_t<decltype(x), decltype(y)>; return P(std::pow(x, y)); }); }
template <int K, XExpr E> auto pow(const E& e) { return map1(e, [](auto x) { decltype(x) r(1); for (int i = 0; i < K; ++i) r *= x; return r; }); }
template <typename A, typename B> requires Operands<A, B> auto atan2(const A& a, const B& b) { return map2(a, b, [](auto x, auto y) { return std::atan2(x, y); }); }
template <typename A, typename B> requires Operands<A, B> auto fmod(const A& a, const B& b) { return map2(a, b, [](auto x, auto y) { return std::fmod(x, y); }); }
template <typename A, typename B> requires Operands<A, B> auto maximum(const A& a, const B& b) { return map2(a, b, [](auto x, auto y) { using P = promo_t<decltype(x), decltype(y)>; return std::max<P>(x, y); }); }
template <typename A, typename B> requires Operands<A, B> auto minimum(const A& a, const B& b) { return map2(a, b, [](auto x, auto y) { using P = promo_t<decltype(x), decltype(y)>; return std::min<P>(x, y); }); }
template <XExpr E> auto isfinite(const E& e) { return map1(e, [](auto x) -> bool { if constexpr (is_cplx<decltype(x)>::value) return std::isfinite(x.real()) && std::isfinite(x.imag()); else return std::isfinite(double(x)); }); }
template <XExpr E> auto isnan(const E& e) { return map1(e, [](auto x) -> bool { if constexpr (is_cplx<decltype(x)>::value) return std::isnan(x.real()) || std::isnan(x.imag()); else return std::isnan(double(x)); }); }
template <XExpr E> auto isinf(const E& e) { return map1(e, [](auto x) -> bool { if constexpr (is_cplx<decltype(x)>::value) return std::isinf(x.real()) || std::isinf(x.imag()); else return std::isinf(double(x)); }); }
template <typename T, XExpr E> auto cast(const E& e) { return map1(e, [](auto x) -> T { return conv<T>(x); }); }
template <XExpr E> auto eval(const E& e) { return map1(e, [](auto x) { return x; }); }
template <typename F> auto vectorize(F f) { return [f](const auto&... a) { if constexpr (sizeof...(a) == 1) return map1(a..., f); else return map2(a..., f); }; }

template <XExpr E> bool all(const E& e) { auto b = map1(e, [](auto x) -> bool { return x != decltype(x)(0); }); return std::all_of(b.begin(), b.end(), [](bool x) { return x; }); }
template <XExpr E> bool any(const E& e) { auto b = map1(e, [](auto x) -> bool { return x != decltype(x)(0); }); return std::any_of(b.begin(), b.end(), [](bool x) { return x; }); }
template <XExpr A, XExpr B> bool allclose(const A& a, const B& b, double rtol = 1e-5, double atol = 1e-8, bool = false) {
  auto r = map2(a, b, [&](auto x, auto y) -> bool { return std::abs(x - y) <= atol + rtol * std::abs(y) || x == y; });
  return std::all_of(r.begin(), r.end(), [](bool x) { return x; });
}
template <typename C, typename A, typename B> requires(is_x<C>) auto where(const C& c, const A& a, const B& b) {
  auto ones = map1(c, [](auto x) -> bool { return x != decltype(x)(0); });
  if constexpr (is_x<A> && is_x<B>) {
    using P = promo_t<typename A::value_type, typename B::value_type>;
    auto pa = map2(ones, a, [](bool m, auto x) { return m ? conv<P>(x) : P(0); });
    auto pb = map2(ones, b, [](bool m, auto x) { return m ? P(0) : conv<P>(x); });
    return map2(map2(ones, pa, [](bool m, P x) { return std::pair<bool, P>(m, x); }), pb, [](std::pair<bool, P> x, P y) { return x.first ? x.second : y; });
  } else if constexpr (is_x<A>) {
    using P = promo_t<typename A::value_type, B>;
    return map2(ones, a, [&](bool m, auto x) { return m ? conv<P>(x) : conv<P>(b); });
  } else if constexpr (is_x<B>) {
    using P = promo_t<A, typename B::value_type>;
    return map2(ones, b, [&](bool m, auto x) { return m ? conv<P>(a) : conv<P>(x); });
  } else {
    using P = promo_t<A, B>;
    return map1(ones, [&](bool m) { return m ? conv<P>(a) : conv<P>(b); });
  }
}
// Indices of non-zero elements, per dimension.
template <XExpr E> std::vector<std::vector<size_t>> where(const E& e) {
  const svector s = shp(e);
  std::vector<std::vector<size_t>> r(s.size());
  auto c = map1(e, [](auto x) -> bool { return x != decltype(x)(0); });
  for (size_t k = 0; k < c.size(); ++k) {
    if (!c.data()[k]) continue;
    size_t q = k, idx[kMaxDim];
    for (size_t d = s.size(); d-- > 0;) { idx[d] = q % s[d]; q /= s[d]; }
    for (size_t d = 0; d < s.size(); ++d) r[d].push_back(idx[d]);
  }
  return r;
}
template <XExpr E> std::vector<std::vector<size_t>> nonzero(const E& e) { return where(e); }
template <XExpr E> std::vector<svector> argwhere(const E& e) {
  auto w = where(e);
  std::vector<svector> r(w.empty() ? 0 : w[0].size());
  for (auto& d : w) for (size_t i = 0; i < d.size(); ++i) r[i].push_back(d[i]);
  return r;
}
template <typename V> xtensor<size_t, 1> flatten_indices(const V& idx) {
  std::vector<size_t> f;
  for (const auto& i : idx) for (size_t x : i) f.push_back(x);
  xtensor<size_t, 1> r(std::array<size_t, 1>{f.size()});
  std::copy(f.begin(), f.end(), r.begin());
  return r;
}

// ---- masks
template <typename T, int N> class xmask : public xbase {
 public:
  xmask(xview<T, N> v, container<bool, N> m) : v_(std::move(v)), m_(std::move(m)) {}
  template <typename S> requires(is_scalar_v<S>) xmask& operator=(const S& s) { apply([&](T& x, size_t) { x = conv<T>(s); }); return *this; }
  template <typename E> requires(is_x<E>) xmask& operator=(const E& e) {
    container<typename E::value_type, N> c(to_shape<N>(v_.layout_info_().shape));
    c.assign_elements(e);
    apply([&](T& x, size_t k) { x = conv<T>(c.data()[k]); });
    return *this;
  }
  template <typename S> requires(is_scalar_v<S>) xmask& operator+=(const S& s) { apply([&](T& x, size_t) { x += conv<T>(s); }); return *this; }
  template <typename S> requires(is_scalar_v<S>) xmask& operator*=(const S& s) { apply([&](T& x, size_t) { x *= conv<T>(s); }); return *this; }
  void fill(const T& v) { *this = v; }

 private:
  template <typename F> void apply(F f) {
    size_t k = 0;
    T* p = v_.ptr_();
    for_each_offset(v_.layout_info_(), [&](std::ptrdiff_t o) { if (m_.data()[k]) f(p[o], k); ++k; });
  }
  xview<T, N> v_;
  container<bool, N> m_;
};
template <typename E, XExpr M> auto masked_view(E&& e, const M& m) {
  auto v = as_view(std::forward<E>(e));
  constexpr int N = rank_v<E>;
  container<bool, N> b(to_shape<N>(v.layout_info_().shape));
  b.assign_elements(map1(m, [](auto x) -> bool { return x != decltype(x)(0); }));
  using T = std::remove_pointer_t<decltype(v.ptr_())>;
  return xmask<T, N>(v, std::move(b));
}
template <typename E, XExpr M> auto filtration(E&& e, const M& m) { return masked_view(std::forward<E>(e), m); }
template <typename E, XExpr M> auto filter(E&& e, const M& m) {
  using V = typename std::decay_t<E>::value_type;
  auto b = map1(m, [](auto x) -> bool { return x != decltype(x)(0); });
  auto c = map1(e, [](auto x) { return x; });
  std::vector<V> r;
  for (size_t k = 0; k < c.size(); ++k) if (b.data()[k]) r.push_back(c.data()[k]);
  xtensor<V, 1> t(std::array<size_t, 1>{r.size()});
  std::copy(r.begin(), r.end(), t.begin());
  return t;
}

// ---- reductions
namespace evaluation_strategy { struct immediate_type {}; struct lazy_type {}; inline constexpr immediate_type immediate{}; inline constexpr lazy_type lazy{}; }
struct keep_dims_type {};
inline constexpr keep_dims_type keep_dims{};
template <typename R, typename E, typename I, typename F> container<R, 0> reduce0(const E& e, I init, F f) {
  R acc = init;
  const auto* p = e.ptr_();
  for_each_offset(e.layout_info_(), [&](std::ptrdiff_t o) { acc = f(acc, p[o]); });
  return container<R, 0>(acc);
}
template <int K, typename E, typename Red> auto reduce_axes(const E& e, std::array<std::ptrdiff_t, K> axes, Red red) {
  using V = typename E::value_type;
  using R = decltype(red(std::declval<const std::vector<V>&>()));
  constexpr int N = rank_v<E> == kDyn ? kDyn : rank_v<E> - K;
  const svector s = shp(e);
  bool drop[kMaxDim] = {};
  for (auto a : axes) drop[a < 0 ? a + s.size() : a] = true;
  svector out;
  for (size_t d = 0; d < s.size(); ++d) if (!drop[d]) out.push_back(s[d]);
  container<R, N> r(to_shape<N>(out));
  std::vector<std::vector<V>> vals(prod_shape(out));
  const auto c = map1(e, [](auto x) { return x; });
  for (size_t k = 0; k < c.size(); ++k) {
    size_t q = k, idx[kMaxDim];
    for (size_t d = s.size(); d-- > 0;) { idx[d] = q % s[d]; q /= s[d]; }
    size_t o = 0;
    for (size_t d = 0; d < s.size(); ++d) if (!drop[d]) o = o * s[d] + idx[d];
    vals[o].push_back(c.data()[k]);
  }
  for (size_t k = 0; k < vals.size(); ++k) r.data()[k] = red(vals[k]);
  return r;
}
struct red_sum { template <typename V> auto operator()(const std::vector<V>& v) const { big_t<V> r(0); for (const auto& x : v) r += conv<big_t<V>>(x); return r; } };
struct red_nansum { template <typename V> auto operator()(const std::vector<V>& v) const { big_t<V> r(0); for (const auto& x : v) { if (x == x) r += conv<big_t<V>>(x); } return r; } };
struct red_prod { template <typename V> auto operator()(const std::vector<V>& v) const { big_t<V> r(1); for (const auto& x : v) r *= conv<big_t<V>>(x); return r; } };
struct red_mean { template <typename V> auto operator()(const std::vector<V>& v) const { using R = std::conditional_t<is_cplx<V>::value, std::complex<double>, double>; R r(0); for (const auto& x : v) r += conv<R>(x); return R(r / double(v.size())); } };
struct red_max { template <typename V> V operator()(const std::vector<V>& v) const { V r = std::numeric_limits<V>::lowest(); for (const auto& x : v) r = std::max(r, x); return r; } };
struct red_min { template <typename V> V operator()(const std::vector<V>& v) const { V r = std::numeric_limits<V>::max(); for (const auto& x : v) r = std::min(r, x); return r; } };
struct red_var { template <typename V> double operator()(const std::vector<V>& v) const { const double m = red_mean()(v); double s = 0; for (const auto& x : v) s += (x - m) * (x - m); return s / v.size(); } };
struct red_std { template <typename V> double operator()(const std::vector<V>& v) const { return std::sqrt(red_var()(v)); } };
struct red_median { template <typename V> V operator()(std::vector<V> v) const { if (v.empty()) return V(); std::sort(v.begin(), v.end()); const size_t n = v.size(); return n % 2 ? v[n / 2] : V((v[n / 2 - 1] + v[n / 2]) / 2); } };
#define MINIXT_RED(NAME, RED)                                                                                              \
  template <XExpr E, typename... O> requires(!(std::is_integral_v<O> || ...)) auto NAME(const E& e, O...) {                 \
    const auto c = map1(e, [](auto x) { return x; });                                                                     \
    std::vector<typename E::value_type> v(c.size());                                                                       \
    std::copy(c.begin(), c.end(), v.begin());                                                                              \
    auto r = RED()(v);                                                                                                     \
    return container<decltype(r), 0>(r);                                                                                   \
  }                                                                                                                        \
  template <XExpr E, typename I, typename... O> requires std::is_integral_v<I> auto NAME(const E& e, I axis, O...) { return reduce_axes<1>(e, {std::ptrdiff_t(axis)}, RED()); } \
  template <XExpr E, typename I, size_t K, typename... O> auto NAME(const E& e, const I (&axes)[K], O...) {                \
    std::array<std::ptrdiff_t, K> a{};                                                                                     \
    for (size_t i = 0; i < K; ++i) a[i] = axes[i];                                                                         \
    return reduce_axes<int(K)>(e, a, RED());                                                                               \
  }
MINIXT_RED(sum, red_sum) MINIXT_RED(nansum, red_nansum) MINIXT_RED(prod, red_prod) MINIXT_RED(mean, red_mean)
MINIXT_RED(amax, red_max) MINIXT_RED(amin, red_min) MINIXT_RED(variance, red_var) MINIXT_RED(stddev, red_std)
template <XExpr E> typename E::value_type median(const E& e) {
  const auto c = map1(e, [](auto x) { return x; });
  return red_median()(std::vector<typename E::value_type>(c.begin(), c.end()));
}
template <XExpr E> auto median(const E& e, std::ptrdiff_t axis) { return reduce_axes<1>(e, {axis}, red_median()); }
template <typename T, XExpr E> auto sum(const E& e) { auto r = red_sum()(std::vector<T>()); for (auto x : map1(e, [](auto v) -> T { return conv<T>(v); })) r += x; return container<T, 0>(T(r)); }
template <XExpr E> size_t count_nonzero(const E& e) { size_t n = 0; for (auto x : map1(e, [](auto v) -> bool { return v != decltype(v)(0); })) n += x; return n; }

// ---- construction
template <typename T, size_t K> auto zeros(const std::array<size_t, K>& s) { return container<T, int(K)>(s, T(0)); }
template <typename T, size_t K> auto ones(const std::array<size_t, K>& s) { return container<T, int(K)>(s, T(1)); }
template <typename T, size_t K> auto empty(const std::array<size_t, K>& s) { return container<T, int(K)>(s); }
template <typename T, typename I, size_t K> auto zeros(const I (&l)[K]) { return zeros<T>(shape(l)); }
template <typename T, typename I, size_t K> auto ones(const I (&l)[K]) { return ones<T>(shape(l)); }
template <typename T, typename I, size_t K> auto empty(const I (&l)[K]) { return empty<T>(shape(l)); }
template <typename T> auto zeros(const svector& s) { return container<T, kDyn>(s, T(0)); }
template <typename T> auto ones(const svector& s) { return container<T, kDyn>(s, T(1)); }
template <typename T> auto zeros(const std::vector<size_t>& s) { return container<T, kDyn>(svector(s), T(0)); }
template <typename T> auto ones(const std::vector<size_t>& s) { return container<T, kDyn>(svector(s), T(1)); }
template <XExpr E> auto zeros_like(const E& e) { return map1(e, [](auto x) { return decltype(x)(0); }); }
template <XExpr E> auto ones_like(const E& e) { return map1(e, [](auto x) { return decltype(x)(1); }); }
template <XExpr E> auto empty_like(const E& e) { return zeros_like(e); }
template <XExpr E, typename V> auto full_like(const E& e, V v) { return map1(e, [&](auto x) { return decltype(x)(v); }); }
template <typename T, typename A, typename B> auto arange(A a, B b) { const size_t n = b > a ? size_t(std::ceil(double(b - a))) : 0; xtensor<T, 1> r(std::array<size_t, 1>{n}); for (size_t i = 0; i < n; ++i) r(i) = T(a) + T(i); return r; }
template <typename T, typename B> auto arange(B b) { return arange<T>(B(0), b); }
template <typename T> auto linspace(T a, T b, size_t n = 50) { xtensor<T, 1> r(std::array<size_t, 1>{n}); for (size_t i = 0; i < n; ++i) r(i) = n > 1 ? a + (b - a) * T(i) / T(n - 1) : a; return r; }

inline layout_info dense_layout(const svector& s) {
  layout_info l;
  l.shape = s;
  std::ptrdiff_t k = 1;
  for (size_t d = s.size(); d-- > 0;) { l.strides[d] = k; k *= s[d]; }
  return l;
}
struct no_ownership {};
struct acquire_ownership {};
template <typename C> concept PlainVec = !is_x<C> && requires(C& c) { c.data(); c.size(); };
template <PlainVec C> auto adapt(C& c) {
  using T = std::remove_reference_t<decltype(*c.data())>;
  return xview<T, 1>(c.data(), dense_layout(svector{c.size()}));
}
template <PlainVec C> requires(!std::is_lvalue_reference_v<C>) auto adapt(C&& c) {
  auto h = std::make_shared<C>(std::move(c));
  using T = std::remove_reference_t<decltype(*h->data())>;
  return xview<T, 1>(h->data(), dense_layout(svector{h->size()}), h);
}
template <typename C, size_t K> requires PlainVec<std::remove_reference_t<C>> auto adapt(C&& c, const std::array<size_t, K>& s) {
  using T = std::remove_reference_t<decltype(*c.data())>;
  if constexpr (std::is_lvalue_reference_v<C>) return xview<T, int(K)>(c.data(), dense_layout(svector(s)));
  else { auto h = std::make_shared<std::decay_t<C>>(std::move(c)); return xview<T, int(K)>(h->data(), dense_layout(svector(s)), h); }
}
template <typename C, typename I, size_t K> requires PlainVec<std::remove_reference_t<C>> auto adapt(C&& c, const I (&l)[K]) { return adapt(std::forward<C>(c), shape(l)); }
template <typename C> requires PlainVec<std::remove_reference_t<C>> auto adapt(C&& c, const std::vector<size_t>& s) {
  using T = std::remove_reference_t<decltype(*c.data())>;
  if constexpr (std::is_lvalue_reference_v<C>) return xview<T, kDyn>(c.data(), dense_layout(svector(s)));
  else { auto h = std::make_shared<std::decay_t<C>>(std::move(c)); return xview<T, kDyn>(h->data(), dense_layout(svector(s)), h); }
}
template <typename T, size_t K> auto adapt(T* p, const std::array<size_t, K>& s) { return xview<T, int(K)>(p, dense_layout(svector(s))); }
template <typename T, typename I, size_t K> auto adapt(T* p, const I (&l)[K]) { return adapt(p, shape(l)); }
template <typename T, size_t K> auto adapt(T* p, size_t, no_ownership, const std::array<size_t, K>& s) { return adapt(p, s); }
template <typename T, typename I, size_t K> auto adapt(T* p, size_t, no_ownership, const I (&l)[K]) { return adapt(p, shape(l)); }

// ---- reshaping
template <typename E, size_t K> auto reshape_view(E&& e, const std::array<size_t, K>& s) {
  auto v = as_view(std::forward<E>(e));
  const layout_info dense = dense_layout(v.layout_info_().shape);
  const layout_info& l = v.layout_info_();
  for (size_t d = 0; d < l.shape.size(); ++d)
    if (l.table[d] || (l.shape[d] > 1 && l.strides[d] != dense.strides[d])) throw std::runtime_error("mini-xt: reshape of a strided view");
  if (prod_shape(svector(s)) != prod_shape(l.shape)) throw std::runtime_error("mini-xt: reshape_view");
  return xview<std::remove_pointer_t<decltype(v.ptr_())>, int(K)>(v.ptr_(), dense_layout(svector(s)), v.owner_());
}
template <typename E, typename I, size_t K> auto reshape_view(E&& e, const I (&l)[K]) { return reshape_view(std::forward<E>(e), shape(l)); }
template <typename E> auto flatten(E&& e) {
  auto v = as_view(std::forward<E>(e));
  auto t = std::make_shared<std::vector<std::ptrdiff_t>>();
  for_each_offset(v.layout_info_(), [&](std::ptrdiff_t o) { t->push_back(o); });
  layout_info l;
  l.shape = svector{t->size()};
  l.table[0] = t;
  l.tables = true;
  return xview<std::remove_pointer_t<decltype(v.ptr_())>, 1>(v.ptr_(), l, v.owner_());
}
template <typename E> auto ravel(E&& e) { return flatten(std::forward<E>(e)); }
template <typename E> auto transpose(E&& e) {
  auto v = as_view(std::forward<E>(e));
  const layout_info& l = v.layout_info_();
  layout_info r;
  r.tables = l.tables;
  r.shape = svector(l.shape.size(), 0);
  for (size_t d = 0; d < l.shape.size(); ++d) { const size_t k = l.shape.size() - 1 - d; r.shape[d] = l.shape[k]; r.strides[d] = l.strides[k]; r.table[d] = l.table[k]; }
  return xview<std::remove_pointer_t<decltype(v.ptr_())>, rank_v<E>>(v.ptr_(), r, v.owner_());
}
template <typename E> auto flip(E&& e, size_t axis) {
  auto v = as_view(std::forward<E>(e));
  layout_info l = v.layout_info_();
  auto t = std::make_shared<std::vector<std::ptrdiff_t>>();
  for (size_t i = l.shape[axis]; i-- > 0;) t->push_back(l.off(axis, i));
  l.table[axis] = t;
  l.tables = true;
  return xview<std::remove_pointer_t<decltype(v.ptr_())>, rank_v<E>>(v.ptr_(), l, v.owner_());
}
template <typename E, size_t K> auto broadcast(E&& e, const std::array<size_t, K>& s) {
  auto v = as_view(std::forward<E>(e));
  using T = std::remove_pointer_t<decltype(v.ptr_())>;
  return xview<const T, int(K)>(v.ptr_(), broadcast_layout(v.layout_info_(), svector(s)), v.owner_());
}
template <typename E, typename I, size_t K> auto broadcast(E&& e, const I (&l)[K]) { return broadcast(std::forward<E>(e), shape(l)); }
template <typename E> E& noalias(E& e) { return e; }
template <typename T, int N> xview<T, N> noalias(xview<T, N>&& e) { return e; }
template <XExpr A, XExpr B> auto concatenate(std::tuple<A, B>&& t, size_t axis = 0) {
  const auto& a = std::get<0>(t); const auto& b = std::get<1>(t);
  svector s = shp(a);
  s[axis] += shp(b)[axis];
  container<typename A::value_type, rank_v<A>> r(to_shape<rank_v<A>>(s));
  layout_info l = r.layout_info_();
  layout_info la = l, lb = l;
  la.shape = shp(a); lb.shape = shp(b);
  xview<typename A::value_type, rank_v<A>>(r.data(), la).assign_elements(a);
  xview<typename A::value_type, rank_v<A>>(r.data() + l.strides[axis] * std::ptrdiff_t(shp(a)[axis]), lb).assign_elements(b);
  return r;
}
template <typename... A> auto xtuple(A&&... a) { return std::tuple<std::decay_t<A>...>(std::forward<A>(a)...); }

namespace linalg {
template <typename A, typename B> auto dot(const A& a, const B& b) {
  using P = promo_t<typename A::value_type, typename B::value_type>;
  auto ca = map1(a, [](auto x) { return conv<P>(x); });
  auto cb = map1(b, [](auto x) { return conv<P>(x); });
  const svector sa = shp(a), sb = shp(b);
  const size_t m = sa.size() == 2 ? sa[0] : 1, k = sa.size() == 2 ? sa[1] : sa[0];
  const size_t n = sb.size() == 2 ? sb[1] : 1;
  if ((sb.size() == 2 ? sb[0] : sb[0]) != k) throw std::runtime_error("mini-xt: dot");
  svector so;
  if (sa.size() == 2) so.push_back(m);
  if (sb.size() == 2) so.push_back(n);
  constexpr int N = rank_v<A> == kDyn || rank_v<B> == kDyn ? kDyn : (rank_v<A> == 2) + (rank_v<B> == 2);
  if (so.empty() && N != 0) so.push_back(1);
  container<P, N> r(to_shape<N>(so));
  for (size_t i = 0; i < m; ++i) for (size_t j = 0; j < n; ++j) {
    P s(0);
    for (size_t q = 0; q < k; ++q) s += ca.data()[i * k + q] * cb.data()[q * n + j];
    r.data()[i * n + j] = s;
  }
  return r;
}
template <typename A> auto norm(const A& a, int = 2) { double s = 0; for (auto x : map1(a, [](auto v) { return double(std::norm(v)); })) s += x; return typename real_of<typename A::value_type>::type(std::sqrt(s)); }
template <typename A, typename B> auto outer(const A& a, const B& b) {
  auto ca = map1(a, [](auto x) { return x; }); auto cb = map1(b, [](auto x) { return x; });
  using P = promo_t<typename A::value_type, typename B::value_type>;
  container<P, 2> r(std::array<size_t, 2>{ca.size(), cb.size()});
  for (size_t i = 0; i < ca.size(); ++i) for (size_t j = 0; j < cb.size(); ++j) r(i, j) = ca.data()[i] * cb.data()[j];
  return r;
}
}  // namespace linalg

template <XExpr E> std::ostream& operator<<(std::ostream& os, const E& e) { os << "{"; for (auto x : map1(e, [](auto v) { return v; })) os << x << ","; return os << "}"; }

}  // namespace xt

namespace aocommon::xt {
template <typename T, size_t N> using UTensor = ::xt::xtensor<T, N>;
template <typename T, size_t N> using Span = ::xt::xview<T, int(N)>;
template <typename T, size_t N> Span<T, N> CreateSpan(T* p, const std::array<size_t, N>& s) { return Span<T, N>(p, ::xt::dense_layout(::xt::svector(s))); }
template <typename T, typename I, size_t N> Span<T, N> CreateSpan(T* p, const I (&l)[N]) { return CreateSpan(p, ::xt::shape(l)); }
template <typename T, int N> Span<T, size_t(N)> CreateSpan(::xt::container<T, N>& t) { return Span<T, size_t(N)>(t.data(), t.layout_info_()); }
template <typename T, int N> Span<const T, size_t(N)> CreateSpan(const ::xt::container<T, N>& t) { return Span<const T, size_t(N)>(t.data(), t.layout_info_()); }
}  // namespace aocommon::xt

#endif
