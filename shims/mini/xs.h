// Small stand-in of xsimd: fixed size batches with plain loops.
#ifndef MINI_XS_H_
#define MINI_XS_H_
#include <array>
#include <cmath>
#include <complex>
#include <cstddef>
#include <type_traits>
namespace xsimd {
struct default_arch {};
template <typename T> struct mini_size { static constexpr std::size_t value = 32 / sizeof(T); };
template <> struct mini_size<std::complex<double>> { static constexpr std::size_t value = 4; };
template <> struct mini_size<std::complex<float>> { static constexpr std::size_t value = 8; };
template <typename T> struct batch_bool { std::array<bool, mini_size<T>::value> v; };
template <typename T> class batch {
 public:
  static constexpr std::size_t size = mini_size<T>::value;
  typedef T value_type;
  batch() = default;
  batch(T x) { v.fill(x); }
  static batch load_aligned(const T* p) { batch r; for (std::size_t i = 0; i < size; ++i) r.v[i] = p[i]; return r; }
  static batch load_unaligned(const T* p) { return load_aligned(p); }
  void store_aligned(T* p) const { for (std::size_t i = 0; i < size; ++i) p[i] = v[i]; }
  void store_unaligned(T* p) const { store_aligned(p); }
  T get(std::size_t i) const { return v[i]; }
  batch operator-() const { batch r; for (std::size_t i = 0; i < size; ++i) r.v[i] = -v[i]; return r; }
#define MINI_XS_OP(op) \
  batch& operator op##=(const batch& o) { for (std::size_t i = 0; i < size; ++i) v[i] op##= o.v[i]; return *this; } \
  friend batch operator op(batch a, const batch& b) { return a op##= b; }
  MINI_XS_OP(+) MINI_XS_OP(-) MINI_XS_OP(*) MINI_XS_OP(/)
#undef MINI_XS_OP
  std::array<T, size> v;
};
template <typename T> struct batch<std::complex<T>> {
  static constexpr std::size_t size = mini_size<std::complex<T>>::value;
  typedef std::complex<T> C;
  static batch load_aligned(const C* p) { batch r; for (std::size_t i = 0; i < size; ++i) r.v[i] = p[i]; return r; }
  static batch load_unaligned(const C* p) { return load_aligned(p); }
  void store_aligned(C* p) const { for (std::size_t i = 0; i < size; ++i) p[i] = v[i]; }
  void store_unaligned(C* p) const { store_aligned(p); }
  std::array<C, size> v;
};
#define MINI_XS_CMP(name, op) template <typename T> batch_bool<T> name(const batch<T>& a, const batch<T>& b) { batch_bool<T> r; for (std::size_t i = 0; i < batch<T>::size; ++i) r.v[i] = a.v[i] op b.v[i]; return r; }
MINI_XS_CMP(gt, >) MINI_XS_CMP(lt, <) MINI_XS_CMP(ge, >=) MINI_XS_CMP(le, <=)
#undef MINI_XS_CMP
template <typename T> batch<T> select(const batch_bool<T>& c, const batch<T>& a, const batch<T>& b) { batch<T> r; for (std::size_t i = 0; i < batch<T>::size; ++i) r.v[i] = c.v[i] ? a.v[i] : b.v[i]; return r; }
template <typename T> batch<T> broadcast(T x) { return batch<T>(x); }
template <typename T> batch<T> arg(const batch<std::complex<T>>& a) { batch<T> r; for (std::size_t i = 0; i < batch<T>::size; ++i) r.v[i] = std::arg(a.v[i]); return r; }
template <typename T> batch<std::complex<T>> polar(const batch<T>& m, const batch<T>& p) { batch<std::complex<T>> r; for (std::size_t i = 0; i < batch<T>::size; ++i) r.v[i] = std::polar(m.v[i], p.v[i]); return r; }
template <typename I, typename G> struct batch_constant {
  static constexpr I get(std::size_t i, std::size_t n) { return G::get(unsigned(i), unsigned(n)); }
};
template <typename I, typename G> constexpr batch_constant<I, G> make_batch_constant() { return {}; }
template <typename T, typename I, typename G> batch<T> swizzle(const batch<T>& a, batch_constant<I, G>) { batch<T> r; for (std::size_t i = 0; i < batch<T>::size; ++i) r.v[i] = a.v[batch_constant<I, G>::get(i, batch<T>::size)]; return r; }
}  // namespace xsimd
#endif
