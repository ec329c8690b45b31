// P01 applying Jones matrices, P02 subtracting weighted models, P09 baseline
// numbering, P10 field requirements, P11 median / units / timers, P12 byte
// order and bit packing.
#include "vpt.h"

#include <cstdint>
#include <thread>

#include "base/Apply.h"
#include "base/SubtractMixed.h"
#include "common/DataConvert.h"
#include "common/Fields.h"
#include "common/Median.h"
#include "common/PrettyUnits.h"
#include "common/Timer.h"
#include "common/baseline_indices.h"

using dp3::base::Baseline;
using dp3::base::const_cursor;
using dp3::base::cursor;
using vpt::Src;
using cd = std::complex<double>;
using cf = std::complex<float>;

// ------------------------------------------------------------ P01 and P02
namespace {

// A strided 3-D layout (correlation, channel, baseline) in any axis order,
// with gaps.
struct Layout {
  size_t stride[3];
  size_t size;
  size_t at(size_t corr, size_t ch, size_t bl) const { return corr * stride[0] + ch * stride[1] + bl * stride[2]; }
};

Layout GenLayout(Src& s, size_t nch, size_t nbl) {
  std::vector<size_t> axes = {0, 1, 2};
  if (s.chance(1, 2)) s.shuffle(axes);
  const size_t n[3] = {4, std::max<size_t>(nch, 1), std::max<size_t>(nbl, 1)};
  Layout l;
  size_t step = 1;
  for (size_t a : axes) {
    if (s.chance(1, 4)) step += s.n(1, 3);
    l.stride[a] = step;
    step *= n[a];
  }
  l.size = step + 1;
  return l;
}

std::vector<Baseline> GenBaselines(Src& s, size_t nbl, size_t nst) {
  std::vector<Baseline> r;
  for (size_t k = 0; k < nbl; ++k) {
    const size_t p = s.n(0, nst - 1);
    r.emplace_back(p, s.chance(1, 4) ? p : s.n(0, nst - 1));
  }
  return r;
}

}  // namespace

PROP("P01.apply", 60000, 800000) {
  const size_t nst = s.n(1, 6), nbl = s.n(0, 6), nch = s.n(0, 5);
  const auto bl = GenBaselines(s, nbl, nst);
  const Layout l = GenLayout(s, nch, nbl);
  const size_t cs[2] = {s.n(1, 2), s.n(16, 18)};
  std::vector<double> coeff(18 * nst + 4, 7.25);
  const double jscale = s.pick({1.0, 1e-3, 1e3});
  for (size_t st = 0; st < nst; ++st)
    for (size_t k = 0; k < 8; ++k) coeff[st * cs[1] + k * cs[0]] = s.sym(jscale);
  auto J = [&](size_t st, size_t k) {
    return cd(coeff[st * cs[1] + 2 * k * cs[0]], coeff[st * cs[1] + (2 * k + 1) * cs[0]]);
  };
  std::vector<cd> data(l.size, cd(99, -99));
  double dscale = s.pick({1.0, 1e6, 1e-6});
  for (size_t b = 0; b < nbl; ++b)
    for (size_t c = 0; c < nch; ++c)
      for (size_t k = 0; k < 4; ++k) data[l.at(k, c, b)] = s.cplx(dscale);
  const std::vector<cd> before = data;
  const std::vector<double> coeff_before = coeff;
  std::vector<cd> want = before;
  std::vector<char> cross(l.size, 0);
  bool any = false;
  for (size_t b = 0; b < nbl; ++b) {
    const size_t p = bl[b].first, q = bl[b].second;
    if (p == q) continue;
    for (size_t c = 0; c < nch; ++c) {
      any = true;
      // J_p V J_q^H
      for (int r = 0; r < 2; ++r)
        for (int t = 0; t < 2; ++t) {
          cd sum = 0;
          for (int m = 0; m < 2; ++m)
            for (int n = 0; n < 2; ++n)
              sum += J(p, 2 * r + m) * before[l.at(2 * m + n, c, b)] * std::conj(J(q, 2 * t + n));
          want[l.at(2 * r + t, c, b)] = sum;
          cross[l.at(2 * r + t, c, b)] = 1;
        }
    }
  }
  s.note("baselines", bl);
  s.note("nchan", nch);
  s.note("strides", std::vector<size_t>(l.stride, l.stride + 3));
  s.note("coeff strides", std::vector<size_t>(cs, cs + 2));
  if (any) s.nontrivial(l.stride[0] == 1 ? "dense" : "strided");
  dp3::base::apply(nbl, nch, const_cursor<Baseline>(bl.data()), const_cursor<double>(coeff.data(), 2, cs),
                   cursor<cd>(data.data(), 3, l.stride));
  const double tol = 1e-12 * jscale * jscale * dscale * 16;
  for (size_t k = 0; k < data.size(); ++k) {
    if (cross[k])
      CHECK_NEAR(data[k], want[k], tol, "element", k);
    else
      CHECK(data[k] == before[k], "auto-correlation or memory outside the data changed, element", k);
  }
  CHECK(coeff == coeff_before, "coefficients changed");
}

PROP("P01.inverse", 40000, 500000) {
  // Applying J and then its inverse restores the visibilities; applying two
  // sets equals applying their product.
  const size_t nst = s.n(2, 5), nbl = s.n(1, 6), nch = s.n(1, 4);
  const auto bl = GenBaselines(s, nbl, nst);
  const size_t cs[2] = {1, 8}, ds[3] = {1, 4, 4 * nch};
  std::vector<double> a(8 * nst), inv(8 * nst), bb(8 * nst), ba(8 * nst);
  auto put = [](std::vector<double>& v, size_t st, size_t k, cd z) {
    v[8 * st + 2 * k] = z.real();
    v[8 * st + 2 * k + 1] = z.imag();
  };
  for (size_t st = 0; st < nst; ++st) {
    cd m[4], m2[4];
    // Diagonally dominant, so well conditioned.
    for (int k = 0; k < 4; ++k) m[k] = s.cplx(0.4) + (k % 3 == 0 ? std::polar(1.5, s.real(0, 6)) : cd(0));
    for (int k = 0; k < 4; ++k) m2[k] = s.cplx(1);
    const cd det = m[0] * m[3] - m[1] * m[2];
    const cd mi[4] = {m[3] / det, -m[1] / det, -m[2] / det, m[0] / det};
    for (int k = 0; k < 4; ++k) {
      put(a, st, k, m[k]);
      put(inv, st, k, mi[k]);
      put(bb, st, k, m2[k]);
      put(ba, st, k, m2[(k / 2) * 2] * m[k % 2] + m2[(k / 2) * 2 + 1] * m[2 + k % 2]);
    }
  }
  std::vector<cd> data(4 * nch * nbl);
  for (cd& d : data) d = s.cplx(1);
  auto run = [&](const std::vector<double>& c, std::vector<cd> d) {
    dp3::base::apply(nbl, nch, const_cursor<Baseline>(bl.data()), const_cursor<double>(c.data(), 2, cs),
                     cursor<cd>(d.data(), 3, ds));
    return d;
  };
  s.note("baselines", bl);
  bool cross = false;
  for (auto& b : bl) cross |= b.first != b.second;
  if (cross) s.nontrivial();
  const auto back = run(inv, run(a, data));
  const auto two = run(bb, run(a, data)), one = run(ba, data);
  for (size_t k = 0; k < data.size(); ++k) {
    CHECK_NEAR(back[k], data[k], 1e-9, "apply then inverse, element", k);
    CHECK_NEAR(two[k], one[k], 1e-9, "composition, element", k);
  }
}

PROP("P02.subtract", 500000, 5000000) {
  const size_t nst = s.n(1, 5), nbl = s.n(0, 6), nch = s.n(0, 5);
  const auto bl = GenBaselines(s, nbl, nst);
  const Layout ld = GenLayout(s, nch, nbl), lm = GenLayout(s, nch, nbl), lw = GenLayout(s, nch, nbl);
  std::vector<cf> data(ld.size, cf(99, -99));
  std::vector<cd> model(lm.size, cd(1e30, 1e30)), weight(lw.size, cd(1e30, -1e30));
  const float fnan = std::nanf("");
  const bool nans = s.chance(1, 4);
  for (size_t b = 0; b < nbl; ++b)
    for (size_t c = 0; c < nch; ++c)
      for (size_t k = 0; k < 4; ++k) {
        data[ld.at(k, c, b)] = cf(s.cplx(10));
        model[lm.at(k, c, b)] = s.cplx(5);
        weight[lw.at(k, c, b)] = s.cplx(1);
        if (nans && s.chance(1, 8)) {
          if (s.b())
            data[ld.at(k, c, b)] = cf(fnan, fnan);
          else
            model[lm.at(k, c, b)] = cd(fnan, fnan);
        }
      }
  const auto before = data;
  std::vector<cd> want(data.begin(), data.end());
  std::vector<char> cross(ld.size, 0);
  double vb = 0, va = 0;
  bool any = false;
  for (size_t b = 0; b < nbl; ++b) {
    if (bl[b].first == bl[b].second) continue;
    for (size_t c = 0; c < nch; ++c)
      for (size_t k = 0; k < 4; ++k) {
        any = true;
        const size_t i = ld.at(k, c, b);
        cross[i] = 1;
        want[i] = cd(before[i]) - weight[lw.at(k, c, b)] * model[lm.at(k, c, b)];
        if (k == 0 || k == 3) {
          if (!std::isnan(std::abs(before[i]))) vb += std::norm(cd(before[i]));
          if (!std::isnan(std::abs(want[i]))) va += std::norm(want[i]);
        }
      }
  }
  s.note("baselines", bl);
  s.note("nchan", nch);
  s.note("data strides", std::vector<size_t>(ld.stride, ld.stride + 3));
  s.note("model strides", std::vector<size_t>(lm.stride, lm.stride + 3));
  s.note("weight strides", std::vector<size_t>(lw.stride, lw.stride + 3));
  if (any) s.nontrivial(nans ? "with NaN" : "finite");
  const auto m0 = model;
  const auto w0 = weight;
  float var_before = 12345, var_after = -1;
  dp3::base::subtract(nbl, nch, const_cursor<Baseline>(bl.data()), cursor<cf>(data.data(), 3, ld.stride),
                      const_cursor<cd>(model.data(), 3, lm.stride), const_cursor<cd>(weight.data(), 3, lw.stride),
                      var_before, var_after);
  for (size_t k = 0; k < data.size(); ++k) {
    if (!cross[k]) {
      CHECK(data[k] == before[k] || (std::isnan(data[k].real()) && std::isnan(before[k].real())),
            "auto-correlation or memory outside the data changed, element", k);
    } else if (std::isnan(std::abs(want[k]))) {
      CHECK(std::isnan(std::abs(data[k])), "NaN lost at", k);
    } else {
      CHECK_NEAR(cd(data[k]), want[k], 4e-6, "element", k);
    }
  }
  CHECK_NEAR(double(var_before), vb, 1e-4 * vb + 1e-6, "sum of squares before");
  CHECK_NEAR(double(var_after), va, 1e-4 * va + 1e-5, "sum of squares after");
  CHECK(std::memcmp(m0.data(), model.data(), model.size() * sizeof(cd)) == 0, "model changed");
  CHECK(std::memcmp(w0.data(), weight.data(), weight.size() * sizeof(cd)) == 0, "weights changed");
}

PROP("P02.exact_model", 300000, 3000000) {
  // Subtracting exactly what was added leaves nothing, and unit-weight
  // subtraction of the negated model is its inverse.
  const size_t nst = s.n(2, 5), nbl = s.n(1, 6), nch = s.n(1, 5);
  const auto bl = GenBaselines(s, nbl, nst);
  const size_t st[3] = {1, 4, 4 * nch};
  std::vector<cf> data(4 * nch * nbl);
  std::vector<cd> model(data.size()), weight(data.size());
  for (size_t k = 0; k < data.size(); ++k) {
    data[k] = cf(float(s.i(-64, 64)), float(s.i(-64, 64)));
    weight[k] = s.pick({cd(1, 0), cd(0, 1), cd(-1, 0), cd(0.5, 0)});
    model[k] = cd(data[k]) / weight[k];
  }
  auto d = data;
  float vb, va;
  dp3::base::subtract(nbl, nch, const_cursor<Baseline>(bl.data()), cursor<cf>(d.data(), 3, st),
                      const_cursor<cd>(model.data(), 3, st), const_cursor<cd>(weight.data(), 3, st), vb, va);
  s.note("baselines", bl);
  bool cross = false;
  for (size_t b = 0; b < nbl; ++b)
    for (size_t k = 0; k < 4 * nch; ++k) {
      const size_t i = b * 4 * nch + k;
      const bool x = bl[b].first != bl[b].second;
      cross |= x;
      CHECK(d[i] == (x ? cf(0) : data[i]), "element", i, "residual", d[i].real());
    }
  if (cross) s.nontrivial();
  CHECK_EQ(va, 0.0f);
}

// ---------------------------------------------------------------- P09
using dp3::common::BaselineOrder;
using dp3::common::ComputeBaseline;
using dp3::common::ComputeBaselineIndex;
using dp3::common::ComputeBaselineList;
using dp3::common::ComputeNBaselines;

PROP("P09.enumeration", 8000, 100000) {
  // All pairs in documented order get consecutive numbers.
  const size_t n = s.n(1, 90);
  const bool row = s.b();
  const BaselineOrder o = row ? BaselineOrder::kRowMajor : BaselineOrder::kColumnMajor;
  s.note("antennas", n);
  s.note("row major", row);
  s.nontrivial(row ? "row" : "column");
  std::vector<std::pair<size_t, size_t>> seq;
  if (row)
    for (size_t a = 0; a < n; ++a)
      for (size_t b = a; b < n; ++b) seq.emplace_back(a, b);
  else
    for (size_t b = 0; b < n; ++b)
      for (size_t a = 0; a <= b; ++a) seq.emplace_back(a, b);
  CHECK_EQ(ComputeNBaselines(n), seq.size());
  for (size_t k = 0; k < seq.size(); ++k) {
    CHECK_EQ(ComputeBaselineIndex(seq[k].first, seq[k].second, n, o), k);
    CHECK_EQ(ComputeBaselineIndex(seq[k].second, seq[k].first, n, o), k, "swapped antennas");
    CHECK_EQ(ComputeBaseline(k, n, o), seq[k], "index", k);
  }
  const size_t a = s.n(0, n - 1);
  const auto list = ComputeBaselineList(a, n, o);
  CHECK_EQ(list.size(), n);
  for (size_t b = 0; b < n; ++b) {
    auto pair = std::make_pair(std::min(a, b), std::max(a, b));
    CHECK(seq[list[b]] == pair, "list entry", b, "of antenna", a);
  }
}

PROP("P09.large", 3000000, 40000000) {
  const size_t n = s.chance(1, 3) ? s.n(1, 300) : s.n(1, 60000);
  const bool row = s.b();
  const BaselineOrder o = row ? BaselineOrder::kRowMajor : BaselineOrder::kColumnMajor;
  const size_t total = n * (n + 1) / 2;
  CHECK_EQ(ComputeNBaselines(n), total);
  size_t a, b;
  switch (s.draw(4)) {  // favour the ends of rows and columns
    case 0: a = b = s.n(0, n - 1); break;
    case 1: a = 0, b = s.n(0, n - 1); break;
    case 2: b = n - 1, a = s.n(0, n - 1); break;
    case 3: b = s.n(0, n - 1), a = b ? b - 1 : 0; break;
    default: b = s.n(0, n - 1), a = s.n(0, b);
  }
  const unsigned __int128 A = a, B = b, N = n;
  const size_t want = size_t(row ? A * N - A * (A + 1) / 2 + B : B * (B + 1) / 2 + A);
  s.note("antennas", n);
  s.note("pair", std::make_pair(a, b));
  s.note("row major", row);
  if (n > 2) s.nontrivial(n > 1000 ? "large" : "small");
  const size_t idx = ComputeBaselineIndex(a, b, n, o);
  CHECK_EQ(idx, want);
  CHECK_EQ(ComputeBaselineIndex(b, a, n, o), want);
  CHECK(idx < total, "index out of range", idx);
  CHECK_EQ(ComputeBaseline(idx, n, o), std::make_pair(a, b));
}

// ---------------------------------------------------------------- P10
namespace {
using dp3::common::Fields;
Fields MakeFields(unsigned mask) {
  Fields f;
  for (int k = 0; k < 4; ++k)
    if (mask >> k & 1) f |= Fields(Fields::Single(k));
  return f;
}
unsigned MaskOf(const Fields& f) {
  return unsigned(f.Data()) | unsigned(f.Flags()) << 1 | unsigned(f.Weights()) << 2 | unsigned(f.Uvw()) << 3;
}
}  // namespace

PROP("P10.algebra", 400000, 2000000) {
  const unsigned a = unsigned(s.draw(15)), b = unsigned(s.draw(15)), c = unsigned(s.draw(15));
  s.note("masks", std::vector<unsigned>{a, b, c});
  s.nontrivial();
  const Fields fa = MakeFields(a), fb = MakeFields(b);
  CHECK_EQ(MaskOf(fa), a);
  CHECK_EQ(MaskOf(fa | fb), a | b);
  Fields f = fa;
  Fields& ref = (f |= fb);
  CHECK(&ref == &f, "|= returns another object");
  CHECK_EQ(MaskOf(f), a | b);
  CHECK_EQ(fa == fb, a == b);
  CHECK_EQ(fa != fb, a != b);
  CHECK_EQ(MaskOf(Fields()), 0u);
  for (int k = 0; k < 4; ++k) CHECK_EQ(MaskOf(Fields(Fields::Single(k))), 1u << k);
  Fields r = fa;
  Fields& rr = r.UpdateRequirements(fb, MakeFields(c));
  CHECK(&rr == &r, "UpdateRequirements returns another object");
  unsigned want = 0;
  for (int k = 0; k < 4; ++k) {
    const bool need = a >> k & 1, req = b >> k & 1, prov = c >> k & 1;
    // Needed before the step: what the step reads, and what later steps need
    // unless the step creates it.
    if (req || (need && !prov)) want |= 1u << k;
  }
  CHECK_EQ(MaskOf(r), want);
  std::ostringstream os;
  os << fa;
  std::string w = "[";
  const char* names[] = {"data", "flags", "weights", "uvw"};
  for (int k = 0; k < 4; ++k)
    if (a >> k & 1) w += (w.size() > 1 ? ", " : "") + std::string(names[k]);
  CHECK_EQ(os.str(), w + "]");
}

PROP("P10.chain", 1200000, 12000000) {
  // Walking a chain of steps backwards gives exactly the fields that must be
  // read from the input: executing the chain forwards with only those fields
  // available never misses one, and dropping any makes some step miss it.
  const size_t n = s.n(1, 8);
  std::vector<unsigned> req(n), prov(n);
  for (size_t k = 0; k < n; ++k) {
    req[k] = unsigned(s.draw(15)) & unsigned(s.draw(15));
    prov[k] = unsigned(s.draw(15));
  }
  Fields f;
  for (size_t k = n; k > 0; --k) f.UpdateRequirements(MakeFields(req[k - 1]), MakeFields(prov[k - 1]));
  const unsigned need = MaskOf(f);
  s.note("required", req);
  s.note("provided", prov);
  if (n > 1 && need) s.nontrivial();
  auto runs = [&](unsigned avail) {
    for (size_t k = 0; k < n; ++k) {
      if ((req[k] & ~avail) != 0) return false;
      avail |= prov[k];
    }
    return true;
  };
  CHECK(runs(need), "a step misses a field, input", need);
  for (int k = 0; k < 4; ++k)
    if (need >> k & 1) CHECK(!runs(need & ~(1u << k)), "field read without need", k);
}

// ---------------------------------------------------------------- P11
namespace {
struct MockClock {
  using rep = int64_t;
  using period = std::nano;
  using duration = std::chrono::nanoseconds;
  using time_point = std::chrono::time_point<MockClock>;
  static constexpr bool is_steady = true;
  static inline int64_t t = 0;
  static time_point now() { return time_point(duration(t)); }
};

template <typename T>
void MedianCheck(Src& s, const std::vector<T>& v) {
  auto sorted = v;
  std::sort(sorted.begin(), sorted.end());
  auto copy = v;
  const T got = dp3::common::Median(copy);
  T want = 0;
  if (!v.empty()) {
    const size_t h = v.size() / 2;
    want = v.size() % 2 ? sorted[h] : T((double(sorted[h]) + double(sorted[h - 1])) / 2);
  }
  CHECK_NEAR(double(got), double(want), 1e-6 * (1 + std::abs(double(want))), "median of", v);
  std::sort(copy.begin(), copy.end());
  CHECK(copy == sorted, "values changed");
  if (v.size() > 2) s.nontrivial(v.size() % 2 ? "odd" : "even");
}
}  // namespace

PROP("P11.median", 600000, 6000000) {
  const size_t n = s.n(0, 25);
  const bool dup = s.b(), sorted = s.chance(1, 5);
  std::vector<double> v;
  for (size_t k = 0; k < n; ++k) v.push_back(dup ? double(s.i(-3, 3)) : s.sym(1000));
  if (sorted) std::sort(v.begin(), v.end());
  s.note("values", v);
  if (s.b())
    MedianCheck<double>(s, v);
  else
    MedianCheck<float>(s, std::vector<float>(v.begin(), v.end()));
}

PROP("P11.pretty_units", 500000, 5000000) {
  const unsigned prec = unsigned(s.n(3, 9));
  double v;
  const int exp3 = int(s.i(-10, 11));
  switch (s.draw(5)) {
    case 0: v = 0; break;
    case 1: v = std::pow(1000.0, exp3) * s.pick({1.0, 0.9995, 0.99949, 999.0, 999.4, 10.0, 100.0}); break;
    case 2: v = s.logu(1e-40, 1e40); break;
    default: v = s.logu(1e-24, 5e26);
  }
  if (s.b()) v = -v;
  const bool time = s.b();
  const std::string t = time ? std::string(dp3::common::PrettyTime(v, prec)) : std::string(dp3::common::PrettyFrequency(v, prec));
  s.note("value", v);
  s.note("precision", prec);
  s.note("text", t);
  if (v != 0) s.nontrivial(v < 0 ? "negative" : "positive");
  const std::string unit = time ? "s" : "Hz";
  CHECK(t.size() > unit.size() + 2 && t.substr(t.size() - unit.size()) == unit, "unit", t);
  const char prefix = t[t.size() - unit.size() - 1];
  const std::string prefixes = "yzafpnum kMGTPEZY";
  const size_t p = prefixes.find(prefix);
  CHECK(p != std::string::npos, "prefix", t);
  CHECK_EQ(t[t.size() - unit.size() - 2], ' ');
  const std::string num = t.substr(0, t.size() - unit.size() - 2);
  CHECK(num.size() >= prec + 1, "width", t);
  CHECK(num.size() == prec + 1 || num[0] != ' ', "padding", t);
  char* end;
  const double shown = strtod(num.c_str(), &end);
  CHECK(*end == 0, "number", t);
  const double back = shown * std::pow(1000.0, int(p) - 8);
  CHECK_NEAR(back, v, std::abs(v) * (0.5000001 * std::pow(10.0, 1 - int(prec)) + 1e-13), t);
  if (v == 0)
    CHECK_EQ(prefix, ' ');
  else {
    CHECK(std::abs(shown) < 1000 || p == prefixes.size() - 1, "prefix too small", t);
    CHECK(std::abs(shown) > 0.9994 || p == 0, "prefix too large", t);
  }
}

PROP("P11.timers", 60000, 800000) {
  using Timer = dp3::common::BaseTimer<MockClock>;
  Timer t[2] = {Timer("first"), Timer()};
  struct M {
    uint64_t count = 0;
    int64_t ns = 0;
    int64_t start = 0;
  } m[2];
  MockClock::t = s.i(0, 1000000);
  double acc = 0, acc_want = 0;
  const size_t n = s.n(1, 15);
  for (size_t k = 0; k < n; ++k) {
    const int w = int(s.draw(1));
    const int64_t dt = s.chance(1, 4) ? s.i(0, 100) : s.i(0, 100000000000);
    const int op = int(s.draw(6));
    s.note("op", std::make_pair(op, w));
    switch (op) {
      case 0:
        t[w].start();
        MockClock::t += dt;
        t[w].stop();
        m[w].ns += dt;
        ++m[w].count;
        break;
      case 1: {
        typename Timer::StartStop guard(t[w]);
        MockClock::t += dt;
        m[w].ns += dt;
        ++m[w].count;
        break;
      }
      case 2:
        t[w].reset();
        m[w] = M();
        break;
      case 3:
        t[w] += t[1 - w];
        m[w].ns += m[1 - w].ns;
        m[w].count += m[1 - w].count;
        break;
      case 4: {
        {
          dp3::common::ScopedMicroSecondAccumulator<double, MockClock> a(acc);
          MockClock::t += dt;
        }
        acc_want += dt / 1e3;
        break;
      }
      case 5:  // interleaved
        t[0].start();
        MockClock::t += dt;
        t[1].start();
        MockClock::t += dt / 2;
        t[0].stop();
        MockClock::t += 7;
        t[1].stop();
        m[0].ns += dt + dt / 2;
        m[1].ns += dt / 2 + 7;
        ++m[0].count;
        ++m[1].count;
        break;
      default:
        MockClock::t += dt;  // time outside start/stop does not count
        try {
          typename Timer::StartStop guard(t[w]);
          MockClock::t += 5;
          m[w].ns += 5;
          ++m[w].count;
          throw 1;
        } catch (int) {
        }
    }
    for (int x = 0; x < 2; ++x) {
      CHECK_EQ(t[x].getCount(), m[x].count);
      CHECK_NEAR(t[x].getElapsed(), m[x].ns * 1e-9, 1e-12 * (1 + m[x].ns * 1e-9));
      if (m[x].count) CHECK_NEAR(t[x].getAverage(), m[x].ns * 1e-9 / m[x].count, 1e-12 * (1 + m[x].ns * 1e-9));
      std::ostringstream os;
      t[x].print(os);
      const std::string text = os.str();
      CHECK_EQ(text.find(x == 0 ? "first" : "timer: "), size_t(0), text);
      CHECK_EQ(text.find("not used") != std::string::npos, m[x].count == 0, text);
      if (m[x].count) {
        const std::string total(dp3::common::PrettyTime(t[x].getElapsed()));
        const std::string avg(dp3::common::PrettyTime(t[x].getAverage()));
        CHECK(text.find("total = " + total) != std::string::npos, text);
        CHECK(text.find("avg = " + avg) != std::string::npos, text);
        const size_t c = text.find("count = ");
        CHECK(c != std::string::npos && std::stoull(text.substr(c + 8)) == m[x].count, text);
      }
    }
    CHECK_NEAR(acc, acc_want, 1e-9 * (1 + acc_want));
  }
  if (m[0].count + m[1].count > 1) s.nontrivial();
}

// ---------------------------------------------------------------- P12
namespace {
using namespace dp3::common;

template <typename T>
void SwapCheck(Src& s, int kind) {
  constexpr size_t W = sizeof(T);
  const size_t n = s.n(0, 9);
  std::vector<unsigned char> raw(n * W + 16);
  for (size_t k = 0; k < raw.size(); ++k) raw[k] = (unsigned char)(0xA1 + 7 * k);  // swapped guard bytes differ
  for (size_t k = 0; k < n * W; ++k) raw[8 + k] = (unsigned char)s.draw(255);
  std::vector<unsigned char> want = raw;
  if (W > 1)
    for (size_t k = 0; k < n; ++k) std::reverse(want.begin() + 8 + k * W, want.begin() + 8 + (k + 1) * W);
  s.note("width", W);
  s.note("n", n);
  if (n > 1) s.nontrivial(W == 1 ? "8 bit" : W == 2 ? "16 bit" : W == 4 ? "32 bit" : "64 bit");
  auto out_of_place = [&](auto&& f) {
    auto out = raw;
    for (size_t k = 0; k < n * W; ++k) out[8 + k] = 0x11;
    auto in = raw;
    f(out.data() + 8, in.data() + 8, unsigned(n));
    CHECK(out == want, "out of place");
    CHECK(in == raw, "input changed");
  };
  auto in_place = [&](auto&& f) {
    auto x = raw;
    f(x.data() + 8, unsigned(n));
    CHECK(x == want, "in place");
    f(x.data() + 8, unsigned(n));
    CHECK(x == raw, "twice");
  };
  auto single = [&](auto&& f, auto&& g) {
    for (size_t k = 0; k < n; ++k) {
      unsigned char b[W];
      f(b, raw.data() + 8 + k * W);
      CHECK(std::memcmp(b, want.data() + 8 + k * W, W) == 0, "single value");
      std::memcpy(b, raw.data() + 8 + k * W, W);
      g(b);
      CHECK(std::memcmp(b, want.data() + 8 + k * W, W) == 0, "single value in place");
    }
  };
  const DataFormat fmt = BigEndian;
  in_place([&](unsigned char* p, unsigned c) { dataConvert(fmt, reinterpret_cast<T*>(p), c); });
  if constexpr (std::is_integral_v<T>) {
    for (size_t k = 0; k < n; ++k) {
      T v, w;
      std::memcpy(&v, raw.data() + 8 + k * W, W);
      w = dataConvert(fmt, v);
      CHECK(std::memcmp(&w, want.data() + 8 + k * W, W) == 0, "value");
      if constexpr (W > 1) {
        w = byteSwap(v);
        CHECK(std::memcmp(&w, want.data() + 8 + k * W, W) == 0, "byteSwap value");
        CHECK_EQ(byteSwap(w), v);
      }
    }
  }
#define VP_ALL(N)                                                                                     \
  out_of_place([&](void* o, const void* i, unsigned c) { byteSwap##N(o, i, c); });                   \
  out_of_place([&](void* o, const void* i, unsigned c) { dataConvert##N(fmt, o, i, c); });           \
  in_place([&](void* p, unsigned c) { byteSwap##N(p, c); });                                         \
  in_place([&](void* p, unsigned c) { dataConvert##N(fmt, p, c); });                                 \
  single([&](void* o, const void* i) { byteSwap##N(o, i); }, [&](void* p) { byteSwap##N(p); });      \
  single([&](void* o, const void* i) { dataConvert##N(fmt, o, i); }, [&](void* p) { dataConvert##N(fmt, p); });
  if constexpr (W == 2) {
    VP_ALL(16)
  }
  if constexpr (W == 4) {
    VP_ALL(32)
    out_of_place([&](void* o, const void* i, unsigned c) { dataConvertFloat(fmt, o, i, c); });
    in_place([&](void* p, unsigned c) { dataConvertFloat(fmt, p, c); });
    single([&](void* o, const void* i) { dataConvertFloat(fmt, o, i); }, [&](void* p) { dataConvertFloat(fmt, p); });
  }
  if constexpr (W == 8) {
    VP_ALL(64)
    out_of_place([&](void* o, const void* i, unsigned c) { dataConvertDouble(fmt, o, i, c); });
    in_place([&](void* p, unsigned c) { dataConvertDouble(fmt, p, c); });
    single([&](void* o, const void* i) { dataConvertDouble(fmt, o, i); }, [&](void* p) { dataConvertDouble(fmt, p); });
  }
}

template <typename T>
void ComplexCheck(Src& s) {
  const size_t n = s.n(0, 7);
  constexpr size_t W = sizeof(T);
  std::vector<unsigned char> raw(2 * n * W + 16);
  for (size_t k = 0; k < raw.size(); ++k) raw[k] = (unsigned char)(0xA1 + 7 * k);
  for (size_t k = 0; k < 2 * n * W; ++k) raw[8 + k] = (unsigned char)s.draw(255);
  auto want = raw;
  for (size_t k = 0; k < 2 * n; ++k) std::reverse(want.begin() + 8 + k * W, want.begin() + 8 + (k + 1) * W);
  s.note("complex width", W);
  if (n) s.nontrivial("complex");
  auto x = raw;
  dataConvert(BigEndian, reinterpret_cast<std::complex<T>*>(x.data() + 8), unsigned(n));
  CHECK(x == want, "complex");
}
}  // namespace

PROP("P12.byte_order", 600000, 8000000) {
  const int kind = int(s.draw(13));
  switch (kind) {
    case 0: SwapCheck<int16_t>(s, kind); break;
    case 1: SwapCheck<uint16_t>(s, kind); break;
    case 2: SwapCheck<int32_t>(s, kind); break;
    case 3: SwapCheck<uint32_t>(s, kind); break;
    case 4: SwapCheck<int64_t>(s, kind); break;
    case 5: SwapCheck<uint64_t>(s, kind); break;
    case 6: SwapCheck<float>(s, kind); break;
    case 7: SwapCheck<double>(s, kind); break;
    case 8: SwapCheck<char>(s, kind); break;
    case 9: SwapCheck<int8_t>(s, kind); break;
    case 10: SwapCheck<uint8_t>(s, kind); break;
    case 11: ComplexCheck<float>(s); break;
    case 12: ComplexCheck<double>(s); break;
    default: ComplexCheck<int16_t>(s);
  }
}

PROP("P12.bits", 800000, 10000000) {
  const unsigned n = unsigned(s.chance(1, 10) ? s.n(1, 200) : s.n(1, 30));
  const unsigned start = unsigned(s.n(0, 27));
  std::vector<char> in(n);
  for (auto& c : in) c = char(s.draw(1));
  const unsigned bytes = (start % 8 + n + 7) / 8;
  std::vector<unsigned char> buf(start / 8 + bytes + 4);
  for (auto& c : buf) c = (unsigned char)s.draw(255);
  const auto before = buf;
  s.note("n", n);
  s.note("start bit", start);
  s.nontrivial(start % 8 ? "unaligned" : "aligned");
  static_assert(sizeof(bool) == 1);
  const unsigned used = boolToBit(buf.data(), in.data(), n, start);
  CHECK_EQ(used, bytes);
  for (unsigned k = 0; k < n; ++k) {
    const unsigned bit = start + k;
    CHECK_EQ(unsigned(buf[bit / 8] >> (bit % 8) & 1), unsigned(in[k]), "bit", k);
  }
  for (unsigned bit = 0; bit < start; ++bit)
    CHECK_EQ(unsigned(buf[bit / 8] >> (bit % 8) & 1), unsigned(before[bit / 8] >> (bit % 8) & 1), "earlier bit", bit);
  for (size_t k = start / 8 + bytes; k < buf.size(); ++k) CHECK_EQ(int(buf[k]), int(before[k]), "later byte");
  std::vector<char> out(n + 4, 7);
  const unsigned used2 = bitToBool(out.data(), buf.data(), n, start);
  CHECK_EQ(used2, bytes);
  for (unsigned k = 0; k < n; ++k) CHECK_EQ(int(out[k]), int(in[k]), "value", k);
  for (unsigned k = n; k < n + 4; ++k) CHECK_EQ(int(out[k]), 7, "wrote past the end");
  // Appending a second piece directly after the first keeps the first.
  const unsigned n2 = unsigned(s.n(1, 12));
  std::vector<unsigned char> big((start + n + n2) / 8 + 2, 0xCC);
  std::copy(buf.begin(), buf.begin() + start / 8 + bytes, big.begin());
  std::vector<char> in2(n2);
  for (auto& c : in2) c = char(s.draw(1));
  boolToBit(big.data(), in2.data(), n2, start + n);
  std::vector<char> all(n + n2);
  bitToBool(all.data(), big.data(), n + n2, start);
  for (unsigned k = 0; k < n + n2; ++k) CHECK_EQ(int(all[k]), int(k < n ? in[k] : in2[k - n]), "value", k);
  CHECK_EQ(boolToBit(buf.data(), in.data(), 0, start), 0u);
}

VPT_MAIN
