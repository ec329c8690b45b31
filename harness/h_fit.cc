// P13 linear least squares, P14 solution resampling, P15 kernel smoothing,
// P16 TEC phase fitting, P17 TEC/offset/delay fitting, P18 piece-wise phase
// fitting.
#include "vpt.h"

#include <Eigen/Dense>

#include <iterator>
#include <numeric>
#include <span>

#include "base/PhaseFitter.h"
#include "ddecal/SolutionResampler.h"
#include "ddecal/constraints/KernelSmoother.h"
#include "ddecal/constraints/PieceWisePhaseFitter.h"
#include "ddecal/constraints/TecOffsetDelayFitting.h"
#include "ddecal/linear_solvers/LLSSolver.h"
#include "ddecal/linear_solvers/NormalEquationsSolver.h"
#include "ddecal/linear_solvers/QRSolver.h"
#include "ddecal/linear_solvers/SVDSolver.h"

using namespace dp3::ddecal;
using vpt::Src;
using vpt::Throws;
using cd = std::complex<double>;
using cf = std::complex<float>;

// ---------------------------------------------------------------- P13
namespace {
using Mat = Eigen::MatrixXcd;

struct System {
  int m, n, nrhs;
  Mat a, b;
  double cond = 1;
};

System GenSystem(Src& s, int m, int n, int nrhs) {
  System y{m, n, nrhs, Mat(m, n), Mat(m, nrhs)};
  const double scale = s.pick({1.0, 100.0, 0.01});
  const double bscale = s.pick({1.0, 50.0});
  const bool consistent = s.chance(1, 4), structured = s.chance(1, 3);
  for (int c = 0; c < n; ++c)
    for (int r = 0; r < m; ++r) {
      cd v = s.cplx(1);
      if (structured) v = (r == c ? cd(2, 0) : v * 0.2);
      y.a(r, c) = cd(cf(v * scale));
    }
  for (int c = 0; c < nrhs; ++c)
    for (int r = 0; r < m; ++r) y.b(r, c) = cd(cf(s.cplx(1) * bscale));
  if (consistent) {
    Mat x(n, nrhs);
    for (int c = 0; c < nrhs; ++c)
      for (int r = 0; r < n; ++r) x(r, c) = s.cplx(1);
    y.b = (y.a * x).cast<cf>().cast<cd>();
    s.label("consistent");
  }
  Eigen::JacobiSVD<Mat> svd(y.a);
  const double lo = svd.singularValues()(std::min(m, n) - 1);
  y.cond = lo > 0 ? svd.singularValues()(0) / lo : 1e30;
  return y;
}

// Runs one solver object on a system; checks that x is the least-squares
// (minimum norm if underdetermined) solution.
void SolveCheck(LLSSolver& solver, LLSSolverType type, const System& y) {
  const int ldb = std::max(y.m, y.n);
  std::vector<cf> a(size_t(y.m) * y.n + 2, cf(77, 77)), b(size_t(ldb) * y.nrhs + 2, cf(0, 0));
  for (int c = 0; c < y.n; ++c)
    for (int r = 0; r < y.m; ++r) a[size_t(c) * y.m + r] = cf(y.a(r, c));
  for (int c = 0; c < y.nrhs; ++c)
    for (int r = 0; r < y.m; ++r) b[size_t(c) * ldb + r] = cf(y.b(r, c));
  b[size_t(ldb) * y.nrhs] = cf(55, 55);
  std::vector<cf> x0(size_t(y.n) * y.nrhs + 1);
  const bool ok = (y.m + y.n) % 2 ? solver.Solve(a.data(), b.data()) : solver.Solve(a.data(), b.data(), x0.data());
  CHECK(ok, "solver reports failure, condition number", y.cond);
  CHECK(a[size_t(y.m) * y.n] == cf(77, 77) && b[size_t(ldb) * y.nrhs] == cf(55, 55), "wrote past the matrices");
  const int ldx = type == LLSSolverType::NORMAL_EQUATIONS ? y.n : ldb;
  Eigen::JacobiSVD<Mat> svd(y.a, Eigen::ComputeThinU | Eigen::ComputeThinV);
  const Mat want = svd.solve(y.b);
  const double amax = svd.singularValues()(0);
  const double k = type == LLSSolverType::NORMAL_EQUATIONS ? y.cond * y.cond : y.cond;
  for (int c = 0; c < y.nrhs; ++c) {
    const double bn = y.b.col(c).norm(), xn = want.col(c).norm();
    const double res = (y.b.col(c) - y.a * want.col(c)).norm();
    const double tol = 6e-6 * (k * xn + y.cond * y.cond * res / amax + y.cond * bn / amax);
    for (int r = 0; r < y.n; ++r)
      CHECK_NEAR(cd(b[size_t(c) * ldx + r]), want(r, c), tol + 1e-12, "unknown", r, "rhs", c);
  }
}
}  // namespace

PROP("P13.least_squares", 40000, 500000) {
  const int n = int(s.n(1, 6)), m = n + int(s.n(0, 8)), nrhs = int(s.n(1, 3));
  const int t = int(s.draw(2));
  const LLSSolverType type = t == 0 ? LLSSolverType::QR : t == 1 ? LLSSolverType::SVD : LLSSolverType::NORMAL_EQUATIONS;
  s.note("type", t);
  s.note("shape", std::vector<int>{m, n, nrhs});
  auto solver = LLSSolver::Make(type, m, n, nrhs);
  // One object solves several systems in a row.
  const size_t rounds = s.n(1, 3);
  bool any = false;
  for (size_t k = 0; k < rounds; ++k) {
    System y = GenSystem(s, m, n, nrhs);
    if (y.cond > (t == 2 ? 40 : 300)) continue;
    any = true;
    SolveCheck(*solver, type, y);
  }
  if (any && n > 1) s.nontrivial(t == 0 ? "QR" : t == 1 ? "SVD" : "normal equations");
}

PROP("P13.underdetermined", 15000, 150000) {
  const int m = int(s.n(1, 5)), n = m + int(s.n(1, 4)), nrhs = int(s.n(1, 2));
  s.note("shape", std::vector<int>{m, n, nrhs});
  s.nontrivial();
  System y = GenSystem(s, m, n, nrhs);
  // QR refuses, SVD returns the minimum-norm solution.
  std::vector<cf> a(size_t(m) * n), b(size_t(n) * nrhs);
  for (int c = 0; c < n; ++c)
    for (int r = 0; r < m; ++r) a[size_t(c) * m + r] = cf(y.a(r, c));
  auto qr = LLSSolver::Make(LLSSolverType::QR, m, n, nrhs);
  CHECK(!qr->Solve(a.data(), b.data()), "QR accepts fewer equations than unknowns");
  if (y.cond > 300) return;
  auto svd = LLSSolver::Make(LLSSolverType::SVD, m, n, nrhs);
  SolveCheck(*svd, LLSSolverType::SVD, y);
}

PROP("P13.singular_and_names", 10000, 60000) {
  // An antenna without data (a zero column) has no solution: the solvers that
  // cannot handle it report failure, and solve the next system correctly.
  const int n = int(s.n(1, 5)), m = n + int(s.n(0, 5));
  const bool qr = s.b();
  const LLSSolverType type = qr ? LLSSolverType::QR : LLSSolverType::NORMAL_EQUATIONS;
  auto solver = LLSSolver::Make(type, m, n, 1);
  System y = GenSystem(s, m, n, 1);
  const int zero = int(s.n(0, n - 1));
  std::vector<cf> a(size_t(m) * n), b(m);
  for (int c = 0; c < n; ++c)
    for (int r = 0; r < m; ++r) a[size_t(c) * m + r] = c == zero ? cf(0) : cf(y.a(r, c));
  for (int r = 0; r < m; ++r) b[r] = cf(y.b(r, 0));
  s.note("shape", std::vector<int>{m, n, zero});
  // For an all-zero matrix, zero is a least-squares solution.
  bool all_zero = true;
  for (const cf& v : a) all_zero &= v == cf(0);
  if (all_zero && qr) throw vpt::Discard{};
  s.nontrivial(qr ? "QR" : "normal equations");
  CHECK(!solver->Solve(a.data(), b.data()), "singular system reported as solved");
  if (y.cond < 40) SolveCheck(*solver, type, y);
  const std::pair<const char*, LLSSolverType> names[] = {
      {"qr", LLSSolverType::QR}, {"svd", LLSSolverType::SVD}, {"normalequations", LLSSolverType::NORMAL_EQUATIONS}};
  const auto& nm = names[s.draw(2)];
  std::string text = nm.first;
  for (char& c : text)
    if (s.b()) c = char(toupper(c));
  CHECK(LLSSolver::ParseType(text) == nm.second, "name", text);
  const std::string bad = s.chance(1, 3) ? text + s.str("abq ", 1, 2) : s.str("qrsvdx", 0, 3);
  std::string low = bad;
  for (char& c : low) c = char(tolower(c));
  if (low != "qr" && low != "svd" && low != "normalequations")
    CHECK(Throws([&] { LLSSolver::ParseType(bad); }), "unknown name accepted", bad);
  CHECK(dynamic_cast<QRSolver*>(LLSSolver::Make(LLSSolverType::QR, m, n, 1).get()) != nullptr);
  CHECK(dynamic_cast<SVDSolver*>(LLSSolver::Make(LLSSolverType::SVD, m, n, 1).get()) != nullptr);
}

// ---------------------------------------------------------------- P14
namespace {
struct ResampleCase {
  std::vector<size_t> per_dir;
  size_t interval, n_ant, n_sub;
};
ResampleCase GenResample(Src& s) {
  ResampleCase c;
  c.interval = s.pick<size_t>({1, 2, 3, 4, 6, 8, 12, 15, 30});
  std::vector<size_t> divs;
  for (size_t d = 1; d <= c.interval; ++d)
    if (c.interval % d == 0) divs.push_back(d);
  const size_t nd = s.n(1, 5);
  for (size_t k = 0; k < nd; ++k) c.per_dir.push_back(s.pick(divs));
  c.n_ant = s.n(1, 4);
  c.n_sub = std::accumulate(c.per_dir.begin(), c.per_dir.end(), size_t(0));
  s.note("solutions per direction", c.per_dir);
  s.note("interval", c.interval);
  s.note("antennas", c.n_ant);
  return c;
}
void CheckSubSteps(const ResampleCase& c, size_t steps) {
  CHECK(steps >= 1 && c.interval % steps == 0, "sub steps do not divide the interval", steps);
  for (size_t v : c.per_dir) CHECK_EQ(steps % v, size_t(0), "sub steps", steps);
  const size_t mx = *std::max_element(c.per_dir.begin(), c.per_dir.end());
  bool all = true;
  for (size_t v : c.per_dir) all &= mx % v == 0;
  if (all) CHECK_EQ(steps, mx, "more sub steps than needed");
}
}  // namespace

PROP("P14.gains", 120000, 1500000) {
  const ResampleCase c = GenResample(s);
  const size_t nt = s.n(1, 3), ncb = s.n(1, 3), npol = s.pick<size_t>({1, 2, 4});
  SolutionResampler rs(c.per_dir, c.n_ant, c.interval);
  const size_t steps = rs.GetNrSubSteps();
  CheckSubSteps(c, steps);
  bool varied = false;
  for (size_t v : c.per_dir) varied |= v != c.per_dir[0];
  if (varied && npol > 1) s.nontrivial(steps == c.interval ? "interval" : "maximum");
  std::vector<std::vector<std::vector<cd>>> sol(nt);
  double id = 1;
  for (auto& t : sol) {
    t.resize(ncb);
    for (auto& b : t)
      for (size_t k = 0; k < c.n_ant * c.n_sub * npol; ++k) b.push_back(cd(id, -id)), ++id;
  }
  const auto up = rs.Upsample(sol, npol);
  CHECK_EQ(up.size(), nt * steps);
  for (size_t t = 0; t < up.size(); ++t) {
    CHECK_EQ(up[t].size(), ncb);
    for (size_t b = 0; b < ncb; ++b) {
      CHECK_EQ(up[t][b].size(), c.n_ant * c.per_dir.size() * npol);
      for (size_t a = 0; a < c.n_ant; ++a) {
        size_t off = 0;
        for (size_t d = 0; d < c.per_dir.size(); ++d) {
          // The sub-solution whose time span contains the sub step.
          const size_t span = steps / c.per_dir[d];
          const size_t sub = (t % steps) / span;
          for (size_t p = 0; p < npol; ++p) {
            const size_t idx = (a * c.n_sub + off + sub) * npol + p;
            CHECK(up[t][b][(a * c.per_dir.size() + d) * npol + p] == sol[t / steps][b][idx], "time", t, "antenna", a,
                  "direction", d, "pol", p);
            CHECK_EQ(rs.MapResampledToOriginal(t, a, d, p, npol), std::make_pair(t / steps, idx));
          }
          off += c.per_dir[d];
        }
      }
    }
  }
}

PROP("P14.constraint_results", 150000, 1500000) {
  const ResampleCase c = GenResample(s);
  const size_t ni = s.n(0, 3), nc = s.n(0, 2), nsubt = s.n(1, 2);
  SolutionResampler rs(c.per_dir, c.n_ant, c.interval);
  const size_t steps = rs.GetNrSubSteps();
  CheckSubSteps(c, steps);
  std::vector<std::vector<std::vector<ConstraintResult>>> in(ni);
  std::vector<size_t> resid;
  for (size_t k = 0; k < nc * nsubt; ++k) resid.push_back(s.n(1, 3));
  double id = 1;
  for (auto& t : in) {
    t.resize(nc);
    for (size_t k = 0; k < nc; ++k)
      for (size_t j = 0; j < nsubt; ++j) {
        ConstraintResult r;
        r.dims = {c.n_ant, c.n_sub};
        if (resid[k * nsubt + j] > 1 || s.b()) r.dims.push_back(resid[k * nsubt + j]);
        r.axes = r.dims.size() == 3 ? "ant,dir,freq" : "ant,dir";
        r.name = "r" + std::to_string(k) + std::to_string(j);
        for (size_t v = 0; v < c.n_ant * c.n_sub * resid[k * nsubt + j]; ++v) {
          r.vals.push_back(id);
          r.weights.push_back(-2 * id);
          ++id;
        }
        t[k].push_back(r);
      }
  }
  const auto up = rs.Upsample(in);
  bool varied = false;
  for (size_t v : c.per_dir) varied |= v != c.per_dir[0];
  if (varied && ni && nc) s.nontrivial();
  CHECK_EQ(up.size(), ni * steps);
  for (size_t t = 0; t < up.size(); ++t) {
    CHECK_EQ(up[t].size(), nc);
    for (size_t k = 0; k < nc; ++k) {
      CHECK_EQ(up[t][k].size(), nsubt);
      for (size_t j = 0; j < nsubt; ++j) {
        const ConstraintResult &r = in[t / steps][k][j], &u = up[t][k][j];
        const size_t rd = resid[k * nsubt + j], nd = c.per_dir.size();
        auto dims = r.dims;
        dims[1] = nd;
        CHECK_EQ(u.dims, dims);
        CHECK_EQ(u.axes, r.axes);
        CHECK_EQ(u.name, r.name);
        CHECK_EQ(u.vals.size(), c.n_ant * nd * rd);
        CHECK_EQ(u.weights.size(), u.vals.size());
        for (size_t a = 0; a < c.n_ant; ++a) {
          size_t off = 0;
          for (size_t d = 0; d < nd; ++d) {
            const size_t sub = (t % steps) / (steps / c.per_dir[d]);
            for (size_t f = 0; f < rd; ++f) {
              const size_t o = (a * nd + d) * rd + f, i = (a * c.n_sub + off + sub) * rd + f;
              CHECK_EQ(u.vals[o], r.vals[i], "time", t, "antenna", a, "direction", d);
              CHECK_EQ(u.weights[o], r.weights[i], "time", t, "antenna", a, "direction", d);
            }
            off += c.per_dir[d];
          }
        }
      }
    }
  }
}

// ---------------------------------------------------------------- P15
namespace {
template <typename DT>
struct SmoothCase {
  using KS = KernelSmoother<DT, double>;
  std::vector<double> f, w;
  std::vector<DT> d;
  typename KS::KernelType type;
  double bw, ref, exponent, factor;
  bool trunc;
};

double RefKernel(int type, double x) {
  const double ax = std::abs(x);
  switch (type) {
    case 0: return ax > 1 ? 0 : 0.5;
    case 1: return ax > 1 ? 0 : 1 - ax;
    case 2: return std::exp(-9 * x * x);
    default: return ax > 1 ? 0 : 0.75 * (1 - x * x);
  }
}

template <typename DT>
DT GenData(Src& s) {
  if constexpr (std::is_same_v<DT, double>)
    return s.sym(10);
  else
    return s.cplx(10);
}

template <typename DT>
SmoothCase<DT> GenSmooth(Src& s) {
  SmoothCase<DT> c;
  const size_t n = s.n(1, 14);
  double f = 1.2e8;
  for (size_t k = 0; k < n; ++k) {
    c.f.push_back(f);
    f += s.chance(1, 3) ? s.real(1e4, 4e6) : 2e5;
  }
  const bool zeros = s.chance(1, 3);
  for (size_t k = 0; k < n; ++k) {
    c.w.push_back(zeros && s.chance(1, 3) ? 0.0 : s.real(0.1, 4));
    c.d.push_back(GenData<DT>(s));
  }
  c.type = typename KernelSmoother<DT, double>::KernelType(s.draw(3));
  c.bw = s.chance(1, 4) ? s.real(1e5, 1e6) : s.logu(2e5, 2e7);
  c.ref = s.chance(1, 3) ? s.real(1.0e8, 1.6e8) : 0.0;
  c.exponent = s.pick({-1.0, 0.0, 1.0, -0.5, 2.0});
  c.factor = s.pick({1.0, 0.5, 2.0, 0.1});
  c.trunc = s.b();
  s.note("frequencies", c.f);
  s.note("weights", c.w);
  s.note("kernel", int(c.type));
  s.note("bandwidth", c.bw);
  s.note("ref", c.ref);
  s.note("exponent", c.exponent);
  s.note("factor", c.factor);
  s.note("truncate", c.trunc);
  return c;
}

template <typename DT>
std::vector<DT> RunSmooth(typename SmoothCase<DT>::KS& ks, const SmoothCase<DT>& c) {
  std::vector<DT> d = c.d;
  ks.Smooth(d.data(), c.w.data(), c.factor);
  return d;
}
bool IsNan(double v) { return std::isnan(v); }
bool IsNan(cd v) { return std::isnan(v.real()) && std::isnan(v.imag()); }

// Distances that fall on the edge of a compact kernel are decided by rounding.
template <typename DT>
bool OnEdge(const SmoothCase<DT>& c) {
  const size_t n = c.f.size();
  const double wmax = *std::max_element(c.w.begin(), c.w.end());
  for (size_t i = 0; i < n; ++i) {
    const double local = c.ref == 0 ? c.bw : c.bw * c.f[i] / c.ref;
    const double corr = std::pow(local / c.bw, c.exponent) * c.factor;
    double kmax = 0;
    for (size_t j = 0; j < n; ++j) {
      const double x = std::abs(c.f[i] - c.f[j]) * corr / c.bw;
      if (std::abs(x - 1) < 1e-9) return true;
      kmax = std::max(kmax, c.w[j] * std::exp(-9 * x * x));
    }
    // Underflow of all Gaussian kernel values.
    if (int(c.type) == 2 && wmax > 0 && kmax < 1e-250 && !c.trunc) return true;
  }
  return false;
}

template <typename DT>
void SmoothCheck(Src& s) {
  using KS = KernelSmoother<DT, double>;
  const SmoothCase<DT> c = GenSmooth<DT>(s);
  if (OnEdge(c)) throw vpt::Discard{};
  KS ks(c.f, c.type, c.bw, c.ref, c.exponent, c.trunc);
  const auto got = RunSmooth(ks, c);
  const size_t n = c.f.size();
  if (n > 3) s.nontrivial(c.trunc ? "truncated" : "full");
  const long first_right = std::lower_bound(c.f.begin(), c.f.end(), c.f[0] + c.bw * 0.5) - c.f.begin();
  for (size_t i = 0; i < n; ++i) {
    const double local = c.ref == 0 ? c.bw : c.bw * c.f[i] / c.ref;
    const double corr = std::pow(local / c.bw, c.exponent) * c.factor;
    std::vector<double> k(n);
    for (size_t j = 0; j < n; ++j) {
      const double x = (c.f[i] - c.f[j]) * corr / c.bw;
      k[j] = RefKernel(int(c.type), x);
      if (int(c.type) == 2 && c.trunc && std::abs(x) > 1) k[j] = 0;
      k[j] *= c.w[j];
    }
    auto average = [&](long l, long r, DT& out) {
      DT sum(0.0);
      double ws = 0;
      for (long j = l; j < r; ++j) {
        sum += c.d[j] * k[j];
        ws += k[j];
      }
      if (ws == 0) return false;
      out = sum / ws;
      return true;
    };
    auto same = [&](long l, long r) {
      DT want;
      if (!average(l, r, want)) return IsNan(got[i]);
      return !IsNan(got[i]) && std::abs(got[i] - want) <= 1e-8 * 20;
    };
    if (!c.trunc) {
      CHECK(same(0, long(n)), "channel", i);
    } else {
      // Everything within half the bandwidth takes part; a neighbour or two
      // beyond it may.
      long L = 0, R = long(n);
      while (c.f[L] < c.f[i] - local * 0.5) ++L;
      while (R > 0 && c.f[R - 1] >= c.f[i] + local * 0.5) --R;
      bool ok = false;
      const long rmax = std::min(long(n), std::max(R, first_right + 1) + 2);
      for (long l = std::max(0l, L - 2); l <= L && !ok; ++l)
        for (long r = R; r <= rmax && !ok; ++r) ok = same(l, r);
      CHECK(ok, "channel", i, "window", L, R);
    }
  }
  // The object keeps no memory of earlier series.
  const auto again = RunSmooth(ks, c);
  for (size_t i = 0; i < n; ++i) CHECK(again[i] == got[i] || IsNan(got[i]), "second use differs at", i);
}
}  // namespace

PROP("P15.definition_real", 120000, 1500000) { SmoothCheck<double>(s); }
PROP("P15.definition_complex", 120000, 1500000) { SmoothCheck<cd>(s); }

PROP("P15.invariants", 120000, 1500000) {
  SmoothCase<double> c = GenSmooth<double>(s);
  using KS = KernelSmoother<double, double>;
  if (OnEdge(c)) throw vpt::Discard{};
  KS ks(c.f, c.type, c.bw, c.ref, c.exponent, c.trunc);
  const size_t n = c.f.size();
  const auto base = RunSmooth(ks, c);
  if (n > 3) s.nontrivial();
  double lo = 1e300, hi = -1e300;
  for (size_t k = 0; k < n; ++k)
    if (c.w[k] > 0) lo = std::min(lo, c.d[k]), hi = std::max(hi, c.d[k]);
  for (size_t i = 0; i < n; ++i)
    if (!std::isnan(base[i])) CHECK(base[i] >= lo - 1e-9 && base[i] <= hi + 1e-9, "outside the data range, channel", i);
  {  // constant data
    auto k = c;
    std::fill(k.d.begin(), k.d.end(), 3.5);
    const auto r = RunSmooth(ks, k);
    for (size_t i = 0; i < n; ++i)
      if (!std::isnan(r[i])) CHECK_NEAR(r[i], 3.5, 1e-9, "constant not preserved, channel", i);
  }
  {  // zero-weight samples do not matter
    auto k = c;
    for (size_t i = 0; i < n; ++i)
      if (c.w[i] == 0) k.d[i] += 1000;
    const auto r = RunSmooth(ks, k);
    for (size_t i = 0; i < n; ++i) CHECK(r[i] == base[i] || std::isnan(base[i]), "zero weight sample used, channel", i);
  }
  {  // only relative weights matter
    auto k = c;
    for (double& w : k.w) w *= 4;
    const auto r = RunSmooth(ks, k);
    for (size_t i = 0; i < n; ++i)
      if (!std::isnan(base[i])) CHECK_NEAR(r[i], base[i], 1e-9, "weight scale, channel", i);
  }
  {
    auto k = c;
    std::fill(k.w.begin(), k.w.end(), 0.0);
    for (double v : RunSmooth(ks, k)) CHECK(std::isnan(v), "value without any weight", v);
  }
  // The kernels are even and non-negative.
  const double x = s.real(-1.4, 1.4) * c.bw;
  CHECK_NEAR(ks.Kernel(x), ks.Kernel(-x), 1e-12, "kernel is not symmetric at", x / c.bw);
  CHECK(ks.Kernel(x) >= 0, "negative kernel at", x / c.bw);
  CHECK(ks.Kernel(0) + 1e-15 >= ks.Kernel(x), "kernel does not peak at the centre");
  if (std::abs(x) < c.bw * 0.999999) CHECK_NEAR(ks.Kernel(x), RefKernel(int(c.type), x / c.bw), 1e-9, "kernel value");
}

// ---------------------------------------------------------------- P16
namespace {
double CircDist(double a, double b) { return std::abs(std::remainder(a - b, 2 * M_PI)); }

struct PhaseCase {
  std::vector<double> f, p, w;
};
void Load(PhaseFitter& pf, const PhaseCase& c) {
  pf.Initialize(c.f);
  std::copy(c.p.begin(), c.p.end(), pf.PhaseData());
  std::copy(c.w.begin(), c.w.end(), pf.WeightData());
}
std::vector<double> GenBand(Src& s, size_t nmin, size_t nmax) {
  const size_t n = s.n(nmin, nmax);
  const double lo = s.real(115e6, 130e6), hi = s.real(160e6, 185e6);
  std::vector<double> f;
  for (size_t k = 0; k < n; ++k) f.push_back(n > 1 ? lo + (hi - lo) * k / (n - 1) : lo);
  return f;
}
}  // namespace

PROP("P16.cost", 200000, 3000000) {
  PhaseCase c;
  c.f = GenBand(s, 1, 12);
  for (size_t k = 0; k < c.f.size(); ++k) {
    c.p.push_back(s.sym(7));
    c.w.push_back(s.chance(1, 5) ? 0.0 : s.real(0.1, 5));
  }
  const double alpha = s.sym(4e10), beta = s.sym(7);
  s.note("phases", c.p);
  s.note("weights", c.w);
  s.note("alpha", alpha);
  PhaseFitter pf;
  Load(pf, c);
  CHECK_EQ(pf.Size(), c.f.size());
  double sum2 = 0, sum1 = 0, ws = 0;
  for (size_t k = 0; k < c.f.size(); ++k) {
    sum2 += c.w[k] * CircDist(alpha / c.f[k] + beta, c.p[k]);
    sum1 += c.w[k] * CircDist(alpha / c.f[k], c.p[k]);
    ws += c.w[k];
  }
  if (ws > 0 && c.f.size() > 2) s.nontrivial();
  CHECK_NEAR(pf.TEC2ModelCost(alpha, beta), ws > 0 ? sum2 / ws : 0.0, 1e-8);
  CHECK_NEAR(pf.TEC1ModelCost(alpha), ws > 0 ? sum1 / ws : 0.0, 1e-8);
  CHECK_NEAR(PhaseFitter::TEC2ModelFunc(c.f[0], alpha, beta), alpha / c.f[0] + beta, 1e-9);
  CHECK(CircDist(PhaseFitter::TEC2ModelFuncWrapped(c.f[0], alpha, beta), alpha / c.f[0] + beta) < 1e-9);
  CHECK(std::abs(PhaseFitter::TEC2ModelFuncWrapped(c.f[0], alpha, beta)) <= 2 * M_PI);
  CHECK(CircDist(PhaseFitter::TEC1ModelFuncWrapped(c.f[0], alpha), alpha / c.f[0]) < 1e-9);
  CHECK_NEAR(PhaseFitter::AlphaToTEC(alpha), -alpha / 8.44797245e9, 1e-9);
  // Wraps of the data do not matter.
  for (size_t k = 0; k < c.f.size(); ++k) pf.PhaseData()[k] += 2 * M_PI * double(s.i(-2, 2));
  CHECK_NEAR(pf.TEC2ModelCost(alpha, beta), ws > 0 ? sum2 / ws : 0.0, 1e-8, "wrapped data");
}

PROP("P16.tec_fit", 30000, 500000) {
  // Noise-free phases of a TEC model, wrapped: the fit reproduces them.
  PhaseCase c;
  c.f = GenBand(s, 12, 40);
  const bool two = s.b();
  const double alpha = s.sym(3.5e10), beta = two ? s.sym(3.1) : 0.0;
  const bool noisy = s.chance(1, 4), wrap = s.b(), zerow = s.chance(1, 4);
  for (double f : c.f) {
    double p = alpha / f + beta;
    if (noisy) p += s.sym(0.15);
    if (wrap) p = std::remainder(p, 2 * M_PI);
    c.p.push_back(p);
    c.w.push_back(s.chance(1, 2) ? 1.0 : s.real(0.5, 2));
  }
  // Only relative weights matter.
  const double wscale = s.chance(1, 2) ? 1.0 : s.logu(1e-4, 1e4);
  for (double& w : c.w) w *= wscale;
  s.note("weight scale", wscale);
  if (zerow) {  // a flagged channel carries any value
    const size_t k = s.n(0, c.f.size() - 1);
    c.w[k] = 0;
    c.p[k] = s.sym(3);
  }
  s.note("alpha", alpha);
  s.note("beta", beta);
  s.note("channels", c.f.size());
  s.nontrivial(two ? "TEC+offset" : "TEC");
  PhaseFitter pf;
  if (s.b()) {  // leftovers of another fit
    pf.Initialize({1e8, 2e8, 3e8});
    pf.WeightData()[1] = 0;
    pf.FitDataToTEC1Model();
  }
  Load(pf, c);
  double a = s.sym(1e10), b = s.sym(100), a2 = 0, b2 = 0;
  const PhaseFitter& cpf = pf;
  if (two) {
    cpf.FitTEC2ModelParameters(a2, b2);
    for (size_t k = 0; k < c.f.size(); ++k) CHECK_EQ(pf.PhaseData()[k], c.p[k], "parameter search changed the data");
    const double cost = pf.FitDataToTEC2Model(a, b);
    CHECK(a == a2 && b == b2, "result depends on the values passed in", a, a2, b, b2);
    double sum = 0, ws = 0;
    for (size_t k = 0; k < c.f.size(); ++k) {
      const double fit = pf.PhaseData()[k];
      CHECK(CircDist(fit, a / c.f[k] + b) < 1e-8, "fitted data does not satisfy the model, channel", k);
      sum += c.w[k] * CircDist(fit, c.p[k]);
      ws += c.w[k];
      if (c.w[k] > 0) CHECK(CircDist(fit, c.p[k]) < (noisy ? 0.6 : 0.02), "misfit in channel", k);
    }
    CHECK_NEAR(cost, sum / ws, 1e-8, "returned cost");
    CHECK_NEAR(a, alpha, noisy ? 6e8 : 2e7, "alpha");
  } else {
    cpf.FitTEC1ModelParameters(a2);
    for (size_t k = 0; k < c.f.size(); ++k) CHECK_EQ(pf.PhaseData()[k], c.p[k], "parameter search changed the data");
    const double cost = pf.FitDataToTEC1Model(a);
    CHECK(a == a2, "result depends on the value passed in", a, a2);
    double sum = 0, ws = 0;
    for (size_t k = 0; k < c.f.size(); ++k) {
      const double fit = pf.PhaseData()[k];
      CHECK(CircDist(fit, a / c.f[k]) < 1e-8, "fitted data does not satisfy the model, channel", k);
      sum += c.w[k] * CircDist(fit, c.p[k]);
      ws += c.w[k];
      if (c.w[k] > 0) CHECK(CircDist(fit, c.p[k]) < (noisy ? 0.6 : 0.02), "misfit in channel", k);
    }
    CHECK_NEAR(cost, sum / ws, 1e-8, "returned cost");
    CHECK_NEAR(a, alpha, noisy ? 3e8 : 2e7, "alpha");
  }
  // The overloads without arguments give the same phases.
  PhaseFitter q(c.f.size());
  Load(q, c);
  if (two)
    q.FitDataToTEC2Model();
  else
    q.FitDataToTEC1Model();
  for (size_t k = 0; k < c.f.size(); ++k) CHECK_EQ(q.PhaseData()[k], pf.PhaseData()[k], "channel", k);
}

// ---------------------------------------------------------------- P17
namespace {
std::vector<double> GenX(Src& s, size_t nmin, size_t nmax, double smin = 0.01, double smax = 0.06) {
  std::vector<double> x = {1.0};
  const size_t n = s.n(nmin, nmax);
  const double step = s.real(smin, smax);
  for (size_t k = 1; k < n; ++k) x.push_back(x.back() + step * (s.chance(1, 4) ? s.real(0.5, 2) : 1.0));
  if (s.chance(1, 4))
    for (double& v : x) v *= 20;
  return x;
}
double MinCost(const std::vector<double>& w) {
  double c = 0;
  for (double v : w) c += 1 - v;
  return c;
}
}  // namespace

PROP("P17.linear_fit", 40000, 500000) {
  const auto x = GenX(s, 4, 14);
  const size_t n = x.size();
  const bool with_b = s.b(), exact = s.b();
  std::vector<double> y(n), w(n);
  const double a = s.sym(2), b = with_b ? s.sym(2) : 0, c = s.sym(1);
  for (size_t k = 0; k < n; ++k) {
    y[k] = a / x[k] + b + c * x[k];
    if (!exact) y[k] += s.sym(0.5);
    w[k] = s.chance(1, 3) ? 1.0 : s.real(0.2, 3);
  }
  if (s.chance(1, 5) && n > 5) w[s.n(0, n - 1)] = 0;
  s.note("x", x);
  s.note("y", y);
  s.note("w", w);
  s.nontrivial(exact ? "exact" : "noisy");
  const auto fit = with_b ? LinearTecOffsetDelaySolve(x, y, w) : LinearTecDelaySolve(x, y, w);
  CHECK(fit.has_value(), "no fit");
  if (!with_b) CHECK_EQ(fit->b, 0.0);
  // Weighted least squares: the residual is orthogonal to all basis functions.
  double g[3] = {0, 0, 0}, scale = 0;
  for (size_t k = 0; k < n; ++k) {
    const double r = w[k] * (y[k] - (fit->a / x[k] + fit->b + fit->c * x[k]));
    g[0] += r / x[k] * x[0];
    g[1] += r;
    g[2] += r * x[k] / x[0];
    scale += w[k] * (1 + std::abs(y[k])) * x.back() / x[0];
  }
  CHECK_NEAR(g[0], 0.0, 1e-7 * scale, "not optimal in a");
  if (with_b) CHECK_NEAR(g[1], 0.0, 1e-7 * scale, "not optimal in b");
  CHECK_NEAR(g[2], 0.0, 1e-7 * scale, "not optimal in c");
  if (exact)
    for (size_t k = 0; k < n; ++k)
      if (w[k] > 0) CHECK_NEAR(fit->a / x[k] + fit->b + fit->c * x[k], y[k], 1e-6, "channel", k);
  // Cost and model evaluation.
  double cost = 0;
  for (size_t k = 0; k < n; ++k) cost += 1 - std::cos(y[k] - (a / x[k] + b + c * x[k])) * w[k];
  CHECK_NEAR(TecOffsetDelayCost(x, y, w, {a, b, c}), cost, 1e-8, "cost");
  const TecOffsetDelayValues big{s.sym(300), s.sym(20), s.sym(20)};
  std::vector<double> out(n, 99);
  EvaluateLinearTecOffsetValues(big, x, out);
  for (size_t k = 0; k < n; ++k) {
    CHECK(out[k] >= -M_PI && out[k] < M_PI, "model value out of range", out[k]);
    CHECK(CircDist(out[k], big.a / x[k] + big.b + big.c * x[k]) < 1e-9, "model value, channel", k);
  }
}

PROP("P17.von_mises_refinement", 6000, 60000) {
  // The non-linear refinement never ends worse than its linear start.
  const auto x = GenX(s, 5, 16);
  const size_t n = x.size();
  std::vector<double> y(n), w(n);
  const double a = s.sym(0.5), b = s.sym(0.7), c = s.sym(0.3) / x.back();
  for (size_t k = 0; k < n; ++k) {
    y[k] = a / x[k] + b + c * x[k] + s.sym(0.4);
    w[k] = s.real(0.3, 2);
  }
  s.note("x", x);
  s.note("y", y);
  s.nontrivial();
  const auto lin = LinearTecOffsetDelaySolve(x, y, w);
  const auto fit = GradientTecOffsetDelaySolve(x, y, w);
  CHECK(lin.has_value() && fit.has_value(), "no fit");
  CHECK(TecOffsetDelayCost(x, y, w, *fit) <= TecOffsetDelayCost(x, y, w, *lin) + 1e-9, "refinement made it worse");
}

namespace {
// How much of the cost reduction that Newton iterations reach from the linear
// start the refinement misses: 0 for all of it, 1 for none. Negative: too
// little to gain.
double RefinementGap(Src& s) {
  std::vector<double> x = {1.0};
  const size_t n = s.n(6, 16);
  const double step = s.real(0.02, 0.06);
  while (x.size() < n) x.push_back(x.back() + step * s.real(0.7, 1.5));
  std::vector<double> y(n), w(n);
  const double a = s.sym(0.5), b = s.sym(0.7), c = s.sym(0.3);
  for (size_t k = 0; k < n; ++k) {
    y[k] = a / x[k] + b + c * x[k] + s.sym(0.4);
    w[k] = s.real(0.3, 2);
    if (s.chance(1, 4)) y[k] += s.sym(2.0);
  }
  const auto lin = LinearTecOffsetDelaySolve(x, y, w);
  const auto fit = GradientTecOffsetDelaySolve(x, y, w);
  CHECK(lin.has_value() && fit.has_value(), "no fit");
  // Reference: Newton iterations from the same start in an orthogonalised basis.
  std::vector<std::vector<double>> q;
  for (int j = 0; j < 3; ++j) {
    std::vector<double> v(n);
    for (size_t k = 0; k < n; ++k) v[k] = j == 0 ? 1.0 : j == 1 ? x[k] / x[0] : x[0] / x[k];
    for (int rep = 0; rep < 2; ++rep)
      for (auto& u : q) {
        double d = 0;
        for (size_t k = 0; k < n; ++k) d += u[k] * v[k];
        for (size_t k = 0; k < n; ++k) v[k] -= d * u[k];
      }
    double d = 0;
    for (double t : v) d += t * t;
    for (double& t : v) t /= std::sqrt(d);
    q.push_back(v);
  }
  std::vector<double> res(n);
  for (size_t k = 0; k < n; ++k) res[k] = y[k] - (lin->a / x[k] + lin->b + lin->c * x[k]);
  auto cost_of = [&](const std::vector<double>& r) {
    double t = 0;
    for (size_t k = 0; k < n; ++k) t += 1 - std::cos(r[k]) * w[k];
    return t;
  };
  const double start = cost_of(res);
  double best = start;
  for (int it = 0; it < 50; ++it) {
    double m[3][4] = {};
    for (size_t k = 0; k < n; ++k)
      for (int i = 0; i < 3; ++i) {
        for (int j = 0; j < 3; ++j) m[i][j] += std::cos(res[k]) * w[k] * q[i][k] * q[j][k];
        m[i][3] += std::sin(res[k]) * w[k] * q[i][k];
      }
    for (int i = 0; i < 3; ++i)
      for (int r = 0; r < 3; ++r)
        if (r != i) {
          const double f = m[r][i] / m[i][i];
          for (int j = 0; j < 4; ++j) m[r][j] -= f * m[i][j];
        }
    for (size_t k = 0; k < n; ++k)
      for (int i = 0; i < 3; ++i) res[k] -= m[i][3] / m[i][i] * q[i][k];
    best = std::min(best, cost_of(res));
  }
  if (!(start - best > 1e-2)) return -1;
  return (TecOffsetDelayCost(x, y, w, *fit) - best) / (start - best);
}
}  // namespace

PROP("P17.von_mises_optimum", 2500, 20000) {
  // The minimiser may stall now and then (measured: one in a hundred), but
  // mostly reaches the optimum of its cost.
  size_t total = 0, good = 0;
  for (int k = 0; k < 26; ++k) {
    const double g = RefinementGap(s);
    if (g < 0) continue;
    ++total;
    good += g < 0.5;
  }
  if (total < 4) throw vpt::Discard{};
  s.note("fits", total);
  s.nontrivial();
  CHECK(4 * good >= total, "refinement does not reach the optimum of its cost", good, total);
}

PROP("P17.grid_search", 4000, 60000) {
  // Noise-free wrapped data within the announced number of wraps: the global
  // optimum is found.
  const bool with_b = s.b(), noisy = s.chance(1, 5);
  // Without an offset the search only covers bands wider than a factor 3.
  const auto x = with_b ? GenX(s, 16, 40) : GenX(s, 30, 40, 0.2, 0.5);
  if (!with_b && x.back() < 3.2 * x.front()) throw vpt::Discard{};
  const size_t n = x.size(), wraps = s.n(1, 4);
  const bool vm = s.chance(1, 6);
  const double range = 2 * M_PI * wraps * 0.95;
  const double a = s.sym(range / (1 / x.front() - 1 / x.back()));
  const double c = s.sym(range / (x.back() - x.front()));
  const double b = with_b ? s.sym(3.1) : 0;
  std::vector<double> y(n), w(n, 1.0);
  EvaluateLinearTecOffsetValues({a, b, c}, x, y);
  for (size_t k = 0; k < n; ++k) {
    if (noisy) y[k] += s.sym(0.1);
    if (s.chance(1, 4)) w[k] = s.real(0.5, 2);
  }
  if (s.chance(1, 4)) {
    const size_t k = s.n(0, n - 1);
    w[k] = 0;
    y[k] = s.sym(3);
  }
  s.note("x", x);
  s.note("abc", std::vector<double>{a, b, c});
  s.note("wraps", wraps);
  s.note("with b", with_b);
  s.note("von mises", vm);
  s.nontrivial(vm ? "von Mises" : "least squares");
  const auto fit = TecOffsetDelayGridSearch(
      x, y, w, with_b, wraps, vm ? TecOffsetDelayFittingMethod::VonMises : TecOffsetDelayFittingMethod::LeastSquares);
  if (!with_b) CHECK_EQ(fit.b, 0.0);
  const double truth = TecOffsetDelayCost(x, y, w, {a, b, c});
  const double cost = TecOffsetDelayCost(x, y, w, fit);
  if (!noisy)
    CHECK_NEAR(cost, truth, 1e-6 * n, "optimum not found");
  else
    CHECK(cost <= truth + 0.02 * n, "optimum not found", cost, truth);
  if (!vm) {
    // Converged: another least-squares step on the remaining residuals gains nothing.
    std::vector<double> res(n);
    for (size_t k = 0; k < n; ++k) res[k] = std::remainder(y[k] - (fit.a / x[k] + fit.b + fit.c * x[k]), 2 * M_PI);
    const auto more = with_b ? LinearTecOffsetDelaySolve(x, res, w) : LinearTecDelaySolve(x, res, w);
    if (more) {
      const double again = TecOffsetDelayCost(x, y, w, {fit.a + more->a, fit.b + more->b, fit.c + more->c});
      CHECK(again >= cost - 1e-6 * n, "stopped before the optimum", cost, again);
    }
  }
}

// ---------------------------------------------------------------- P18
PROP("P18.weighted_median", 600000, 8000000) {
  const size_t n = s.n(0, 12);
  std::vector<std::pair<double, double>> v;
  for (size_t k = 0; k < n; ++k) v.emplace_back(s.b() ? double(s.i(-3, 3)) : s.sym(10), double(s.i(0, 5)) / 2);
  double total = 0;
  for (auto& e : v) total += e.second;
  s.note("values", v);
  auto copy = v;
  const double m = PieceWisePhaseFitter::WeightedMedian(copy);
  if (v.empty()) {
    CHECK_EQ(m, 0.0);
    return;
  }
  if (total == 0) return;
  if (n > 2) s.nontrivial();
  bool member = false;
  double below = 0, above = 0;
  for (auto& e : v) {
    member |= e.first == m;
    if (e.first < m) below += e.second;
    if (e.first > m) above += e.second;
  }
  CHECK(member, "not one of the values", m);
  CHECK(below <= total / 2 + 1e-12 && above <= total / 2 + 1e-12, "not the weighted median", m, below, above, total);
}

PROP("P18.unwrap", 600000, 8000000) {
  const size_t n = s.n(1, 20);
  std::vector<double> v, o;
  for (size_t k = 0; k < n; ++k) v.push_back(s.sym(s.b() ? 3.14 : 30));
  o = v;
  PieceWisePhaseFitter::Unwrap(v.begin(), v.end());
  s.note("values", o);
  if (n > 2) s.nontrivial();
  CHECK_EQ(v[0], o[0]);
  for (size_t k = 0; k < n; ++k) CHECK(CircDist(v[k], o[k]) < 1e-9, "changed by other than whole turns", k);
  for (size_t k = 1; k < n; ++k) CHECK(std::abs(v[k] - v[k - 1]) <= M_PI + 1e-9, "jump remains", k);
}

PROP("P18.linear_phases", 150000, 2000000) {
  // Phases on a straight line, wrapped, are reproduced by every fit.
  const size_t n = s.n(1, 40);
  const size_t chunk = s.n(0, 14);
  std::vector<double> nu, data, w, clean;
  double f = 1.3e8;
  for (size_t k = 0; k < n; ++k) {
    nu.push_back(f);
    f += 2e5 * (s.chance(1, 4) ? s.real(0.5, 3) : 1.0);
  }
  // The slope keeps each chunk within a turn.
  double span = 1;
  const size_t cs = std::min(chunk, n);
  for (size_t k = 0; cs > 1 && k + cs <= n; ++k) span = std::max(span, nu[k + cs - 1] - nu[k]);
  const double slope = s.sym(1.5) / span, off = s.sym(3.1);
  const bool positive = s.b(), weighted = s.b(), zeros = weighted && s.chance(1, 4);
  for (size_t k = 0; k < n; ++k) {
    double p = std::remainder(off + slope * (nu[k] - nu[0]), 2 * M_PI);
    if (positive && p < 0) p += 2 * M_PI;
    clean.push_back(p);
    data.push_back(p);
    w.push_back(weighted ? double(s.i(1, 5)) : 1.0);
  }
  if (zeros && n > 20 && chunk > 6) {  // a flagged channel
    const size_t k = s.n(0, n - 1);
    w[k] = 0;
    data[k] = positive ? s.real(0, 2 * M_PI) : s.sym(M_PI);
  }
  const double wscale = weighted ? s.pick({1.0, 1.0, 0.1, 30.0}) : 1.0;
  for (double& v : w) v *= wscale;
  s.note("weight scale", wscale);
  s.note("n", n);
  s.note("chunk", chunk);
  s.note("slope*span", slope * span);
  s.note("offset", off);
  if (n > 4 && chunk > 2) s.nontrivial(weighted ? "weighted" : "unweighted");
  PieceWisePhaseFitter fit(chunk);
  CHECK_EQ(fit.ChunkSize(), chunk);
  if (s.chance(1, 3)) {
    fit.SetChunkSize(3);
    std::vector<double> junk(5, 1.0), out(5);
    fit.PieceWiseFit({1e8, 1.1e8, 1.2e8, 1.3e8, 1.4e8}, junk, out);
    fit.SetChunkSize(chunk);
  }
  auto check = [&](const std::vector<double>& out, const char* what) {
    CHECK_EQ(out.size(), n);
    for (size_t k = 0; k < n; ++k) CHECK(CircDist(out[k], clean[k]) < 1e-4, what, "channel", k, out[k], clean[k]);
  };
  std::vector<double> out(n, 1e9);
  if (weighted)
    fit.PieceWiseFit(nu, data, w.data(), out);
  else
    fit.PieceWiseFit(nu, data, out);
  check(out, "piece-wise");
  std::fill(out.begin(), out.end(), 1e9);
  if (weighted)
    fit.SlidingFit(nu.data(), data.data(), w.data(), out.data(), n);
  else
    fit.SlidingFit(nu.data(), data.data(), out.data(), n);
  check(out, "sliding");
  std::fill(out.begin(), out.end(), 1e9);
  const size_t bp = fit.SlidingFitWithBreak(nu.data(), data.data(), w.data(), out.data(), n);
  CHECK(bp <= n, "break point", bp);
  const size_t size = PieceWisePhaseFitter::CalculateChunkSize(nu);
  CHECK(size >= 1 && size <= n, "chunk size", size);
}

PROP("P18.noisy_phases", 100000, 1500000) {
  // Phases that need no unwrapping: every fit is the weighted least-squares
  // line of its window.
  const size_t n = s.n(1, 30), chunk = s.n(2, 12);
  std::vector<double> nu, data, w;
  double f = 1.3e8;
  const double base = s.real(-1, 4);
  for (size_t k = 0; k < n; ++k) {
    nu.push_back(f);
    f += 2e5 * (s.chance(1, 4) ? s.real(0.5, 3) : 1.0);
    data.push_back(base + s.sym(1.1));
    w.push_back(double(s.i(1, 5)));
  }
  const bool weighted = s.b();
  if (!weighted) std::fill(w.begin(), w.end(), 1.0);
  const size_t cs = std::min(chunk, n);
  s.note("n", n);
  s.note("chunk", chunk);
  s.note("data", data);
  s.note("w", w);
  if (n > chunk && chunk > 2) s.nontrivial(weighted ? "weighted" : "unweighted");
  auto line = [&](size_t from, size_t count, size_t at) {
    if (count == 1) return data[from];
    double sw = 0, mx = 0, my = 0, xx = 0, xy = 0;
    for (size_t k = from; k < from + count; ++k) sw += w[k], mx += w[k] * nu[k], my += w[k] * data[k];
    mx /= sw, my /= sw;
    for (size_t k = from; k < from + count; ++k) xx += w[k] * (nu[k] - mx) * (nu[k] - mx), xy += w[k] * (nu[k] - mx) * (data[k] - my);
    return my + xy / xx * (nu[at] - mx);
  };
  PieceWisePhaseFitter fit(chunk);
  std::vector<double> out(n, 1e9);
  if (weighted)
    fit.PieceWiseFit(nu, data, w.data(), out);
  else
    fit.PieceWiseFit(nu, data, out);
  for (size_t k = 0; k < n; ++k) {
    // The last chunk is moved back to fit in and overlaps the one before.
    const size_t from = std::min(k / cs * cs, n - cs);
    const bool ok = CircDist(out[k], line(from, cs, k)) < 1e-3 || (k >= n - cs && CircDist(out[k], line(n - cs, cs, k)) < 1e-3);
    CHECK(ok, "piece-wise fit, channel", k, out[k], line(from, cs, k));
  }
  auto sliding = [&](size_t from, size_t count, const std::vector<double>& got, const char* what) {
    const size_t c = std::min(chunk, count);
    for (size_t k = 0; k < count; ++k) {
      // The window around the channel, kept within the range.
      const size_t start = k < c / 2 ? 0 : std::min(k - c / 2, count - c);
      const double want = line(from + start, c, from + k);
      CHECK(CircDist(got[from + k], want) < 1e-3, what, "channel", from + k, got[from + k], want);
    }
  };
  std::fill(out.begin(), out.end(), 1e9);
  if (weighted)
    fit.SlidingFit(nu.data(), data.data(), w.data(), out.data(), n);
  else
    fit.SlidingFit(nu.data(), data.data(), out.data(), n);
  sliding(0, n, out, "sliding fit");
  if (n < 2) return;
  // The break is at the middle of the window that fits worst; both sides are
  // fitted on their own.
  auto misfit = [&](size_t i) {
    double t = 0;
    for (size_t k = i; k < i + cs; ++k) t += w[k] * std::abs(data[k] - out[k]);
    return t;
  };
  if (weighted) {
    double worst = 0;
    for (size_t i = 0; i + cs < n; ++i) worst = std::max(worst, misfit(i));
    const size_t bp0 = fit.BreakPoint(data.data(), w.data(), out.data(), n);
    if (n > cs && worst > 1e-6) {
      CHECK(bp0 >= cs / 2 && bp0 - cs / 2 + cs < n, "break point", bp0);
      CHECK_NEAR(misfit(bp0 - cs / 2), worst, 1e-9 * (1 + worst), "break not at the worst window", bp0);
    }
    std::vector<double> two(n, 1e9);
    const size_t bp = fit.SlidingFitWithBreak(nu.data(), data.data(), w.data(), two.data(), n);
    CHECK_EQ(bp, bp0);
    if (bp) sliding(0, bp, two, "left of the break");
    if (bp < n) sliding(bp, n - bp, two, "right of the break");
  }
}

VPT_MAIN
