// P41: direction-independent gain calibration (the StefCal algorithm).
#include <array>
#include <complex>
#include <set>
#include <vector>

#include "base/GainCalAlgorithm.h"
#include "vpt.h"

using dp3::base::GainCalAlgorithm;
using casacore::IPosition;
using C = std::complex<double>;
using vpt::Src;

namespace {
using M2 = std::array<C, 4>;
M2 Mul(const M2& a, const M2& b) {
  return {a[0] * b[0] + a[1] * b[2], a[0] * b[1] + a[1] * b[3], a[2] * b[0] + a[3] * b[2], a[2] * b[1] + a[3] * b[3]};
}
M2 Herm(const M2& a) { return {std::conj(a[0]), std::conj(a[2]), std::conj(a[1]), std::conj(a[3])}; }

struct Case {
  unsigned n_st, n_t, n_ch;
  GainCalAlgorithm::Mode mode;
  bool scalar;
  std::vector<M2> gain;  // truth; diagonal unless full Jones
  // vis and model for st1 < st2, [t][ch][pair], element [p2][p1] of V(st2, st1) = G2^H M G1
  std::vector<M2> vis, model;
  std::vector<bool> have;  // per pair
  size_t at(unsigned t, unsigned c, unsigned a, unsigned b) const { return ((size_t(t) * n_ch + c) * n_st + a) * n_st + b; }
};

Case Gen(Src& s, bool full, double phase, double noise) {
  Case k;
  k.n_st = s.n(full ? 5 : 4, 8), k.n_t = s.n(1, 3), k.n_ch = s.n(1, 3);
  if (full)
    k.mode = GainCalAlgorithm::FULLJONES, k.scalar = false;
  else {
    k.mode = s.pick({GainCalAlgorithm::DEFAULT, GainCalAlgorithm::PHASEONLY, GainCalAlgorithm::AMPLITUDEONLY});
    k.scalar = s.b();
  }
  s.note("mode", int(k.mode));
  s.note("scalar", k.scalar);
  s.note("stations", k.n_st);
  s.note("times", k.n_t);
  s.note("channels", k.n_ch);
  const double level = s.logu(0.1, 100);
  for (unsigned a = 0; a < k.n_st; ++a) {
    auto g = [&]() -> C {
      const double amp = k.mode == GainCalAlgorithm::PHASEONLY ? 1 : level * s.real(0.6, 1.6);
      return std::polar(amp, k.mode == GainCalAlgorithm::AMPLITUDEONLY ? 0.0 : s.sym(phase));
    };
    M2 m{g(), 0, 0, 0};
    m[3] = k.scalar ? m[0] : g();
    if (full) m[1] = s.cplx(0.1) * level, m[2] = s.cplx(0.1) * level;
    k.gain.push_back(m);
  }
  const double flux = s.logu(0.01, 100);
  const size_t n = size_t(k.n_t) * k.n_ch * k.n_st * k.n_st;
  k.vis.assign(n, M2{});
  k.model.assign(n, M2{});
  k.have.assign(n, false);
  for (unsigned t = 0; t < k.n_t; ++t)
    for (unsigned c = 0; c < k.n_ch; ++c)
      for (unsigned a = 0; a < k.n_st; ++a)
        for (unsigned b = a + 1; b < k.n_st; ++b) {
          const size_t i = k.at(t, c, a, b), j = k.at(t, c, b, a);
          M2 m{};
          for (int p = 0; p < 4; ++p)
            if (full || p == 0 || p == 3) m[p] = flux * (std::polar(s.real(0.5, 1.5), s.real(0, 6.28)) * (p == 0 || p == 3 ? 1.0 : 0.2));
          k.model[i] = m;
          k.vis[i] = Mul(Herm(k.gain[b]), Mul(m, k.gain[a]));
          if (noise > 0)
            for (int p = 0; p < 4; ++p)
              if (full || p == 0 || p == 3) k.vis[i][p] += s.cplx(noise) * flux * level * level;
          k.model[j] = Herm(m);
          k.vis[j] = Herm(k.vis[i]);
          k.have[i] = k.have[j] = true;
        }
  return k;
}

// Remove data; the stations that are left without any.
void Drop(Src& s, Case& k, std::set<unsigned>& empty) {
  const unsigned n = s.n(0, 2);
  for (unsigned x = 0; x < n; ++x) empty.insert(s.n(0, k.n_st - 1));
  for (unsigned t = 0; t < k.n_t; ++t)
    for (unsigned c = 0; c < k.n_ch; ++c)
      for (unsigned a = 0; a < k.n_st; ++a)
        for (unsigned b = a + 1; b < k.n_st; ++b)
          if (empty.count(a) || empty.count(b))
            for (size_t i : {k.at(t, c, a, b), k.at(t, c, b, a)}) {
              k.vis[i] = k.model[i] = M2{};
              k.have[i] = false;
            }
}

void Fill(GainCalAlgorithm& g, const Case& k) {
  g.resetVis();
  for (unsigned t = 0; t < k.n_t; ++t)
    for (unsigned c = 0; c < k.n_ch; ++c)
      for (unsigned a = 0; a < k.n_st; ++a)
        for (unsigned b = 0; b < k.n_st; ++b) {
          const size_t i = k.at(t, c, a, b);
          if (!k.have[i]) continue;
          for (unsigned q = 0; q < 2; ++q)
            for (unsigned p = 0; p < 2; ++p) {
              const IPosition x(6, b, q, t, c, p, a);
              g.getVis()(x) = k.vis[i][2 * q + p];
              g.getMVis()(x) = k.model[i][2 * q + p];
            }
        }
}

// The gain matrices of a solution.
std::vector<M2> Gains(const casacore::Matrix<C>& g, const Case& k) {
  std::vector<M2> r;
  for (unsigned a = 0; a < k.n_st; ++a) {
    if (k.mode == GainCalAlgorithm::FULLJONES)
      r.push_back({g(a, 0), g(a, 1), g(a, 2), g(a, 3)});
    else
      r.push_back({g(a, 0), 0, 0, k.scalar ? g(a, 0) : g(k.n_st + a, 0)});
  }
  return r;
}

double Residual(const std::vector<M2>& g, const Case& k) {
  double r = 0, v = 0;
  for (unsigned t = 0; t < k.n_t; ++t)
    for (unsigned c = 0; c < k.n_ch; ++c)
      for (unsigned a = 0; a < k.n_st; ++a)
        for (unsigned b = a + 1; b < k.n_st; ++b) {
          const size_t i = k.at(t, c, a, b);
          if (!k.have[i]) continue;
          const M2 x = Mul(Herm(g[b]), Mul(k.model[i], g[a]));
          for (int p = 0; p < 4; ++p) r += std::norm(x[p] - k.vis[i][p]), v += std::norm(k.vis[i][p]);
        }
  return v > 0 ? std::sqrt(r / v) : 0;
}

// The best gain of each station, given those of the others.
std::vector<M2> Best(const std::vector<M2>& g, const Case& k, const std::set<unsigned>& skip) {
  std::vector<M2> out = g;
  for (unsigned a = 0; a < k.n_st; ++a) {
    if (skip.count(a)) continue;
    M2 w{}, t{};
    for (unsigned tt = 0; tt < k.n_t; ++tt)
      for (unsigned c = 0; c < k.n_ch; ++c)
        for (unsigned b = 0; b < k.n_st; ++b) {
          const size_t i = k.at(tt, c, a, b);
          if (!k.have[i]) continue;
          const M2 z = Mul(Herm(g[b]), k.model[i]), zz = Mul(Herm(z), z), zv = Mul(Herm(z), k.vis[i]);
          for (int p = 0; p < 4; ++p) w[p] += zz[p], t[p] += zv[p];
        }
    if (k.mode == GainCalAlgorithm::FULLJONES) {
      const C det = w[0] * w[3] - w[1] * w[2];
      out[a] = Mul(M2{w[3] / det, -w[1] / det, -w[2] / det, w[0] / det}, t);
    } else {
      C x = t[0] / w[0], y = t[3] / w[3];
      if (k.scalar) x = y = (t[0] + t[3]) / (w[0] + w[3]);
      if (k.mode == GainCalAlgorithm::PHASEONLY) x /= std::abs(x), y /= std::abs(y);
      if (k.mode == GainCalAlgorithm::AMPLITUDEONLY) x = std::abs(x), y = std::abs(y);
      out[a] = {x, 0, 0, y};
    }
  }
  return out;
}

double Norm(const std::vector<M2>& v) {
  double r = 0;
  for (auto& m : v)
    for (auto& x : m) r += std::norm(x);
  return std::sqrt(r);
}
double Diff(std::vector<M2> a, const std::vector<M2>& b) {
  for (size_t k = 0; k < a.size(); ++k)
    for (int p = 0; p < 4; ++p) a[k][p] -= b[k][p];
  return Norm(a);
}

struct Run {
  GainCalAlgorithm::Status status = GainCalAlgorithm::NOTCONVERGED;
  unsigned iterations = 0;
};
Run Solve(GainCalAlgorithm& g, unsigned max, const Case& k, const std::set<unsigned>& empty) {
  schaapcommon::RecursiveFor loop;
  Run r;
  for (; r.iterations < max && r.status == GainCalAlgorithm::NOTCONVERGED; ++r.iterations) {
    r.status = g.doStep(r.iterations, loop);
    (void)k, (void)empty;
  }
  return r;
}

void CheckConstraints(const std::vector<M2>& g, const Case& k, const std::set<unsigned>& empty, const char* when) {
  for (unsigned a = 0; a < k.n_st; ++a) {
    if (empty.count(a)) continue;
    for (int p : {0, 3}) {
      CHECK(std::isfinite(std::abs(g[a][p])), when, "gain is not finite, station", a);
      if (k.mode == GainCalAlgorithm::PHASEONLY) CHECK_NEAR(std::abs(g[a][p]), 1, 1e-9, when, "station", a);
      if (k.mode == GainCalAlgorithm::AMPLITUDEONLY) {
        CHECK_EQ(std::imag(g[a][p]), 0.0, when, "station", a);
        CHECK(std::real(g[a][p]) >= 0, when, "negative amplitude, station", a);
      }
    }
  }
}
}  // namespace

namespace {
void Recover(Src& s, bool full) {
  Case k = Gen(s, full, s.pick({0.3, 1.0}), 0);
  std::set<unsigned> empty;
  if (k.n_st >= 7) Drop(s, k, empty);
  s.note("stations without data", std::vector<unsigned>(empty.begin(), empty.end()));
  const double tol = s.pick({1e-5, 1e-7, 1e-9});
  s.note("tolerance", tol);
  GainCalAlgorithm g(k.n_t, k.n_ch, k.mode, k.scalar, tol, k.n_st, false, 0);
  CHECK_EQ(g.numCorrelations(), full ? 4u : k.scalar ? 1u : 2u);
  CHECK_EQ(g.nCr(), full ? 4u : 1u);
  Fill(g, k);
  const bool known = s.b();
  if (known)
    for (unsigned a : empty) g.getStationFlagged()[a] = true;
  g.init(true);
  const Run r = Solve(g, 300, k, empty);
  s.note("iterations", r.iterations);
  CHECK_EQ(int(r.status), int(GainCalAlgorithm::CONVERGED), "not converged");
  s.nontrivial(full ? "full Jones" : k.mode == GainCalAlgorithm::DEFAULT ? "diagonal or scalar" : k.mode == GainCalAlgorithm::PHASEONLY ? "phase" : "amplitude");
  const auto got = Gains(g.getSolution(false), k);
  CheckConstraints(got, k, empty, "result");
  // Data and model agree after applying the gains, so the gains are right.
  CHECK(Residual(got, k) < 30 * tol + 1e-9, "residual", Residual(got, k));
  for (unsigned a = 0; a < k.n_st; ++a)
    CHECK_EQ(bool(g.getStationFlagged()[a]), empty.count(a) > 0, "flag of station", a);
  // Stations without data get no solution.
  const auto nan = Gains(g.getSolution(true), k);
  for (unsigned a = 0; a < k.n_st; ++a)
    for (int p : {0, 3}) {
      if (empty.count(a))
        CHECK(std::isnan(std::real(nan[a][p])), "solution of flagged station", a);
      else
        CHECK_EQ(nan[a][p], got[a][p]);
    }
  // The next interval starts from these solutions and is done at once; the stations are back.
  Case k2 = k;
  if (!empty.empty() && s.b()) return;
  g.clearStationFlagged();
  for (unsigned a = 0; a < k.n_st; ++a) CHECK(!g.getStationFlagged()[a]);
  Fill(g, k2);
  g.init(false);
  const Run r2 = Solve(g, 300, k2, empty);
  CHECK_EQ(int(r2.status), int(GainCalAlgorithm::CONVERGED), "second interval");
  CHECK(Residual(Gains(g.getSolution(false), k2), k2) < 30 * tol + 1e-9, "second interval");
  if (empty.empty()) CHECK(r2.iterations <= 2, "second interval takes", r2.iterations);
}
}  // namespace

PROP("P41.recover", 300, 8000) { Recover(s, false); }
PROP("P41.recover_full", 200, 5000) { Recover(s, true); }

namespace {
void Fixpoint(Src& s, bool full) {
  Case k = Gen(s, full, s.pick({0.3, 3.0}), s.pick({0.02, 0.1, 0.3}));
  std::set<unsigned> empty;
  if (k.n_st >= 7) Drop(s, k, empty);
  const double tol = s.pick({1e-5, 1e-7});
  const bool stall = s.b();
  GainCalAlgorithm g(k.n_t, k.n_ch, k.mode, k.scalar, tol, k.n_st, stall, 0);
  Fill(g, k);
  g.init(true);
  const Run r = Solve(g, 200, k, empty);
  s.note("iterations", r.iterations);
  s.note("status", int(r.status));
  if (!stall) CHECK(r.status != GainCalAlgorithm::STALLED, "stalled without stall detection");
  const auto got = Gains(g.getSolution(false), k);
  s.nontrivial(r.status == GainCalAlgorithm::CONVERGED ? "converged" : r.status == GainCalAlgorithm::STALLED ? "stalled" : "not converged");
  if (r.status != GainCalAlgorithm::CONVERGED) return;
  CheckConstraints(got, k, empty, "result");
  std::vector<M2> mine = got;
  for (unsigned a : empty) mine[a] = M2{};
  const auto best = Best(mine, k, empty);
  CHECK(Diff(best, mine) <= 20 * tol * Norm(mine), "not the best gains given those of the other stations:", Diff(best, mine) / Norm(mine));
}
}  // namespace
PROP("P41.fixpoint", 300, 8000) { Fixpoint(s, false); }
PROP("P41.fixpoint_full", 200, 5000) { Fixpoint(s, true); }

PROP("P41.init", 300, 6000) {
  const bool full = s.chance(1, 3);
  Case k = Gen(s, full, 1.0, 0.1);
  GainCalAlgorithm g(k.n_t, k.n_ch, k.mode, k.scalar, 1e-6, k.n_st, false, 0);
  s.nontrivial(true);
  auto check = [&](const std::vector<M2>& v, double x, const char* what) {
    for (unsigned a = 0; a < k.n_st; ++a) {
      CHECK_NEAR(v[a][0], C(x), 1e-9 * (1 + x), what, "station", a);
      CHECK_NEAR(v[a][3], C(x), 1e-9 * (1 + x), what, "station", a);
      CHECK_EQ(v[a][1], C(0), what);
      CHECK_EQ(v[a][2], C(0), what);
    }
  };
  check(Gains(g.getSolution(false), k), 1, "without data");
  Fill(g, k);
  g.init(true);
  double v = 0, m = 0;
  for (size_t i = 0; i < k.vis.size(); ++i)
    for (int p = 0; p < 4; ++p) v += std::norm(k.vis[i][p]), m += std::norm(k.model[i][p]);
  const double amp = k.mode == GainCalAlgorithm::PHASEONLY ? 1 : std::pow(v / m, 0.25);
  check(Gains(g.getSolution(false), k), amp, "first");
  // Stations without a previous solution start from the average amplitude of the others.
  schaapcommon::RecursiveFor loop;
  g.doStep(0, loop);
  auto before = Gains(g.getSolution(false), k);
  std::set<unsigned> lost;
  const unsigned n = s.n(1, k.n_st);
  for (unsigned x = 0; x < n; ++x) lost.insert(s.n(0, k.n_st - 1));
  if (s.chance(1, 6))
    for (unsigned a = 0; a < k.n_st; ++a) lost.insert(a);
  s.note("lost", std::vector<unsigned>(lost.begin(), lost.end()));
  for (unsigned a : lost) g.getStationFlagged()[a] = true;
  g.getSolution(true);
  g.clearStationFlagged();
  g.init(false);
  const auto after = Gains(g.getSolution(false), k);
  double sum = 0;
  unsigned count = 0;
  for (unsigned a = 0; a < k.n_st; ++a)
    if (!lost.count(a)) sum += std::abs(before[a][0]) + std::abs(before[a][3]), count += 2;
  for (unsigned a = 0; a < k.n_st; ++a)
    for (int p : {0, 3}) {
      if (!lost.count(a))
        CHECK_EQ(after[a][p], before[a][p], "kept, station", a);
      else if (count)
        CHECK_NEAR(after[a][p], C(sum / count), 1e-9 * (1 + sum), "restarted, station", a);
      else
        CHECK_NEAR(after[a][p], C(amp), 1e-9 * (1 + amp), "all restarted, station", a);
    }
  // Nothing is solved when all stations are flagged.
  for (unsigned a = 0; a < k.n_st; ++a) g.getStationFlagged()[a] = true;
  const auto x = Gains(g.getSolution(false), k);
  CHECK_EQ(int(g.doStep(0, loop)), int(GainCalAlgorithm::CONVERGED));
  CHECK_EQ(Diff(Gains(g.getSolution(false), k), x), 0.0);
  CHECK(vpt::Throws([&] { GainCalAlgorithm(1, 1, GainCalAlgorithm::FULLJONES, true, 1e-6, 4, false, 0); }));
  // Weights add up until the data are reset.
  g.resetVis();
  CHECK_EQ(g.getWeight(), 0.0);
  double w = 0;
  for (unsigned j = s.n(0, 5); j > 0; --j) {
    const float f = s.n(0, 100) / 4.0f;
    g.incrementWeight(f);
    w += f;
  }
  CHECK_EQ(g.getWeight(), w);
  g.resetVis();
  CHECK_EQ(g.getWeight(), 0.0);
  for (const C& c : g.getVis()) CHECK_EQ(c, C(0));
  for (const C& c : g.getMVis()) CHECK_EQ(c, C(0));
}

VPT_MAIN
