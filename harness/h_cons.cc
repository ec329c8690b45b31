// P36 constraints of calibration solutions.
#include "steps_util.h"

#include <set>

#include "base/CalType.h"
#include "base/PhaseFitter.h"
#include "ddecal/constraints/AmplitudeOnlyConstraint.h"
#include "ddecal/constraints/AntennaConstraint.h"
#include "ddecal/constraints/AntennaIntervalConstraint.h"
#include "ddecal/constraints/FaradayConstraint.h"
#include "ddecal/constraints/KernelSmoother.h"
#include "ddecal/constraints/PolarizationLeakageConstraint.h"
#include "ddecal/constraints/RotationAndDiagonalConstraint.h"
#include "ddecal/constraints/RotationConstraint.h"
#include "ddecal/constraints/SmoothnessConstraint.h"
#include "ddecal/constraints/TecConstraint.h"
#include "ddecal/constraints/TecOffsetDelayConstraint.h"
#include "ddecal/constraints/TecOffsetDelayFitting.h"

using namespace dp3::ddecal;
using dp3::base::CalType;
using vpt::Src;
using cd = std::complex<double>;

namespace {
bool Fin(cd v) { return std::isfinite(v.real()) && std::isfinite(v.imag()); }
bool Same(cd a, cd b) { return a == b || (!Fin(a) && !Fin(b)); }
bool Close(cd a, cd b, double tol) { return std::abs(a - b) <= tol || (!Fin(a) && !Fin(b)); }
double Circ(double a, double b, double period) { return std::abs(std::remainder(a - b, period)); }

struct Case {
  size_t nch, nant, nsub, npol;
  std::vector<uint32_t> per_dir;
  std::vector<double> freq;
  std::vector<cd> v;          // (ch, ant, sub, pol)
  std::vector<double> w;      // (ant, ch)
  size_t I(size_t ch, size_t a, size_t k, size_t p = 0) const { return ((ch * nant + a) * nsub + k) * npol + p; }
  size_t R(size_t ch, size_t a, size_t k) const { return (a * nsub + k) * nch + ch; }  // results
};
Case Gen(Src& s, size_t npol, size_t chmin = 1, size_t chmax = 5, size_t antmax = 5) {
  Case c;
  c.nch = s.n(chmin, chmax), c.nant = s.n(1, antmax), c.npol = npol, c.nsub = 0;
  for (size_t d = s.n(1, 3); d > 0; --d) c.per_dir.push_back(s.pick<uint32_t>({1, 1, 2, 3})), c.nsub += c.per_dir.back();
  double f = s.real(3e7, 1.5e8);
  for (size_t k = 0; k < c.nch; ++k) c.freq.push_back(f), f += s.pick({1e6, 1e6, 2.5e6});
  c.v.resize(c.nch * c.nant * c.nsub * npol);
  for (cd& x : c.v) x = s.cplx(2);
  for (size_t k = 0; k < c.nant * c.nch; ++k) c.w.push_back(s.b() ? 1.0 : s.real(0.25, 3));
  return c;
}
void Apply(Constraint& con, Case& c, double time = 0) {
  SolutionTensor t({c.nch, c.nant, c.nsub, c.npol});
  std::copy(c.v.begin(), c.v.end(), t.data());
  SolutionSpan span = aocommon::xt::CreateSpan(t);
  con.Apply(span, time);
  std::copy(t.data(), t.data() + c.v.size(), c.v.begin());
}
void Junk(Src& s, Case& c, double rate_den) {
  if (s.b()) return;
  for (cd& x : c.v)
    if (s.chance(1, int(rate_den))) x = s.pick({cd(NAN, 0), cd(0, NAN), cd(INFINITY, 1), cd(NAN, NAN)});
}
void Shape(const ConstraintResult& r, const Case& c, const std::string& name, size_t npol, bool freq) {
  CHECK_EQ(r.name, name, "name of result");
  std::string axes = "ant,dir";
  std::vector<size_t> dims{c.nant, c.nsub};
  if (freq) axes += ",freq", dims.push_back(c.nch);
  if (npol > 1) axes += ",pol", dims.push_back(npol);
  CHECK_EQ(r.axes, axes, "axes of", name);
  CHECK(r.dims == dims, "dimensions of", name);
  size_t n = 1;
  for (size_t d : dims) n *= d;
  CHECK_EQ(r.vals.size(), n, "values of", name);
  CHECK_EQ(r.weights.size(), n, "weights of", name);
}
double Angle(const cd* j) {
  const cd i(0, 1);
  const cd ll = j[0] + j[3] + i * (j[2] - j[1]), rr = j[0] + j[3] + i * (j[1] - j[2]);
  return 0.5 * (std::arg(ll) - std::arg(rr));
}
// diag(a, b) times a rotation.
void SetJones(cd* j, cd a, cd b, double phi) {
  j[0] = a * std::cos(phi), j[1] = -a * std::sin(phi), j[2] = b * std::sin(phi), j[3] = b * std::cos(phi);
}
bool HasAmp(CalType m) { return m == CalType::kDiagonal || m == CalType::kDiagonalAmplitude || m == CalType::kScalar || m == CalType::kScalarAmplitude; }
bool HasPhase(CalType m) { return m == CalType::kDiagonal || m == CalType::kDiagonalPhase || m == CalType::kScalar || m == CalType::kScalarPhase; }
bool Duo(CalType m) { return m == CalType::kDiagonal || m == CalType::kDiagonalAmplitude || m == CalType::kDiagonalPhase; }
void Reduce(cd& a, cd& b, CalType m) {
  if (m == CalType::kRotation) {
    a = b = 1;
    return;
  }
  if (!Duo(m)) a = b = 0.5 * (a + b);
  if (!HasPhase(m)) a = std::abs(a), b = std::abs(b);
  if (!HasAmp(m)) a /= std::abs(a), b /= std::abs(b);
}
CalType Mode(Src& s) {
  return s.pick({CalType::kDiagonal, CalType::kDiagonalAmplitude, CalType::kDiagonalPhase, CalType::kScalar, CalType::kScalarAmplitude, CalType::kScalarPhase});
}
}  // namespace

PROP("P36.rotation", 8000, 300000) {
  Case c = Gen(s, 4);
  Junk(s, c, 30);
  const bool exact = s.b();
  std::vector<double> truth(c.v.size() / 4);
  if (exact)
    for (size_t i = 0; i < truth.size(); ++i) {
      truth[i] = s.sym(4);
      const cd g = std::polar(s.real(0.1, 3), s.sym(3));
      SetJones(&c.v[4 * i], g, g, truth[i]);
    }
  RotationConstraint con;
  con.Initialize(c.nant, c.per_dir, c.freq);
  con.SetWeights(c.w);
  if (s.b()) con.SetWeights(c.w);
  const Case in = c;
  Apply(con, c);
  const auto res = con.GetResult();
  CHECK_EQ(res.size(), size_t(1), "results");
  Shape(res[0], c, "rotation", 1, true);
  for (size_t ch = 0; ch < c.nch; ++ch)
    for (size_t a = 0; a < c.nant; ++a)
      for (size_t k = 0; k < c.nsub; ++k) {
        const size_t i = c.I(ch, a, k), r = c.R(ch, a, k);
        CHECK_EQ(res[0].weights[r], c.w[a * c.nch + ch], "weight of antenna", a, "solution", k, "channel", ch);
        bool fin = true;
        for (int p = 0; p < 4; ++p) fin &= Fin(in.v[i + p]);
        if (!fin) continue;
        const double want = Angle(&in.v[i]), got = res[0].vals[r];
        CHECK(Circ(got, want, M_PI) < 1e-9, "angle", got, want);
        if (exact) CHECK(Circ(got, truth[i / 4], M_PI) < 1e-6, "angle of a rotation", got, truth[i / 4]);
        cd j[4];
        SetJones(j, 1, 1, got);
        for (int p = 0; p < 4; ++p) CHECK(Close(c.v[i + p], j[p], 1e-9), "solution is the rotation, element", p);
      }
  s.nontrivial(c.nsub > 1 && c.nant > 1);
}

PROP("P36.rotation_diagonal", 12000, 400000) {
  const CalType mode = Mode(s);
  if (s.chance(1, 50)) {
    const CalType bad = s.pick({CalType::kFullJones, CalType::kTec, CalType::kRotation, CalType::kLeakage, CalType::kFaradayRotation, CalType::kRotationAndDiagonal});
    CHECK(vpt::Throws([&] { RotationAndDiagonalConstraint x(bad); }), "modes that are not diagonal are rejected");
  }
  const size_t np = Duo(mode) ? 2 : 1;
  Case c = Gen(s, 4);
  const bool exact = s.b(), reference = s.chance(1, 3), extreme = s.chance(1, 3);
  const size_t nj = c.v.size() / 4;
  std::vector<double> phi(nj);
  std::vector<std::array<cd, 2>> diag(nj);
  for (size_t i = 0; i < nj; ++i) {
    phi[i] = s.sym(3);
    for (cd& d : diag[i]) {
      double amp = s.real(0.6, 1.5);
      if (extreme && s.chance(1, 12)) amp *= s.pick({1e-3, 0.02, 40.0, 1e4});
      d = std::polar(amp, s.sym(1.4));
    }
    SetJones(&c.v[4 * i], diag[i][0], diag[i][1], phi[i]);
    if (!exact)
      for (int p = 0; p < 4; ++p) c.v[4 * i + p] += s.cplx(0.05);
  }
  size_t invalid = 0;
  if (s.chance(1, 3))
    for (size_t i = 0; i < nj; ++i)
      if (s.chance(1, 8)) c.v[4 * i + s.n(4)] = cd(NAN, 1), ++invalid;
  RotationAndDiagonalConstraint con(mode);
  con.Initialize(c.nant, c.per_dir, c.freq);
  if (s.chance(7, 8)) con.SetWeights(c.w);
  else {
    // Without weights all rotations count equally.
    for (double& w : c.w) w = 1;
    con.SetWeights(c.w);
  }
  con.SetDoRotationReference(reference);
  const Case in = c;
  Apply(con, c);
  const auto res = con.GetResult();
  CHECK_EQ(res.size(), size_t(1 + HasAmp(mode) + HasPhase(mode)), "results");
  Shape(res[0], c, "rotation", 1, true);
  const ConstraintResult *amp = nullptr, *phase = nullptr;
  if (HasAmp(mode)) amp = &res[1], Shape(*amp, c, "amplitude", np, true);
  if (HasPhase(mode)) phase = &res.back(), Shape(*phase, c, "phase", np, true);
  constexpr double kMax = 5;
  size_t limited = 0;
  for (size_t ch = 0; ch < c.nch; ++ch)
    for (size_t k = 0; k < c.nsub; ++k) {
      double mean[2] = {}, n = 0;
      std::vector<bool> ok(c.nant);
      std::vector<double> angle(c.nant);
      std::vector<std::array<cd, 2>> d(c.nant);
      for (size_t a = 0; a < c.nant; ++a) {
        const cd* j = &in.v[c.I(ch, a, k)];
        ok[a] = Fin(j[0]) && Fin(j[1]) && Fin(j[2]) && Fin(j[3]);
        if (!ok[a]) continue;
        angle[a] = std::remainder(Angle(j), M_PI);
        d[a] = {j[0] * std::cos(angle[a]) - j[1] * std::sin(angle[a]), j[3] * std::cos(angle[a]) + j[2] * std::sin(angle[a])};
        for (int p = 0; p < 2; ++p) mean[p] += std::abs(d[a][p]);
        ++n;
      }
      // Whether amplitudes are limited. Doubtful: near the limit, or depending
      // on whether the mean is that of the valid antennas.
      bool any = false, doubt = false;
      auto kind = [&](double amplitude, double m) { return amplitude > m * kMax ? 1 : amplitude < m / kMax ? -1 : 0; };
      for (size_t a = 0; a < c.nant; ++a)
        if (ok[a])
          for (int p = 0; p < 2; ++p) {
            const double x = std::abs(d[a][p]), m1 = mean[p] / c.nant, m2 = mean[p] / n;
            const int q = kind(x, m1);
            any |= q != 0;
            doubt |= q != kind(x, m2 * 1.001) || q != kind(x, m1 * 0.999);
          }
      if (doubt) continue;
      limited += any;
      double ref = NAN;
      for (size_t a = 0; a < c.nant; ++a) {
        const size_t i = c.I(ch, a, k), r = c.R(ch, a, k);
        const double w = ok[a] && !any ? c.w[a * c.nch + ch] : -1;
        for (size_t q = 0; q < res.size(); ++q)
          for (size_t p = 0; p < (q == 0 ? 1 : np); ++p)
            CHECK_EQ(res[q].weights[q == 0 ? r : r * np + p], w, "weight of", res[q].name, "antenna", a, "solution", k, "channel", ch, "polarization", p);
        if (!ok[a]) {
          for (int p = 0; p < 4; ++p) CHECK(Same(c.v[i + p], in.v[i + p]) || std::isnan(std::abs(in.v[i + p])), "solution without valid data stays");
          continue;
        }
        cd x = d[a][0], y = d[a][1];
        bool lim = false;
        for (int p = 0; p < 2; ++p) {
          cd& q = p ? y : x;
          const int kd = kind(std::abs(q), mean[p] / c.nant);
          if (kd == 0) continue;
          lim = true;
          while (kd == 1 && std::abs(q) > kMax * mean[p] / c.nant) q /= 1.2;
          while (kd == -1 && std::abs(q) < mean[p] / c.nant / kMax) q *= 1.2;
        }
        double phi0 = angle[a];
        if (reference) {
          if (std::isnan(ref)) ref = phi0;
          phi0 = std::remainder(phi0 - ref, M_PI);
        }
        const double got = res[0].vals[r];
        CHECK(Circ(got, phi0, M_PI) < 1e-9, "rotation", got, phi0);
        CHECK(std::abs(got) <= M_PI / 2 + 1e-9, "rotation within half a turn", got);
        if (exact && !reference) CHECK(Circ(got, phi[i / 4], M_PI) < 1e-5 || std::abs(diag[i / 4][0] + diag[i / 4][1]) < 1e-3 * std::abs(diag[i / 4][0]), "true rotation", got, phi[i / 4]);
        // An angle near the end of the range may come out half a turn further,
        // with opposite signs of the diagonal (not so when referenced).
        if (!reference && std::abs(std::abs(got) - M_PI / 2) < 1e-9) continue;
        cd u = x, v = y;
        // Limited amplitudes may be a step of 1.2 different.
        const double tol = lim ? 0.21 : 1e-9;
        Reduce(u, v, mode);
        const bool cancel = !Duo(mode) && (lim || std::abs(x + y) < 1e-3 * std::abs(x));
        if (cancel) continue;
        const double size = std::max(std::abs(u), std::abs(v));
        for (size_t p = 0; p < np; ++p) {
          const cd q = p ? v : u;
          if (amp) CHECK_NEAR(amp->vals[r * np + p], std::abs(q), tol * std::abs(q), "amplitude");
          if (phase) CHECK(Circ(phase->vals[r * np + p], std::arg(q), 2 * M_PI) < 1e-8, "phase", phase->vals[r * np + p], std::arg(q));
        }
        if (lim && amp && mode == CalType::kDiagonal)
          for (size_t p = 0; p < 2; ++p) {
            const double ratio = amp->vals[r * 2 + p] / (mean[p] / c.nant);
            CHECK(ratio < kMax * 1.0001 && ratio > 0.9999 / kMax, "amplitude limited to five times the mean: ratio", ratio);
          }
        cd want[4];
        SetJones(want, u, v, got);
        for (int p = 0; p < 4; ++p) CHECK(Close(c.v[i + p], want[p], tol * size + 1e-9), "constrained solution, element", p, c.v[i + p], want[p]);
      }
    }
  if (limited) s.label("limited");
  if (invalid) s.label("invalid");
  s.nontrivial(c.nant > 1 && c.nch * c.nsub > 1);
}

PROP("P36.simple", 8000, 300000) {
  Case c = Gen(s, s.pick<size_t>({1, 2, 4}));
  Junk(s, c, 12);
  const Case in = c;
  const double tol = 1e-12;
  switch (s.n(4)) {
    case 0: {
      AmplitudeOnlyConstraint con;
      con.Initialize(c.nant, c.per_dir, c.freq);
      Apply(con, c);
      for (size_t i = 0; i < c.v.size(); ++i)
        if (Fin(in.v[i])) CHECK(c.v[i].imag() == 0 && std::abs(c.v[i].real() - std::abs(in.v[i])) < tol, "amplitude only", in.v[i], c.v[i]);
        else CHECK(!Fin(c.v[i]), "not finite stays so");
      CHECK(con.Satisfied() && con.GetResult().empty(), "satisfied, without results");
      s.nontrivial(c.v.size() > 2);
      break;
    }
    case 1: {
      if (c.npol != 4) throw vpt::Discard{};
      PolarizationLeakageConstraint con;
      con.Initialize(c.nant, c.per_dir, c.freq);
      Apply(con, c);
      for (size_t i = 0; i < c.v.size(); ++i)
        if (i % 4 == 0 || i % 4 == 3) CHECK(c.v[i] == cd(1, 0), "diagonal is one");
        else CHECK(Same(c.v[i], in.v[i]), "leakage stays");
      s.nontrivial(c.v.size() > 4);
      break;
    }
    case 2: {
      AntennaConstraint con;
      con.Initialize(c.nant, c.per_dir, c.freq);
      std::vector<size_t> group(c.nant);
      const size_t ng = s.n(0, 3);
      std::vector<std::set<size_t>> sets(ng);
      for (size_t a = 0; a < c.nant; ++a) {
        group[a] = s.n(0, ng);
        if (group[a] < ng) sets[group[a]].insert(a);
      }
      auto copy = sets;
      con.SetAntennaSets(std::move(copy));
      Apply(con, c);
      size_t used = 0;
      for (size_t ch = 0; ch < c.nch; ++ch)
        for (size_t k = 0; k < c.nsub; ++k)
          for (size_t p = 0; p < c.npol; ++p) {
            for (size_t a = 0; a < c.nant; ++a) {
              cd want = in.v[c.I(ch, a, k, p)];
              if (group[a] < ng) {
                cd sum = 0;
                double n = 0;
                for (size_t b : sets[group[a]])
                  if (Fin(in.v[c.I(ch, b, k, p)])) sum += in.v[c.I(ch, b, k, p)], ++n;
                want = n ? sum / n : cd(NAN, NAN);
                used += n > 1;
              }
              CHECK(Close(c.v[c.I(ch, a, k, p)], want, 1e-9), "antenna", a, "channel", ch, "solution", k, c.v[c.I(ch, a, k, p)], "instead of", want);
            }
          }
      s.nontrivial(used > 0);
      break;
    }
    default: {
      std::vector<size_t> f;
      for (size_t a = 0; a < c.nant; ++a) f.push_back(s.n(1, 4));
      if (s.chance(1, 12)) f[s.n(f.size())] = 0;
      if (s.chance(1, 12)) s.b() ? f.push_back(1) : f.pop_back();
      uint32_t most = 0;
      for (uint32_t d : c.per_dir) most = std::max(most, d);
      bool bad = f.size() != c.nant;
      for (size_t x : f) bad |= x == 0 || x > most;
      AntennaIntervalConstraint con(f);
      CHECK(con.GetIntervalsPerAntenna() == f, "factors");
      const bool thrown = vpt::Throws([&] { con.Initialize(c.nant, c.per_dir, c.freq); });
      CHECK_EQ(thrown, bad, "invalid averaging factors are rejected");
      if (bad) return;
      Apply(con, c);
      bool used = false;
      for (size_t ch = 0; ch < c.nch; ++ch)
        for (size_t a = 0; a < c.nant; ++a)
          for (size_t p = 0; p < c.npol; ++p) {
            size_t first = 0;
            for (uint32_t n : c.per_dir) {
              for (size_t k = 0; k < n; ++k) {
                const size_t b = k / f[a] * f[a], e = std::min<size_t>(n, b + f[a]);
                cd sum = 0;
                double cnt = 0;
                for (size_t q = b; q < e; ++q)
                  if (Fin(in.v[c.I(ch, a, first + q, p)])) sum += in.v[c.I(ch, a, first + q, p)], ++cnt;
                used |= cnt > 1;
                CHECK(Close(c.v[c.I(ch, a, first + k, p)], cnt ? sum / cnt : cd(NAN, NAN), 1e-9), "average over intervals: antenna", a, "direction interval", k, "polarization", p);
              }
              first += n;
            }
          }
      s.nontrivial(used);
    }
  }
}

PROP("P36.smoothness", 3000, 100000) {
  Case c = Gen(s, s.pick<size_t>({1, 2, 4}), 1, 12);
  Junk(s, c, 12);
  const double bw = s.pick({5e5, 2e6, 5e6, 2e7}), ref = s.pick({0.0, 0.0, 6e7, 1.5e8}), ex = s.pick({-1.0, 0.0, 1.0, 2.0});
  const bool trunc = s.b();
  SmoothnessConstraint con(bw, ref, ex, trunc);
  con.Initialize(c.nant, c.per_dir, c.freq);
  con.SetWeights(c.w);
  std::vector<double> af, df;
  for (size_t a = 0; a < c.nant; ++a) af.push_back(s.pick({1.0, 0.5, 2.0, 0.8}));
  auto af2 = af;
  con.SetAntennaFactors(std::move(af2));
  CHECK(con.GetAntennaFactors() == af, "antenna factors");
  if (s.b()) {
    for (size_t k = 0; k < c.nsub; ++k) df.push_back(s.pick({1.0, 0.5, 2.0, 3.0}));
    con.SetDdSmoothingFactors(df);
    auto wrong = df;
    wrong.push_back(1);
    CHECK(vpt::Throws([&] { con.SetDdSmoothingFactors(wrong); }), "wrong number of factors is rejected");
    CHECK(con.GetDdSmoothingFactors() == df, "factors");
  }
  std::vector<std::vector<double>> sw;
  if (s.b()) {
    sw.resize(c.nsub);
    for (auto& x : sw)
      for (size_t i = 0; i < c.nant * c.nch; ++i) x.push_back(s.chance(1, 8) ? 0.0 : s.real(0.2, 3));
    con.SetSubSolutionWeights(sw);
  }
  const Case in = c;
  for (int rounds = s.chance(1, 4) ? 2 : 1; rounds > 0; --rounds) {
    c = in;  // nothing is remembered from one call to the next
    Apply(con, c);
  }
  using Smoother = KernelSmoother<cd, double>;
  Smoother sm(c.freq, Smoother::GaussianKernel, bw, ref, ex, trunc);
  for (size_t a = 0; a < c.nant; ++a)
    for (size_t k = 0; k < c.nsub; ++k)
      for (size_t p = 0; p < c.npol; ++p) {
        std::vector<cd> d(c.nch);
        std::vector<double> w(c.nch);
        for (size_t ch = 0; ch < c.nch; ++ch)
          if (Fin(in.v[c.I(ch, a, k, p)])) d[ch] = in.v[c.I(ch, a, k, p)], w[ch] = sw.empty() ? c.w[a * c.nch + ch] : sw[k][a * c.nch + ch];
        sm.Smooth(d.data(), w.data(), (df.empty() ? 1.0 : 1.0 / df[k]) / af[a]);
        for (size_t ch = 0; ch < c.nch; ++ch)
          CHECK(Close(c.v[c.I(ch, a, k, p)], d[ch], 1e-9), "smoothed: antenna", a, "solution", k, "polarization", p, "channel", ch, c.v[c.I(ch, a, k, p)], "instead of", d[ch]);
      }
  s.nontrivial(c.nch > 2 && c.nant * c.nsub > 1);
}

namespace {
// Reference antenna: the first with more than 20% unflagged channels in the
// first solution; all others are divided by it.
void Reference(Case& c) {
  for (size_t p = 0; p < c.npol; ++p) {
    size_t ref = 0;
    for (size_t a = 0; a < c.nant; ++a) {
      size_t n = 0;
      for (size_t ch = 0; ch < c.nch; ++ch) n += Fin(c.v[c.I(ch, a, 0, p)]);
      if (5 * n > c.nch) {
        ref = a;
        break;
      }
    }
    const std::vector<cd> old = c.v;
    for (size_t ch = 0; ch < c.nch; ++ch)
      for (size_t k = 0; k < c.nsub; ++k)
        for (size_t a = 0; a < c.nant; ++a) c.v[c.I(ch, a, k, p)] = a == ref ? cd(1) : old[c.I(ch, a, k, p)] / old[c.I(ch, ref, k, p)];
  }
}
void PhaseJunk(Src& s, Case& c) {
  if (s.b()) return;
  for (size_t a = 0; a < c.nant; ++a) {
    const bool all = s.chance(1, 5);
    for (size_t ch = 0; ch < c.nch; ++ch)
      for (size_t k = 0; k < c.nsub; ++k)
        if (all ? !s.chance(1, 6) : s.chance(1, 20)) c.v[c.I(ch, a, k)] = cd(NAN, NAN);
  }
}
}  // namespace

PROP("P36.tec", 700, 25000) {
  Case c = Gen(s, 1, 4, 16, 4);
  const bool scalar = s.b(), approx = s.chance(1, 3), reference = s.chance(3, 4), model = s.chance(3, 4);
  std::vector<double> alpha, beta;
  for (size_t a = 0; a < c.nant; ++a)
    for (size_t k = 0; k < c.nsub; ++k) {
      alpha.push_back(s.sym(1e9)), beta.push_back(scalar ? s.sym(1.5) : 0.0);
      const double g = s.real(0.5, 2);
      for (size_t ch = 0; ch < c.nch; ++ch) c.v[c.I(ch, a, k)] = std::polar(g, alpha.back() / c.freq[ch] + beta.back() + (model ? 0.0 : s.sym(0.4)));
    }
  PhaseJunk(s, c);
  const auto mode = scalar ? TecConstraint::Mode::kTecAndCommonScalar : TecConstraint::Mode::kTecOnly;
  std::unique_ptr<TecConstraint> con;
  if (approx) con = std::make_unique<ApproximateTECConstraint>(mode);
  else con = std::make_unique<TecConstraint>(mode);
  ApproximateTECConstraint* ap = approx ? static_cast<ApproximateTECConstraint*>(con.get()) : nullptr;
  const size_t chunk = s.n(0, 6), max_iter = s.n(0, 4);
  if (ap) ap->SetFittingChunkSize(chunk), ap->SetMaxApproximatingIterations(max_iter);
  con->Initialize(c.nant, c.per_dir, c.freq);
  const bool weights = s.chance(3, 4);
  if (weights) con->SetWeights(c.w);
  else std::fill(c.w.begin(), c.w.end(), 1.0);
  con->setDoPhaseReference(reference);
  Case want = c;
  bool exact = true;
  if (ap) {
    const bool prec = s.chance(1, 4), last = s.chance(1, 4);
    const size_t it = s.n(0, 5);
    ap->PrepareIteration(prec, it, last);
    exact = prec || last || it >= max_iter;
    CHECK_EQ(ap->Satisfied(), exact, "satisfied after the approximate stage");
  } else {
    con->PrepareIteration(s.b(), 3, s.b());
    CHECK(con->Satisfied(), "satisfied");
  }
  Apply(*con, c);
  if (reference) Reference(want);
  const auto res = con->GetResult();
  if (!exact) {
    CHECK(res.empty(), "no results in the approximate stage");
    PieceWisePhaseFitter pw(chunk ? chunk : PieceWisePhaseFitter::CalculateChunkSize(c.freq));
    for (size_t a = 0; a < c.nant; ++a)
      for (size_t k = 0; k < c.nsub; ++k) {
        std::vector<double> d(c.nch), w(c.nch), f(c.nch);
        for (size_t ch = 0; ch < c.nch; ++ch)
          if (Fin(want.v[c.I(ch, a, k)])) d[ch] = std::arg(want.v[c.I(ch, a, k)]), w[ch] = c.w[a * c.nch + ch];
        pw.SlidingFitWithBreak(c.freq.data(), d.data(), w.data(), f.data(), d.size());
        for (size_t ch = 0; ch < c.nch; ++ch) {
          const cd got = c.v[c.I(ch, a, k)];
          CHECK(Close(got, std::polar(1.0, f[ch]), 1e-6), "approximate phase of antenna", a, "solution", k, "channel", ch);
        }
      }
    s.nontrivial(c.nant > 1);
    s.label("approximate");
    return;
  }
  CHECK_EQ(res.size(), size_t(scalar ? 3 : 2), "results");
  Case one = c;
  one.nch = 1;
  Shape(res[0], one, "tec", 1, true);
  if (scalar) Shape(res[1], one, "phase", 1, true);
  Shape(res.back(), one, "error", 1, true);
  for (size_t a = 0; a < c.nant; ++a)
    for (size_t k = 0; k < c.nsub; ++k) {
      PhaseFitter pf;
      pf.Initialize(c.freq);
      double sum = 0;
      for (size_t ch = 0; ch < c.nch; ++ch) {
        const cd x = want.v[c.I(ch, a, k)];
        pf.PhaseData()[ch] = Fin(x) ? std::arg(x) : 0.0;
        pf.WeightData()[ch] = Fin(x) ? c.w[a * c.nch + ch] : 0.0;
        sum += pf.WeightData()[ch];
      }
      const size_t r = a * c.nsub + k;
      for (auto& q : res) CHECK_NEAR(q.weights[r], sum, 1e-9 * (1 + sum), "weight of", q.name, "is the sum of the used weights");
      if (sum == 0) continue;
      double al = 0, be = 0;
      const double cost = scalar ? pf.FitDataToTEC2Model(al, be) : pf.FitDataToTEC1Model(al);
      for (size_t ch = 0; ch < c.nch; ++ch) CHECK(Close(c.v[c.I(ch, a, k)], std::polar(1.0, pf.PhaseData()[ch]), 1e-6), "phase of antenna", a, "solution", k, "channel", ch);
      CHECK_NEAR(res[0].vals[r], al / -8.44797245e9, 1e-6, "tec");
      if (scalar) CHECK(Circ(res[1].vals[r], be, 2 * M_PI) < 1e-6, "scalar phase");
      CHECK_NEAR(res.back().vals[r], cost, 1e-6, "error");
    }
  s.nontrivial(c.nant > 1 && c.nch > 4);
}

PROP("P36.tec_delay", 250, 8000) {
  Case c = Gen(s, 1, 6, 20, 4);
  const bool offset = s.b(), reference = s.chance(3, 4);
  const size_t wraps = s.n(1, 4);
  for (size_t a = 0; a < c.nant; ++a)
    for (size_t k = 0; k < c.nsub; ++k) {
      const double x = s.sym(2), y = offset ? s.sym(1) : 0, z = s.sym(2), g = s.real(0.5, 2), noise = s.pick({0.0, 0.2});
      for (size_t ch = 0; ch < c.nch; ++ch) {
        const double f = c.freq[ch] / c.freq[0];
        c.v[c.I(ch, a, k)] = std::polar(g, x / f + y + z * f + s.sym(noise));
      }
    }
  PhaseJunk(s, c);
  TecOffsetDelayConstraint con(offset, wraps, reference);
  con.Initialize(c.nant, c.per_dir, c.freq);
  if (s.chance(3, 4)) con.SetWeights(c.w);
  else std::fill(c.w.begin(), c.w.end(), 1.0);
  Case want = c;
  if (reference) Reference(want);
  Apply(con, c);
  const auto res = con.GetResult();
  CHECK_EQ(res.size(), size_t(offset ? 3 : 2), "results");
  Case one = c;
  one.nch = 1;
  Shape(res[0], one, "tec", 1, true);
  if (offset) Shape(res[1], one, "phase", 1, true);
  Shape(res.back(), one, "delay", 1, true);
  std::vector<double> x;
  for (double f : c.freq) x.push_back(f / c.freq[0]);
  for (size_t a = 0; a < c.nant; ++a)
    for (size_t k = 0; k < c.nsub; ++k) {
      std::vector<double> d(c.nch), w(c.nch), m(c.nch);
      double sum = 0;
      for (size_t ch = 0; ch < c.nch; ++ch)
        if (Fin(want.v[c.I(ch, a, k)])) d[ch] = std::arg(want.v[c.I(ch, a, k)]), w[ch] = c.w[a * c.nch + ch], sum += w[ch];
      const size_t r = a * c.nsub + k;
      for (auto& q : res) CHECK_NEAR(q.weights[r], sum, 1e-9 * (1 + sum), "weight of", q.name);
      if (sum == 0) continue;
      const TecOffsetDelayValues v = TecOffsetDelayGridSearch(x, d, w, offset, wraps);
      EvaluateLinearTecOffsetValues(v, x, m);
      CHECK_NEAR(res[0].vals[r], v.a * c.freq[0] / -8.44797245e9, 1e-6, "tec");
      if (offset) CHECK_NEAR(res[1].vals[r], v.b, 1e-6, "offset");
      CHECK_NEAR(res.back().vals[r] * 2 * M_PI * c.freq[0], v.c, 1e-6, "delay");
      for (size_t ch = 0; ch < c.nch; ++ch) CHECK(Close(c.v[c.I(ch, a, k)], std::polar(1.0, m[ch]), 1e-6), "phase of antenna", a, "solution", k, "channel", ch);
    }
  s.nontrivial(c.nant > 1);
}

PROP("P36.faraday", 1500, 50000) {
  Case c = Gen(s, 4, 10, 40, 3);
  {  // a band for which the rotation measures are well determined
    const double f0 = s.pick({3e7, 5e7, 1.2e8}), step = s.pick({4e5, 1e6});
    for (size_t k = 0; k < c.nch; ++k) c.freq[k] = f0 + k * step;
  }
  const CalType mode = s.chance(1, 4) ? CalType::kRotation : Mode(s);
  const size_t np = Duo(mode) ? 2 : 1;
  const double lmax = std::pow(299792458.0 / c.freq.front(), 2), lmin = std::pow(299792458.0 / c.freq.back(), 2);
  const double l1 = std::pow(299792458.0 / c.freq[1], 2);
  // At most a quarter turn between neighbouring channels.
  const double top = std::min(0.25 * M_PI / (lmax - l1), 40 * M_PI / lmax);
  const bool limited = s.b();
  std::optional<double> limit;
  if (limited) limit = top * s.real(0.05, 1.0);
  std::vector<double> rm;
  const double range = limited ? *limit : top;
  bool near = s.b();
  for (size_t i = 0; i < c.nant * c.nsub; ++i) {
    rm.push_back(near && s.b() ? (s.b() ? 1 : -1) * range * s.real(0.8, 0.99) : s.sym(0.99 * range));
  }
  std::vector<std::array<cd, 2>> diag(c.nch * c.nant * c.nsub);
  for (size_t ch = 0; ch < c.nch; ++ch)
    for (size_t a = 0; a < c.nant; ++a)
      for (size_t k = 0; k < c.nsub; ++k) {
        const size_t i = c.I(ch, a, k);
        cd x = std::polar(s.real(0.5, 2), s.sym(1.2)), y = std::polar(s.real(0.5, 2), s.sym(1.2));
        if (mode == CalType::kRotation) x = y;
        diag[i / 4] = {x, y};
        SetJones(&c.v[i], x, y, rm[a * c.nsub + k] * std::pow(299792458.0 / c.freq[ch], 2));
      }
  size_t nans = 0;
  if (s.chance(1, 3))
    for (size_t ch = 1; ch + 1 < c.nch; ++ch)
      if (s.chance(1, 10)) {
        const size_t i = c.I(ch, s.n(c.nant), s.n(c.nsub));
        for (int p = 0; p < 4; ++p) c.v[i + p] = cd(NAN, NAN);
        ++nans;
      }
  FaradayConstraint con(mode, limit);
  con.Initialize(c.nant, c.per_dir, c.freq);
  std::vector<std::vector<double>> sw(c.nsub, c.w);
  if (s.b()) {
    for (auto& x : sw)
      for (double& w : x) w = s.real(0.3, 3);
    con.SetSubSolutionWeights(sw);
  } else con.SetWeights(c.w);
  const Case in = c;
  Apply(con, c);
  const auto res = con.GetResult();
  const bool dg = mode != CalType::kRotation;
  CHECK_EQ(res.size(), size_t(1 + (dg && HasAmp(mode)) + (dg && HasPhase(mode))), "results");
  Shape(res[0], c, "rotationmeasure", 1, false);
  const ConstraintResult *amp = nullptr, *phase = nullptr;
  if (dg && HasAmp(mode)) amp = &res[1], Shape(*amp, c, "amplitude", np, true);
  if (dg && HasPhase(mode)) phase = &res.back(), Shape(*phase, c, "phase", np, true);
  for (size_t a = 0; a < c.nant; ++a)
    for (size_t k = 0; k < c.nsub; ++k) {
      double sum = 0;
      for (size_t ch = 0; ch < c.nch; ++ch) sum += sw[k][a * c.nch + ch];
      CHECK_NEAR(res[0].weights[a * c.nsub + k], sum, 1e-9 * sum, "weight of the rotation measure");
      const double got = res[0].vals[a * c.nsub + k];
      CHECK_NEAR(got, rm[a * c.nsub + k], 1e-5 / lmax + 1e-6 * std::abs(got), "rotation measure of antenna", a, "solution", k);
      for (size_t ch = 0; ch < c.nch; ++ch) {
        const size_t i = c.I(ch, a, k), r = c.R(ch, a, k);
        for (size_t q = 1; q < res.size(); ++q)
          for (size_t p = 0; p < np; ++p) CHECK_EQ(res[q].weights[r * np + p], sw[k][a * c.nch + ch], "weight of", res[q].name);
        if (!Fin(in.v[i])) continue;
        cd x = diag[i / 4][0], y = diag[i / 4][1];
        if (!dg && std::abs(x) == 0) continue;
        Reduce(x, y, mode);
        for (size_t p = 0; p < np; ++p) {
          const cd q = p ? y : x;
          if (amp) CHECK_NEAR(amp->vals[r * np + p], std::abs(q), 1e-3 * (1 + std::abs(q)), "amplitude");
          if (phase) CHECK(Circ(phase->vals[r * np + p], std::arg(q), 2 * M_PI) < 1e-2, "phase");
        }
        cd want[4];
        SetJones(want, x, y, got * std::pow(299792458.0 / c.freq[ch], 2));
        for (int p = 0; p < 4; ++p) CHECK(Close(c.v[i + p], want[p], 2e-3 * (1 + std::abs(x) + std::abs(y))), "constrained solution, element", p, c.v[i + p], want[p]);
      }
    }
  if (limited) s.label("limited");
  if (nans) s.label("not-a-number values");
  s.nontrivial(c.nant * c.nsub > 1);
}

VPT_MAIN
