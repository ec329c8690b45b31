// P37 prediction of model visibilities, P38 station UVWs from baseline UVWs.
#include "vpt.h"

#include <numeric>

#include <xtensor/containers/xtensor.hpp>
#include <casacore/casa/Arrays/Cube.h>

#include "base/GaussianSource.h"
#include "base/PointSource.h"
#include "base/Simulate.h"
#include "base/Simulator.h"

using dp3::base::Baseline;
using dp3::base::Direction;
using dp3::base::GaussianSource;
using dp3::base::ModelComponent;
using dp3::base::PointSource;
using dp3::base::Simulator;
using dp3::base::Stokes;
using vpt::Src;
using cd = std::complex<double>;

namespace {
constexpr double kC = 299792458.0;
struct V3 {
  double x = 0, y = 0, z = 0;
};
double Dot(V3 a, V3 b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
V3 Cross(V3 a, V3 b) { return {a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x}; }
V3 Towards(Direction d) { return {std::cos(d.dec) * std::cos(d.ra), std::cos(d.dec) * std::sin(d.ra), std::sin(d.dec)}; }
V3 East(Direction d) { return {-std::sin(d.ra), std::cos(d.ra), 0}; }
V3 North(Direction d) { return {-std::sin(d.dec) * std::cos(d.ra), -std::sin(d.dec) * std::sin(d.ra), std::cos(d.dec)}; }
// The cartesian vector with coordinates u, v, w in the frame of a direction, and back.
V3 ToXyz(V3 uvw, Direction d) {
  const V3 e = East(d), n = North(d), t = Towards(d);
  return {uvw.x * e.x + uvw.y * n.x + uvw.z * t.x, uvw.x * e.y + uvw.y * n.y + uvw.z * t.y, uvw.x * e.z + uvw.y * n.z + uvw.z * t.z};
}
V3 ToUvw(V3 xyz, Direction d) { return {Dot(xyz, East(d)), Dot(xyz, North(d)), Dot(xyz, Towards(d))}; }

Direction GenDirection(Src& s) {
  return Direction(s.real(-M_PI, 2 * M_PI), s.chance(1, 8) ? s.pick({M_PI / 2, -M_PI / 2, 0.0}) : s.sym(M_PI / 2));
}
double Sinc(double x) { return std::abs(x) < 1e-9 ? 1 : std::sin(x) / x; }
}  // namespace

PROP("P37.predict", 20000, 300000) {
  const Direction ref = GenDirection(s);
  const size_t n_st = s.n(2, 6), n_ch = s.n(1, 6);
  std::vector<Baseline> bl;
  const size_t n_bl = s.n(1, 8);
  for (size_t k = 0; k < n_bl; ++k) {
    const size_t p = s.n(0, n_st - 1);
    bl.emplace_back(p, s.chance(1, 6) ? p : s.n(0, n_st - 1));
  }
  std::vector<double> freq, width;
  double f = s.pick({3e7, 6e7, 1.2e8, 2.3e8});
  for (size_t c = 0; c < n_ch; ++c) {
    freq.push_back(f);
    width.push_back(s.chance(1, 3) ? s.logu(1e3, 1e6) : 2e5);
    f += s.real(1e4, 4e5);
  }
  if (s.chance(1, 4)) std::reverse(freq.begin(), freq.end());
  xt::xtensor<double, 2> uvw({n_st, size_t(3)});
  const double len = s.logu(10, 1e5);
  for (size_t k = 0; k < n_st; ++k)
    for (size_t j = 0; j < 3; ++j) uvw(k, j) = s.chance(1, 8) ? 0.0 : s.sym(len);
  const bool only_i = s.b(), smear_f = s.b(), smear_t = s.b();
  // The north celestial pole in the frame of the phase centre, times the
  // rotation of the Earth during an integration.
  const double rotation = s.logu(1e-6, 1e-2);
  const V3 ncp = {0, rotation * std::cos(ref.dec), rotation * std::sin(ref.dec)};
  const size_t n_cr = only_i ? 1 : 4;
  s.note("baselines", bl);
  s.note("freq", freq);
  s.note("stokes I only", only_i);
  s.note("smearing f,t", std::make_pair(smear_f, smear_t));

  casacore::Cube<cd> buf(n_cr, n_ch, bl.size());
  std::vector<cd> want(n_cr * n_ch * bl.size());
  std::vector<double> tol(want.size(), 1e-9);
  for (size_t k = 0; k < want.size(); ++k) {
    want[k] = s.chance(1, 4) ? cd(0) : cd(s.sym(5), s.sym(5));
    buf.data()[k] = want[k];
  }
  auto sim = smear_t || s.b()
                 ? std::make_unique<Simulator>(ref, n_st, bl, freq, width, std::array<double, 3>{ncp.x, ncp.y, ncp.z}, uvw, buf,
                                               smear_t, smear_f, only_i)
                 : std::make_unique<Simulator>(ref, n_st, bl, freq, width, uvw, buf, smear_f, only_i);
  const size_t n_src = s.n(1, 3);
  for (size_t i = 0; i < n_src; ++i) {
    const bool close = s.b();
    Direction d = close ? Direction(ref.ra + s.sym(0.02), ref.dec + s.sym(0.02)) : GenDirection(s);
    if (s.chance(1, 10)) d = ref;
    Stokes st;
    st.I = s.sym(10);
    st.Q = s.chance(1, 3) ? 0.0 : s.sym(3);
    st.U = s.chance(1, 3) ? 0.0 : s.sym(3);
    st.V = s.chance(1, 3) ? 0.0 : s.sym(3);
    const bool gauss = s.b(), absolute = s.b();
    std::shared_ptr<PointSource> src;
    double pa = 0, major = 0, minor = 0;
    if (gauss) {
      auto g = std::make_shared<GaussianSource>(d, st);
      pa = s.sym(4);
      major = s.logu(1e-6, 1e-2) * s.pick({0.0, 1.0, 1.0, 1.0});
      minor = major * s.real(0, 1);
      g->setPositionAngle(pa);
      g->setMajorAxis(major);
      g->setMinorAxis(minor);
      g->setPositionAngleIsAbsolute(absolute);
      src = g;
    } else {
      src = std::make_shared<PointSource>(d, st);
    }
    if (s.chance(1, 3)) {
      const std::vector<double> terms = {s.sym(1), s.sym(0.5)};
      src->setSpectralTerms(s.logu(5e7, 2e8), s.b(), terms.begin(), terms.end());
    }
    if (s.chance(1, 4)) src->setRotationMeasure(s.real(0, 1), s.sym(3), s.sym(5));
    s.note("source", std::vector<double>{d.ra, d.dec, st.I, st.Q, st.U, st.V, double(gauss), pa, major, minor, double(absolute)});
    s.label(gauss ? (absolute ? "gaussian, absolute angle" : "gaussian") : "point");
    sim->simulate(src);
    const V3 to = Towards(d);
    const V3 lm{Dot(to, East(ref)), Dot(to, North(ref)), Dot(to, Towards(ref)) - 1};
    for (size_t b = 0; b < bl.size(); ++b) {
      const auto [p, q] = bl[b];
      if (p == q) continue;
      const V3 base{uvw(q, 0) - uvw(p, 0), uvw(q, 1) - uvw(p, 1), uvw(q, 2) - uvw(p, 2)};
      const double path = Dot(base, lm) / kC;
      // The change of the path during the integration.
      const double path_rate = Dot(Cross(base, ncp), lm) / kC;
      V3 g = base;
      if (absolute) g = ToUvw(ToXyz(base, ref), d);
      const double along = g.x * std::sin(pa) + g.y * std::cos(pa), across = g.x * std::cos(pa) - g.y * std::sin(pa);
      for (size_t c = 0; c < n_ch; ++c) {
        const Stokes t = src->stokes(freq[c]);
        cd v = std::polar(1.0, 2 * M_PI * freq[c] * path);
        const double k2 = freq[c] * freq[c] / (kC * kC) / (8 * std::log(2.0));
        v *= std::exp(-2 * M_PI * M_PI * k2 * (major * major * along * along + minor * minor * across * across));
        if (smear_f) v *= Sinc(M_PI * path * width[c]);
        if (smear_t) v *= Sinc(M_PI * path_rate * freq[c]);
        const cd corr[4] = {t.I + t.Q, cd(t.U, t.V), cd(t.U, -t.V), t.I - t.Q};
        for (size_t r = 0; r < n_cr; ++r) {
          const size_t at = (b * n_ch + c) * n_cr + r;
          want[at] += (only_i ? cd(t.I) : corr[r]) * v;
          const double flux = std::abs(t.I) + std::abs(t.Q) + std::abs(t.U) + std::abs(t.V);
          // The smearing terms are calculated in single precision.
          const double arg = (smear_f ? std::abs(path * width[c]) : 0) + (smear_t ? std::abs(path_rate * freq[c]) : 0);
          tol[at] += flux * (1e-8 + 1e-14 * len / kC * freq[c] + (smear_f || smear_t ? 3e-6 : 0) + (arg > 10 ? 1e-6 : 0));
        }
      }
    }
  }
  s.nontrivial(n_src > 1 ? "several sources" : "one source");
  for (size_t b = 0; b < bl.size(); ++b)
    for (size_t c = 0; c < n_ch; ++c)
      for (size_t r = 0; r < n_cr; ++r) {
        const size_t at = (b * n_ch + c) * n_cr + r;
        CHECK(std::abs(buf(r, c, b) - want[at]) <= tol[at], "baseline", b, "channel", c, "correlation", r, buf(r, c, b), want[at]);
      }
}

PROP("P37.lmn", 200000, 3000000) {
  const Direction ref = GenDirection(s), d = s.b() ? GenDirection(s) : Direction(ref.ra + s.sym(1e-3), ref.dec + s.sym(1e-3));
  double lmn[3];
  dp3::base::radec2lmn(ref, d, lmn);
  s.note("ref", std::make_pair(ref.ra, ref.dec));
  s.note("dir", std::make_pair(d.ra, d.dec));
  s.nontrivial(lmn[2] < 0 ? "behind" : "in front");
  CHECK_NEAR(lmn[0], Dot(Towards(d), East(ref)), 1e-13);
  CHECK_NEAR(lmn[1], Dot(Towards(d), North(ref)), 1e-13);
  CHECK_NEAR(lmn[2], Dot(Towards(d), Towards(ref)), 1e-13);
  // Rotating UVWs to another direction keeps the baseline itself.
  const size_t n = s.n(0, 4);
  std::vector<double> uvw(3 * n + 3, 7.5);
  std::vector<V3> before;
  for (size_t k = 0; k < n; ++k) {
    before.push_back({s.sym(1000), s.sym(1000), s.sym(1000)});
    uvw[3 * k] = before[k].x, uvw[3 * k + 1] = before[k].y, uvw[3 * k + 2] = before[k].z;
  }
  dp3::base::rotateUVW(ref, d, n, uvw.data());
  for (size_t k = 0; k < n; ++k) {
    const V3 w = ToUvw(ToXyz(before[k], ref), d);
    CHECK_NEAR(uvw[3 * k], w.x, 1e-9, "u");
    CHECK_NEAR(uvw[3 * k + 1], w.y, 1e-9, "v");
    CHECK_NEAR(uvw[3 * k + 2], w.z, 1e-9, "w");
  }
  for (size_t k = 3 * n; k < 3 * n + 3; ++k) CHECK_EQ(uvw[k], 7.5, "wrote past the end");
}

// ---------------------------------------------------------------- P38
PROP("P38.station_uvw", 60000, 800000) {
  // Baseline UVWs that are differences of station UVWs are reproduced by the
  // derived station UVWs, in every group of connected stations.
  const size_t n_st = s.n(1, 9);
  std::vector<Baseline> bl;
  std::vector<int> a1, a2;
  const size_t n_bl = s.chance(1, 3) ? s.n(0, 30) : s.n(0, 9);
  for (size_t k = 0; k < n_bl; ++k) {
    const size_t p = s.n(0, n_st - 1);
    bl.emplace_back(p, s.chance(1, 5) ? p : s.n(0, n_st - 1));
    a1.push_back(int(bl[k].first));
    a2.push_back(int(bl[k].second));
  }
  std::vector<V3> st(n_st), pos(n_st);
  for (auto& v : st) v = {s.sym(1e4), s.sym(1e4), s.sym(1e4)};
  std::vector<std::array<double, 3>> positions;
  for (size_t k = 0; k < n_st; ++k) positions.push_back({s.sym(1e5), s.sym(1e5), s.sym(1e5)});
  // Co-located stations have no distinct baseline length; not generated.
  for (size_t k = 0; k < n_st; ++k) positions[k][0] += 3e5 * double(k);
  s.note("stations", n_st);
  s.note("baselines", bl);
  dp3::base::DPBuffer::UvwType uvw_bl({bl.size(), size_t(3)});
  for (size_t k = 0; k < bl.size(); ++k) {
    const V3 &p = st[bl[k].first], &q = st[bl[k].second];
    uvw_bl(k, 0) = q.x - p.x, uvw_bl(k, 1) = q.y - p.y, uvw_bl(k, 2) = q.z - p.z;
  }
  // Groups of connected stations.
  std::vector<size_t> group(n_st);
  std::iota(group.begin(), group.end(), 0);
  auto find = [&](size_t k) {
    while (group[k] != k) k = group[k];
    return k;
  };
  for (auto& b : bl) group[find(b.first)] = find(b.second);
  size_t n_groups = 0;
  for (size_t k = 0; k < n_st; ++k) n_groups += find(k) == k;
  s.nontrivial(n_groups == 1 ? "connected" : n_groups == n_st ? "isolated stations" : "several groups");

  auto check = [&](const std::vector<int>& idx, const char* what) {
    CHECK_EQ(idx.size(), n_st - n_groups, what, "one baseline per station but the first of its group");
    xt::xtensor<double, 2> out({n_st, size_t(3)});
    for (size_t k = 0; k < n_st; ++k)
      for (size_t j = 0; j < 3; ++j) out(k, j) = 1e30;
    dp3::base::SplitUvw(idx, bl, uvw_bl, out);
    for (size_t k = 0; k < bl.size(); ++k)
      for (size_t j = 0; j < 3; ++j)
        CHECK_NEAR(out(bl[k].second, j) - out(bl[k].first, j), uvw_bl(k, j), 1e-6, what, "baseline", k);
    // The first station of each group is the origin.
    std::vector<bool> seen(n_st, false);
    for (size_t k = 0; k < n_st; ++k) {
      if (!seen[find(k)])
        for (size_t j = 0; j < 3; ++j) CHECK_EQ(out(k, j), 0.0, what, "origin, station", k);
      seen[find(k)] = true;
    }
  };
  check(dp3::base::SetupUvwSplitting(n_st, a1, a2), "by order");

  // By length: the longest baselines that connect the stations are used.
  const auto sorted = dp3::base::GetBaselinesSortedByLength(a1, a2, positions);
  auto length2 = [&](size_t k) {
    double t = 0;
    for (int j = 0; j < 3; ++j) t += std::pow(positions[a2[k]][j] - positions[a1[k]][j], 2);
    return t;
  };
  CHECK_EQ(sorted.size(), bl.size());
  std::vector<bool> used(bl.size(), false);
  for (size_t k = 0; k < sorted.size(); ++k) {
    CHECK(sorted[k] < bl.size() && !used[sorted[k]], "not a permutation");
    used[sorted[k]] = true;
    if (k) CHECK(length2(sorted[k - 1]) >= length2(sorted[k]) * (1 - 1e-12), "not sorted by length");
  }
  // Kruskal's algorithm: total length of the maximum spanning forest.
  std::iota(group.begin(), group.end(), 0);
  double best = 0;
  std::vector<size_t> order(bl.size());
  std::iota(order.begin(), order.end(), 0);
  std::stable_sort(order.begin(), order.end(), [&](size_t a, size_t b) { return length2(a) > length2(b); });
  for (size_t k : order)
    if (find(a1[k]) != find(a2[k])) {
      group[find(a1[k])] = find(a2[k]);
      best += std::sqrt(length2(k));
    }
  const auto sel = dp3::base::GetBaselineSelection(n_st, sorted, a1, a2);
  double total = 0;
  std::vector<bool> in_sel(bl.size(), false);
  for (size_t k : sel) {
    CHECK(k < bl.size() && !in_sel[k], "selected twice");
    in_sel[k] = true;
    total += std::sqrt(length2(k));
  }
  CHECK_NEAR(total, best, 1e-6 * (1 + best), "not the longest baselines");
  const auto by_length = dp3::base::SetupUvwSplitting(n_st, a1, a2, positions);
  for (int i : by_length) CHECK(in_sel[i >= 0 ? i : -i - 1], "baseline not selected");
  check(by_length, "by length");
}

VPT_MAIN
