// P42 MADFlagger, P43 AntennaFlagger.
#include "steps_util.h"

#include <cmath>
#include <limits>
#include <memory>
#include <random>
#include <set>

#include "antennaflagger/Flagger.h"
#include "base/FlagCounter.h"
#include "steps/AntennaFlagger.h"
#include "steps/MadFlagger.h"

namespace {
using namespace su;
using dp3::common::BaselineOrder;
using dp3::steps::AntennaFlagger;
using dp3::steps::MadFlagger;

// ------------------------------------------------------------------ MADFlagger
struct MadSet {
  size_t freq = 1, time = 1;      // requested window sizes
  size_t freq2 = 1, time2 = 1;    // the same for baselines longer than 'split'
  double thr = 1, thr2 = 1, split = -1;
  std::vector<int> corr;
  bool aut = false;
  double blmin = -1, blmax = 1e30;
};

std::string Expr(Src& s, double a, double b, double split) {
  if (split < 0) return Cat(a);
  switch (s.n(3)) {
    case 0: return Cat("iif(bl<", split, ", ", a, ",", b, ")");
    case 1: return Cat("iif(bl>", split, ",", b, ",", a, ")");
    default: return Cat(a, "+(bl>=", split, ")*", b, "-", a, "*(bl>", split, ")");
  }
}

double MedianOf(std::vector<double> v) {
  std::sort(v.begin(), v.end());
  const size_t n = v.size();
  return n % 2 ? v[n / 2] : (v[n / 2 - 1] + v[n / 2]) / 2;
}

void Mad(Src& s, bool short_input) {
  Obs o;
  o.nant = s.n(1, 4);
  for (size_t i = 0; i < o.nant; ++i) {
    o.names.push_back("A" + std::to_string(i));
    o.diam.push_back(30);
    o.pos.push_back({3826000.0 + 3 * s.i(-500, 500), 461000.0 + 3 * s.i(-500, 500), 5064000.0 + 3 * s.i(-500, 500)});
  }
  for (size_t i = 0; i < o.nant; ++i)
    for (size_t j = i; j < o.nant; ++j)
      if (s.chance(4, 5)) {
        const bool swap = s.chance(1, 4);
        o.a1.push_back(swap ? j : i);
        o.a2.push_back(swap ? i : j);
      }
  if (o.a1.empty()) o.a1.push_back(0), o.a2.push_back(0);
  o.nbl = o.a1.size();
  o.nch = s.n(1, 9);
  o.ncorr = s.pick(std::vector<size_t>{4, 1, 2, 4});
  for (size_t c = 0; c < o.nch; ++c) o.freq.push_back(1e8 + 1e5 * c), o.width.push_back(1e5);
  o.t0 = 100;
  o.dt = 2;
  o.nt = s.n(short_input ? 2 : 1, 9);
  const size_t n_in = short_input ? s.n(0, o.nt - 1) : o.nt;

  MadSet m;
  m.freq = s.n(1, 12);
  m.time = s.n(1, 12);
  m.freq2 = s.n(1, 12);
  m.time2 = s.n(1, 12);
  const std::vector<double> thr{1, 0.5, 1.3, 2, 3.7, 0.25, 0};
  m.thr = s.pick(thr);
  m.thr2 = s.pick(thr);
  if (s.chance(1, 2)) m.split = 0.5 + 100 * s.i(0, 30);
  const int how = s.n(3);
  if (how == 1) {
    for (int i = s.n(1, 4); i > 0; --i) m.corr.push_back(s.n(0, 5));
  } else if (how == 2) {
    std::vector<int> all;
    for (size_t i = 0; i < o.ncorr; ++i) all.push_back(i);
    s.shuffle(all);
    all.resize(s.n(1, all.size()));
    m.corr = all;
  }
  bool has_auto = false;
  for (size_t b = 0; b < o.nbl; ++b) has_auto |= o.a1[b] == o.a2[b];
  m.aut = s.chance(1, 3);
  if (s.chance(1, 4)) m.blmin = 0.5 + s.i(0, 2000);
  if (s.chance(1, 4)) m.blmax = 0.5 + s.i(0, 4000);

  ParameterSet ps;
  const bool plain = s.chance(1, 8);
  if (!plain || m.freq != 1 || m.split >= 0) ps.add("m.freqwindow", Expr(s, m.freq, m.freq2, m.split));
  if (!plain || m.time != 1 || m.split >= 0) ps.add("m.timewindow", Expr(s, m.time, m.time2, m.split));
  if (!plain || m.thr != 1 || m.split >= 0) ps.add("m.threshold", Expr(s, m.thr, m.thr2, m.split));
  std::string cs = "[";
  for (size_t i = 0; i < m.corr.size(); ++i) cs += (i ? "," : "") + std::to_string(m.corr[i]);
  if (!m.corr.empty() || s.b()) ps.add("m.correlations", cs + "]");
  if (m.aut) ps.add("m.applyautocorr", "true");
  if (m.blmin >= 0) ps.add("m.blmin", Cat(m.blmin));
  if (m.blmax < 1e30) ps.add("m.blmax", Cat(m.blmax));
  s.note(Cat(Note(o), " in=", n_in, " fw=", m.freq, "/", m.freq2, " tw=", m.time, "/", m.time2, " thr=", m.thr, "/", m.thr2, " split=", m.split,
         " corr=", cs, "] auto=", m.aut, " bl=", m.blmin, "..", m.blmax));

  MadFlagger step(ps, "m.");
  auto sink = std::make_shared<Sink>();
  step.setNextStep(sink);
  CHECK_EQ(step.getRequiredFields() == (Step::kDataField | Step::kFlagsField), true, "required fields");
  CHECK_EQ(step.getProvidedFields() == Step::kFlagsField, true, "provided fields");
  if (m.aut && !has_auto) {
    CHECK(vpt::Throws([&] { step.setInfo(MakeInfo(o)); }), "applyautocorr without autocorrelations");
    return;
  }
  step.setInfo(MakeInfo(o));

  // Amplitudes are exact in single precision.
  const bool per_corr = !m.aut && s.chance(1, 3);
  const int perc = s.pick({0, 10, 40, 90});
  const bool noflags = perc == 0 && s.chance(1, 3);
  const int spread = s.pick({8, 2, 64});
  std::vector<std::vector<double>> amp(n_in);
  std::vector<std::vector<char>> flag(n_in);
  std::vector<std::vector<cf>> data(n_in);
  for (size_t t = 0; t < n_in; ++t) {
    auto b = std::make_unique<DPBuffer>(o.t0 + t * o.dt, o.dt);
    const std::array<size_t, 3> sh{o.nbl, o.nch, o.ncorr};
    b->GetData().resize(sh);
    b->GetWeights().resize(sh);
    for (auto& x : b->GetWeights()) x = 1;
    if (!noflags) {
      b->GetFlags().resize(sh);
      b->GetFlags().fill(false);
    }
    const size_t n = o.nbl * o.nch * o.ncorr;
    amp[t].resize(n);
    flag[t].assign(n, 0);
    data[t].resize(n);
    for (size_t i = 0; i < n; ++i) {
      if (per_corr || i % o.ncorr == 0)
        flag[t][i] = !noflags && int(s.n(100)) < perc;
      else
        flag[t][i] = flag[t][i - 1];
      int a = s.i(0, spread);
      if (s.chance(1, 8)) a *= 20;
      cf v;
      switch (s.n(4)) {
        case 0: v = cf(a, 0); break;
        case 1: v = cf(0, -a); break;
        case 2: v = cf(-3 * a, 4 * a), a *= 5; break;
        default: v = cf(0.25f * a, 0), amp[t][i] = 0.25 * a;
      }
      amp[t][i] = std::abs(v);
      if (flag[t][i] && s.chance(1, 3)) v = cf(std::numeric_limits<float>::quiet_NaN(), 1);
      data[t][i] = v;
      b->GetData().data()[i] = v;
      if (!noflags) b->GetFlags().data()[i] = flag[t][i] != 0;
    }
    CHECK(step.process(std::move(b)), "process");
    CHECK(sink->bufs.size() <= t + 1, "more buffers than given");
  }
  CHECK_EQ(sink->n_finish, 0, "finished early");
  step.finish();
  CHECK_EQ(sink->n_finish, 1, "finish");
  CHECK_EQ(sink->bufs.size(), n_in, "number of buffers");

  // Reference model.
  std::vector<int> corr;
  for (int c : m.corr)
    if (size_t(c) < o.ncorr) corr.push_back(c);
  if (m.corr.empty())
    for (size_t c = 0; c < o.ncorr; ++c) corr.push_back(c);
  if (corr.empty()) corr.push_back(0);
  auto odd = [](size_t v) { return v % 2 ? v : v - 1; };
  std::vector<size_t> fw(o.nbl), tw(o.nbl);
  std::vector<double> len(o.nbl), th(o.nbl);
  size_t big = 0;
  for (size_t b = 0; b < o.nbl; ++b) {
    double l = 0;
    for (int d = 0; d < 3; ++d) l += std::pow(o.pos[o.a1[b]][d] - o.pos[o.a2[b]][d], 2);
    len[b] = std::sqrt(l);
    for (double edge : {m.split, m.blmin, m.blmax})
      if (std::abs(len[b] - edge) < 1e-3) throw vpt::Discard{};
    const bool second = m.split >= 0 && len[b] > m.split;
    fw[b] = odd(std::min(second ? m.freq2 : m.freq, o.nch));
    tw[b] = odd(std::min(second ? m.time2 : m.time, o.nt));
    th[b] = second ? m.thr2 : m.thr;
    big = std::max(big, tw[b]);
  }
  size_t n_new = 0, n_old = 0, n_not = 0, n_edge = 0;
  for (size_t t = 0; t < n_in; ++t) {
    const DPBuffer& r = *sink->bufs[t];
    CHECK_NEAR(r.GetTime(), o.t0 + t * o.dt, 1e-6, "time");
    CHECK_EQ(r.GetData().size(), data[t].size(), "data size");
    for (size_t i = 0; i < data[t].size(); ++i) {
      const cf x = r.GetData().data()[i];
      CHECK(x == data[t][i] || (std::isnan(x.real()) && std::isnan(data[t][i].real())), "data changed at ", i);
    }
    for (auto w : r.GetWeights()) CHECK(w == 1, "weights changed");
    std::vector<char> want = flag[t];
    auto at = [&](size_t b, size_t c, size_t p) { return (b * o.nch + c) * o.ncorr + p; };
    for (size_t b = 0; b < o.nbl; ++b) {
      const bool is_auto = o.a1[b] == o.a2[b];
      const bool in_range = len[b] >= m.blmin && len[b] <= m.blmax;
      if (m.aut ? !is_auto : !in_range) continue;
      const long hf = fw[b] / 2;
      long ht = tw[b] / 2;
      if (n_in < big && t + big / 2 >= n_in) ht = std::min<long>(ht, (n_in - 1) / 2);
      for (size_t c = 0; c < o.nch; ++c) {
        bool hit = false, old = false;
        for (int p : corr) {
          if (flag[t][at(b, c, p)]) {
            old = true;
            continue;
          }
          std::vector<double> v;
          for (long dt = -ht; dt <= ht; ++dt) {
            long tt = std::abs(long(t) + dt);
            if (tt >= long(n_in)) tt = 2 * (long(n_in) - 1) - tt;
            for (long df = -hf; df <= hf; ++df) {
              long cc = std::abs(long(c) + df);
              if (cc >= long(o.nch)) cc = 2 * (long(o.nch) - 1) - cc;
              if (cc != long(c) + df || tt != long(t) + dt) ++n_edge;
              if (!flag[tt][at(b, cc, p)]) v.push_back(amp[tt][at(b, cc, p)]);
            }
          }
          const double med = MedianOf(v);
          for (auto& x : v) x = std::abs(x - med);
          if (amp[t][at(b, c, p)] > med + th[b] * MedianOf(v) * 1.4826) hit = true;
        }
        if (hit || old)
          for (size_t p = 0; p < o.ncorr; ++p) want[at(b, c, p)] = 1;
        hit && !old ? ++n_new : old ? ++n_old : ++n_not;
      }
    }
    if (m.aut)
      for (size_t b = 0; b < o.nbl; ++b) {
        if (o.a1[b] == o.a2[b] || len[b] < m.blmin || len[b] > m.blmax) continue;
        for (size_t c = 0; c < o.nch; ++c)
          for (size_t k = 0; k < o.nbl; ++k)
            if (o.a1[k] == o.a2[k] && (o.a1[k] == o.a1[b] || o.a1[k] == o.a2[b]) && want[at(k, c, 0)] && !want[at(b, c, 0)]) {
              for (size_t p = 0; p < o.ncorr; ++p) want[at(b, c, p)] = 1;
              s.label("taken from an autocorrelation");
            }
      }
    CHECK_EQ(r.GetFlags().size(), want.size(), "flag size");
    for (size_t i = 0; i < want.size(); ++i)
      CHECK_EQ(bool(r.GetFlags().data()[i]), bool(want[i]), "flag of time ", t, " baseline ", i / o.ncorr / o.nch, " channel ", i / o.ncorr % o.nch,
               " correlation ", i % o.ncorr, " was ", bool(flag[t][i]));
  }
  std::ostringstream os;
  step.show(os);
  step.showCounts(os);
  s.nontrivial(n_new > 0 && n_not > 0);
  if (n_edge) s.label("mirrored window");
  if (m.split >= 0) s.label("windows by baseline length");
  if (m.aut) s.label("applyautocorr");
  if (n_old) s.label("flags in the input");
}

// -------------------------------------------------------------- AntennaFlagger
typedef std::complex<double> cd;
typedef std::vector<std::vector<std::vector<cd>>> Stats;  // station, antenna, correlation

// Values close to a bound are not claimed.
std::vector<char> Outliers(double sigma, int n_iter, std::vector<double> v) {
  std::vector<char> f(v.size(), 0);
  std::vector<double> ok;
  double scale = 0;
  for (size_t i = 0; i < v.size(); ++i) {
    f[i] = !std::isfinite(v[i]);
    if (!f[i]) ok.push_back(v[i]), scale = std::max(scale, std::abs(v[i]));
  }
  if (ok.empty()) return f;
  const double med = MedianOf(ok);
  for (size_t i = 0; i < v.size(); ++i)
    if (f[i]) v[i] = med;
  for (int k = 0; k < n_iter; ++k) {
    double m = 0, q = 0;
    for (double x : v) m += x / v.size();
    for (double x : v) q += (x - m) * (x - m) / v.size();
    const double dev = std::sqrt(q);
    bool any = false;
    const double tol = 1e-3 * sigma * dev + 1e-5 * scale;
    for (size_t i = 0; i < v.size(); ++i)
      if (!f[i]) {
        if (ok.size() == 1) continue;
        const double d = std::abs(v[i] - med) - sigma * dev;
        if (std::abs(d) < tol) throw vpt::Discard{};
        if (d > 0) {
          f[i] = 1;
          v[i] = med;
          any = true;
        }
      }
    if (!any) break;
  }
  return f;
}

std::vector<char> AntFlags(double sigma, int n_iter, const Stats& st) {
  std::vector<char> r;
  for (auto& x : st) {
    std::vector<char> f(x.size(), 0);
    for (size_t p = 0; p < x[0].size(); ++p) {
      std::vector<double> re, im;
      for (auto& a : x) {
        const cd l = std::log(1.0 + a[p]);
        re.push_back(l.real());
        im.push_back(l.imag());
      }
      const auto fr = Outliers(sigma, n_iter, re), fi = Outliers(sigma, n_iter, im);
      for (size_t a = 0; a < f.size(); ++a) f[a] |= fr[a] | fi[a];
    }
    r.insert(r.end(), f.begin(), f.end());
  }
  return r;
}

std::vector<std::vector<char>> StationFlags(double sigma, int n_iter, const Stats& st) {
  const size_t np = st[0][0].size();
  std::vector<std::vector<char>> r;
  std::vector<size_t> use{0};
  if (np == 4) use.push_back(3);
  for (size_t p : use) {
    std::vector<double> all_re, all_im, re, im;
    for (auto& x : st) {
      std::vector<double> a, b;
      for (auto& q : x) a.push_back(q[p].real()), b.push_back(q[p].imag());
      all_re.insert(all_re.end(), a.begin(), a.end());
      all_im.insert(all_im.end(), b.begin(), b.end());
      re.push_back(MedianOf(a));
      im.push_back(MedianOf(b));
    }
    const double sr = MedianOf(all_re), si = MedianOf(all_im);
    for (auto& x : re) x /= sr;
    for (auto& x : im) x /= si;
    auto f = Outliers(sigma, n_iter, re), g = Outliers(sigma, n_iter, im);
    for (size_t i = 0; i < f.size(); ++i) f[i] |= g[i];
    r.push_back(f);
  }
  return r;
}

struct AntCase {
  size_t nst, nper, nch, ncorr, nant, nbl;
  std::vector<std::vector<std::vector<cf>>> vis;  // antenna pair (a<=b: a*nant+b), channel, correlation
  std::set<size_t> odd;
};

AntCase GenCase(Src& s, size_t nst, size_t nper) {
  AntCase k;
  k.nst = nst;
  k.nper = nper;
  k.nant = nst * nper;
  k.nch = s.n(1, k.nant > 20 ? 3 : 6);
  k.ncorr = k.nant > 60 ? 1 : s.pick(std::vector<size_t>{4, 1, 2, 4});
  k.nbl = k.nant * (k.nant + 1) / 2;
  std::vector<double> gain(k.nant, 1);
  for (int i = s.n(0, 2); i > 0; --i) {
    const bool station = s.chance(1, 2);
    const size_t a = s.n(station ? nst : k.nant);
    const double g = s.pick({30.0, 5.0, 1000.0, 0.0, 0.05});
    for (size_t x = 0; x < k.nant; ++x)
      if (station ? x / nper == a : x == a) gain[x] = g, k.odd.insert(x);
  }
  std::mt19937 rng(s.n(0, 1000000));
  std::uniform_real_distribution<float> u(-1, 1);
  k.vis.resize(k.nant * k.nant);
  for (size_t a = 0; a < k.nant; ++a)
    for (size_t b = a; b < k.nant; ++b) {
      auto& v = k.vis[a * k.nant + b];
      v.resize(k.nch, std::vector<cf>(k.ncorr));
      for (auto& x : v)
        for (auto& y : x) y = cf(u(rng), u(rng)) * float(gain[a] * gain[b] * 3);
    }
  if (s.chance(1, 4)) {  // no valid data on some baselines
    const bool whole = s.chance(1, 2);
    const size_t a = s.n(k.nant), b0 = s.n(k.nant);
    for (size_t b = 0; b < k.nant; ++b)
      if (whole || b == b0)
        for (auto& x : k.vis[std::min(a, b) * k.nant + std::max(a, b)])
          for (auto& y : x) y = cf(std::nanf(""), std::nanf(""));
  }
  return k;
}

std::vector<std::pair<size_t, size_t>> Pairs(size_t nant, BaselineOrder o) {
  std::vector<std::pair<size_t, size_t>> r;
  if (o == BaselineOrder::kRowMajor) {
    for (size_t a = 0; a < nant; ++a)
      for (size_t b = a; b < nant; ++b) r.push_back({a, b});
  } else {
    for (size_t b = 0; b < nant; ++b)
      for (size_t a = 0; a <= b; ++a) r.push_back({a, b});
  }
  return r;
}

DPBuffer::DataType Fill(const AntCase& k, BaselineOrder o) {
  DPBuffer::DataType d;
  d.resize(std::array<size_t, 3>{k.nbl, k.nch, k.ncorr});
  size_t i = 0;
  for (auto& p : Pairs(k.nant, o))
    for (auto& x : k.vis[p.first * k.nant + p.second])
      for (auto& y : x) d.data()[i++] = y;
  return d;
}

void ModelStats(const AntCase& k, Stats& dev, Stats& sq) {
  dev.assign(k.nst, std::vector<std::vector<cd>>(k.nper, std::vector<cd>(k.ncorr, 0.0)));
  sq = dev;
  for (size_t a = 0; a < k.nant; ++a)
    for (size_t b = a; b < k.nant; ++b)
      for (size_t p = 0; p < k.ncorr; ++p) {
        cd m = 0, q = 0;
        double vr = 0, vi = 0;
        const auto& v = k.vis[a * k.nant + b];
        for (auto& x : v) m += cd(x[p]) / double(k.nch);
        for (auto& x : v) {
          vr += std::pow(double(x[p].real()) - m.real(), 2) / k.nch;
          vi += std::pow(double(x[p].imag()) - m.imag(), 2) / k.nch;
          q += cd(std::pow(x[p].real(), 2), std::pow(x[p].imag(), 2));
        }
        if (std::isnan(vr)) continue;
        for (size_t x : std::set<size_t>{a, b}) {
          dev[x / k.nper][x % k.nper][p] += cd(std::sqrt(vr), std::sqrt(vi)) / double(k.nper);
          sq[x / k.nper][x % k.nper][p] += q / double(k.nper);
        }
      }
}

void ModelFlags(const Stats& dev, const Stats& sq, double as, int ai, double ss, int si, std::vector<char>& ant, std::vector<char>& sta) {
  const auto a = AntFlags(as, ai, dev), b = AntFlags(as, ai, sq);
  const auto c = StationFlags(ss, si, dev), d = StationFlags(ss, si, sq);
  const size_t nper = dev[0].size();
  ant.assign(a.size(), 0);
  sta.assign(a.size(), 0);
  for (size_t i = 0; i < a.size(); ++i) {
    ant[i] = a[i] & b[i];
    bool all = true;
    for (size_t p = 0; p < c.size(); ++p) all &= c[p][i / nper] & d[p][i / nper];
    sta[i] = all;
  }
}
}  // namespace

PROP("P42.madflag", 3000, 90000) { Mad(s, false); }
PROP("P42.short", 800, 24000) { Mad(s, true); }

PROP("P43.flagger", 700, 20000) {
  const size_t nper = s.pick(std::vector<size_t>{1, 4, 8, 12});
  AntCase k = GenCase(s, nper == 1 ? s.n(1, 16) : s.n(1, 5), nper);
  const double as = s.pick({3.0, 1.5, 2.2, 0.8}), ss = s.pick({2.5, 1.2, 1.7, 0.7});
  const int ai = s.pick({5, 1, 2, 0}), si = s.pick({5, 1, 2, 0});
  s.note(Cat("stations=", k.nst, "x", k.nper, " nch=", k.nch, " ncorr=", k.ncorr, " sigma=", as, ",", ss, " iter=", ai, ",", si, " odd=", k.odd.size()));
  Stats dev, sq;
  ModelStats(k, dev, sq);
  std::vector<char> ant, sta;
  ModelFlags(dev, sq, as, ai, ss, si, ant, sta);
  size_t n = 0;
  for (auto o : {BaselineOrder::kColumnMajor, BaselineOrder::kRowMajor}) {
    dp3::antennaflagger::Flagger f(k.nst, k.nper, k.nch, k.ncorr);
    f.ComputeStats(Fill(k, o), o);
    const auto a = f.FindBadAntennas(as, ai);
    const auto b = f.FindBadStations(ss, si);
    CHECK_EQ(a.size(), k.nant, "size");
    CHECK_EQ(b.size(), k.nant, "size");
    for (size_t i = 0; i < k.nant; ++i) {
      CHECK_EQ(a(i) != 0, bool(ant[i]), "bad antenna ", i, " order ", int(o));
      CHECK_EQ(b(i) != 0, bool(sta[i]), "bad station of antenna ", i, " order ", int(o));
      n += ant[i] | sta[i];
      if (ant[i]) s.label("bad antenna");
      if (sta[i]) s.label("bad station");
    }
  }
  s.nontrivial(n > 0 && n < 2 * k.nant);
}

PROP("P43.step", 250, 8000) {
  const bool a12 = s.chance(1, 12);
  AntCase k = GenCase(s, a12 ? s.n(1, 2) : s.n(1, 16), a12 ? 48 : 1);
  const auto order = s.b() ? BaselineOrder::kRowMajor : BaselineOrder::kColumnMajor;
  ParameterSet ps;
  double as = 3, ss = 2.5;
  int ai = 5, si = 5;
  if (s.chance(2, 3)) ps.add("a.antenna_flagging_sigma", Cat(as = s.pick({1.5, 2.2, 2.9})));
  if (s.chance(2, 3)) ps.add("a.station_flagging_sigma", Cat(ss = s.pick({1.2, 1.7, 0.7})));
  if (s.b()) ps.add("a.antenna_flagging_max_iterations", Cat(ai = s.pick({1, 2, 8})));
  if (s.b()) ps.add("a.station_flagging_max_iterations", Cat(si = s.pick({1, 2, 8})));
  Obs o;
  o.nant = k.nant;
  for (size_t i = 0; i < o.nant; ++i) {
    o.names.push_back((a12 ? "A12_" : s.chance(1, 9) ? "A11_" : "CS") + std::to_string(i));
    o.diam.push_back(30);
    o.pos.push_back({3826000.0 + i, 461000.0, 5064000.0});
  }
  for (auto& p : Pairs(k.nant, order)) o.a1.push_back(p.first), o.a2.push_back(p.second);
  o.nbl = o.a1.size();
  o.nch = k.nch;
  o.ncorr = k.ncorr;
  for (size_t c = 0; c < o.nch; ++c) o.freq.push_back(1e8 + 1e5 * c), o.width.push_back(1e5);
  o.nt = 2;
  AntennaFlagger step(ps, "a.");
  auto sink = std::make_shared<Sink>();
  step.setNextStep(sink);
  s.note(Cat(a12 ? "AARTFAAC " : "", "nant=", k.nant, " nch=", k.nch, " ncorr=", k.ncorr, " sigma=", as, ",", ss, " iter=", ai, ",", si,
         " odd=", k.odd.size(), " order=", int(order)));
  if (o.nant > 1 && s.chance(1, 12)) {  // not all baselines, or another order
    if (s.b()) {
      o.a1.pop_back(), o.a2.pop_back(), --o.nbl;
    } else if (o.nant > 2) {
      std::swap(o.a1[1], o.a1.back());
      std::swap(o.a2[1], o.a2.back());
    } else {
      o.a1[0] = o.a2[0] = 1;
    }
    CHECK(vpt::Throws([&] { step.setInfo(MakeInfo(o)); }), "unsupported baselines accepted");
    s.label("unsupported baselines");
    return;
  }
  step.setInfo(MakeInfo(o));
  size_t n = 0;
  for (int t = 0; t < 2; ++t) {
    if (t) {  // each time slot is judged by itself
      const AntCase q = k;
      k = GenCase(s, k.nst, k.nper);
      if (k.nch != q.nch || k.ncorr != q.ncorr) break;
    }
    Stats dev, sq;
    ModelStats(k, dev, sq);
    std::vector<char> ant, sta;
    ModelFlags(dev, sq, as, ai, ss, si, ant, sta);
    auto b = std::make_unique<DPBuffer>(100 + t, 1.0);
    b->GetData() = Fill(k, order);
    const bool noflags = s.chance(1, 6);
    std::vector<char> want(k.nbl * k.nch * k.ncorr, 0);
    if (!noflags) {
      b->GetFlags().resize(std::array<size_t, 3>{k.nbl, k.nch, k.ncorr});
      const unsigned every = s.n(2, 9);
      for (size_t i = 0; i < want.size(); ++i) b->GetFlags().data()[i] = want[i] = i % every == 0;
    }
    CHECK(step.process(std::move(b)), "process");
    CHECK_EQ(sink->bufs.size(), size_t(t + 1), "one buffer out for each buffer in");
    const DPBuffer& r = *sink->bufs[t];
    const size_t per = k.nch * k.ncorr;
    CHECK_EQ(r.GetFlags().size(), want.size(), "flag size");
    for (size_t bl = 0; bl < k.nbl; ++bl) {
      const bool bad = ant[o.a1[bl]] || ant[o.a2[bl]] || sta[o.a1[bl]] || sta[o.a2[bl]];
      n += bad;
      for (size_t i = 0; i < per; ++i)
        CHECK_EQ(bool(r.GetFlags().data()[bl * per + i]), bool(want[bl * per + i]) || bad, "flag of baseline ", o.a1[bl], "-", o.a2[bl], " time ", t);
    }
    const auto d = Fill(k, order);
    for (size_t i = 0; i < d.size(); ++i)
      CHECK(d.data()[i] == r.GetData().data()[i] || std::isnan(d.data()[i].real()), "data changed");
  }
  step.finish();
  CHECK_EQ(sink->n_finish, 1, "finish");
  s.nontrivial(n > 0);
  if (a12) s.label("AARTFAAC");
}

VPT_MAIN
