// P26 averaging, P27 upsampling, P28 baseline-dependent averaging and expansion.
#include "steps_util.h"

#include <cmath>
#include <limits>
#include <map>

#include "base/UVWCalculator.h"
#include "steps/Averager.h"
#include "steps/BDAAverager.h"
#include "steps/BdaExpander.h"
#include "steps/Upsample.h"

using namespace su;
using dp3::steps::Averager;
using dp3::steps::BdaAverager;
using dp3::steps::BdaExpander;
using dp3::steps::Upsample;

namespace {
const float kNaN = std::numeric_limits<float>::quiet_NaN();

std::vector<Slot> GenSlots(Src& s, const Obs& b, bool nan_under_flag) {
  std::vector<Slot> r;
  for (size_t t = 0; t < b.nt; ++t) {
    r.push_back(GenSlot(s, b, t));
    if (nan_under_flag)
      for (size_t i = 0; i < r.back().data.size(); ++i)
        if (r.back().flag[i] && s.chance(1, 3)) r.back().data[i] = cf(kNaN, s.b() ? kNaN : 1.0f);
  }
  return r;
}

// Expected result of averaging slots [t0, t1) with c channels.
struct Avg {
  std::complex<double> data;
  double weight = 0;
  bool flag = false, exact = true;
};
Avg Expect(const Obs& b, const std::vector<Slot>& in, size_t t0, size_t t1, size_t bl, size_t c0, size_t c1, size_t corr, size_t minpoints, double minperc) {
  std::complex<double> sum = 0, all = 0;
  double w = 0, wa = 0;
  size_t n = 0;
  Avg r;
  for (size_t t = t0; t < t1; ++t)
    for (size_t c = c0; c < c1; ++c) {
      const size_t i = (bl * b.nch + c) * b.ncorr + corr;
      const std::complex<double> d = in[t].data[i];
      const double wt = in[t].weight[i];
      all += d * wt;
      wa += wt;
      if (!in[t].flag[i]) {
        sum += d * wt;
        w += wt;
        ++n;
      }
    }
  r.flag = w == 0 || n < minpoints || n < (t1 - t0) * (c1 - c0) * minperc / 100;
  r.weight = r.flag ? wa : w;
  r.data = r.flag ? (wa == 0 ? std::complex<double>(0) : all / wa) : sum / w;
  r.exact = std::isfinite(r.data.real()) && std::isfinite(r.data.imag());
  return r;
}
}  // namespace

PROP("P26.average", 12000, 400000) {
  ObsOpt o;
  o.max_ch = 8;
  o.max_t = 9;
  o.max_bl = 3;
  Obs b = GenObs(s, o);
  // Steps; the channel step divides the number of channels (or exceeds it).
  std::vector<size_t> div;
  for (size_t c = 1; c <= b.nch; ++c)
    if (b.nch % c == 0) div.push_back(c);
  size_t cs = s.pick(div);
  if (cs == b.nch && s.b()) cs += s.n(3);
  const size_t ts = s.n(1, 5);
  const int how = s.n(3);
  size_t minpoints = 1;
  double minperc = 0;
  std::unique_ptr<Averager> step;
  std::shared_ptr<Step> keep;
  if (how == 0) {
    auto a = std::make_shared<Averager>("avg", (unsigned)cs, (unsigned)ts);
    keep = a;
  } else {
    ParameterSet p;
    if (how == 1) {
      p.add("avg.timestep", std::to_string(ts));
      p.add("avg.freqstep", std::to_string(cs));
    } else {
      // Resolutions are rounded to whole numbers of channels and timeslots.
      const double fres = b.width[0] * (cs + s.pick({0.0, 0.25, -0.25})), tres = b.dt * (ts + s.pick({0.0, 0.25, -0.25}));
      const int u = s.n(4);
      p.add("avg.freqresolution", u == 0 ? Cat(fres) : u == 1 ? Cat(fres, " Hz") : u == 2 ? Cat(fres / 1e3, "kHz") : Cat(fres / 1e6, " MHz "));
      p.add("avg.timeresolution", Cat(tres));
    }
    if (s.b()) {
      minpoints = s.n(0, 6);
      p.add("avg.minpoints", std::to_string(minpoints));
    }
    if (s.b()) {
      minperc = s.pick({50.0, 25.0, 75.0, 100.0, 12.5});
      p.add("avg.minperc", Cat(minperc));
    }
    keep = std::make_shared<Averager>(p, "avg.");
  }
  const size_t cavg = std::min(cs, b.nch), tavg = std::min(ts, b.nt);
  const bool nothing = cs == 1 && ts == 1;
  const bool nan = s.chance(1, 3);
  auto slots = GenSlots(s, b, nan);
  auto sink = std::make_shared<Sink>();
  keep->setNextStep(sink);
  const DPInfo info = MakeInfo(b);
  keep->setInfo(info);
  const DPInfo& out = keep->getInfoOut();
  const size_t nco = b.nch / cavg, nto = (b.nt + tavg - 1) / tavg;
  s.note(Note(b) + Cat(" freqstep=", cs, " timestep=", ts, " minpoints=", minpoints, " minperc=", minperc, " how=", how));
  CHECK_EQ(out.nchan(), nco);
  CHECK_EQ(out.ntime(), nto);
  CHECK_NEAR(out.timeInterval(), tavg * b.dt, 1e-9 * b.dt);
  CHECK_EQ(out.nchanAvg(), cavg);
  CHECK_EQ(out.ntimeAvg(), tavg);
  CHECK(out.metaChanged());
  for (size_t t = 0; t < b.nt; ++t) keep->process(MakeBuffer(b, slots[t]));
  keep->finish();
  CHECK_EQ(sink->n_finish, 1);
  CHECK_EQ(sink->bufs.size(), nto, "number of output timeslots");
  bool some_flag = false, some_mixed = false;
  for (size_t k = 0; k < nto; ++k) {
    const DPBuffer& r = *sink->bufs[k];
    const size_t t0 = k * tavg, t1 = std::min(t0 + tavg, b.nt);
    CheckShape(r, b.nbl, nco, b.ncorr);
    if (nothing) {
      CHECK_EQ(r.GetTime(), slots[k].time);
      for (size_t i = 0; i < slots[k].data.size(); ++i) {
        CHECK(r.GetFlags().data()[i] == bool(slots[k].flag[i]) && r.GetWeights().data()[i] == slots[k].weight[i], "unchanged without averaging");
        CHECK(slots[k].flag[i] || r.GetData().data()[i] == slots[k].data[i], "unchanged without averaging");
      }
      continue;
    }
    CHECK_NEAR(r.GetTime(), b.t0 + t0 * b.dt + (tavg - 1) * b.dt / 2, 1e-6, "centre of the interval");
    CHECK_NEAR(r.GetExposure(), tavg * b.dt, 1e-6);
    for (size_t bl = 0; bl < b.nbl; ++bl) {
      for (int d = 0; d < 3; ++d) {
        double m = 0;
        for (size_t t = t0; t < t1; ++t) m += slots[t].uvw[bl * 3 + d];
        CHECK_NEAR(r.GetUvw()(bl, d), m / (t1 - t0), 1e-9 * (1 + std::abs(m)), "uvw");
      }
      for (size_t c = 0; c < nco; ++c)
        for (size_t q = 0; q < b.ncorr; ++q) {
          const Avg e = Expect(b, slots, t0, t1, bl, c * cavg, (c + 1) * cavg, q, minpoints, minperc);
          CHECK_EQ(bool(r.GetFlags()(bl, c, q)), e.flag, "flag at", k, bl, c, q);
          CHECK_NEAR(double(r.GetWeights()(bl, c, q)), e.weight, 1e-5 * (1 + e.weight), "weight at", k, bl, c, q);
          if (e.exact) CHECK(NearC(r.GetData()(bl, c, q), e.data, 1e-4), "data at", k, bl, c, q, Cat(r.GetData()(bl, c, q), " instead of ", e.data));
          some_flag |= e.flag;
          some_mixed |= !e.flag;
        }
    }
  }
  s.nontrivial(cavg * tavg > 1 && some_mixed);
  if (some_flag && some_mixed) s.label("flagged and unflagged output");
  if (b.nt % tavg) s.label("partial last interval");
}

// Averaging twice is averaging once, as far as data are used.
PROP("P26.compose", 6000, 200000) {
  ObsOpt o;
  o.max_bl = 2;
  Obs b = GenObs(s, o);
  const size_t c1 = s.n(1, 3), c2 = s.n(1, 3), t1 = s.n(1, 3), t2 = s.n(1, 3);
  b.nch = c1 * c2 * s.n(1, 2);
  b.nt = t1 * t2 * s.n(1, 2);
  while (b.freq.size() < b.nch) {
    b.freq.push_back(b.freq.back() + b.width[0]);
    b.width.push_back(b.width[0]);
  }
  b.freq.resize(b.nch);
  b.width.resize(b.nch);
  auto slots = GenSlots(s, b, false);
  auto A = std::make_shared<Averager>("a", unsigned(c1), unsigned(t1)), B = std::make_shared<Averager>("b", unsigned(c2), unsigned(t2));
  auto C = std::make_shared<Averager>("c", unsigned(c1 * c2), unsigned(t1 * t2));
  auto s1 = std::make_shared<Sink>(), s2 = std::make_shared<Sink>();
  A->setNextStep(B);
  B->setNextStep(s1);
  C->setNextStep(s2);
  A->setInfo(MakeInfo(b));
  C->setInfo(MakeInfo(b));
  for (auto& x : slots) {
    A->process(MakeBuffer(b, x));
    C->process(MakeBuffer(b, x));
  }
  A->finish();
  C->finish();
  const DPInfo &i1 = B->getInfoOut(), &i2 = C->getInfoOut();
  CHECK(i1.nchan() == i2.nchan() && i1.ntime() == i2.ntime() && i1.nchanAvg() == i2.nchanAvg() && i1.ntimeAvg() == i2.ntimeAvg());
  CHECK_NEAR(i1.firstTime(), i2.firstTime(), 1e-6);
  CHECK_NEAR(i1.lastTime(), i2.lastTime(), 1e-6);
  for (size_t c = 0; c < i1.nchan(); ++c) {
    CHECK_NEAR(i1.chanFreqs()[c], i2.chanFreqs()[c], 1e-3);
    CHECK_NEAR(i1.chanWidths()[c], i2.chanWidths()[c], 1e-3);
  }
  CHECK_EQ(s1->bufs.size(), s2->bufs.size());
  for (size_t k = 0; k < s1->bufs.size(); ++k) {
    const DPBuffer &x = *s1->bufs[k], &y = *s2->bufs[k];
    CHECK_NEAR(x.GetTime(), y.GetTime(), 1e-6);
    CHECK_NEAR(x.GetExposure(), y.GetExposure(), 1e-6);
    for (size_t i = 0; i < x.GetData().size(); ++i) {
      CHECK_EQ(bool(x.GetFlags().data()[i]), bool(y.GetFlags().data()[i]), "flag");
      if (x.GetFlags().data()[i]) continue;
      CHECK_NEAR(x.GetWeights().data()[i], y.GetWeights().data()[i], 1e-4f);
      CHECK(NearC(x.GetData().data()[i], y.GetData().data()[i], 1e-4), "data");
    }
    for (size_t i = 0; i < x.GetUvw().size(); ++i) CHECK_NEAR(x.GetUvw().data()[i], y.GetUvw().data()[i], 1e-6);
  }
  s.note(Note(b) + Cat(" c1=", c1, " c2=", c2, " t1=", t1, " t2=", t2));
  s.nontrivial(c1 * t1 > 1 && c2 * t2 > 1);
}

// ------------------------------------------------------------------- P27
PROP("P27.upsample", 12000, 400000) {
  ObsOpt o;
  o.max_ch = 2;
  o.max_bl = 3;
  o.max_t = 7;
  o.min_t = 0;
  Obs b = GenObs(s, o);
  const size_t n = s.n(2, 5);
  const bool uvw = s.b();
  // Input slots start at these multiples of the output interval.
  std::vector<long> at{0};
  bool overlap = false;
  for (size_t t = 1; t < b.nt; ++t) {
    long adv = n;
    if (!overlap && s.chance(1, 4)) adv = s.n(1, n - 1);
    else if (s.chance(1, 8)) adv = n + s.n(1, n);
    overlap = adv < long(n);
    at.push_back(at.back() + adv);
  }
  const double di = b.dt / n;
  const double start = b.t0 - b.dt / 2;
  std::vector<Slot> slots;
  std::vector<bool> all;
  for (size_t t = 0; t < b.nt; ++t) {
    Slot d = GenSlot(s, b, t);
    if (s.chance(1, 3)) std::fill(d.flag.begin(), d.flag.end(), 1);
    d.time = start + at[t] * di + b.dt / 2;
    d.exposure = s.b() ? b.dt : b.dt * 0.75;
    slots.push_back(d);
    all.push_back(std::all_of(d.flag.begin(), d.flag.end(), [](char c) { return c; }));
  }
  std::shared_ptr<Step> step;
  if (s.b()) {
    ParameterSet p;
    p.add("up.timestep", std::to_string(n));
    if (uvw) p.add("up.updateuvw", "true");
    step = std::make_shared<Upsample>(p, "up.");
  } else {
    step = std::make_shared<Upsample>("up", unsigned(n), uvw);
  }
  auto sink = std::make_shared<Sink>();
  step->setNextStep(sink);
  DPInfo info = MakeInfo(b);
  const double last = b.nt ? slots.back().time : b.t0;
  info.setTimes(b.t0, last, b.dt);
  step->setInfo(info);
  s.note(Note(b) + Cat(" n=", n) );
  s.note("at", at);
  s.note("fully flagged", std::vector<bool>(all));
  const DPInfo& out = step->getInfoOut();
  CHECK_NEAR(out.timeInterval(), di, 1e-9);
  CHECK_NEAR(out.startTime(), info.startTime(), 1e-5, "start of the output");
  CHECK_NEAR(out.lastTime() + out.timeInterval() / 2, last + b.dt / 2, 1e-5, "end of the output");
  CHECK(out.metaChanged());
  // Expected: every output slot that an input slot covers, once and in order.
  struct X { long at; size_t src; };
  std::vector<X> exp;
  if (b.nt) {
    for (size_t t = 0; t < b.nt; ++t)
      for (size_t k = 0; k < n; ++k) {
        const long p = at[t] + k;
        if (!exp.empty() && exp.back().at >= p) {
          // Covered by the previous slot too: the new slot counts, unless it is fully flagged.
          for (auto& x : exp)
            if (x.at == p && !all[t]) x.src = t;
          continue;
        }
        exp.push_back({p, t});
      }
  }
  for (size_t t = 0; t < b.nt; ++t) step->process(MakeBuffer(b, slots[t]));
  step->finish();
  CHECK_EQ(sink->n_finish, 1);
  CHECK_EQ(sink->bufs.size(), exp.size(), "number of output slots");
  dp3::base::UVWCalculator calc(info.phaseCenter(), info.arrayPos(), info.antennaPos());
  for (size_t k = 0; k < exp.size(); ++k) {
    const DPBuffer& r = *sink->bufs[k];
    const Slot& in = slots[exp[k].src];
    const double t = start + (exp[k].at + 0.5) * di;
    CHECK_NEAR(r.GetTime(), t, 1e-5, "time of output", k);
    CHECK_NEAR(r.GetExposure(), in.exposure / n, 1e-9);
    CheckShape(r, b.nbl, b.nch, b.ncorr);
    for (size_t i = 0; i < in.data.size(); ++i)
      CHECK(r.GetData().data()[i] == in.data[i] && r.GetWeights().data()[i] == in.weight[i] && bool(r.GetFlags().data()[i]) == bool(in.flag[i]),
            "visibility of output", k);
    for (size_t bl = 0; bl < b.nbl; ++bl) {
      std::array<double, 3> e{in.uvw[bl * 3], in.uvw[bl * 3 + 1], in.uvw[bl * 3 + 2]};
      if (uvw) e = calc.getUVW(b.a1[bl], b.a2[bl], r.GetTime());
      for (int d = 0; d < 3; ++d) CHECK_NEAR(r.GetUvw()(bl, d), e[d], 1e-6, "uvw of output", k);
    }
  }
  s.nontrivial(b.nt > 1);
  if (exp.size() < b.nt * n) s.label("overlapping input slots");
}

PROP("P27.rejects", 2000, 20000) {
  ParameterSet p;
  const size_t n = s.n(2);
  p.add("u.timestep", std::to_string(n));
  CHECK(vpt::Throws([&] { Upsample u(p, "u."); }), "timestep", n);
  s.nontrivial();
}

// ------------------------------------------------------------------- P28
namespace {
struct Bda {
  Obs b;
  double tb = 0, fb = 0, maxint = 0;
  size_t minch = 1;
  bool set_min = false, weights = true;
  std::vector<double> len;
  std::vector<size_t> tf, nc;
};

ParameterSet Pars(const Bda& x) {
  ParameterSet p;
  p.add("bda.timebase", Cat(x.tb));
  p.add("bda.frequencybase", Cat(x.fb));
  p.add("bda.maxinterval", Cat(x.maxint));
  if (x.set_min) p.add("bda.minchannels", std::to_string(x.minch));
  return p;
}

Bda GenBda(Src& s, bool full_res) {
  Bda x;
  ObsOpt o;
  o.max_ant = 5;
  o.max_bl = 5;
  o.max_ch = 8;
  o.max_t = 9;
  x.b = GenObs(s, o);
  Obs& b = x.b;
  // On a line, so that lengths are round: 0 .. 1000 m.
  for (auto& p : b.pos) p = {3826000.0 + 50.0 * s.n(0, 20), 461000, 5064000};
  for (size_t i = 0; i < b.nbl; ++i) x.len.push_back(std::abs(b.pos[b.a1[i]][0] - b.pos[b.a2[i]][0]));
  x.tb = s.chance(1, 4) ? 0 : s.pick({120.0, 330.0, 1010.0, 2530.0, 60.0});
  x.fb = s.chance(1, 4) ? 0 : s.pick({170.0, 90.0, 430.0, 1230.0});
  x.maxint = s.b() ? 0 : b.dt * s.pick({0.5, 1.5, 2.5, 3.5});
  x.set_min = s.chance(1, 3);
  if (x.set_min) x.minch = s.n(0, 10);
  bool some_full = false;
  for (size_t i = 0; i < b.nbl; ++i) {
    double f = std::floor(x.tb / std::max(x.len[i], 0.1));
    if (x.maxint > 0 && f * b.dt > x.maxint) f = std::floor(x.maxint / b.dt);
    x.tf.push_back(std::max(1.0, f));
    size_t n = b.nch;
    if (x.fb > 0) {
      const double q = x.len[i] / x.fb * double(b.nch);
      if (std::abs(q - std::round(q)) < 1e-9 && q > 0) throw vpt::Discard{};
      n = std::min<double>(b.nch, std::max({std::ceil(q), double(x.minch), 1.0}));
    }
    x.nc.push_back(n);
    some_full |= n == b.nch;
  }
  if (full_res && !some_full) throw vpt::Discard{};
  x.weights = !s.chance(1, 5);
  return x;
}

void CheckBdaInfo(const Bda& x, const DPInfo& out) {
  const Obs& b = x.b;
  CHECK_EQ(out.BdaChanFreqs().size(), b.nbl);
  CHECK_EQ(out.ntimeAvgs(), std::vector<unsigned>(x.tf.begin(), x.tf.end()), "time averaging factors");
  for (size_t k = 0; k < b.nbl; ++k) {
    CHECK_EQ(out.chanFreqs(k).size(), x.nc[k], "number of channels of baseline", k);
    for (size_t c = 0; c < x.nc[k]; ++c) {
      const size_t c0 = c * b.nch / x.nc[k], c1 = (c + 1) * b.nch / x.nc[k];
      CHECK_NEAR(out.chanFreqs(k)[c], (b.freq[c0] + b.freq[c1 - 1]) / 2, 1e-3);
      CHECK_NEAR(out.chanWidths(k)[c], b.width[0] * (c1 - c0), 1e-3);
    }
  }
}

struct Out {
  double time, interval, exposure;
  size_t bl;
  std::vector<cf> data, extra;
  std::vector<float> w;
  std::vector<char> f;
  std::array<double, 3> uvw;
  unsigned long long row;
};
std::vector<Out> Rows(const Sink& sink, bool extra) {
  std::vector<Out> r;
  for (auto& p : sink.bdas) {
    double end = -1e300;
    for (size_t k = 0; k < p->GetRows().size(); ++k) {
      const auto& q = p->GetRows()[k];
      const size_t n = q.GetDataSize();
      Out o{q.time, q.interval, q.exposure, q.baseline_nr, {}, {}, {}, {}, {q.uvw[0], q.uvw[1], q.uvw[2]}, q.row_nr};
      const cf* d = p->GetData(k);
      CHECK(d && p->GetWeights(k) && p->GetFlags(k), "BDA buffer has all fields");
      o.data.assign(d, d + n);
      if (extra) {
        CHECK(p->HasData("x"), "extra data");
        o.extra.assign(p->GetData(k, "x"), p->GetData(k, "x") + n);
      }
      o.w.assign(p->GetWeights(k), p->GetWeights(k) + n);
      o.f.assign(p->GetFlags(k), p->GetFlags(k) + n);
      CHECK(q.time + q.interval / 2 > end, "order of the rows");
      end = q.time - q.interval / 2;
      r.push_back(o);
    }
  }
  return r;
}
}  // namespace

PROP("P28.average", 10000, 300000) {
  Bda x = GenBda(s, false);
  const Obs& b = x.b;
  const bool extra = s.chance(1, 3);
  auto slots = GenSlots(s, b, x.weights && s.chance(1, 3));
  auto step = std::make_shared<BdaAverager>(Pars(x), "bda.", x.weights);
  auto sink = std::make_shared<Sink>();
  step->setNextStep(sink);
  step->setInfo(MakeInfo(b));
  s.note(Note(b));
  s.note("length", x.len);
  s.note("factors", x.tf);
  s.note("channels", x.nc);
  CheckBdaInfo(x, step->getInfoOut());
  CHECK(step->getInfoOut().isBDAIntervalFactorInteger());
  for (auto& d : slots) {
    auto p = MakeBuffer(b, d);
    p->SetExposure(d.exposure * 0.75);
    if (extra) {
      p->AddData("x");
      for (size_t i = 0; i < d.data.size(); ++i) p->GetData("x").data()[i] = d.data[i] * cf(0, 2);
    }
    step->process(std::move(p));
  }
  step->finish();
  CHECK_EQ(sink->n_finish, 1);
  const auto rows = Rows(*sink, extra);
  // Per baseline, the rows follow each other and cover all timeslots.
  std::vector<size_t> done(b.nbl, 0);
  std::vector<bool> row_nrs(rows.size());
  for (auto& r : rows) {
    CHECK(r.row < rows.size() && !row_nrs[r.row], "row numbers are unique");
    row_nrs[r.row] = true;
    CHECK(r.bl < b.nbl, "baseline number");
    const size_t t0 = done[r.bl], t1 = std::min(t0 + x.tf[r.bl], b.nt);
    CHECK(t0 < b.nt, "more rows than there are data for baseline", r.bl);
    done[r.bl] = t1;
    CHECK_NEAR(r.interval, (t1 - t0) * b.dt, 1e-6);
    CHECK_NEAR(r.exposure, (t1 - t0) * b.dt * 0.75, 1e-6);
    CHECK_NEAR(r.time, b.t0 - b.dt / 2 + (t0 + t1) / 2.0 * b.dt, 2e-6);
    CHECK_EQ(r.data.size(), x.nc[r.bl] * b.ncorr);
    for (int d = 0; d < 3; ++d) {
      double m = 0;
      for (size_t t = t0; t < t1; ++t) m += slots[t].uvw[r.bl * 3 + d];
      CHECK_NEAR(r.uvw[d], m / (t1 - t0), 1e-6, "uvw of baseline", r.bl);
    }
    for (size_t c = 0; c < x.nc[r.bl]; ++c)
      for (size_t q = 0; q < b.ncorr; ++q) {
        const size_t c0 = c * b.nch / x.nc[r.bl], c1 = (c + 1) * b.nch / x.nc[r.bl];
        std::complex<double> sum = 0;
        double w = 0;
        bool finite = true;
        for (size_t t = t0; t < t1; ++t)
          for (size_t ch = c0; ch < c1; ++ch) {
            const size_t i = (r.bl * b.nch + ch) * b.ncorr + q;
            if (x.weights && slots[t].flag[i]) continue;
            const double wt = x.weights ? slots[t].weight[i] : 1;
            sum += std::complex<double>(slots[t].data[i]) * wt;
            w += wt;
          }
        finite = std::isfinite(sum.real()) && std::isfinite(sum.imag());
        const size_t i = c * b.ncorr + q;
        CHECK_NEAR(double(r.w[i]), w, 1e-5 * (1 + w), "weight of baseline", r.bl);
        if (!finite) continue;
        if (w > 0) sum /= w;
        CHECK(NearC(r.data[i], sum, 1e-4), "data of baseline", r.bl, Cat(r.data[i], " instead of ", sum));
        if (extra) CHECK(NearC(r.extra[i], sum * std::complex<double>(0, 2), 2e-4), "extra data of baseline", r.bl);
      }
  }
  for (size_t k = 0; k < b.nbl; ++k) CHECK_EQ(done[k], b.nt, "timeslots of baseline in the output", k);
  bool some = false;
  for (size_t k = 0; k < b.nbl; ++k) some |= x.tf[k] > 1 || x.nc[k] < b.nch;
  s.nontrivial(some && b.nt > 1);
}

// Averaging, expanding, and averaging again with the same scheme.
PROP("P28.expand", 8000, 250000) {
  Bda x = GenBda(s, true);
  x.weights = true;
  const Obs& b = x.b;
  auto slots = GenSlots(s, b, false);
  auto avg = std::make_shared<BdaAverager>(Pars(x), "bda.");
  auto s1 = std::make_shared<Sink>();
  avg->setNextStep(s1);
  avg->setInfo(MakeInfo(b));
  for (auto& d : slots) avg->process(MakeBuffer(b, d));
  avg->finish();
  const auto rows = Rows(*s1, false);
  s.note(Note(b));
  s.note("factors", x.tf);
  s.note("channels", x.nc);

  auto ex = std::make_shared<BdaExpander>("ex");
  auto s2 = std::make_shared<Sink>();
  auto again = std::make_shared<BdaAverager>(ParameterSet(), "none.");
  auto s3 = std::make_shared<Sink>();
  ex->setNextStep(s2);
  again->setNextStep(s3);
  ex->setInfo(avg->getInfoOut());
  again->SetAveragingParameters(avg->getInfoOut());
  again->setInfo(ex->getInfoOut());
  const DPInfo& out = ex->getInfoOut();
  CHECK_EQ(out.nchan(), b.nch);
  CHECK_EQ(out.BdaChanFreqs().size(), size_t(1), "one channel list after expansion");
  for (size_t c = 0; c < b.nch; ++c) {
    CHECK_NEAR(out.chanFreqs()[c], b.freq[c], 1e-3 , "channel frequency");
    CHECK_NEAR(out.chanWidths()[c], b.width[c], 1e-3, "channel width");
  }
  CheckBdaInfo(x, again->getInfoOut());
  const bool same_size = s.b();
  for (auto& p : s1->bdas) {
    if (same_size) again->PushBufferSizeRequest(p->GetNumberOfElements());
    ex->process(std::make_unique<BdaBuffer>(*p, AllFields()));
  }
  ex->finish();
  CHECK_EQ(s2->n_finish, 1);
  CHECK_EQ(s2->bufs.size(), b.nt, "number of expanded timeslots");
  for (auto& r : rows)
    for (size_t t = 0; t < b.nt; ++t) {
      const double tm = b.t0 + t * b.dt;
      if (std::abs(tm - r.time) > r.interval / 2) continue;
      const DPBuffer& p = *s2->bufs[t];
      CHECK_NEAR(p.GetTime(), tm, 2e-6, "time of expanded slot", t);
      CHECK_NEAR(p.GetExposure(), b.dt, 2e-6);
      const size_t nt = std::lround(r.interval / b.dt);
      for (int d = 0; d < 3; ++d) CHECK_NEAR(p.GetUvw()(r.bl, d), r.uvw[d], 1e-9);
      for (size_t c = 0; c < x.nc[r.bl]; ++c)
        for (size_t ch = c * b.nch / x.nc[r.bl]; ch < (c + 1) * b.nch / x.nc[r.bl]; ++ch)
          for (size_t q = 0; q < b.ncorr; ++q) {
            const size_t i = c * b.ncorr + q;
            const size_t n = nt * ((c + 1) * b.nch / x.nc[r.bl] - c * b.nch / x.nc[r.bl]);
            CHECK(p.GetData()(r.bl, ch, q) == r.data[i], "expanded data of baseline", r.bl);
            CHECK_NEAR(p.GetWeights()(r.bl, ch, q) * n, r.w[i], 1e-4f * (1 + r.w[i]), "expanded weight of baseline", r.bl);
            CHECK_EQ(bool(p.GetFlags()(r.bl, ch, q)), bool(r.f[i]), "expanded flag");
          }
    }
  for (auto& p : s2->bufs) again->process(std::move(p));
  again->finish();
  const auto back = Rows(*s3, false);
  CHECK_EQ(back.size(), rows.size(), "rows after averaging again");
  if (same_size) {
    CHECK_EQ(s3->bdas.size(), s1->bdas.size(), "buffers after averaging again");
    for (size_t k = 0; k < s1->bdas.size(); ++k) CHECK_EQ(s3->bdas[k]->GetRows().size(), s1->bdas[k]->GetRows().size(), "rows per buffer");
  }
  for (size_t k = 0; k < rows.size(); ++k) {
    const Out &x1 = rows[k], &x2 = back[k];
    CHECK_EQ(x1.bl, x2.bl);
    CHECK_NEAR(x1.time, x2.time, 4e-6);
    CHECK_NEAR(x1.interval, x2.interval, 1e-6);
    CHECK_NEAR(x1.exposure, x2.exposure, 1e-5);
    for (size_t i = 0; i < x1.data.size(); ++i) {
      CHECK_NEAR(x1.w[i], x2.w[i], 1e-4f * (1 + x1.w[i]), "weight after averaging again");
      if (x1.w[i] > 0) CHECK(NearC(x1.data[i], x2.data[i], 1e-3), "data after averaging again");
    }
    for (int d = 0; d < 3; ++d) CHECK_NEAR(x1.uvw[d], x2.uvw[d], 1e-6);
  }
  bool some = false;
  for (size_t k = 0; k < b.nbl; ++k) some |= x.tf[k] > 1 || x.nc[k] < b.nch;
  s.nontrivial(some && b.nt > 1);
}

// The expander copes with rows of different baselines in any order that a
// BdaBuffer allows, and in any division over buffers.
PROP("P28.expand_order", 8000, 250000) {
  Bda x = GenBda(s, true);
  const Obs& b = x.b;
  struct Q { size_t t0, n, bl; };
  std::vector<Q> rows;
  for (size_t k = 0; k < b.nbl; ++k)
    for (size_t t = 0; t < b.nt;) {
      const size_t n = std::min(b.nt - t, s.n(1, x.tf[k] > 1 ? 4 : 1));
      rows.push_back({t, n, k});
      t += n;
    }
  // Sorted by end time, or by start time.
  s.shuffle(rows);
  if (s.b()) std::stable_sort(rows.begin(), rows.end(), [](const Q& p, const Q& q) { return p.t0 + p.n < q.t0 + q.n; });
  else std::stable_sort(rows.begin(), rows.end(), [](const Q& p, const Q& q) { return p.t0 < q.t0; });
  DPInfo info = MakeInfo(b);
  std::vector<std::vector<double>> F, W;
  for (size_t k = 0; k < b.nbl; ++k) {
    std::vector<double> f, w;
    for (size_t c = 0; c < x.nc[k]; ++c) {
      const size_t c0 = c * b.nch / x.nc[k], c1 = (c + 1) * b.nch / x.nc[k];
      f.push_back((b.freq[c0] + b.freq[c1 - 1]) / 2);
      w.push_back(b.width[0] * (c1 - c0));
    }
    F.push_back(f);
    W.push_back(w);
  }
  info.update(std::vector<unsigned>(x.tf.begin(), x.tf.end()));
  info.setChannels(std::move(F), std::move(W));
  auto ex = std::make_shared<BdaExpander>("ex");
  auto sink = std::make_shared<Sink>();
  ex->setNextStep(sink);
  CHECK(vpt::Throws([&] { ex->setInfo(info); }), "interval factors that are not integer");
  info.setIsBDAIntervalFactorInteger(true);
  ex->setInfo(info);
  std::unique_ptr<BdaBuffer> buf;
  s.note(Note(b));
  auto value = [&](const Q& r, size_t c, size_t q) { return cf(r.bl * 100 + c, r.t0 * 10 + q); };
  for (size_t k = 0; k < rows.size(); ++k) {
    if (!buf) buf = std::make_unique<BdaBuffer>(b.nch * b.ncorr * rows.size(), AllFields());
    const Q& r = rows[k];
    const size_t n = x.nc[r.bl] * b.ncorr;
    std::vector<cf> d;
    for (size_t c = 0; c < x.nc[r.bl]; ++c)
      for (size_t q = 0; q < b.ncorr; ++q) d.push_back(value(r, c, q));
    std::unique_ptr<bool[]> fl(new bool[n]);
    for (size_t i = 0; i < n; ++i) fl[i] = (r.bl + r.t0 + i) % 3 == 0;
    const double u[3] = {double(r.bl), double(r.t0), 1.0};
    const std::vector<float> w(n, 2.0f * r.n);
    CHECK(buf->AddRow(b.t0 - b.dt / 2 + (r.t0 + r.n / 2.0) * b.dt, r.n * b.dt, r.n * b.dt, r.bl, x.nc[r.bl], b.ncorr, k, d.data(), fl.get(), w.data(), u));
    if (k + 1 == rows.size() || s.chance(1, 4)) {
      ex->process(std::move(buf));
      buf.reset();
    }
  }
  CHECK_EQ(sink->bufs.size(), b.nt, "all timeslots are complete");
  ex->finish();
  CHECK_EQ(sink->bufs.size(), b.nt);
  for (size_t t = 0; t < b.nt; ++t) CHECK_NEAR(sink->bufs[t]->GetTime(), b.t0 + t * b.dt, 2e-6, "order of the timeslots");
  for (auto& r : rows)
    for (size_t t = r.t0; t < r.t0 + r.n; ++t) {
      const DPBuffer& p = *sink->bufs[t];
      for (size_t c = 0; c < x.nc[r.bl]; ++c) {
        const size_t c0 = c * b.nch / x.nc[r.bl], c1 = (c + 1) * b.nch / x.nc[r.bl];
        for (size_t ch = c0; ch < c1; ++ch)
          for (size_t q = 0; q < b.ncorr; ++q) {
            CHECK(p.GetData()(r.bl, ch, q) == value(r, c, q), "data of baseline", r.bl);
            CHECK_EQ(bool(p.GetFlags()(r.bl, ch, q)), (r.bl + r.t0 + c * b.ncorr + q) % 3 == 0, "flag of baseline", r.bl);
            CHECK_NEAR(p.GetWeights()(r.bl, ch, q), 2.0f / (c1 - c0), 1e-5f, "weight of baseline", r.bl);
          }
      }
      CHECK(p.GetUvw()(r.bl, 0) == double(r.bl) && p.GetUvw()(r.bl, 1) == double(r.t0), "uvw of baseline", r.bl);
    }
  s.nontrivial(rows.size() > b.nbl);
}

VPT_MAIN
