// P24 metadata (DPInfo) through selections and averaging, P25 visibility buffers
// (DPBuffer, BdaBuffer) through copies, moves and renames.
#include "steps_util.h"

#include <map>
#include <set>

using namespace su;

// ------------------------------------------------------------------- P24
namespace {
struct M {  // reference model of the metadata
  std::vector<double> f, w, r, e;
  unsigned start = 0, cavg = 1, tavg = 1;
  double first = 0, last = 0, dt = 1, ref = 0;
  unsigned nt = 1;
  std::vector<std::string> names;
  std::vector<double> diam;
  std::vector<std::array<double, 3>> pos;
  std::vector<int> a1, a2;
};

void Compare(const DPInfo& i, const M& m, unsigned orig, unsigned ncorr) {
  CHECK_EQ(i.nchan(), m.f.size());
  CHECK_EQ(i.ncorr(), ncorr);
  CHECK_EQ(i.origNChan(), orig);
  CHECK_EQ(i.startchan(), m.start);
  CHECK_EQ(i.nchanAvg(), m.cavg);
  CHECK_EQ(i.ntimeAvg(), m.tavg);
  CHECK_EQ(i.chanFreqs().size(), m.f.size());
  double bw = 0;
  for (size_t k = 0; k < m.f.size(); ++k) {
    CHECK_NEAR(i.chanFreqs()[k], m.f[k], 1e-6 * m.w[k]);
    CHECK_NEAR(i.chanWidths()[k], m.w[k], 1e-9 * m.w[k]);
    CHECK_NEAR(i.resolutions()[k], m.r[k], 1e-9 * m.r[k]);
    CHECK_NEAR(i.effectiveBW()[k], m.e[k], 1e-9 * m.e[k]);
    bw += m.e[k];
  }
  CHECK_EQ(i.chanWidths().size(), m.f.size());
  CHECK_EQ(i.resolutions().size(), m.f.size());
  CHECK_EQ(i.effectiveBW().size(), m.f.size());
  CHECK_NEAR(i.totalBW(), bw, 1e-9 * bw, "total bandwidth");
  CHECK_EQ(i.refFreq(), m.ref);
  CHECK_EQ(i.ntime(), m.nt);
  CHECK_NEAR(i.timeInterval(), m.dt, 1e-9 * m.dt);
  const double tt = 1e-6 + 1e-15 * std::abs(m.first);
  CHECK_NEAR(i.firstTime(), m.first, tt);
  CHECK_NEAR(i.lastTime(), m.last, tt);
  CHECK_NEAR(i.startTime(), m.first - m.dt / 2, tt);
  CHECK_EQ(i.antennaNames(), m.names);
  CHECK_EQ(i.antennaDiam(), m.diam);
  CHECK_EQ(i.nantenna(), m.names.size());
  CHECK_EQ(i.antennaPos().size(), m.pos.size());
  for (size_t k = 0; k < m.pos.size(); ++k)
    for (int d = 0; d < 3; ++d) CHECK_EQ(i.antennaPos()[k].getValue().getValue()[d], m.pos[k][d]);
  CHECK_EQ(i.getAnt1(), m.a1);
  CHECK_EQ(i.getAnt2(), m.a2);
  CHECK_EQ(i.nbaselines(), m.a1.size());
  // Used antennas and their map.
  std::set<int> used(m.a1.begin(), m.a1.end());
  used.insert(m.a2.begin(), m.a2.end());
  CHECK_EQ(i.antennaUsed(), std::vector<int>(used.begin(), used.end()));
  CHECK_EQ(i.antennaMap().size(), m.names.size());
  int n = 0;
  for (size_t k = 0; k < m.names.size(); ++k) CHECK_EQ(i.antennaMap()[k], used.count(k) ? n++ : -1);
  std::vector<std::string> un;
  for (int u : used) un.push_back(m.names[u]);
  CHECK_EQ(i.GetUsedAntennaNames(), un);
}

// The derived values are cached; they are asked for at random moments.
void CompareDerived(const DPInfo& i, const M& m) {
  const auto& len = i.getBaselineLengths();
  CHECK_EQ(len.size(), m.a1.size());
  for (size_t k = 0; k < m.a1.size(); ++k) {
    double q = 0;
    for (int d = 0; d < 3; ++d) q += (m.pos[m.a1[k]][d] - m.pos[m.a2[k]][d]) * (m.pos[m.a1[k]][d] - m.pos[m.a2[k]][d]);
    CHECK_NEAR(len[k], std::sqrt(q), 1e-6, "baseline length");
  }
  if (m.a1.empty()) return;
  const auto& au = i.getAutoCorrIndex();
  for (size_t a = 0; a < m.names.size(); ++a) {
    std::set<int> ok;
    for (size_t k = 0; k < m.a1.size(); ++k)
      if (m.a1[k] == int(a) && m.a2[k] == int(a)) ok.insert(k);
    if (ok.empty()) CHECK(a >= au.size() || au[a] < 0, "autocorrelation index of antenna", a);
    else CHECK(a < au.size() && ok.count(au[a]), "autocorrelation index of antenna", a);
  }
}
}  // namespace

PROP("P24.history", 60000, 3000000) {
  ObsOpt o;
  o.max_ant = 7;
  o.max_bl = 14;
  o.max_ch = 24;
  o.max_t = 40;
  o.regular_freq = s.b();
  Obs b = GenObs(s, o);
  M m;
  m.f = b.freq;
  m.w = b.width;
  m.r = m.w;
  m.e = m.w;
  DPInfo info = MakeInfo(b);
  if (s.b()) {
    for (auto& x : m.r) x *= 1 + s.n(3) * 0.5;
    for (auto& x : m.e) x *= 1 - s.n(3) * 0.25;
    auto f = m.f, w = m.w, r = m.r, e = m.e;
    info.setChannels(std::move(f), std::move(w), std::move(r), std::move(e));
  }
  m.ref = m.f.size() % 2 ? m.f[m.f.size() / 2] : 0.5 * (m.f[m.f.size() / 2] + m.f[m.f.size() / 2 - 1]);
  m.first = b.t0;
  m.last = b.t0 + (b.nt - 1) * b.dt;
  m.dt = b.dt;
  m.nt = b.nt;
  m.names = b.names;
  m.diam = b.diam;
  m.pos = b.pos;
  m.a1 = b.a1;
  m.a2 = b.a2;
  s.note(Note(b));
  Compare(info, m, b.nch, b.ncorr);
  const int nop = s.n(0, 7);
  for (int k = 0; k < nop; ++k) {
    if (s.b()) CompareDerived(info, m);
    if (s.chance(1, 4)) {  // metadata are passed on by copying
      DPInfo c(info);
      info = c;
    }
    switch (s.n(7)) {
      case 0: {
        const unsigned st = s.n(m.f.size());
        const unsigned n = s.n(1, m.f.size() - st);
        s.note("select channels", st * 1000 + n);
        info.SelectChannels(st, n);
        for (auto* v : {&m.f, &m.w, &m.r, &m.e}) *v = std::vector<double>(v->begin() + st, v->begin() + st + n);
        m.start += st;
        s.nontrivial(st > 0 || k > 0);
        break;
      }
      case 1: {
        const unsigned ca = s.n(1, m.f.size() + 2), ta = s.n(1, m.nt + 2);
        const unsigned c = std::min<unsigned>(ca, m.f.size()), t = std::min(ta, m.nt);
        s.note("average", ca * 1000 + ta);
        if (m.f.size() % c != 0) {
          CHECK(vpt::Throws([&] { info.update(ca, ta); }), "channels do not divide", ca);
          break;
        }
        CHECK_EQ(info.update(ca, ta), c, "effective number of averaged channels");
        M q = m;
        const size_t n = m.f.size() / c;
        q.f.assign(n, 0);
        q.w = q.r = q.e = q.f;
        for (size_t i = 0; i < n; ++i) {
          q.f[i] = 0.5 * (m.f[i * c] + m.f[i * c + c - 1]);
          for (unsigned j = 0; j < c; ++j) {
            q.w[i] += m.w[i * c + j];
            q.r[i] += m.r[i * c + j];
            q.e[i] += m.e[i * c + j];
          }
        }
        q.cavg = m.cavg * c;
        q.tavg = m.tavg * t;
        q.nt = (m.nt + t - 1) / t;
        q.dt = m.dt * t;
        q.first = m.first - m.dt / 2 + q.dt / 2;
        q.last = q.first + (q.nt - 1) * q.dt;
        m = q;
        s.nontrivial(c > 1 || t > 1);
        break;
      }
      case 2: {
        std::vector<unsigned> sel;
        for (unsigned i = 0; i < m.a1.size(); ++i)
          if (s.chance(2, 3)) sel.push_back(i);
        s.note("select baselines", sel);
        info.SelectBaselines(sel);
        M q = m;
        q.a1.clear();
        q.a2.clear();
        for (unsigned i : sel) {
          q.a1.push_back(m.a1[i]);
          q.a2.push_back(m.a2[i]);
        }
        m = q;
        s.nontrivial(sel.size() > 1);
        break;
      }
      case 3: {
        info.RemoveUnusedAntennas();
        M q = m;
        q.names.clear();
        q.diam.clear();
        q.pos.clear();
        std::vector<int> map(m.names.size(), -1);
        for (size_t i = 0; i < m.names.size(); ++i) {
          bool used = false;
          for (size_t j = 0; j < m.a1.size(); ++j) used |= m.a1[j] == int(i) || m.a2[j] == int(i);
          if (!used) continue;
          map[i] = q.names.size();
          q.names.push_back(m.names[i]);
          q.diam.push_back(m.diam[i]);
          q.pos.push_back(m.pos[i]);
        }
        for (auto& x : q.a1) x = map[x];
        for (auto& x : q.a2) x = map[x];
        if (q.names.size() < m.names.size()) {
          CHECK(info.metaChanged(), "removing antennas changes the metadata");
          s.nontrivial();
        }
        m = q;
        break;
      }
      case 4: {
        // New set of antennas and baselines, e.g. because stations are added.
        const size_t na = s.n(1, 3);
        for (size_t i = 0; i < na; ++i) {
          m.names.push_back("NEW" + std::to_string(m.names.size()));
          m.diam.push_back(s.i(1, 30));
          m.pos.push_back({double(s.i(-9, 9)), double(s.i(-900, 900)), double(s.i(-900, 900))});
        }
        if (s.b()) std::swap(m.pos.front(), m.pos.back());
        const size_t nb = s.n(0, 3);
        for (size_t i = 0; i < nb; ++i) {
          m.a1.push_back(s.n(m.names.size()));
          m.a2.push_back(s.n(m.names.size()));
        }
        std::vector<casacore::MPosition> p;
        for (auto& x : m.pos) p.push_back(casacore::MPosition(casacore::MVPosition(x[0], x[1], x[2]), casacore::MPosition::ITRF));
        s.note("set antennas", m.names.size());
        info.setAntennas(m.names, m.diam, p, m.a1, m.a2);
        s.nontrivial();
        break;
      }
      case 5: {
        const unsigned n = s.n(1, 50);
        m.first = s.i(-5, 100000) * 0.5;
        m.dt = s.i(1, 40) * 0.25;
        m.nt = n;
        // The last time may be off by less than half an interval.
        m.last = m.first + (n - 1) * m.dt + (n > 1 ? (s.i(-9, 9) / 20.0) * m.dt : 0);
        info.setTimes(m.first, m.last, m.dt);
        m.tavg = m.tavg;
        break;
      }
      default: {
        // Out of range requests are refused and change nothing.
        CHECK(vpt::Throws([&] { info.SelectChannels(s.n(m.f.size() + 1), m.f.size() + 1); }), "channel range out of bounds");
        CHECK(vpt::Throws([&] { info.setTimes(m.first, m.first - 1, m.dt); }), "last before first");
        CHECK(vpt::Throws([&] { info.setTimes(m.first, m.last, -0.0); }), "zero interval");
        CHECK(vpt::Throws([&] { info.setAntennas(m.names, std::vector<double>(m.names.size() + 1, 1.0), info.antennaPos(), m.a1, m.a2); }), "antenna array sizes");
        auto a1 = m.a1;
        a1.push_back(0);
        CHECK(vpt::Throws([&] { info.setAntennas(m.names, m.diam, info.antennaPos(), a1, m.a2); }), "baseline array sizes");
        std::vector<double> f(m.f), w(m.w), r(m.r), e(m.e);
        (s.b() ? w : s.b() ? r : e).push_back(1.0);
        CHECK(vpt::Throws([&] { info.setChannels(std::move(f), std::move(w), std::move(r), std::move(e)); }), "channel array sizes");
      }
    }
    Compare(info, m, b.nch, b.ncorr);
  }
  CompareDerived(info, m);
}

PROP("P24.bda_channels", 30000, 1000000) {
  ObsOpt o;
  o.max_bl = 5;
  Obs b = GenObs(s, o);
  DPInfo info = MakeInfo(b);
  // Per baseline an averaging of the same n channels.
  const size_t n = s.n(1, 12);
  const double w = 1024.0 * s.i(1, 20), f0 = 1e8;
  std::vector<std::vector<double>> F, W, R, E;
  size_t most = 0, which = 0;
  bool same = true;
  for (size_t k = 0; k < b.nbl; ++k) {
    std::vector<double> f, ww;
    size_t done = 0;
    while (done < n) {
      const size_t c = s.n(1, n - done);
      f.push_back(f0 + (done + c / 2.0) * w);
      ww.push_back(c * w);
      done += c;
    }
    F.push_back(f);
    W.push_back(ww);
    if (f.size() > most) { most = f.size(); which = k; }
    same = same && F[k] == F[0];
  }
  R = W;
  E = W;
  const bool give = s.b();
  if (give) for (auto& v : R) for (auto& x : v) x *= 0.5;
  s.note(W);
  int bad = s.n(8);
  auto f = F, ww = W;
  auto r = give ? R : std::vector<std::vector<double>>();
  auto e = s.b() ? E : std::vector<std::vector<double>>();
  if (bad == 1) f.push_back({1.0});
  else if (bad == 2) ww[s.n(b.nbl)].push_back(1.0);
  else if (bad == 3 && give) r[s.n(b.nbl)].push_back(1.0);
  else if (bad == 4 && b.nbl > 1) { e = E; e[s.n(b.nbl)][0] *= 0.5; }
  else bad = 0;
  if (bad) {
    CHECK(vpt::Throws([&] { info.setChannels(std::move(f), std::move(ww), std::move(r), std::move(e)); }), "inconsistent channel lists", bad);
    CHECK_EQ(info.nchan(), b.nch);
    CHECK_EQ(info.chanFreqs(), b.freq);
    s.nontrivial();
    return;
  }
  const double ref = s.b() ? 1.25e8 : 0.0;
  info.setChannels(std::move(f), std::move(ww), std::move(r), std::move(e), ref, 3);
  CHECK_EQ(info.BdaChanFreqs(), F);
  CHECK_EQ(info.BdaChanWidths(), W);
  for (size_t k = 0; k < b.nbl; ++k) {
    CHECK_EQ(info.resolutions(k), give ? R[k] : W[k]);
    CHECK_EQ(info.effectiveBW(k), E[k]);
  }
  CHECK_EQ(info.nchan(), most);
  CHECK(info.hasBDAChannels());
  CHECK_EQ(info.totalBW(), n * w);
  const auto& q = F[which];
  bool unique = true;
  for (size_t k = 0; k < b.nbl; ++k) unique = unique && (F[k].size() != most || F[k] == q);
  if (ref != 0) CHECK_EQ(info.refFreq(), ref);
  else if (unique) CHECK_NEAR(info.refFreq(), 0.5 * (q[(most - 1) / 2] + q[most / 2]), 1e-6);
  CHECK_EQ(info.spectralWindow(), 3);
  bool regular = same;
  for (size_t c = 1; c < F[0].size(); ++c)
    regular = regular && F[0][c] - F[0][c - 1] == F[0][1] - F[0][0] && W[0][c] == W[0][0];
  // The steps differ by at least 512 Hz or not at all; below 1 kHz counts as equal.
  if (w >= 2048) CHECK_EQ(info.channelsAreRegular(), regular);
  CHECK(b.nbl < 2 || vpt::Throws([&] { info.update(2, 2); }), "averaging BDA data");
  s.nontrivial(b.nbl > 1 && !same);
}

PROP("P24.regular", 30000, 1000000) {
  ObsOpt o;
  o.max_ch = 10;
  Obs b = GenObs(s, o);
  DPInfo info = MakeInfo(b);
  CHECK(info.channelsAreRegular());
  const size_t k = s.n(b.nch);
  auto f = b.freq, w = b.width;
  // Clearly above or below the tolerance of 1 kHz.
  const double d = s.pick({400.0, -400.0, 2100.0, -2100.0, 5e4});
  const bool freq = s.b();
  (freq ? f : w)[k] += d;
  auto f2 = f, w2 = w;
  info.setChannels(std::move(f2), std::move(w2));
  bool reg = true;
  for (size_t c = 1; c < b.nch; ++c) reg = reg && std::abs(f[c] - f[c - 1] - (f[1] - f[0])) < 1e3 && std::abs(w[c] - w[0]) < 1e3;
  s.note(Note(b) + " k=" + std::to_string(k) + " d=" + std::to_string(d));
  CHECK_EQ(info.channelsAreRegular(), reg);
  s.nontrivial(b.nch > 2);
}

// ------------------------------------------------------------------- P25
namespace {
struct B {  // model of a DPBuffer
  double time = 0, exposure = 0;
  std::vector<cf> data;
  std::map<std::string, std::vector<cf>> extra;
  std::vector<char> flags;
  std::vector<float> weights;
  std::vector<double> uvw;
  std::vector<unsigned long long> rows;
  std::map<std::string, std::vector<std::vector<std::complex<double>>>> sol;
};
void Same(const DPBuffer& d, const B& m, const char* who) {
  CHECK_EQ(d.GetTime(), m.time, who);
  CHECK_EQ(d.GetExposure(), m.exposure, who);
  CHECK_EQ(std::vector<cf>(d.GetData().begin(), d.GetData().end()), m.data, who, "main data");
  CHECK_EQ(std::vector<char>(d.GetFlags().begin(), d.GetFlags().end()), m.flags, who, "flags");
  CHECK_EQ(std::vector<float>(d.GetWeights().begin(), d.GetWeights().end()), m.weights, who, "weights");
  CHECK_EQ(std::vector<double>(d.GetUvw().begin(), d.GetUvw().end()), m.uvw, who, "uvw");
  std::vector<std::string> names{""};
  for (auto& e : m.extra) names.push_back(e.first);
  CHECK_EQ(d.GetDataNames(), names, who);
  CHECK(d.HasData(""));
  for (auto& e : m.extra) {
    CHECK(d.HasData(e.first), who);
    CHECK_EQ(std::vector<cf>(d.GetData(e.first).begin(), d.GetData(e.first).end()), e.second, who, e.first);
  }
  for (const char* n : {"a", "b", "c"})
    if (!m.extra.count(n)) CHECK(!d.HasData(n) && vpt::Throws([&] { d.GetData(n); }), who, "data that do not exist");
  CHECK_EQ(std::vector<unsigned long long>(d.GetRowNumbers().begin(), d.GetRowNumbers().end()), m.rows, who, "row numbers");
  std::vector<std::string> dn;
  for (auto& e : m.sol) dn.push_back(e.first);
  CHECK_EQ(d.GetSolutionDirectionNames(), dn, who);
  for (auto& e : m.sol) CHECK_EQ(d.GetSolution(e.first), e.second, who, "solution", e.first);
}
}  // namespace

PROP("P25.dpbuffer_history", 20000, 2000000) {
  const size_t nb = 3;
  std::vector<std::unique_ptr<DPBuffer>> d(nb);
  std::vector<B> m(nb);
  const std::array<size_t, 3> sh{s.n(1, 3), s.n(1, 3), s.pick<size_t>({4, 1, 2})};
  const size_t n = sh[0] * sh[1] * sh[2];
  int next = 1;
  auto fill = [&](size_t k) {
    d[k] = std::make_unique<DPBuffer>(next * 1.0, next * 0.5);
    m[k] = B();
    m[k].time = next;
    m[k].exposure = next * 0.5;
    d[k]->GetData().resize(sh);
    d[k]->GetFlags().resize(sh);
    d[k]->GetWeights().resize(sh);
    d[k]->GetUvw().resize(std::array<size_t, 2>{sh[0], 3});
    for (size_t i = 0; i < n; ++i) {
      m[k].data.push_back(cf(next, i));
      m[k].flags.push_back(s.b());
      m[k].weights.push_back(next + i * 0.25f);
    }
    for (size_t i = 0; i < sh[0] * 3; ++i) m[k].uvw.push_back(next * 100 + i);
    std::copy(m[k].data.begin(), m[k].data.end(), d[k]->GetData().begin());
    std::copy(m[k].flags.begin(), m[k].flags.end(), d[k]->GetFlags().begin());
    std::copy(m[k].weights.begin(), m[k].weights.end(), d[k]->GetWeights().begin());
    std::copy(m[k].uvw.begin(), m[k].uvw.end(), d[k]->GetUvw().begin());
    casacore::Vector<dp3::common::rownr_t> r(sh[0]);
    for (size_t i = 0; i < sh[0]; ++i) {
      r[i] = next * 10 + i;
      m[k].rows.push_back(r[i]);
    }
    d[k]->SetRowNumbers(r);
    ++next;
  };
  for (size_t k = 0; k < nb; ++k) fill(k);
  auto set_fields = [&](B& to, const B& from, const dp3::common::Fields& f) {
    to.time = from.time;
    to.exposure = from.exposure;
    to.rows = from.rows;
    to.sol = from.sol;
    if (f.Data()) to.data = from.data;
    if (f.Flags()) to.flags = from.flags;
    if (f.Weights()) to.weights = from.weights;
    if (f.Uvw()) to.uvw = from.uvw;
  };
  auto name = [&] { return std::string(s.pick({"a", "b", "c"})); };
  const int nop = s.n(1, 10);
  std::string log;
  for (int q = 0; q < nop; ++q) {
    const size_t i = s.n(nb), j = s.n(nb);
    dp3::common::Fields f;
    if (s.b()) f |= Step::kDataField;
    if (s.b()) f |= Step::kFlagsField;
    if (s.b()) f |= Step::kWeightsField;
    if (s.b()) f |= Step::kUvwField;
    const int op = s.n(15);
    log += Cat(" ", op, ":", i, ",", j);
    switch (op) {
      case 0: fill(i); break;
      case 1: d[i] = std::make_unique<DPBuffer>(*d[j]); m[i] = B(m[j]); break;
      case 2: {
        d[i] = std::make_unique<DPBuffer>(*d[j], f);
        B t;
        set_fields(t, m[j], f);
        m[i] = t;
        break;
      }
      case 3: *d[i] = *d[j]; { B t = m[j]; m[i] = t; } break;
      case 4:
        if (i == j) break;
        // Row numbers have reference semantics: what assigning to shared ones does
        // depends on the version of casacore.
        d[i]->SetRowNumbers(casacore::Vector<dp3::common::rownr_t>());
        *d[i] = std::move(*d[j]);
        m[i] = m[j];
        fill(j);
        break;
      case 5: {
        auto t = std::make_unique<DPBuffer>(std::move(*d[j]));
        d[j] = std::move(t);
        break;
      }
      case 6: {
        const bool ex = s.b();
        d[i]->Copy(*d[j], f, ex);
        if (i != j) {
          set_fields(m[i], m[j], f);
          if (ex) m[i].extra = m[j].extra;
        }
        break;
      }
      case 7: {
        const auto nm = name();
        if (m[i].extra.count(nm)) break;
        d[i]->AddData(nm);
        CHECK(d[i]->GetData(nm).shape() == d[i]->GetData().shape(), "shape of added data");
        auto& x = d[i]->GetData(nm);
        std::vector<cf> v;
        for (size_t e = 0; e < x.size(); ++e) v.push_back(cf(next, -float(e)));
        ++next;
        std::copy(v.begin(), v.end(), x.begin());
        m[i].extra[nm] = v;
        break;
      }
      case 8: {
        const std::string nm = s.chance(1, 4) ? "" : name();
        d[i]->RemoveData(nm);
        if (nm.empty()) m[i].extra.clear(); else m[i].extra.erase(nm);
        break;
      }
      case 9: {
        const std::string from = s.b() ? "" : name(), to = name();
        if (!from.empty() && !m[j].extra.count(from)) break;
        d[i]->CopyData(*d[j], from, to);
        const auto v = from.empty() ? m[j].data : m[j].extra[from];
        m[i].extra[to] = v;
        s.nontrivial();
        break;
      }
      case 10: {
        const std::string from = s.chance(1, 3) ? "" : name(), to = name();
        if (from.empty()) {
          d[i]->MoveData(*d[j], from, to);
          m[i].extra[to] = m[j].data;
          // The main data are gone; give them a value again.
          d[j]->GetData().resize(sh);
          std::copy(m[j].data.begin(), m[j].data.end(), d[j]->GetData().begin());
          if (m[j].data.size() != n) fill(j);
          break;
        }
        if (!m[j].extra.count(from)) break;
        d[i]->MoveData(*d[j], from, to);
        const auto v = m[j].extra[from];
        m[j].extra.erase(from);
        m[i].extra[to] = v;
        s.nontrivial();
        break;
      }
      case 11: {  // changing one buffer changes no other
        if (m[i].data.empty()) break;
        const size_t e = s.n(m[i].data.size());
        d[i]->GetData().data()[e] = cf(-next, 1);
        m[i].data[e] = cf(-next, 1);
        if (!m[i].flags.empty()) {
          const size_t g = s.n(m[i].flags.size());
          d[i]->GetFlags().data()[g] = !m[i].flags[g];
          m[i].flags[g] = !m[i].flags[g];
        }
        if (!m[i].weights.empty()) d[i]->GetWeights().data()[0] = m[i].weights[0] = -next;
        if (!m[i].uvw.empty()) d[i]->GetUvw().data()[0] = m[i].uvw[0] = -next;
        for (auto& x : m[i].extra)
          if (!x.second.empty()) d[i]->GetData(x.first).data()[0] = x.second[0] = cf(-next, 2);
        ++next;
        s.nontrivial();
        break;
      }
      case 12: {
        d[i]->SetTime(next);
        d[i]->SetExposure(next * 2);
        m[i].time = next;
        m[i].exposure = next * 2;
        ++next;
        break;
      }
      case 13: {
        const size_t nchan = s.n(1, 2), nant = s.n(1, 3), npol = s.pick<size_t>({1, 2, 4});
        std::vector<std::string> dirs{"d1", "d2", "d3"};
        dirs.resize(s.n(1, 3));
        if (s.b()) std::reverse(dirs.begin(), dirs.end());
        std::vector<std::vector<std::complex<double>>> sol(nchan, std::vector<std::complex<double>>(nant * dirs.size() * npol));
        double c = 0;
        for (auto& v : sol) for (auto& x : v) x = {next + 0.0, c++};
        d[i]->SetSolution(sol, nant, npol, dirs);
        for (size_t k = 0; k < dirs.size(); ++k) {
          std::vector<std::vector<std::complex<double>>> v(nchan);
          for (size_t ch = 0; ch < nchan; ++ch)
            for (size_t a = 0; a < nant; ++a)
              for (size_t p = 0; p < npol; ++p) v[ch].push_back(sol[ch][(a * dirs.size() + k) * npol + p]);
          m[i].sol[dirs[k]] = v;
        }
        CHECK(vpt::Throws([&] { d[i]->GetSolution("none"); }), "unknown direction");
        ++next;
        break;
      }
      default: {
        const auto t = d[i]->TakeData();
        CHECK_EQ(std::vector<cf>(t.begin(), t.end()), m[i].data, "taken data");
        const auto w = d[i]->TakeWeights();
        CHECK_EQ(std::vector<float>(w.begin(), w.end()), m[i].weights, "taken weights");
        fill(i);
      }
    }
    s.note("ops", log);
    for (size_t k = 0; k < nb; ++k) Same(*d[k], m[k], k == i ? "target" : k == j ? "source" : "other");
  }
}

namespace {
struct R {
  double time, interval, exposure;
  size_t row, bl, nch, nco;
  std::vector<double> uvw;
  std::map<std::string, std::vector<cf>> data;
  std::vector<char> flags;
  std::vector<float> weights;
};
struct BM {
  size_t cap = 0, used = 0;
  std::set<std::string> names;
  bool flags = false, weights = false;
  std::vector<R> rows;
};
void SameBda(BdaBuffer& b, const BM& m, const char* who) {
  CHECK_EQ(b.GetNumberOfElements(), m.used, who);
  CHECK_EQ(b.GetRemainingCapacity(), m.cap - m.used, who);
  CHECK_EQ(b.GetDataNames(), std::vector<std::string>(m.names.begin(), m.names.end()), who);
  const auto& rows = b.GetRows();
  CHECK_EQ(rows.size(), m.rows.size(), who);
  for (size_t k = 0; k < rows.size(); ++k) {
    const R& r = m.rows[k];
    CHECK(rows[k].time == r.time && rows[k].interval == r.interval && rows[k].exposure == r.exposure && rows[k].row_nr == r.row &&
              rows[k].baseline_nr == r.bl && rows[k].n_channels == r.nch && rows[k].n_correlations == r.nco,
          who, "metadata of row", k);
    CHECK_EQ(rows[k].GetDataSize(), r.nch * r.nco);
    for (int d = 0; d < 3; ++d) CHECK(r.uvw.empty() ? std::isnan(rows[k].uvw[d]) : rows[k].uvw[d] == r.uvw[d], who, "uvw of row", k);
    for (const auto& nm : m.names) {
      const auto& v = r.data.at(nm);
      const cf* p = b.GetData(k, nm);
      if (!v.empty()) CHECK(p && std::equal(v.begin(), v.end(), p), who, "data of row", k, nm);
    }
    for (const char* nm : {"", "x", "y"})
      if (!m.names.count(nm)) CHECK(!b.HasData(nm) && b.GetData(k, nm) == nullptr, who, "absent data");
    if (!m.flags) CHECK(b.GetFlags(k) == nullptr, who, "absent flags");
    else if (r.nch * r.nco) CHECK(b.GetFlags(k) && std::equal(r.flags.begin(), r.flags.end(), b.GetFlags(k)), who, "flags of row", k);
    if (!m.weights) CHECK(b.GetWeights(k) == nullptr, who, "absent weights");
    else if (r.nch * r.nco) CHECK(b.GetWeights(k) && std::equal(r.weights.begin(), r.weights.end(), b.GetWeights(k)), who, "weights of row", k);
  }
}
}  // namespace

PROP("P25.bdabuffer_history", 60000, 2000000) {
  auto gen_fields = [&] {
    dp3::common::Fields f;
    if (!s.chance(1, 3)) f |= Step::kDataField;
    if (!s.chance(1, 3)) f |= Step::kFlagsField;
    if (!s.chance(1, 3)) f |= Step::kWeightsField;
    return f;
  };
  BM m;
  auto f = gen_fields();
  m.cap = s.n(1, 60);
  if (f.Data()) m.names.insert("");
  m.flags = f.Flags();
  m.weights = f.Weights();
  auto b = std::make_unique<BdaBuffer>(m.cap, f);
  int next = 1;
  const int nop = s.n(1, 14);
  std::string log;
  auto stamp = [&](const std::string& nm) {  // give added data a value
    for (size_t k = 0; k < m.rows.size(); ++k) {
      std::vector<cf> v(m.rows[k].nch * m.rows[k].nco, cf(next, k));
      if (!v.empty()) std::copy(v.begin(), v.end(), b->GetData(k, nm));
      m.rows[k].data[nm] = v;
    }
    ++next;
  };
  auto name = [&] { return std::string(s.pick({"x", "y", ""})); };
  for (int q = 0; q < nop; ++q) {
    const int op = s.n(12);
    log += Cat(" ", op);
    s.note("ops", log);
    if (op < 5) {
      R r;
      r.interval = s.i(1, 8) * 0.5;
      r.time = 100 + q + s.i(-12, 6) * 0.5;
      r.exposure = r.interval * 0.5;
      r.row = next * 7;
      r.bl = s.n(5);
      r.nch = s.n(1, 4);
      r.nco = s.pick<size_t>({4, 1, 2});
      const size_t n = r.nch * r.nco;
      const bool gd = s.b(), gf = s.b(), gw = s.b();
      std::vector<cf> d(n);
      r.flags.resize(n);
      r.weights.resize(n);
      for (size_t k = 0; k < n; ++k) {
        d[k] = cf(next, k);
        r.flags[k] = s.b();
        r.weights[k] = next + k * 0.5f;
      }
      if (s.b()) r.uvw = {next * 1.0, 2.0, 3.0};
      std::unique_ptr<bool[]> fl(new bool[n]);
      std::copy(r.flags.begin(), r.flags.end(), fl.get());
      ++next;
      auto add = [&] {
        return b->AddRow(r.time, r.interval, r.exposure, r.bl, r.nch, r.nco, r.row, gd ? d.data() : nullptr, gf ? fl.get() : nullptr,
                         gw ? r.weights.data() : nullptr, r.uvw.empty() ? nullptr : r.uvw.data());
      };
      if (!gf) r.flags.assign(n, false);
      if (!gw) r.weights.assign(n, 0);
      for (auto& nm : m.names) r.data[nm] = nm.empty() && gd ? d : std::vector<cf>(n);
      if (!m.rows.empty() && r.time + r.interval / 2 <= m.rows.back().time - m.rows.back().interval / 2) {
        CHECK(vpt::Throws(add), "row out of order");
        s.nontrivial();
      } else if (m.cap - m.used < n) {
        CHECK(!add(), "full buffer");
        s.nontrivial();
      } else {
        CHECK(add(), "row fits");
        m.used += n;
        m.rows.push_back(r);
        s.nontrivial(m.rows.size() > 1);
      }
    } else if (op == 5) {
      const auto nm = name();
      const bool had = m.names.count(nm);
      b->AddData(nm);
      m.names.insert(nm);
      if (!had) stamp(nm);
    } else if (op == 6) {
      const auto nm = name();
      b->RemoveData(nm);
      m.names.erase(nm);
      for (auto& r : m.rows) r.data.erase(nm);
    } else if (op == 7) {
      const auto from = name(), to = name();
      if (!m.names.count(from)) continue;
      b->MoveData(*b, from, to);
      if (from != to) {
        m.names.erase(from);
        m.names.insert(to);
        for (auto& r : m.rows) {
          r.data[to] = r.data[from];
          r.data.erase(from);
        }
      }
    } else if (op == 8) {
      // Copy; then move data between the copy and the original.
      const auto g = gen_fields();
      BdaBuffer c(*b, g);
      BM cm = m;
      cm.cap = m.used;
      cm.flags = g.Flags();
      cm.weights = g.Weights();
      if (!g.Data()) cm.names.clear();
      else cm.names.insert("");
      for (size_t k = 0; k < cm.rows.size(); ++k) {
        auto& r = cm.rows[k];
        // Fields that the original does not have, have no defined value.
        if (g.Data() && !m.names.count("")) {
          r.data[""] = std::vector<cf>(r.nch * r.nco, cf(1, 1));
          std::copy(r.data[""].begin(), r.data[""].end(), c.GetData(k));
        }
        if (g.Flags() && !m.flags) {
          r.flags.assign(r.nch * r.nco, true);
          std::copy(r.flags.begin(), r.flags.end(), c.GetFlags(k));
        }
        if (g.Weights() && !m.weights) {
          r.weights.assign(r.nch * r.nco, 4.0f);
          std::copy(r.weights.begin(), r.weights.end(), c.GetWeights(k));
        }
      }
      SameBda(c, cm, "copy");
      CHECK(c.IsMetadataEqual(*b) && b->IsMetadataEqual(c), "metadata of a copy");
      if (!cm.names.empty() && !cm.rows.empty()) {
        const auto from = *cm.names.begin(), to = name();
        b->MoveData(c, from, to);
        m.names.insert(to);
        for (size_t k = 0; k < m.rows.size(); ++k) {
          m.rows[k].data[to] = cm.rows[k].data[from];
          cm.rows[k].data.erase(from);
        }
        cm.names.erase(from);
        SameBda(c, cm, "source of move");
        // Changing the copy does not change the original.
        if (cm.flags) std::fill_n(c.GetFlags(), cm.used, true);
        if (cm.weights) std::fill_n(c.GetWeights(), cm.used, -5.0f);
      }
      s.nontrivial(m.rows.size() > 1);
    } else if (op == 9) {
      b->Clear();
      m.rows.clear();
      m.used = 0;
    } else if (op == 10) {
      if (m.rows.empty()) continue;
      const size_t k = s.n(m.rows.size());
      for (auto& x : m.rows[k].data)
        if (!x.second.empty()) *b->GetData(k, x.first) = x.second[0] = cf(-1, next);
      if (m.flags && m.rows[k].flags.size()) *b->GetFlags(k) = m.rows[k].flags[0] = s.b();
      if (m.weights && m.rows[k].weights.size()) *b->GetWeights(k) = m.rows[k].weights[0] = -next;
      ++next;
    } else {
      // A buffer with one differing property has different metadata.
      if (m.rows.empty()) continue;
      BdaBuffer c(m.used, Step::kDataField);
      const size_t k = s.n(m.rows.size());
      const int what = s.n(9);
      for (size_t z = 0; z < m.rows.size(); ++z) {
        R r = m.rows[z];
        std::vector<double> u = r.uvw;
        if (z == k) {
          if (what == 1) r.interval += 1e-3;
          if (what == 2) r.exposure += 1e-3;
          if (what == 3) r.row += 1;
          if (what == 4) r.bl += 1;
          if (what == 5) std::swap(r.nch, r.nco);
          if (what == 6) { if (u.empty()) u = {0, 0, 0}; else u[s.n(3)] += 1e-3; }
          if (what == 7) { if (u.empty()) u = {0, 0, 0}; else u.clear(); }
          if (what == 8) r.time += 1e-3;
        }
        if (!c.AddRow(r.time, r.interval, r.exposure, r.bl, r.nch, r.nco, r.row, nullptr, nullptr, nullptr, u.empty() ? nullptr : u.data())) throw vpt::Discard{};
      }
      const bool same = what == 0 || (what == 5 && m.rows[k].nch == m.rows[k].nco);
      CHECK_EQ(b->IsMetadataEqual(c), same, "metadata comparison", what);
      CHECK_EQ(c.IsMetadataEqual(*b), same, "metadata comparison", what);
      s.nontrivial();
    }
    SameBda(*b, m, "buffer");
  }
}

VPT_MAIN
