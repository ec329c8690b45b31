// The reader settings and the model of what a reader must give.
#ifndef MS_MODEL_H_
#define MS_MODEL_H_
#include "ms_util.h"

#include "base/UVWCalculator.h"

using namespace mu;
using dp3::common::Fields;

namespace {
// Settings of the reader and the model of what it must give.
struct Sel {
  ParameterSet p;
  Fields fields;
  std::vector<Want> slots;
  std::vector<std::pair<int, int>> bl;
  size_t c0 = 0, nc = 0;
  int band = -1;
  bool refused = false, use_flag = true, use_ws = true, extra = false, sort = false, autow = false, own_flags = false;
  std::string why, data_column = "DATA";
  double first = 0, last = 0;
};

void Refuse(Sel& x, const char* why) {
  if (!x.refused) x.why = why;
  x.refused = true;
}

Sel GenSel(Src& s, Ms& m, bool time_sel = true, bool multi = false) {
  Sel x;
  auto set = [&](const std::string& k, const std::string& v) { x.p.add("msin." + k, v); s.note(Cat("msin.", k, "=", v)); };
  // Band and baselines.
  if (m.nband > 1 ? !s.chance(1, 8) : s.chance(1, 4)) {
    x.band = s.i(0, m.nband - (s.chance(7, 8) ? 1 : 0));
    set("band", std::to_string(x.band));
    if (x.band >= m.nband) Refuse(x, "no such band");
  } else if (m.nband > 1)
    Refuse(x, "several bands");
  const int band = std::max(0, x.band);
  x.bl = m.bl;
  if (s.chance(1, 3)) {
    std::string e;
    std::vector<std::pair<int, int>> sel;
    for (int n = s.i(1, 3); n > 0; --n) {
      int a = s.n(m.nant), b = s.n(m.nant);
      e += (e.empty() ? "" : ";") + std::to_string(a) + "&" + std::to_string(b);
      sel.emplace_back(std::min(a, b), std::max(a, b));
    }
    set("baseline", e);
    x.bl.clear();
    for (auto& b : m.bl) if (std::find(sel.begin(), sel.end(), b) != sel.end()) x.bl.push_back(b);
    if (x.bl.empty()) Refuse(x, "no baselines");
  }
  // Channels.
  x.nc = m.nch;
  if (!multi && s.chance(1, 2)) {
    x.c0 = s.n(0, m.nch - (s.chance(7, 8) ? 1 : 0));
    set("startchan", s.b() ? std::to_string(x.c0) : Cat("nchan-", m.nch - x.c0));
    if (x.c0 >= m.nch) Refuse(x, "channel out of range");
    else x.nc = m.nch - x.c0;
    if (s.b()) {
      const size_t n = s.n(0, m.nch + 1);
      set("nchan", std::to_string(n));
      if (n) x.nc = std::min(x.nc, n);
    }
  }
  // Columns.
  x.use_ws = m.ws_defined;
  if (s.chance(1, 6)) { set("weightcolumn", "WEIGHT"); x.use_ws = false; }
  if (s.chance(1, 4)) { set("useflag", "false"); x.use_flag = false; }
  else if (m.has_flag2 && s.b()) { set("flagcolumn", "MY_FLAG"); x.own_flags = true; }
  if (m.has_extra && s.b()) { set("extradatacolumns", "[MODEL_DATA]"); x.extra = true; }
  else if (m.has_extra && s.chance(1, 3)) { set("datacolumn", "MODEL_DATA"); x.data_column = "MODEL_DATA"; }
  else if (s.chance(1, 20)) { set("datacolumn", "NOT_THERE"); x.data_column = "NOT_THERE"; if (!multi) Refuse(x, "no such column"); }
  if (s.chance(1, 12)) {
    if (s.b()) { set("autoweight", "true"); if (!m.raw) Refuse(x, "autoweight"); else x.autow = true; }
    else { set("forceautoweight", "true"); x.autow = true; }
  }
  // Order.
  if (s.chance(1, 5)) {
    set("sort", "true");
    x.sort = !m.raw;
    if (x.sort) s.shuffle(m.rows);
  }
  // Times.
  const int last_slot = m.slots.back();
  int first = 0, last = last_slot;
  bool none = false;
  if (time_sel) {
    auto frac = [&](int k) { return k + (s.b() ? 0.0 : s.real(0.2, 0.35)); };
    switch (s.n(5)) {
      case 1: {
        const double k = s.chance(1, 4) ? last_slot : frac(s.i(-2, last_slot + 1));
        set("starttime", TimeString(m.t0 + k * m.dt));
        first = int(std::ceil(k));
        if (k > last_slot) Refuse(x, "start after the end");
        break;
      }
      case 2: {
        const int n = s.i(-3, int(m.slots.size()) + 1);
        set("starttimeslot", std::to_string(n));
        if (n <= 0) first = n;
        else if (n < int(m.slots.size())) first = m.slots[n];
        else none = true;
        break;
      }
    }
    switch (s.n(4)) {
      case 1: {
        const double k = frac(s.i(-1, last_slot + 2));
        if (none) break;
        set("endtime", TimeString(m.t0 + k * m.dt));
        last = int(std::floor(k));
        if (k < -0.5) Refuse(x, "end before the data");
        break;
      }
      case 2: {
        const int n = s.i(1, last_slot + 3);
        set("ntimes", std::to_string(n));
        last = first + n - 1;
        break;
      }
    }
    if (!none && last < first) Refuse(x, "end before start");
  }
  // The fields that are read.
  if (s.b()) x.fields = AllFields();
  else {
    if (s.b()) x.fields |= Step::kDataField;
    if (s.b()) x.fields |= Step::kFlagsField;
    if (s.b()) x.fields |= Step::kWeightsField;
    if (s.b()) x.fields |= Step::kUvwField;
  }
  s.note(Cat("fields ", x.fields, x.refused ? " refused: " + x.why : ""));
  if (x.refused) return x;
  // Row numbers per time slot.
  if (x.sort) std::sort(x.bl.begin(), x.bl.end());
  for (int k = first; k <= last && !none; ++k) {
    Want w;
    w.time = m.t0 + k * m.dt;
    w.exposure = m.dt;
    if (std::find(m.slots.begin(), m.slots.end(), k) != m.slots.end()) {
      w.exposure = m.exposure;
      for (auto& b : x.bl)
        for (size_t i = 0; i < m.rows.size(); ++i)
          if (m.rows[i].time == w.time && m.rows[i].a1 == b.first && m.rows[i].a2 == b.second && (x.band < 0 || m.rows[i].ddid == band)) w.rows.push_back(i);
    }
    x.slots.push_back(w);
  }
  x.first = m.t0 + first * m.dt;
  x.last = m.t0 + last * m.dt;
  return x;
}

// The fields of a time slot as the reader must give them.
struct Cells {
  std::vector<cf> data, extra;
  std::vector<char> flag;
  std::vector<double> weight;
};
Cells Model(const Ms& m, const Sel& x, const Want& w) {
  Cells r;
  const size_t nbl = x.bl.size(), np = m.ncorr, n = nbl * x.nc * np;
  r.data.assign(n, cf());
  r.extra.assign(n, cf());
  r.flag.assign(n, true);
  r.weight.assign(n, 0);
  if (w.rows.empty()) return r;
  size_t i = 0;
  for (size_t b = 0; b < nbl; ++b) {
    const Row& row = m.rows[w.rows[b]];
    for (size_t c = x.c0; c < x.c0 + x.nc; ++c) {
      bool f = false;
      for (size_t p = 0; p < np; ++p, ++i) {
        const size_t k = c * np + p;
        r.data[i] = x.data_column == "NOT_THERE" || (x.data_column == "DATA" && !m.has_data) ? cf() : x.data_column == "DATA" ? row.data[k] : row.extra[k];
        r.extra[i] = row.extra[k];
        // The flags of one correlation are those of all, once the data show.
        r.flag[i] = x.use_flag && ((x.own_flags ? row.flag2[k] : row.flag[k]) || row.flag_row);
        f = f || r.flag[i] || !std::isfinite(r.data[i].real()) || !std::isfinite(r.data[i].imag());
        r.weight[i] = x.use_ws ? row.ws[k] : row.w[p] == 0 ? 1 : row.w[p];
      }
      if ((x.fields.Data() || (x.autow && x.fields.Weights())) && f) std::fill_n(r.flag.begin() + (i - np), np, true);
    }
  }
  if (x.autow) {
    const int band = std::max(0, x.band);
    auto find = [&](int a) { for (size_t b = 0; b < nbl; ++b) if (x.bl[b].first == a && x.bl[b].second == a) return int(b); return -1; };
    i = 0;
    for (size_t b = 0; b < nbl; ++b) {
      const int u = find(x.bl[b].first), v = find(x.bl[b].second);
      for (size_t c = 0; c < x.nc; ++c)
        for (size_t p = 0; p < np; ++p, ++i) {
          if (u < 0 || v < 0) continue;
          auto power = [&](int q, int pol) { return double(r.data[(q * x.nc + c) * np + pol * 3].real()); };
          const bool first = power(u, 0) != 0 && power(v, 0) != 0, second = power(u, 1) != 0 && power(v, 1) != 0;
          if (!first || (p > 0 && !second)) continue;
          r.weight[i] *= m.width[band][x.c0 + c] * m.dt / (power(u, p / 2) * power(v, p % 2));
        }
    }
  }
  return r;
}

bool SameC(cf a, cf b) { return std::memcmp(&a, &b, sizeof a) == 0 || a == b; }

void CheckBuffer(const Ms& m, const Sel& x, const Want& w, const DPBuffer& b, bool data_read) {
  const size_t nbl = x.bl.size(), n = nbl * x.nc * m.ncorr;
  CHECK_NEAR(b.GetTime(), w.time, 1e-5, "time of the slot");
  CHECK_NEAR(b.GetExposure(), w.exposure, 1e-9, "exposure of the slot at ", w.time - m.t0);
  const auto& rows = b.GetRowNumbers();
  CHECK_EQ(size_t(rows.size()), w.rows.size(), "row numbers of the slot at ", w.time - m.t0);
  for (size_t i = 0; i < w.rows.size(); ++i) CHECK_EQ(size_t(rows[i]), w.rows[i], "row number of baseline ", i);
  const Cells c = Model(m, x, w);
  auto shape = [&](auto& a) { return a.size() == n && a.shape(0) == nbl && a.shape(1) == x.nc && a.shape(2) == m.ncorr; };
  if (x.fields.Data()) {
    CHECK(shape(b.GetData()), "shape of the data");
    for (size_t i = 0; i < n; ++i) CHECK(SameC(b.GetData().data()[i], c.data[i]), "visibility ", i, " of the slot at ", w.time - m.t0, ": ", b.GetData().data()[i], " is not ", c.data[i]);
    CHECK_EQ(b.HasData("MODEL_DATA"), x.extra, "extra data");
    if (x.extra) {
      CHECK(shape(b.GetData("MODEL_DATA")), "shape of the extra data");
      for (size_t i = 0; i < n; ++i) CHECK(SameC(b.GetData("MODEL_DATA").data()[i], c.extra[i]), "extra visibility ", i, " of the slot at ", w.time - m.t0);
    }
  }
  if (x.fields.Flags()) {
    CHECK(shape(b.GetFlags()), "shape of the flags");
    for (size_t i = 0; i < n; ++i) CHECK_EQ(int(b.GetFlags().data()[i]), int(c.flag[i]), "flag ", i, " of the slot at ", w.time - m.t0);
  }
  if (x.fields.Weights()) {
    CHECK(shape(b.GetWeights()), "shape of the weights");
    for (size_t i = 0; i < n; ++i) {
      const double got = b.GetWeights().data()[i];
      const bool same = x.autow ? std::abs(got - c.weight[i]) <= 1e-5 * std::abs(c.weight[i]) || (!std::isfinite(got) && !std::isfinite(c.weight[i])) : got == c.weight[i];
      CHECK(same, "weight ", i, " of the slot at ", w.time - m.t0, ": ", got, " is not ", c.weight[i]);
    }
  }
  if (x.fields.Uvw()) {
    CHECK_EQ(size_t(b.GetUvw().size()), nbl * 3, "size of the uvw");
    std::unique_ptr<dp3::base::UVWCalculator> calc;
    if (w.rows.empty()) {
      std::vector<cc::MPosition> pos;
      for (auto& p : m.pos) pos.push_back(cc::MPosition(cc::MVPosition(p[0], p[1], p[2]), cc::MPosition::ITRF));
      calc = std::make_unique<dp3::base::UVWCalculator>(cc::MDirection(cc::MVDirection(m.ra, m.dec)), m.telescope == "MINI" ? cc::MeasTable::known().at("MINI") : pos[pos.size() / 2], pos);
    }
    for (size_t i = 0; i < nbl; ++i) {
      std::array<double, 3> e{};
      if (!calc) e = m.rows[w.rows[i]].uvw;
      else {
        auto v = calc->getUVW(x.bl[i].first, x.bl[i].second, w.time);
        for (int k = 0; k < 3; ++k) e[k] = v[k];
      }
      for (int k = 0; k < 3; ++k) CHECK_NEAR(b.GetUvw().data()[i * 3 + k], e[k], calc ? 1e-3 : 0, "uvw of baseline ", i, " of the slot at ", w.time - m.t0);
    }
  }
  (void)data_read;
}

void CheckInfo(const Ms& m, const Sel& x, const DPInfo& info) {
  const int band = std::max(0, x.band);
  CHECK_EQ(size_t(info.nchan()), x.nc, "number of channels");
  CHECK_EQ(size_t(info.startchan()), x.c0, "start channel");
  CHECK_EQ(size_t(info.origNChan()), m.nch, "number of channels before selection");
  CHECK_EQ(size_t(info.ncorr()), m.ncorr, "correlations");
  CHECK_EQ(size_t(info.nbaselines()), x.bl.size(), "baselines");
  for (size_t b = 0; b < x.bl.size(); ++b) CHECK(info.getAnt1()[b] == x.bl[b].first && info.getAnt2()[b] == x.bl[b].second, "stations of baseline ", b);
  for (size_t c = 0; c < x.nc; ++c) {
    CHECK_EQ(info.chanFreqs()[c], m.freq[band][x.c0 + c], "frequency of channel ", c);
    CHECK_EQ(info.chanWidths()[c], m.width[band][x.c0 + c], "width of channel ", c);
    CHECK_EQ(info.resolutions()[c], 1.5 * m.width[band][x.c0 + c], "resolution of channel ", c);
    CHECK_EQ(info.effectiveBW()[c], 0.75 * m.width[band][x.c0 + c], "bandwidth of channel ", c);
  }
  CHECK_EQ(info.refFreq(), m.freq[band][0] + 7, "reference frequency");
  CHECK_EQ(info.spectralWindow(), band, "spectral window");
  CHECK_EQ(info.timeInterval(), m.dt, "interval");
  if (!x.slots.empty()) {
    CHECK_NEAR(info.firstTime(), x.first, 1e-5, "first time");
    CHECK_NEAR(info.lastTime(), x.last, 1e-5, "last time");
    CHECK_EQ(size_t(info.ntime()), x.slots.size(), "number of times");
  }
  CHECK_EQ(info.antennaNames().size(), m.nant, "number of stations");
  for (size_t a = 0; a < m.nant; ++a) {
    CHECK_EQ(info.antennaNames()[a], "A" + std::to_string(a), "name of station");
    CHECK_EQ(info.antennaDiam()[a], 10.0 + a, "diameter");
    for (int k = 0; k < 3; ++k) CHECK_EQ(info.antennaPos()[a].getValue()(k), m.pos[a][k], "position");
  }
  auto dir = [&](const cc::MDirection& d, double dra, const char* what) {
    CHECK(d.getValue().separation(cc::MVDirection(m.ra + dra, m.dec)) < 1e-9, "direction: ", what);
  };
  dir(info.phaseCenter(), 0, "phase centre");
  dir(info.delayCenter(), 0.01, "delay centre");
  dir(info.tileBeamDir(), m.tile_dir ? 0.02 : 0.01, "tile beam");
  CHECK_EQ(info.antennaSet(), m.antenna_set, "antenna set");
  CHECK_EQ(info.GetTelescopeName(), m.telescope, "telescope");
  CHECK_EQ(info.GetObserver(), m.observer, "observer");
  CHECK_EQ(info.GetFieldName(), m.field, "field name");
  const auto ap = info.arrayPos().getValue();
  const double ex = m.telescope == "MINI" ? 3826000 : m.pos[m.nant / 2][0];
  CHECK_EQ(ap(0), ex, "array position");
  CHECK_EQ(info.msName(), m.name, "name");
  CHECK_EQ(info.dataColumnName(), x.data_column, "data column");
  CHECK_EQ(info.flagColumnName(), std::string(x.own_flags ? "MY_FLAG" : "FLAG"), "flag column");
}

std::string Describe(const Ms& m) {
  std::string r = Cat("nant=", m.nant, " bl=");
  for (auto& b : m.bl) r += Cat(b.first, "-", b.second, ",");
  r += Cat(" nch=", m.nch, " dt=", m.dt, " t0=", m.t0 - kDay, " nband=", m.nband, " ws=", m.has_ws_column, m.ws_defined, " raw=", m.raw, " slots=");
  for (int k : m.slots) r += Cat(k, ",");
  return r;
}
}  // namespace
#endif
