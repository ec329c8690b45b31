// Generated in-memory measurement sets for the harnesses that read and write them.
#ifndef MS_UTIL_H_
#define MS_UTIL_H_
#include "steps_util.h"

#include <casacore/ms/MeasurementSets/MeasurementSet.h>
#include <casacore/tables/Tables/ArrayColumn.h>
#include <casacore/tables/Tables/ScalarColumn.h>

namespace mu {
using namespace su;
namespace cc = casacore;

struct Row {
  double time = 0;
  int a1 = 0, a2 = 0, ddid = 0;
  bool flag_row = false;
  std::vector<cf> data, extra;   // [ch][corr]
  std::vector<char> flag, flag2;
  std::vector<float> ws, w;
  std::array<double, 3> uvw{};
};

// A measurement set: rows in time order, all with the same baselines per time
// slot and band.
struct Ms {
  std::string name = "/mini/in.ms";
  size_t nant = 0, nch = 0, ncorr = 4, nslot = 0;
  std::vector<std::pair<int, int>> bl;
  double t0 = 0, dt = 1, exposure = 1;
  std::vector<int> slots;  // index of the time slots that exist
  int nband = 1, freq_ref = 5;
  bool has_ws_column = true, ws_defined = true, has_data = true, has_extra = false, raw = false, has_flag2 = false;
  std::vector<std::vector<double>> freq, width;  // per band
  std::vector<std::array<double, 3>> pos;
  double ra = 0, dec = 0;
  std::string telescope = "MINI", antenna_set, observer = "me", field = "F";
  bool tile_dir = false, fixed = true;
  std::vector<Row> rows;
  cc::IPosition CellShape() const { return cc::IPosition(2, ssize_t(ncorr), ssize_t(nch)); }
};

struct MsOpt {
  size_t max_ant = 4, max_bl = 6, max_ch = 5, max_slot = 6;
  bool bands = true, weights = true, nan = true, missing_slots = true;
};

inline cc::Table NewTable(const std::string& name, const cc::TableDesc& d, size_t n) {
  cc::SetupNewTable setup(name, d, cc::Table::New);
  return cc::Table(setup, n);
}
inline const double kDay = 58849 * 86400.0;  // 2020/01/01
inline std::string TimeString(double t) {
  // With the digits of a microsecond, within the day.
  const double s = t - kDay;
  const int h = int(s / 3600), m = int((s - h * 3600) / 60);
  char b[64];
  std::snprintf(b, sizeof b, "2020/01/01/%02d:%02d:%09.6f", h, m, s - h * 3600 - m * 60);
  return b;
}

inline Row GenRow(Src& s, const Ms& m, const MsOpt& o, int k, size_t b, int band) {
  Row r;
  r.time = m.t0 + k * m.dt;
  r.a1 = m.bl[b].first;
  r.a2 = m.bl[b].second;
  r.ddid = band;
  r.flag_row = s.chance(1, 8);
  const size_t n = m.nch * m.ncorr;
  const int fmode = s.n(4);
  for (size_t i = 0; i < n; ++i) {
    r.data.push_back(cf(s.i(-64, 64) * 0.25f, s.i(-64, 64) * 0.25f));
    if (o.nan && s.chance(1, 32)) r.data.back() = s.b() ? cf(NAN, 1) : cf(2, s.b() ? INFINITY : -INFINITY);
    r.extra.push_back(cf(s.i(-64, 64) * 0.25f, s.i(-64, 64) * 0.25f));
    r.flag.push_back(fmode == 1 ? s.chance(1, 4) : fmode == 2 ? s.chance(7, 8) : fmode == 3);
    r.flag2.push_back(s.chance(1, 4));
    r.ws.push_back(s.chance(1, 8) ? 0.0f : s.i(1, 16) * 0.25f);
  }
  for (size_t p = 0; p < m.ncorr; ++p) r.w.push_back(s.chance(1, 4) ? 0.0f : s.i(1, 16) * 0.5f);
  for (auto& x : r.uvw) x = s.i(-4000, 4000) * 0.5;
  return r;
}

inline Ms GenMs(Src& s, const MsOpt& o = {}) {
  Ms m;
  m.nant = s.n(1, o.max_ant);
  for (size_t i = 0; i < m.nant; ++i) m.pos.push_back({3826000.0 + s.i(-2000, 2000), 461000.0 + s.i(-2000, 2000), 5064000.0 + s.i(-2000, 2000)});
  std::vector<std::pair<int, int>> all;
  const bool au = s.b() || m.nant == 1;
  for (size_t i = 0; i < m.nant; ++i)
    for (size_t j = i + (au ? 0 : 1); j < m.nant; ++j) all.emplace_back(i, j);
  if (s.chance(1, 3)) s.shuffle(all);
  m.bl.assign(all.begin(), all.begin() + std::min(all.size(), s.n(1, o.max_bl)));
  m.nch = s.n(1, o.max_ch);
  m.dt = s.pick(std::vector<double>{1, 2, 10, 0.5, 1.00139, 8.01112});
  m.t0 = kDay + s.pick(std::vector<double>{3600, 7201.5, 40000.25, 500.581});
  m.exposure = s.b() ? m.dt : 0.75 * m.dt;
  m.nslot = s.n(1, o.max_slot);
  for (size_t k = 0; k < m.nslot; ++k)
    if (!o.missing_slots || k == 0 || k + 1 == m.nslot || !s.chance(1, 4)) m.slots.push_back(k);
  m.nband = o.bands && s.chance(1, 4) ? s.i(2, 3) : 1;
  for (int b = 0; b < m.nband; ++b) {
    double f = 1.2e8 + b * 1e7;
    m.freq.emplace_back();
    m.width.emplace_back();
    const double w = s.pick(std::vector<double>{1e5, 3051.7578125, 195312.5});
    for (size_t c = 0; c < m.nch; ++c) {
      m.freq[b].push_back(f + w / 2);
      m.width[b].push_back(w);
      f += w;
    }
  }
  if (o.weights) {
    m.has_ws_column = s.chance(3, 4);
    m.ws_defined = m.has_ws_column && s.chance(3, 4);
  }
  m.has_extra = s.b();
  m.has_flag2 = s.b();
  m.telescope = s.b() ? "MINI" : "ELSEWHERE";
  m.antenna_set = s.b() ? "HBA_DUAL" : "";
  m.tile_dir = s.b();
  m.ra = s.pick(std::vector<double>{0.0, 1.0, -2.0, 3.0});
  m.dec = s.pick(std::vector<double>{0.5, -0.4, 1.2, 0.92});
  for (int k : m.slots)
    for (int band = 0; band < m.nband; ++band)
      for (size_t b = 0; b < m.bl.size(); ++b) m.rows.push_back(GenRow(s, m, o, k, b, band));
  return m;
}

template <typename T, typename V>
cc::Array<T> Cell(const cc::IPosition& sh, const V& v) {
  cc::Array<T> a(sh);
  size_t i = 0;
  for (auto& x : a) x = v[i++];
  return a;
}

// Makes the tables.
inline cc::MeasurementSet Store(const Ms& m) {
  cc::TableDesc d;
  for (const char* c : {"ANTENNA1", "ANTENNA2", "DATA_DESC_ID"}) d.addColumn(cc::ScalarColumnDesc<int>(c));
  for (const char* c : {"TIME", "INTERVAL", "EXPOSURE"}) d.addColumn(cc::ScalarColumnDesc<double>(c));
  d.addColumn(cc::ScalarColumnDesc<bool>("FLAG_ROW"));
  const cc::IPosition sh = m.CellShape(), none;
  const cc::IPosition& csh = m.fixed ? sh : none;
  if (m.has_data) d.addColumn(cc::ArrayColumnDesc<cf>("DATA", csh));
  d.addColumn(cc::ArrayColumnDesc<bool>("FLAG", csh));
  if (m.has_flag2) d.addColumn(cc::ArrayColumnDesc<bool>("MY_FLAG", csh));
  if (m.has_ws_column) d.addColumn(cc::ArrayColumnDesc<float>("WEIGHT_SPECTRUM"));
  if (m.has_extra) d.addColumn(cc::ArrayColumnDesc<cf>("MODEL_DATA", csh));
  d.addColumn(cc::ArrayColumnDesc<float>("WEIGHT"));
  d.addColumn(cc::ArrayColumnDesc<double>("UVW"));
  cc::Table t = NewTable(m.name, d, m.rows.size());
  cc::ScalarColumn<int> a1(t, "ANTENNA1"), a2(t, "ANTENNA2"), dd(t, "DATA_DESC_ID");
  cc::ScalarColumn<double> time(t, "TIME"), interval(t, "INTERVAL"), exposure(t, "EXPOSURE");
  cc::ScalarColumn<bool> flag_row(t, "FLAG_ROW");
  cc::ArrayColumn<bool> flag(t, "FLAG");
  cc::ArrayColumn<float> w(t, "WEIGHT");
  cc::ArrayColumn<double> uvw(t, "UVW");
  for (size_t i = 0; i < m.rows.size(); ++i) {
    const Row& r = m.rows[i];
    a1.put(i, r.a1);
    a2.put(i, r.a2);
    dd.put(i, r.ddid);
    time.put(i, r.time);
    interval.put(i, m.dt);
    exposure.put(i, m.exposure);
    flag_row.put(i, r.flag_row);
    if (m.has_data) cc::ArrayColumn<cf>(t, "DATA").put(i, Cell<cf>(sh, r.data));
    if (m.has_extra) cc::ArrayColumn<cf>(t, "MODEL_DATA").put(i, Cell<cf>(sh, r.extra));
    if (m.ws_defined) cc::ArrayColumn<float>(t, "WEIGHT_SPECTRUM").put(i, Cell<float>(sh, r.ws));
    flag.put(i, Cell<bool>(sh, r.flag));
    if (m.has_flag2) cc::ArrayColumn<bool>(t, "MY_FLAG").put(i, Cell<bool>(sh, r.flag2));
    w.put(i, Cell<float>(cc::IPosition(1, ssize_t(m.ncorr)), r.w));
    uvw.put(i, Cell<double>(cc::IPosition(1, 3), r.uvw));
  }
  cc::TableRecord& keys = t.rwKeywordSet();
  {
    cc::TableDesc e;
    e.addColumn(cc::ScalarColumnDesc<cc::String>("NAME"));
    e.addColumn(cc::ScalarColumnDesc<double>("DISH_DIAMETER"));
    e.addColumn(cc::ScalarColumnDesc<cc::MPosition>("POSITION"));
    cc::Table a = NewTable(m.name + "/ANTENNA", e, m.nant);
    for (size_t i = 0; i < m.nant; ++i) {
      cc::ScalarColumn<cc::String>(a, "NAME").put(i, "A" + std::to_string(i));
      cc::ScalarColumn<double>(a, "DISH_DIAMETER").put(i, 10.0 + i);
      cc::ScalarColumn<cc::MPosition>(a, "POSITION").put(i, cc::MPosition(cc::MVPosition(m.pos[i][0], m.pos[i][1], m.pos[i][2]), cc::MPosition::ITRF));
    }
    keys.define("ANTENNA", a);
  }
  {
    cc::TableDesc e;
    e.addColumn(cc::ArrayColumnDesc<cc::MDirection>("PHASE_DIR"));
    e.addColumn(cc::ArrayColumnDesc<cc::MDirection>("DELAY_DIR"));
    e.addColumn(cc::ScalarColumnDesc<cc::String>("NAME"));
    cc::Table a = NewTable(m.name + "/FIELD", e, 1);
    auto dir = [&](double dra) { return cc::Array<cc::MDirection>(cc::Vector<cc::MDirection>(1, cc::MDirection(cc::MVDirection(m.ra + dra, m.dec)))); };
    cc::ArrayColumn<cc::MDirection>(a, "PHASE_DIR").put(0, dir(0));
    cc::ArrayColumn<cc::MDirection>(a, "DELAY_DIR").put(0, dir(0.01));
    cc::ScalarColumn<cc::String>(a, "NAME").put(0, m.field);
    keys.define("FIELD", a);
    if (m.tile_dir) keys.define("MINI_TILE_BEAM_DIR", cc::MDirection(cc::MVDirection(m.ra + 0.02, m.dec)));
  }
  {
    cc::TableDesc e;
    e.addColumn(cc::ScalarColumnDesc<cc::String>("TELESCOPE_NAME"));
    e.addColumn(cc::ScalarColumnDesc<cc::String>("OBSERVER"));
    if (!m.antenna_set.empty()) e.addColumn(cc::ScalarColumnDesc<cc::String>("LOFAR_ANTENNA_SET"));
    cc::Table a = NewTable(m.name + "/OBSERVATION", e, 1);
    cc::ScalarColumn<cc::String>(a, "TELESCOPE_NAME").put(0, m.telescope);
    cc::ScalarColumn<cc::String>(a, "OBSERVER").put(0, m.observer);
    if (!m.antenna_set.empty()) cc::ScalarColumn<cc::String>(a, "LOFAR_ANTENNA_SET").put(0, m.antenna_set);
    keys.define("OBSERVATION", a);
  }
  {
    cc::TableDesc e;
    for (const char* c : {"CHAN_FREQ", "CHAN_WIDTH", "RESOLUTION", "EFFECTIVE_BW"}) e.addColumn(cc::ArrayColumnDesc<double>(c));
    e.addColumn(cc::ScalarColumnDesc<double>("REF_FREQUENCY"));
    e.addColumn(cc::ScalarColumnDesc<int>("MEAS_FREQ_REF"));
    e.addColumn(cc::ScalarColumnDesc<cc::String>("NAME"));
    cc::Table a = NewTable(m.name + "/SPECTRAL_WINDOW", e, m.nband);
    const cc::IPosition n(1, ssize_t(m.nch));
    for (int b = 0; b < m.nband; ++b) {
      std::vector<double> res = m.width[b], bw = m.width[b];
      for (auto& x : res) x *= 1.5;
      for (auto& x : bw) x *= 0.75;
      cc::ArrayColumn<double>(a, "CHAN_FREQ").put(b, Cell<double>(n, m.freq[b]));
      cc::ArrayColumn<double>(a, "CHAN_WIDTH").put(b, Cell<double>(n, m.width[b]));
      cc::ArrayColumn<double>(a, "RESOLUTION").put(b, Cell<double>(n, res));
      cc::ArrayColumn<double>(a, "EFFECTIVE_BW").put(b, Cell<double>(n, bw));
      cc::ScalarColumn<double>(a, "REF_FREQUENCY").put(b, m.freq[b][0] + 7);
      cc::ScalarColumn<int>(a, "MEAS_FREQ_REF").put(b, m.freq_ref + b);
      cc::ScalarColumn<cc::String>(a, "NAME").put(b, "SB" + std::to_string(b));
    }
    keys.define("SPECTRAL_WINDOW", a);
  }
  {
    cc::TableDesc e;
    e.addColumn(cc::ScalarColumnDesc<int>("POLARIZATION_ID"));
    cc::Table a = NewTable(m.name + "/DATA_DESCRIPTION", e, m.nband);
    for (int b = 0; b < m.nband; ++b) cc::ScalarColumn<int>(a, "POLARIZATION_ID").put(b, 0);
    keys.define("DATA_DESCRIPTION", a);
    cc::TableDesc p;
    p.addColumn(cc::ArrayColumnDesc<int>("CORR_TYPE"));
    cc::Table q = NewTable(m.name + "/POLARIZATION", p, 1);
    cc::ArrayColumn<int>(q, "CORR_TYPE").put(0, Cell<int>(cc::IPosition(1, 4), std::vector<int>{9, 10, 11, 12}));
    keys.define("POLARIZATION", q);
  }
  auto manager = [](const std::string& type, std::vector<cc::String> cols) {
    cc::Record r;
    r.define("TYPE", type);
    r.define("NAME", cols.front() + "Man");
    r.define("COLUMNS", cc::Vector<cc::String>(cols));
    return r;
  };
  cc::Record info;
  info.defineRecord("*1", manager(m.raw ? "LofarStMan" : "TiledColumnStMan", {"DATA", "WEIGHT_SPECTRUM"}));
  info.defineRecord("*2", manager("TiledShapeStMan", {"FLAG"}));
  t.rep()->dminfo = info;
  cc::MeasTable::known()["MINI"] = cc::MPosition(cc::MVPosition(3826000, 461000, 5064000), cc::MPosition::ITRF);
  return cc::MeasurementSet(t);
}

// Forgets all tables when a case ends.
struct Tables {
  Tables() { cc::mini_tables().clear(); }
  ~Tables() { cc::mini_tables().clear(); }
};

// What a reader must give for one time slot.
struct Want {
  double time = 0, exposure = 0;
  std::vector<size_t> rows;  // empty if inserted
};
}  // namespace mu
#endif
