// P47..P49: reading and updating measurement sets (held in memory).
#include "ms_model.h"

#include "base/UVWCalculator.h"
#include "steps/BDAAverager.h"
#include "steps/MSBDAWriter.h"
#include "steps/MSUpdater.h"
#include "steps/MsColumnReader.h"
#include "steps/MsReader.h"
#include "steps/MultiMsReader.h"

using namespace mu;
using dp3::common::Fields;
using dp3::steps::MSUpdater;
using dp3::steps::MsColumnReader;
using dp3::steps::MsReader;
using dp3::steps::MultiMsReader;

// The harness does not write new measurement sets.
#include "steps/MSWriter.h"
namespace dp3::steps {
void MSWriter::WriteHistory(casacore::Table& t, const common::ParameterSet&) { t.rwKeywordSet().define("HISTORY_WRITTEN", true); }
void MSWriter::UpdateBeam(casacore::Table& t, const std::string& col, const base::DPInfo& info) {
  t.rep()->colkeys[col].define("BEAM", info.beamCorrectionMode());
}
std::unique_ptr<casacore::DataManager> MakeStMan(const std::string& type, const std::string& name, const casacore::Record&) { return std::make_unique<casacore::DataManager>(name, type); }
void MSWriter::UpdateObs(const std::string&, const base::DPInfo&) {}
void MSWriter::UpdatePhaseCentre(const std::string&, const casacore::MDirection&) {}
}  // namespace dp3::steps


PROP("P47.reader", 1000, 12000) {
  Tables tables;
  Ms m = GenMs(s);
  m.raw = s.chance(1, 4);
  s.note(Describe(m));
  const Sel x = GenSel(s, m);
  const cc::MeasurementSet ms = Store(m);
  std::shared_ptr<MsReader> reader;
  if (x.refused) {
    CHECK(vpt::Throws([&] { MsReader r(ms, x.p, "msin."); }), "not refused: ", x.why);
    s.label("refused");
    return;
  }
  reader = std::make_shared<MsReader>(ms, x.p, "msin.");
  auto sink = std::make_shared<Sink>();
  reader->setNextStep(sink);
  reader->setFieldsToRead(x.fields);
  CheckInfo(m, x, reader->getInfoOut());
  size_t n = 0;
  while (reader->process(std::make_unique<DPBuffer>())) CHECK(++n <= x.slots.size(), "too many time slots");
  CHECK_EQ(n, x.slots.size(), "number of time slots");
  CHECK(!reader->process(std::make_unique<DPBuffer>()), "data after the end");
  reader->finish();
  CHECK_EQ(sink->n_finish, 1, "finish");
  CHECK_EQ(sink->bufs.size(), n, "number of buffers");
  for (size_t i = 0; i < n; ++i) CheckBuffer(m, x, x.slots[i], *sink->bufs[i], true);
  size_t inserted = 0;
  for (auto& w : x.slots) inserted += w.rows.empty();
  if (inserted > 0) s.label("with inserted slots");
  s.nontrivial(n > 0);
}

// Several measurement sets make one band.
PROP("P47.multi", 400, 8000) {
  Tables tables;
  MsOpt o;
  o.bands = false;
  o.missing_slots = false;
  o.max_ch = 3;
  Ms base = GenMs(s, o);
  base.raw = false;
  const int n = s.i(2, 4);
  Sel x = GenSel(s, base, false, true);
  const bool order = s.b();
  const bool glob = s.chance(1, 4), missing_data = s.chance(1, 3);
  std::vector<Ms> all;
  std::vector<char> exists;
  const bool same_nch = s.b();
  double f = 1.2e8;
  for (int i = 0; i < n; ++i) {
    Ms m = base;
    m.name = Cat("/mini/b", i, ".ms");
    if (!same_nch) m.nch = s.n(1, 3);
    m.freq[0].clear();
    m.width[0].clear();
    for (size_t c = 0; c < m.nch; ++c) {
      m.freq[0].push_back(f + 5e4);
      m.width[0].push_back(1e5);
      f += 1e5;
    }
    if (!m.rows.empty()) {
      // The same rows with other values.
      std::vector<Row> rows;
      for (auto& r : base.rows) {
        const int k = int(std::lround((r.time - m.t0) / m.dt));
        size_t b = 0;
        while (m.bl[b] != std::make_pair(r.a1, r.a2)) ++b;
        rows.push_back(GenRow(s, m, o, k, b, 0));
      }
      m.rows = rows;
    }
    exists.push_back(glob || !s.chance(1, 5));
    if (missing_data && !x.extra && s.chance(1, 4)) m.has_data = false;
    all.push_back(m);
  }
  if (!same_nch || order) exists.assign(n, true);
  if (std::count(exists.begin(), exists.end(), 1) == 0) exists[0] = true;
  if (x.c0 || x.nc != base.nch) throw vpt::Discard{};
  // One that does not fit.
  std::string why = x.refused ? x.why : "";
  size_t first = 0;
  while (!exists[first]) ++first;
  int odd = s.chance(1, 6) ? s.i(1, 5) : 0;
  if (odd && !x.refused) {
    int k = s.i(0, n - 1);
    if (!exists[k] || size_t(k) == first) odd = 0;
    Ms& m = all[k];
    if (odd == 1) { for (auto& r : m.rows) r.time += 3; m.t0 += 3; why = "other times"; }
    if (odd == 2) { m.antenna_set += "X"; why = "other antenna set"; }
    if (odd == 3) { m.dt *= 1.5; why = "other interval"; }
    if (odd == 4) {
      if (x.bl.size() < 2 || x.sort) odd = 0;
      else {
        for (auto& r : m.rows) {
          size_t b = 0;
          while (x.bl[b] != std::make_pair(r.a1, r.a2)) if (++b >= x.bl.size()) break;
          if (b < 2) { const auto& q = x.bl[1 - b]; r.a1 = q.first; r.a2 = q.second; }
        }
        why = "other order of baselines";
      }
    }
    if (odd == 5) {
      if (x.slots.size() < 2) odd = 0;
      else {
        // A time slot is missing in the middle or at the end.
        const int drop = s.n(1, m.slots.size() - 1);
        const double t = m.t0 + m.slots[drop] * m.dt;
        m.rows.erase(std::remove_if(m.rows.begin(), m.rows.end(), [&](auto& r) { return r.time == t; }), m.rows.end());
        why = "missing time slot";
      }
    }
    if (!odd) why.clear();
  }
  std::vector<int> given(n);
  for (int i = 0; i < n; ++i) given[i] = i;
  if (order && s.b()) s.shuffle(given);
  std::string names;
  for (int i : given) names += (names.empty() ? "" : ",") + all[i].name;
  for (int i = 0; i < n; ++i) if (exists[i]) Store(all[i]);
  const bool name_key = s.b();
  if (glob) x.p.add(name_key ? "msin.name" : "msin", "/mini/b*.ms");
  else x.p.add(name_key ? "msin.name" : "msin", "[" + names + "]");
  if (!order || s.b()) x.p.add("msin.orderms", order ? "true" : "false");
  if (missing_data) x.p.add("msin.missingdata", "true");
  auto lacks = [&](int i) { return x.data_column == "NOT_THERE" || (x.data_column == "DATA" && !all[i].has_data); };
  bool no_column = false;
  for (int i = 0; i < n; ++i) no_column = no_column || (exists[i] && lacks(i));
  // The shape comes from DATA, also when another column is read.
  for (int i = 0; i < n; ++i) if (exists[i] && !all[i].has_data) { why = "no DATA column"; }
  if (why.empty() && no_column && !missing_data) why = "no such column";
  if (why.empty() && x.extra && missing_data) why = "extra columns with missing data";
  s.note(Cat(Describe(base), " names=", names, " order=", order, " missing_data=", missing_data, " refused=", why));
  for (int i = 0; i < n; ++i) s.note(Cat(i, ": exists=", int(exists[i]), " nch=", all[i].nch, " data=", all[i].has_data));
  auto sink = std::make_shared<Sink>();
  std::unique_ptr<dp3::steps::InputStep> reader;
  DPInfo none;
  auto run = [&] {
    reader = dp3::steps::InputStep::CreateReader(x.p);
    reader->setNextStep(sink);
    reader->setFieldsToRead(x.fields);
    reader->setInfo(none);
    for (size_t k = 0; k <= x.slots.size(); ++k)
      CHECK_EQ(reader->process(std::make_unique<DPBuffer>()), k < x.slots.size(), "time slot ", k, " of ", x.slots.size());
    reader->finish();
  };
  if (!why.empty()) {
    CHECK(vpt::Throws(run), "not refused: ", why);
    s.label("refused");
    return;
  }
  run();
  CHECK_EQ(sink->n_finish, 1, "finish");
  CHECK_EQ(sink->bufs.size(), x.slots.size(), "number of time slots");
  const DPInfo& info = reader->getInfoOut();
  size_t nch = 0;
  for (auto& m : all) nch += m.nch;
  CHECK_EQ(size_t(info.nchan()), nch, "number of channels");
  for (size_t c = 0; c < nch; ++c) {
    CHECK_NEAR(info.chanFreqs()[c], 1.2e8 + c * 1e5 + 5e4, 1e-3, "frequency of channel ", c);
    CHECK_EQ(info.chanWidths()[c], 1e5, "width of channel ", c);
  }
  CHECK_EQ(size_t(info.nbaselines()), x.bl.size(), "number of baselines");
  CHECK_EQ(size_t(info.ntime()), x.slots.size(), "number of times");
  for (size_t k = 0; k < x.slots.size(); ++k) {
    const DPBuffer& b = *sink->bufs[k];
    const Want& w = x.slots[k];
    CHECK_NEAR(b.GetTime(), w.time, 1e-5, "time");
    CHECK_EQ(b.GetExposure(), lacks(first) ? base.dt : w.exposure, "exposure");
    CHECK_EQ(size_t(b.GetRowNumbers().size()), w.rows.size(), "row numbers");
    const size_t nbl = x.bl.size();
    auto shape = [&](auto& a) { return a.shape(0) == nbl && a.shape(1) == nch && a.shape(2) == base.ncorr; };
    if (x.fields.Data()) CHECK(shape(b.GetData()), "shape of the data");
    if (x.fields.Flags()) CHECK(shape(b.GetFlags()), "shape of the flags");
    if (x.fields.Weights()) CHECK(shape(b.GetWeights()), "shape of the weights");
    size_t c0 = 0;
    for (int i = 0; i < n; ++i) {
      Sel y = x;
      y.nc = all[i].nch;
      Cells c = Model(all[i], y, exists[i] ? w : Want());
      const bool no_data = exists[i] && lacks(i);
      size_t j = 0;
      for (size_t bl = 0; bl < nbl; ++bl)
        for (size_t ch = c0; ch < c0 + y.nc; ++ch)
          for (size_t p = 0; p < base.ncorr; ++p, ++j) {
            if (x.fields.Data()) {
              CHECK(SameC(b.GetData()(bl, ch, p), no_data ? cf() : c.data[j]), "visibility of channel ", ch, " baseline ", bl, ": ", b.GetData()(bl, ch, p));
              if (x.extra) CHECK(SameC(b.GetData("MODEL_DATA")(bl, ch, p), c.extra[j]), "extra visibility of channel ", ch, " baseline ", bl);
            }
            if (x.fields.Flags()) CHECK_EQ(bool(b.GetFlags()(bl, ch, p)), no_data || c.flag[j], "flag of channel ", ch, " baseline ", bl);
            if (x.fields.Weights()) {
              const double got = b.GetWeights()(bl, ch, p);
              if (x.autow) CHECK(std::abs(got - c.weight[j]) <= 1e-5 * std::abs(c.weight[j]) || !std::isfinite(got) || !std::isfinite(c.weight[j]), "weight of channel ", ch, ": ", got, " ", c.weight[j]);
              else CHECK_EQ(got, c.weight[j], "weight of channel ", ch, " baseline ", bl);
            }
          }
      c0 += y.nc;
    }
    if (x.fields.Uvw())
      for (size_t i = 0; i < nbl; ++i)
        for (int q = 0; q < 3; ++q) CHECK_EQ(b.GetUvw()(i, q), all[first].rows[w.rows[i]].uvw[q], "uvw of baseline ", i);
  }
  if (std::count(exists.begin(), exists.end(), 0)) s.label("a measurement set is missing");
  s.nontrivial(!x.slots.empty());
}
// ---------------------------------------------------------------- P48
namespace {
// Changes or replaces some of the fields.
struct Change : Step {
  Fields fields;
  bool replace = false, meta = false;
  int beam = 0;
  dp3::common::Fields getRequiredFields() const override { return replace ? Fields() : fields; }
  dp3::common::Fields getProvidedFields() const override { return fields; }
  void updateInfo(const DPInfo& i) override {
    Step::updateInfo(i);
    if (meta) GetWritableInfoOut().setMetaChanged();
    GetWritableInfoOut().setBeamCorrectionMode(beam);
  }
  static cf Data(cf v, size_t i, bool replace) { return replace ? cf(float(i), -0.5f) : v * 2.0f + cf(1, -3); }
  static bool Flag(bool v, size_t i, bool replace) { return replace ? i % 3 == 0 : i % 5 == 0 ? !v : v; }
  static float Weight(float v, size_t i, bool replace) { return replace ? float(i % 7) : v * 0.5f + 1; }
  bool process(std::unique_ptr<DPBuffer> b) override {
    const std::array<size_t, 3> sh{getInfoOut().nbaselines(), getInfoOut().nchan(), getInfoOut().ncorr()};
    const size_t n = sh[0] * sh[1] * sh[2];
    if (fields.Data()) {
      if (replace) b->GetData().resize(sh);
      for (size_t i = 0; i < n; ++i) b->GetData().data()[i] = Data(b->GetData().data()[i], i, replace);
    }
    if (fields.Flags()) {
      if (replace) b->GetFlags().resize(sh);
      for (size_t i = 0; i < n; ++i) b->GetFlags().data()[i] = Flag(b->GetFlags().data()[i], i, replace);
    }
    if (fields.Weights()) {
      if (replace) b->GetWeights().resize(sh);
      for (size_t i = 0; i < n; ++i) b->GetWeights().data()[i] = Weight(b->GetWeights().data()[i], i, replace);
    }
    return getNextStep()->process(std::move(b));
  }
  void finish() override { getNextStep()->finish(); }
  void show(std::ostream&) const override {}
};

// The numbers in the cells of a table.
typedef std::vector<std::complex<double>> Val;
typedef std::map<std::string, std::map<size_t, Val>> Snap;
Val Numbers(const std::any& a) {
  Val r;
  auto arr = [&](auto* p) { if (p) for (auto& x : *p) r.push_back(std::complex<double>(x)); return p != nullptr; };
  if (arr(std::any_cast<cc::Array<cf>>(&a)) || arr(std::any_cast<cc::Array<bool>>(&a)) || arr(std::any_cast<cc::Array<float>>(&a)) || arr(std::any_cast<cc::Array<double>>(&a))) return r;
  r.push_back(cc::mini_number(a));
  return r;
}
Snap Snapshot(const cc::Table& t) {
  Snap r;
  for (auto& c : t.rep()->cols) {
    auto& to = r[c.first];
    for (auto& v : c.second) to[v.first] = Numbers(v.second);
  }
  return r;
}
bool SameV(std::complex<double> a, std::complex<double> b, double tol) {
  auto one = [&](double x, double y) { return (std::isnan(x) && std::isnan(y)) || x == y || std::abs(x - y) <= tol * std::abs(y); };
  return one(a.real(), b.real()) && one(a.imag(), b.imag());
}
}  // namespace

PROP("P48.update", 1000, 12000) {
  Tables tables;
  Ms m = GenMs(s);
  Sel x = GenSel(s, m, true, false);
  if (x.refused) throw vpt::Discard{};
  Store(m);
  cc::Table table(m.name);
  auto& ctors = cc::DataManager::ctors();
  ctors.clear();
  const std::string ms_name = m.name;
  // The output.
  const Step::MsType none_type = Step::MsType::kRegular;
  (void)none_type;
  std::string why;
  auto refuse = [&](const std::string& w) { if (why.empty()) why = w; };
  std::string dcol, fcol, wcol;
  auto column = [&](const char* key, std::vector<std::string> names, std::string& to) {
    if (!s.chance(2, 5)) return;
    to = s.pick(names);
    x.p.add(std::string("msout.") + key, to);
    s.note(Cat("msout.", key, "=", to));
  };
  column("datacolumn", {"DATA", "MODEL_DATA", "NEW_DATA", "FLAG", "TIME"}, dcol);
  column("flagcolumn", {"FLAG", "MY_FLAG", "NEW_FLAG", "DATA", "FLAG_ROW"}, fcol);
  column("weightcolumn", {"WEIGHT_SPECTRUM", "NEW_WS", "WEIGHT_SPECTRUM", "WEIGHT", "DATA"}, wcol);
  const unsigned flush = s.chance(1, 3) ? s.i(1, 3) : 0;
  if (flush) x.p.add("msout.flush", std::to_string(flush));
  std::string manager = s.chance(1, 3) ? s.pick(std::vector<std::string>{"dysco", "sisco", "stokes_i", "Dysco"}) : "";
  bool available = true;
  int bits = 10;
  if (!manager.empty()) {
    x.p.add(s.b() ? "msout.storagemanager" : "msout.storagemanager.name", manager);
    if (manager == "Dysco") manager = "dysco";
    if (manager == "dysco" && s.chance(1, 3)) { bits = 0; x.p.add("msout.storagemanager.databitrate", "0"); }
    available = !s.chance(1, 6);
    s.note(Cat("storage manager ", manager, " available=", available, " bits=", bits));
  }
  if (available) {
    ctors["DyscoStMan"] = [](const cc::String& n, const cc::Record&) { return new cc::DataManager(n, "DyscoStMan"); };
    ctors["SiscoStMan"] = [](const cc::String& n, const cc::Record&) { return new cc::DataManager(n, "SiscoStMan"); };
    ctors["StokesIStMan"] = [](const cc::String& n, const cc::Record&) { return new cc::DataManager(n, "StokesIStMan"); };
  }
  const bool dysco_input = s.chance(1, 6);
  if (dysco_input && !m.raw) {
    cc::Record info, one = table.dataManagerInfo().subRecord(0), two = table.dataManagerInfo().subRecord(1);
    one.define("TYPE", std::string("DyscoStMan"));
    info.defineRecord("*1", one);
    info.defineRecord("*2", two);
    table.rep()->dminfo = info;
  }
  // The steps.
  const bool history = s.b();
  auto reader = std::make_shared<MsReader>(cc::MeasurementSet(m.name), x.p, "msin.");
  auto change = std::make_shared<Change>();
  if (s.b()) change->fields |= Step::kDataField;
  if (s.b()) change->fields |= Step::kFlagsField;
  if (s.chance(1, 3)) change->fields |= Step::kWeightsField;
  change->replace = s.chance(1, 3);
  change->meta = s.chance(1, 20);
  change->beam = s.i(0, 3);
  if (change->meta) refuse("meta data changed");
  auto updater = std::make_shared<MSUpdater>(m.name, x.p, "msout.", history);
  auto sink = std::make_shared<Sink>();
  reader->setNextStep(change);
  change->setNextStep(updater);
  updater->setNextStep(sink);
  updater->SetFieldsToWrite(change->fields);
  Fields read;
  read.UpdateRequirements(updater->getRequiredFields(), updater->getProvidedFields());
  read.UpdateRequirements(change->getRequiredFields(), change->getProvidedFields());
  reader->setFieldsToRead(read);
  x.fields = read;
  s.note(Cat(Describe(m), " change=", change->fields, " replace=", change->replace, " read=", read, " flag2=", m.has_flag2, " extra=", m.has_extra, " dysco input=", dysco_input));
  // What is to be written.
  const bool weight_in = !x.use_ws && x.p.getString("msin.weightcolumn", "") == "WEIGHT";
  Fields write = change->fields;
  if (!dcol.empty()) write |= Step::kDataField;
  if (!fcol.empty()) write |= Step::kFlagsField;
  if (!wcol.empty() || weight_in) write |= Step::kWeightsField;
  const std::string dname = dcol.empty() ? x.data_column : dcol, fname = fcol.empty() ? x.own_flags ? "MY_FLAG" : "FLAG" : fcol,
                    wname = wcol.empty() ? "WEIGHT_SPECTRUM" : wcol;
  if (wname == "WEIGHT") refuse("weights into WEIGHT");
  std::map<std::string, std::string> added;  // column, manager
  auto col = [&](const std::string& n, cc::DataType type) {
    if (table.tableDesc().isColumn(n)) {
      const auto& d = table.tableDesc().columnDesc(n);
      if (d.dataType() != type || !d.isArray()) refuse("type of column " + n);
      return;
    }
    std::string mgr = type == cc::TpBool ? "TiledShapeStMan" : m.raw ? "LofarStMan" : "TiledColumnStMan";
    if (manager == "stokes_i") mgr = "StokesIStMan";
    if (manager == "dysco" && bits && type != cc::TpBool) mgr = "DyscoStMan";
    if (manager == "sisco" && type == cc::TpComplex) {
      mgr = "SiscoStMan";
      if (x.nc != m.nch) refuse("sisco for some of the channels");
    }
    if (!available && (mgr == "StokesIStMan" || mgr == "DyscoStMan" || mgr == "SiscoStMan")) refuse("storage manager is not available");
    added[n] = mgr;
  };
  if (write.Data()) col(dname, cc::TpComplex);
  if (write.Flags()) col(fname, cc::TpBool);
  if (write.Weights()) col(wname, cc::TpFloat);
  if (why.empty() && write.Weights() && wname == "WEIGHT_SPECTRUM" && m.has_ws_column && !m.ws_defined) throw vpt::Discard{};
  if (s.chance(1, 25)) {
    cc::TableDesc d;
    d.addColumn(cc::ScalarColumnDesc<int>("BDA_SET_ID"));
    table.rwKeywordSet().defineTable("BDA_FACTORS", NewTable(m.name + "/BDA_FACTORS", d, 1));
    refuse("BDA");
  }
  const Snap before = Snapshot(table);
  DPInfo none;
  auto run = [&] {
    reader->setInfo(none);
    std::ostringstream os;
    updater->show(os);
    while (reader->process(std::make_unique<DPBuffer>())) {
    }
    reader->finish();
  };
  s.note(Cat("write=", write, " refused=", why));
  if (!why.empty()) {
    CHECK(vpt::Throws(run), "not refused: ", why);
    const Snap after = Snapshot(table);
    for (auto& c : before) CHECK(after.count(c.first) && after.at(c.first).size() == c.second.size(), "column ", c.first, " after a refusal");
    s.label("refused");
    return;
  }
  run();
  CHECK_EQ(sink->bufs.size(), x.slots.size(), "number of time slots");
  CHECK_EQ(sink->n_finish, 1, "finish");
  if (flush) CHECK(table.rep()->flushes >= x.slots.size() / flush, "flushed ", table.rep()->flushes, " times for ", x.slots.size(), " slots");
  CHECK_EQ(table.keywordSet().isDefined("HISTORY_WRITTEN"), history, "history");
  CHECK(table.rep()->colkeys[dname].isDefined("BEAM"), "no beam mode with ", dname);
  CHECK_EQ(table.rep()->colkeys[dname].asInt("BEAM"), change->beam, "beam mode of ", dname);
  CHECK_EQ(bool(updater->getInfoOut().metaChanged()), false, "meta data");
  // The cells.
  Snap want = before;
  std::map<std::string, std::map<size_t, std::vector<char>>> written;
  const size_t np = m.ncorr, nbl = x.bl.size();
  bool some = false;
  for (const Want& w : x.slots) {
    if (w.rows.empty()) continue;
    const Cells c = Model(m, x, w);
    for (size_t b = 0; b < nbl; ++b) {
      bool clear = false;
      for (size_t j = 0; j < x.nc * np; ++j) {
        const size_t i = b * x.nc * np + j, k = x.c0 * np + j;
        const bool f = change->fields.Flags() ? Change::Flag(c.flag[i], i, change->replace) : c.flag[i];
        clear = clear || !f;
        auto put = [&](const std::string& n, std::complex<double> v) {
          Val& cell = want[n][w.rows[b]];
          auto& mark = written[n][w.rows[b]];
          cell.resize(m.nch * np);
          mark.resize(m.nch * np);
          cell[k] = v;
          mark[k] = true;
          some = true;
        };
        const bool hide = manager == "dysco" && f;
        if (write.Data()) put(dname, hide ? cf(NAN, NAN) : change->fields.Data() ? Change::Data(c.data[i], i, change->replace) : c.data[i]);
        if (write.Flags()) put(fname, f);
        if (write.Weights()) put(wname, hide ? 0.0f : change->fields.Weights() ? Change::Weight(float(c.weight[i]), i, change->replace) : float(c.weight[i]));
      }
      if (write.Flags() && clear) want["FLAG_ROW"][w.rows[b]] = {0.0};
    }
  }
  const Snap after = Snapshot(table);
  for (auto& c : after) CHECK(before.count(c.first) || added.count(c.first), "column ", c.first, " appeared");
  for (auto& a : added) {
    CHECK(after.count(a.first), "column ", a.first, " was not added");
    const bool tiled = a.second == (m.raw ? "LofarStMan" : "TiledColumnStMan");
    CHECK_EQ(table.manager(a.first), tiled && dysco_input && !m.raw ? std::string("TiledColumnStMan") : a.second, "storage manager of ", a.first);
  }
  for (auto& c : want) {
    CHECK(after.count(c.first), "column ", c.first, " is gone");
    const auto& got = after.at(c.first);
    for (auto& cell : c.second) {
      const bool is_new = added.count(c.first);
      CHECK(got.count(cell.first) && got.at(cell.first).size() == cell.second.size(), "cell of ", c.first, " row ", cell.first);
      for (size_t i = 0; i < cell.second.size(); ++i) {
        if (is_new && !written[c.first][cell.first][i]) continue;
        CHECK(SameV(got.at(cell.first)[i], cell.second[i], x.autow && c.first == wname ? 1e-5 : 0), c.first, " row ", cell.first, " value ", i, ": ", got.at(cell.first)[i], " is not ", cell.second[i]);
      }
    }
    if (!added.count(c.first)) CHECK_EQ(got.size(), before.at(c.first).size(), "number of cells of ", c.first);
  }
  if (!added.empty()) s.label("column added");
  s.nontrivial(some);
}
// ---------------------------------------------------------------- P49
namespace {
// Hides some buffers' data, or changes the meta data, before the next step.
struct Before : Step {
  bool meta = false;
  dp3::common::Fields getRequiredFields() const override { return {}; }
  dp3::common::Fields getProvidedFields() const override { return {}; }
  void updateInfo(const DPInfo& i) override {
    Step::updateInfo(i);
    if (meta) GetWritableInfoOut().setMetaChanged();
  }
  bool process(std::unique_ptr<DPBuffer> b) override { return getNextStep()->process(std::move(b)); }
  void finish() override { getNextStep()->finish(); }
  void show(std::ostream&) const override {}
};
}  // namespace

PROP("P49.column", 400, 8000) {
  Tables tables;
  MsOpt o;
  o.missing_slots = false;
  Ms m = GenMs(s, o);
  Sel x = GenSel(s, m, true, false);
  if (x.refused) throw vpt::Discard{};
  for (auto& w : x.slots) if (w.rows.empty()) throw vpt::Discard{};
  if (m.nband > 1 || x.sort) throw vpt::Discard{};
  Store(m);
  std::string column = s.pick(std::vector<std::string>{"MODEL_DATA", "DATA", "", "MODEL_DATA"});
  if (!column.empty()) x.p.add("col.column", column);
  const std::string fallback = s.b() ? "MODEL_DATA" : "DATA";
  const bool use_default = fallback == "MODEL_DATA" && s.b();
  if (column.empty()) column = fallback;
  s.note(Cat("column=", column, " default=", fallback));
  std::string why;
  if (column == "MODEL_DATA" && !m.has_extra) why = "no such column";
  if (x.nc != m.nch) why = "other number of channels";
  auto before = std::make_shared<Before>();
  before->meta = s.chance(1, 12);
  if (before->meta) why = "meta data changed";
  auto reader = std::make_shared<MsReader>(cc::MeasurementSet(m.name), x.p, "msin.");
  auto step = use_default ? std::make_shared<MsColumnReader>(x.p, "col.", Step::MsType::kRegular)
                          : std::make_shared<MsColumnReader>(x.p, "col.", Step::MsType::kRegular, fallback);
  auto sink = std::make_shared<Sink>();
  reader->setNextStep(before);
  before->setNextStep(step);
  step->setNextStep(sink);
  CHECK(step->accepts(Step::MsType::kRegular) && !step->accepts(Step::MsType::kBda), "type of the input");
  CHECK(step->outputs() == Step::MsType::kRegular, "type of the output");
  reader->setFieldsToRead(x.fields);
  DPInfo none;
  s.note(Cat(Describe(m), " refused=", why));
  auto run = [&] {
    reader->setInfo(none);
    while (reader->process(std::make_unique<DPBuffer>())) {
    }
    reader->finish();
  };
  if (!why.empty()) {
    CHECK(vpt::Throws(run), "not refused: ", why);
    s.label("refused");
    return;
  }
  run();
  CHECK_EQ(sink->bufs.size(), x.slots.size(), "number of time slots");
  CHECK_EQ(sink->n_finish, 1, "finish");
  for (size_t k = 0; k < x.slots.size(); ++k) {
    const Want& w = x.slots[k];
    auto& b = *sink->bufs[k];
    CHECK_NEAR(b.GetTime(), w.time, 1e-5, "time");
    size_t i = 0;
    CHECK_EQ(size_t(b.GetData().size()), x.bl.size() * x.nc * m.ncorr, "size of the data");
    for (size_t bl = 0; bl < x.bl.size(); ++bl) {
      const Row& r = m.rows[w.rows[bl]];
      const auto& want = column == "DATA" ? r.data : r.extra;
      for (size_t j = 0; j < x.nc * m.ncorr; ++j, ++i) CHECK(SameC(b.GetData().data()[i], want[j]), "visibility ", j, " of baseline ", bl, " slot ", k, ": ", b.GetData().data()[i], " is not ", want[j]);
    }
    // The other fields are those that were read.
    const Cells c = Model(m, x, w);
    for (size_t j = 0; j < c.flag.size(); ++j) {
      if (x.fields.Flags()) CHECK_EQ(int(b.GetFlags().data()[j]), int(c.flag[j]), "flag ", j);
      if (x.fields.Weights() && !x.autow) CHECK_EQ(double(b.GetWeights().data()[j]), c.weight[j], "weight ", j);
    }
    if (x.extra && x.fields.Data()) CHECK(b.HasData("MODEL_DATA"), "extra data");
  }
  s.nontrivial(!x.slots.empty());
}

PROP("P49.bda", 400, 8000) {
  Tables tables;
  // Rows of different numbers of channels.
  const size_t n = s.n(1, 8), nch = s.n(1, 5);
  const int badrow = s.chance(1, 8) ? s.i(0, n - 1) : -1;
  const size_t ncorr = s.chance(1, 12) ? 2 : 4;
  cc::TableDesc d;
  d.addColumn(cc::ArrayColumnDesc<cf>("MODEL_DATA"));
  d.addColumn(cc::ArrayColumnDesc<cf>("OTHER"));
  cc::Table t = NewTable("/mini/bda.ms", d, n);
  std::vector<size_t> nc;
  std::vector<std::vector<cf>> model, other;
  for (size_t i = 0; i < n; ++i) {
    nc.push_back(s.n(1, nch));
    model.emplace_back();
    other.emplace_back();
    for (size_t k = 0; k < nc[i] * ncorr; ++k) {
      model[i].push_back(cf(s.i(-64, 64), i));
      other[i].push_back(cf(k, s.i(-64, 64)));
    }
    const cc::IPosition sh(2, ssize_t(ncorr), ssize_t(nc[i]));
    cc::ArrayColumn<cf>(t, "MODEL_DATA").put(i, Cell<cf>(sh, model[i]));
    cc::ArrayColumn<cf>(t, "OTHER").put(i, Cell<cf>(sh, other[i]));
  }
  ParameterSet p;
  const bool use_other = s.b();
  if (use_other) p.add("col.column", "OTHER");
  auto step = std::make_shared<MsColumnReader>(p, "col.", Step::MsType::kBda);
  auto sink = std::make_shared<Sink>();
  step->setNextStep(sink);
  CHECK(step->accepts(Step::MsType::kBda) && !step->accepts(Step::MsType::kRegular), "type of the input");
  CHECK(step->outputs() == Step::MsType::kBda, "type of the output");
  DPInfo info(ncorr, nch, "");
  info.setMsNames("/mini/bda.ms", "DATA", "FLAG", "WEIGHT_SPECTRUM");
  step->setInfo(info);
  // Some of the rows, in several buffers.
  std::vector<size_t> rows;
  for (size_t i = 0; i < n; ++i) if (s.chance(3, 4) || int(i) == badrow) rows.push_back(i);
  s.note(Cat("rows=", rows.size(), " of ", n, " ncorr=", ncorr, " badrow=", badrow, " column=", use_other ? "OTHER" : "MODEL_DATA"));
  const bool with_data = s.b();
  size_t done = 0, cells = 0;
  bool bad = ncorr != 4 && !rows.empty();
  std::vector<std::vector<size_t>> parts;
  while (done < rows.size()) {
    const size_t k = s.n(1, rows.size() - done);
    parts.emplace_back(rows.begin() + done, rows.begin() + done + k);
    done += k;
  }
  if (s.chance(1, 6)) parts.emplace_back();
  if (badrow >= 0) bad = true;
  auto run = [&] {
    for (auto& part : parts) {
      size_t size = 0;
      for (size_t r : part) size += (nc[r] + 1) * ncorr;
      auto buf = std::make_unique<BdaBuffer>(size, with_data ? AllFields() : Fields(Step::kFlagsField | Step::kWeightsField | Step::kUvwField));
      for (size_t r : part) {
        const size_t c = nc[r] + (int(r) == badrow ? 1 : 0);
        std::vector<float> w(c * ncorr);
        for (size_t k = 0; k < w.size(); ++k) w[k] = r + k;
        const double uvw[3] = {1.0 * r, 2, 3};
        CHECK(buf->AddRow(r, 1, 1, r, c, ncorr, r, nullptr, nullptr, w.data(), uvw), "row");
      }
      step->process(std::move(buf));
    }
    step->finish();
  };
  if (bad) {
    CHECK(vpt::Throws(run), "not refused");
    s.label("refused");
    return;
  }
  run();
  CHECK_EQ(sink->bdas.size(), parts.size(), "buffers");
  for (size_t i = 0; i < parts.size(); ++i) {
    BdaBuffer& b = *sink->bdas[i];
    CHECK_EQ(b.GetRows().size(), parts[i].size(), "rows");
    for (size_t j = 0; j < parts[i].size(); ++j) {
      const size_t r = parts[i][j];
      CHECK_EQ(size_t(b.GetRows()[j].row_nr), r, "row number");
      for (size_t k = 0; k < nc[r] * 4; ++k, ++cells) {
        CHECK(SameC(b.GetData(j)[k], (use_other ? other : model)[r][k]), "visibility ", k, " of row ", r, ": ", b.GetData(j)[k]);
        CHECK_EQ(b.GetWeights(j)[k], float(r + k), "weight ", k, " of row ", r);
      }
    }
  }
  s.nontrivial(cells > 0);
}

// ---------------------------------------------------------------- P50
namespace {
// Keeps a copy of what passes.
struct Tee : Step {
  std::vector<std::unique_ptr<BdaBuffer>> bufs;
  dp3::common::Fields getRequiredFields() const override { return {}; }
  dp3::common::Fields getProvidedFields() const override { return {}; }
  bool process(std::unique_ptr<BdaBuffer> b) override {
    bufs.push_back(std::make_unique<BdaBuffer>(*b, AllFields()));
    return getNextStep()->process(std::move(b));
  }
  void finish() override { getNextStep()->finish(); }
  void show(std::ostream&) const override {}
};
}  // namespace

PROP("P50.bda", 300, 6000) {
  Tables tables;
  MsOpt o;
  o.nan = false;
  o.max_slot = 10;
  o.max_ch = 8;
  Ms m = GenMs(s, o);
  m.freq_ref = s.i(0, 5);
  // The rows' uvw give the averaging; keep them per baseline.
  std::map<std::pair<int, int>, std::array<double, 3>> uvw;
  for (auto& r : m.rows) {
    auto it = uvw.find({r.a1, r.a2});
    if (it == uvw.end()) it = uvw.insert({{r.a1, r.a2}, {s.i(-40, 40) * 25.0, s.i(-40, 40) * 25.0, 3.0}}).first;
    r.uvw = it->second;
  }
  Sel x = GenSel(s, m, true, false);
  if (x.refused || x.slots.empty()) throw vpt::Discard{};
  Store(m);
  if (s.chance(3, 4)) x.p.add("bda.timebase", vpt::Show(double(s.i(1, 40) * 100)));
  if (s.chance(3, 4)) x.p.add("bda.frequencybase", vpt::Show(double(s.i(1, 40) * 100)));
  if (s.chance(1, 2)) x.p.add("bda.maxinterval", vpt::Show(m.dt * s.i(1, 5) * 1.01));
  if (s.chance(1, 3)) x.p.add("bda.minchannels", std::to_string(s.i(1, 3)));
  auto reader = std::make_shared<MsReader>(cc::MeasurementSet(m.name), x.p, "msin.");
  auto averager = std::make_shared<dp3::steps::BdaAverager>(x.p, "bda.");
  auto tee = std::make_shared<Tee>();
  auto writer = std::make_shared<dp3::steps::MSBDAWriter>("/mini/out.ms", x.p, "msout.");
  reader->setNextStep(averager);
  averager->setNextStep(tee);
  tee->setNextStep(writer);
  reader->setFieldsToRead(AllFields());
  s.note(Describe(m));
  DPInfo none;
  reader->setInfo(none);
  while (reader->process(std::make_unique<DPBuffer>())) {
  }
  reader->finish();
  const DPInfo& in = tee->getInfoOut();
  // The table.
  cc::MeasurementSet out("/mini/out.ms");
  size_t n = 0;
  for (auto& b : tee->bufs) n += b->GetRows().size();
  CHECK_EQ(size_t(out.nrow()), n, "number of rows");
  cc::ScalarColumn<int> dd(out, "DATA_DESC_ID"), a1(out, "ANTENNA1"), a2(out, "ANTENNA2");
  cc::Table spw = out.keywordSet().asTable("SPECTRAL_WINDOW"), ddt = out.keywordSet().asTable("DATA_DESCRIPTION");
  CHECK_EQ(spw.nrow(), ddt.nrow(), "data descriptions");
  for (size_t i = 0; i < spw.nrow(); ++i) {
    CHECK_EQ(cc::ScalarColumn<int>(spw, "MEAS_FREQ_REF")(i), m.freq_ref + in.spectralWindow(), "frequency frame of window ", i);
    CHECK_EQ(std::string(cc::ScalarColumn<cc::String>(spw, "NAME")(i)), "SB" + std::to_string(in.spectralWindow()), "name of window ", i);
    CHECK_EQ(cc::ScalarColumn<int>(spw, "NUM_CHAN")(i), int(cc::ArrayColumn<double>(spw, "CHAN_FREQ")(i).size()), "number of channels of window ", i);
    CHECK_EQ(cc::ScalarColumn<double>(spw, "REF_FREQUENCY")(i), in.refFreq(), "reference frequency of window ", i);
  }
  size_t row = 0, flagged = 0;
  for (auto& b : tee->bufs)
    for (size_t j = 0; j < b->GetRows().size(); ++j, ++row) {
      const auto& r = b->GetRows()[j];
      CHECK_EQ(a1(row), in.getAnt1()[r.baseline_nr], "first station of row ", row);
      CHECK_EQ(a2(row), in.getAnt2()[r.baseline_nr], "second station of row ", row);
      const int w = cc::ScalarColumn<int>(ddt, "SPECTRAL_WINDOW_ID")(dd(row));
      const auto f = cc::ArrayColumn<double>(spw, "CHAN_FREQ")(w), wd = cc::ArrayColumn<double>(spw, "CHAN_WIDTH")(w);
      CHECK_EQ(size_t(f.size()), r.n_channels, "channels of row ", row);
      for (size_t c = 0; c < r.n_channels; ++c) {
        CHECK_EQ(f.data()[c], in.chanFreqs(r.baseline_nr)[c], "frequency ", c, " of row ", row);
        CHECK_EQ(wd.data()[c], in.chanWidths(r.baseline_nr)[c], "width ", c, " of row ", row);
      }
      const auto fl = cc::ArrayColumn<bool>(out, "FLAG")(row);
      bool all = true;
      CHECK_EQ(size_t(fl.size()), r.GetDataSize(), "flags of row ", row);
      for (size_t k = 0; k < r.GetDataSize(); ++k) {
        CHECK_EQ(bool(fl.data()[k]), b->GetFlags(j)[k], "flag ", k, " of row ", row);
        all = all && fl.data()[k];
      }
      flagged += all;
      CHECK_EQ(cc::ScalarColumn<bool>(out, "FLAG_ROW")(row), all, "row flag of row ", row);
      CHECK_EQ(cc::ScalarColumn<double>(out, "TIME_CENTROID")(row), r.time, "centroid of row ", row);
    }
  // And back.
  ParameterSet q;
  q.add("msin", "/mini/out.ms");
  if (s.b()) q.add("msin.datacolumn", "DATA");
  else if (s.chance(1, 3)) {
    // Another column.
    out.addColumn(cc::ArrayColumnDesc<cf>("CORRECTED"));
    for (size_t i = 0; i < n; ++i) {
      auto v = cc::ArrayColumn<cf>(out, "DATA")(i);
      for (auto& z : v) z *= 2;
      cc::ArrayColumn<cf>(out, "CORRECTED").put(i, v);
    }
    q.add("msin.datacolumn", "CORRECTED");
  }
  const float factor = q.getString("msin.datacolumn", "DATA") == "DATA" ? 1 : 2;
  for (const char* k : {"nchan", "startchan", "ntimes"})
    if (s.chance(1, 40)) {
      q.add(std::string("msin.") + k, "1");
      CHECK(vpt::Throws([&] { dp3::steps::InputStep::CreateReader(q); }), k, " is not refused");
      s.label("refused");
      return;
    }
  std::shared_ptr<dp3::steps::InputStep> back = dp3::steps::InputStep::CreateReader(q);
  CHECK(back->outputs() == Step::MsType::kBda, "type of the reader");
  auto sink = std::make_shared<Sink>();
  back->setNextStep(sink);
  const bool data = s.chance(3, 4);
  back->setFieldsToRead(data ? AllFields() : Fields(Step::kFlagsField | Step::kWeightsField | Step::kUvwField));
  DPInfo none2;
  back->setInfo(none2);
  size_t guard = 0;
  while (back->process(std::make_unique<DPBuffer>())) CHECK(++guard <= n, "the reader does not end");
  back->finish();
  CHECK_EQ(sink->n_finish, 1, "finish");
  const DPInfo& got = back->getInfoOut();
  CHECK_EQ(got.nbaselines(), in.nbaselines(), "baselines");
  CHECK_EQ(size_t(got.nchan()), size_t(in.nchan()) == 0 ? 0 : [&] { size_t c = 0; for (size_t b = 0; b < in.nbaselines(); ++b) c = std::max(c, in.chanFreqs(b).size()); return c; }(), "channels");
  CHECK_EQ(size_t(got.ncorr()), m.ncorr, "correlations");
  CHECK_EQ(got.timeInterval(), in.timeInterval(), "interval");
  CHECK_EQ(got.antennaNames().size(), m.nant, "stations");
  double first = 1e300, last = -1e300;
  for (auto& b : tee->bufs) for (auto& r : b->GetRows()) { first = std::min(first, r.time); last = std::max(last, r.time); }
  CHECK_EQ(got.firstTime(), first, "first time");
  CHECK_EQ(got.lastTime(), last, "last time");
  CHECK(got.phaseCenter().getValue().separation(in.phaseCenter().getValue()) < 1e-9, "phase centre");
  CHECK(got.delayCenter().getValue().separation(in.delayCenter().getValue()) < 1e-9, "delay centre");
  CHECK_EQ(got.antennaSet(), m.antenna_set, "antenna set");
  CHECK_EQ(got.GetTelescopeName(), m.telescope, "telescope");
  for (size_t b = 0; b < in.nbaselines(); ++b) {
    CHECK_EQ(got.getAnt1()[b], in.getAnt1()[b], "first station");
    CHECK_EQ(got.getAnt2()[b], in.getAnt2()[b], "second station");
    CHECK_EQ(got.ntimeAvg(b), in.ntimeAvg(b), "averaging of baseline ", b);
    CHECK(got.chanFreqs(b) == in.chanFreqs(b), "frequencies of baseline ", b);
    CHECK(got.chanWidths(b) == in.chanWidths(b), "widths of baseline ", b);
  }
  std::vector<std::pair<BdaBuffer*, size_t>> have, want;
  for (auto& b : sink->bdas) for (size_t j = 0; j < b->GetRows().size(); ++j) have.emplace_back(b.get(), j);
  for (auto& b : tee->bufs) for (size_t j = 0; j < b->GetRows().size(); ++j) want.emplace_back(b.get(), j);
  CHECK_EQ(have.size(), want.size(), "rows read");
  for (size_t i = 0; i < want.size(); ++i) {
    BdaBuffer &g = *have[i].first, &w = *want[i].first;
    const auto &gr = g.GetRows()[have[i].second], &wr = w.GetRows()[want[i].second];
    CHECK_EQ(size_t(gr.row_nr), i, "row number");
    CHECK_EQ(gr.time, wr.time, "time of row ", i);
    CHECK_EQ(gr.interval, wr.interval, "interval of row ", i);
    CHECK_EQ(gr.exposure, wr.exposure, "exposure of row ", i);
    CHECK_EQ(gr.baseline_nr, wr.baseline_nr, "baseline of row ", i);
    CHECK_EQ(gr.n_channels, wr.n_channels, "channels of row ", i);
    for (int k = 0; k < 3; ++k) CHECK_EQ(gr.uvw[k], wr.uvw[k], "uvw of row ", i);
    for (size_t k = 0; k < wr.GetDataSize(); ++k) {
      if (data) CHECK(SameC(g.GetData(have[i].second)[k], factor * w.GetData(want[i].second)[k]), "visibility ", k, " of row ", i, ": ", g.GetData(have[i].second)[k]);
      CHECK_EQ(g.GetWeights(have[i].second)[k], w.GetWeights(want[i].second)[k], "weight ", k, " of row ", i);
    }
  }
  size_t nw = spw.nrow();
  s.label(nw > 1 ? "several windows" : "one window");
  s.nontrivial(n > 0 && (nw > 1 || n < x.slots.size() * x.bl.size()));
}
VPT_MAIN
