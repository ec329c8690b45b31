// P51: writing new measurement sets (held in memory).
#include "ms_model.h"

#include <EveryBeam/beammode.h>

#include "common/VdsMaker.h"
#include "steps/Averager.h"
#include "steps/MSWriter.h"
#include "steps/MsReader.h"
#include "steps/NullStep.h"

using dp3::steps::MSWriter;
using dp3::steps::MsReader;

namespace {
std::vector<std::array<std::string, 3>> g_vds;
}
namespace dp3::common {
void VdsMaker::create(const std::string& ms, const std::string& vds, const std::string& cluster, const std::string&, const bool) { g_vds.push_back({ms, vds, cluster}); }
}  // namespace dp3::common

namespace {
template <typename T>
cc::DataManager* Make(const cc::String& n, const cc::Record&) { return new cc::DataManager(n, T::name()); }
struct NDysco { static const char* name() { return "DyscoStMan"; } };
struct NSisco { static const char* name() { return "SiscoStMan"; } };
struct NStokes { static const char* name() { return "StokesIStMan"; } };
struct NPair { static const char* name() { return "AntennaPairStMan"; } };
struct NUvw { static const char* name() { return "UvwStMan"; } };

// Keeps copies of what passes; changes the metadata before that.
struct TeeR : Step {
  std::vector<std::unique_ptr<DPBuffer>> bufs;
  std::vector<std::vector<cc::rownr_t>> rows;
  bool shift = false, beam = false;
  cc::MDirection dir;
  std::vector<std::string> added;
  void updateInfo(const DPInfo& i) override {
    Step::updateInfo(i);
    if (shift) GetWritableInfoOut().setPhaseCenter(dir);
    if (beam) {
      GetWritableInfoOut().setBeamCorrectionMode(int(everybeam::BeamMode::kArrayFactor));
      GetWritableInfoOut().setBeamCorrectionDir(dir);
    }
  }
  dp3::common::Fields getRequiredFields() const override { return {}; }
  dp3::common::Fields getProvidedFields() const override { return {}; }
  bool process(std::unique_ptr<DPBuffer> b) override {
    bufs.push_back(std::make_unique<DPBuffer>(*b, AllFields()));
    bufs.back()->SetTime(b->GetTime());
    rows.emplace_back();
    for (size_t i = 0; i < b->GetRowNumbers().size(); ++i) rows.back().push_back(b->GetRowNumbers()[i]);
    if (getNextStep()) return getNextStep()->process(std::move(b));
    return true;
  }
  void finish() override { ++n_finish; if (getNextStep()) getNextStep()->finish(); }
  void show(std::ostream&) const override {}
  void addToMS(const std::string& n) override { added.push_back(n); Step::addToMS(n); }
  int n_finish = 0;
};

// The cells and keywords of a table, as text.
std::string AnyText(const std::any& a) {
  if (auto* v = std::any_cast<int>(&a)) return Cat(*v);
  if (auto* v = std::any_cast<bool>(&a)) return Cat(*v);
  if (auto* v = std::any_cast<float>(&a)) return Cat(*v);
  if (auto* v = std::any_cast<double>(&a)) return vpt::Show(*v);
  if (auto* v = std::any_cast<cc::String>(&a)) return *v;
  auto arr = [](const auto& x) { std::string r; for (auto& e : x) r += Cat(e) + ","; return r; };
  if (auto* v = std::any_cast<cc::Array<int>>(&a)) return arr(*v);
  if (auto* v = std::any_cast<cc::Array<float>>(&a)) return arr(*v);
  if (auto* v = std::any_cast<cc::Array<double>>(&a)) return arr(*v);
  if (auto* v = std::any_cast<cc::Array<cf>>(&a)) return arr(*v);
  if (auto* v = std::any_cast<cc::Array<bool>>(&a)) { std::string r; for (auto e : *v) r += e ? "T" : "F"; return r; }
  if (auto* v = std::any_cast<cc::Array<cc::String>>(&a)) return arr(*v);
  if (auto* v = std::any_cast<cc::Array<cc::MDirection>>(&a)) { std::string r; for (auto& e : *v) r += Cat(e.getValue().get()[0], " ", e.getValue().get()[1], ","); return r; }
  return a.type().name();
}
std::map<std::string, std::string> Snap(const cc::Table& t) {
  std::map<std::string, std::string> r;
  r["rows"] = Cat(t.rep()->rows);
  for (auto& c : t.rep()->cols)
    for (auto& v : c.second) r[Cat(c.first, " ", v.first)] = AnyText(v.second);
  for (size_t i = 0; i < t.keywordSet().nfields(); ++i) r["key " + t.keywordSet().name(i)];
  return r;
}
std::map<std::string, std::map<std::string, std::string>> SnapAll(const std::string& prefix) {
  std::map<std::string, std::map<std::string, std::string>> r;
  for (auto& t : cc::mini_tables())
    if (t.first == prefix || t.first.rfind(prefix + "/", 0) == 0) r[t.first.substr(prefix.size())] = Snap(cc::Table(t.second));
  return r;
}

// The columns and subtables that a writer expects in addition.
void Complete(Src& s, Ms& m, cc::Table t, bool history_fixed, bool bda_tables) {
  const size_t n = m.rows.size();
  for (const char* c : {"ARRAY_ID", "FEED1", "FEED2", "FIELD_ID", "OBSERVATION_ID", "PROCESSOR_ID", "SCAN_NUMBER", "STATE_ID"}) {
    t.addColumn(cc::ScalarColumnDesc<int>(c));
    for (size_t i = 0; i < n; ++i) cc::ScalarColumn<int>(t, c).put(i, int(i % 3));
  }
  t.addColumn(cc::ScalarColumnDesc<double>("TIME_CENTROID"));
  for (size_t i = 0; i < n; ++i) cc::ScalarColumn<double>(t, "TIME_CENTROID").put(i, m.rows[i].time + 0.01);
  t.addColumn(cc::ArrayColumnDesc<float>("SIGMA"));
  t.addColumn(cc::ArrayColumnDesc<bool>("FLAG_CATEGORY"));
  cc::TableRecord& keys = t.rwKeywordSet();
  {
    cc::TableDesc e;
    e.addColumn(cc::ScalarColumnDesc<double>("TIME"));
    e.addColumn(cc::ScalarColumnDesc<int>("OBSERVATION_ID"));
    for (const char* c : {"MESSAGE", "APPLICATION", "PRIORITY", "ORIGIN"}) e.addColumn(cc::ScalarColumnDesc<cc::String>(c));
    for (const char* c : {"APP_PARAMS", "CLI_COMMAND"}) {
      cc::ArrayColumnDesc<cc::String> d(c);
      if (history_fixed) d.setOptions(cc::ColumnDesc::FixedShape);
      e.addColumn(d);
    }
    cc::Table h = NewTable(m.name + "/HISTORY", e, s.n(3));
    for (size_t i = 0; i < h.nrow(); ++i) cc::ScalarColumn<cc::String>(h, "MESSAGE").put(i, "old");
    keys.define("HISTORY", h);
  }
  cc::Table spw = keys.asTable("SPECTRAL_WINDOW"), dd = keys.asTable("DATA_DESCRIPTION"), obs = keys.asTable("OBSERVATION");
  spw.addColumn(cc::ScalarColumnDesc<int>("NUM_CHAN"));
  spw.addColumn(cc::ScalarColumnDesc<double>("TOTAL_BANDWIDTH"));
  dd.addColumn(cc::ScalarColumnDesc<int>("SPECTRAL_WINDOW_ID"));
  for (size_t b = 0; b < spw.nrow(); ++b) {
    cc::ScalarColumn<int>(spw, "NUM_CHAN").put(b, int(m.nch));
    cc::ScalarColumn<double>(spw, "TOTAL_BANDWIDTH").put(b, 1.0);
    cc::ScalarColumn<int>(dd, "SPECTRAL_WINDOW_ID").put(b, int(b));
  }
  obs.addColumn(cc::ArrayColumnDesc<double>("TIME_RANGE"));
  cc::ArrayColumn<double>(obs, "TIME_RANGE").put(0, Cell<double>(cc::IPosition(1, 2), std::vector<double>{1, 2}));
  {
    cc::TableDesc e;
    e.addColumn(cc::ScalarColumnDesc<int>("X"));
    for (const char* k : {"LOFAR_EXTRA", "BDA_TIME_AXIS", "BDA_FACTORS"}) {
      if (k[0] == 'B' && !bda_tables) continue;
      cc::Table x = NewTable(m.name + "/" + k, e, 2);
      cc::ScalarColumn<int>(x, "X").put(1, 42);
      keys.define(k, x);
    }
  }
  keys.define("PLAIN", 3);
}
}  // namespace

PROP("P51.write", 700, 10000) {
  Tables tables;
  g_vds.clear();
  auto& ctors = cc::DataManager::ctors();
  ctors["DyscoStMan"] = Make<NDysco>;
  ctors["SiscoStMan"] = Make<NSisco>;
  ctors["StokesIStMan"] = Make<NStokes>;
  ctors["AntennaPairStMan"] = Make<NPair>;
  ctors["UvwStMan"] = Make<NUvw>;
  MsOpt o;
  o.max_slot = 8;
  Ms m = GenMs(s, o);
  m.tile_dir = false;
  Sel x = GenSel(s, m, true, false);
  if (x.refused || x.autow || x.slots.empty()) throw vpt::Discard{};
  cc::MeasurementSet in = Store(m);
  const bool history_fixed = s.chance(1, 4);
  Complete(s, m, in, history_fixed, s.chance(1, 4));
  if (s.chance(1, 3)) cc::ArrayColumn<float>(in, "WEIGHT");
  const bool beam_keys = s.chance(1, 4);
  if (beam_keys) {
    auto& k = in.rep()->colkeys["DATA"];
    cc::Record r;
    cc::MeasureHolder(cc::MDirection(cc::MVDirection(m.ra, m.dec))).toRecord(r);
    k.define("LOFAR_APPLIED_BEAM_MODE", std::string("Full"));
    k.defineRecord("LOFAR_APPLIED_BEAM_DIR", r);
  }

  // The settings.
  auto set = [&](const std::string& k, const std::string& v) { x.p.add("out." + k, v); s.note(Cat("out.", k, "=", v)); };
  std::string manager = s.chance(1, 3) ? s.pick(std::vector<std::string>{"dysco", "Dysco", "sisco", "stokes_i"}) : "";
  if (!manager.empty()) set(s.b() ? "storagemanager" : "storagemanager.name", manager);
  for (auto& c : manager) c = std::tolower(c);
  const bool no_data_bits = manager == "dysco" && s.chance(1, 4), no_weight_bits = manager == "dysco" && s.chance(1, 4);
  if (no_data_bits) set("storagemanager.databitrate", "0");
  if (no_weight_bits) set("storagemanager.weightbitrate", "0");
  const bool scalar_flags = s.chance(1, 4), uvw_comp = s.chance(1, 4), ant_comp = s.chance(1, 4);
  if (scalar_flags) set("scalarflags", "true");
  if (uvw_comp) set("uvwcompression", "true");
  if (ant_comp) set("antennacompression", "true");
  if (s.chance(1, 4)) set("tilesize", std::to_string(s.i(1, 4)));
  if (s.chance(1, 4)) set("tilenchan", std::to_string(s.i(0, 8)));
  if (s.chance(1, 3)) set("flush", std::to_string(s.i(0, 3)));
  size_t av_ch = 1, av_t = 1;
  if (s.chance(1, 3)) {
    av_ch = x.nc % 3 == 0 ? 3 : x.nc % 2 == 0 ? 2 : 1;
    if (s.b()) av_ch = 1;
    av_t = s.n(1, 3);
    x.p.add("av.freqstep", std::to_string(av_ch));
    x.p.add("av.timestep", std::to_string(av_t));
  }
  const double step = m.dt * av_t;
  const int per_chunk = s.chance(1, 3) ? s.i(1, 4) : 0;
  if (per_chunk) set("chunkduration", vpt::Show((per_chunk - 0.3) * step));
  const bool vds = s.chance(1, 5), vds_dir = vds && s.b();
  if (vds) set("clusterdesc", "/mini/cl.desc");
  if (vds_dir) set("vdsdir", s.b() ? "/mini/vds" : "/mini/vds/");
  const std::string out_name = s.pick(std::vector<std::string>{"/mini/out.ms", "/mini/out", "/mini/o.x.MS"});
  auto chunk_name = [&](size_t i) {
    if (!per_chunk) return out_name;
    const size_t dot = out_name.rfind('.');
    const std::string num = Cat("-", i < 10 ? "00" : i < 100 ? "0" : "", i);
    return dot == std::string::npos ? out_name + num : out_name.substr(0, dot) + num + out_name.substr(dot);
  };
  const bool exists = s.chance(1, 4), overwrite = s.chance(1, 3);
  if (overwrite) set("overwrite", "true");
  if (exists) {
    cc::TableDesc e;
    e.addColumn(cc::ScalarColumnDesc<int>("OLD"));
    NewTable(chunk_name(0), e, 1);
  }
  if (s.chance(1, 20)) {
    set(s.pick(std::vector<std::string>{"datacolumn", "flagcolumn", "weightcolumn"}), "OTHER");
    CHECK(vpt::Throws([&] { MSWriter w(out_name, x.p, "out."); }), "another column is not refused");
    s.label("refused");
    return;
  }
  const auto before = SnapAll(m.name);

  // The chain.
  auto reader = std::make_shared<MsReader>(cc::MeasurementSet(m.name), x.p, "msin.");
  auto tee = std::make_shared<TeeR>(), after = std::make_shared<TeeR>();
  auto writer = std::make_shared<MSWriter>(out_name, x.p, "out.");
  const bool thread = s.b();
  auto averager = std::make_shared<dp3::steps::Averager>(x.p, "av.");
  reader->setNextStep(averager);
  averager->setNextStep(tee);
  tee->setNextStep(writer);
  if (thread) writer->setNextStep(std::make_shared<dp3::steps::NullStep>());
  else writer->setNextStep(after);
  tee->shift = s.chance(1, 3);
  tee->beam = s.chance(1, 4);
  tee->dir = cc::MDirection(cc::MVDirection(m.ra + 0.1, m.dec - 0.05), s.b() ? cc::MDirection::J2000 : cc::MDirection::ICRS);
  reader->setFieldsToRead(AllFields());
  s.note(Describe(m));
  s.note(Cat("thread=", thread, " averaging=", av_ch, "x", av_t, " exists=", exists, " shift=", tee->shift, " beam=", tee->beam));
  DPInfo none;
  auto run = [&] {
    reader->setInfo(none);
    size_t guard = 0;
    while (reader->process(std::make_unique<DPBuffer>())) CHECK(++guard <= x.slots.size(), "the reader does not end");
    reader->finish();
  };
  if (exists && !overwrite) {
    CHECK(vpt::Throws(run), "an existing measurement set is replaced");
    CHECK(cc::Table(chunk_name(0)).tableDesc().isColumn("OLD"), "an existing measurement set is changed");
    s.label("exists");
    return;
  }
  run();
  const DPInfo& info = writer->getInfoIn();
  const size_t nb = x.bl.size(), nc = info.nchan(), np = m.ncorr, nt = tee->bufs.size();
  CHECK_EQ(nt, (x.slots.size() + av_t - 1) / av_t, "time slots written");

  // The input is unchanged.
  const auto now = SnapAll(m.name);
  for (auto& t : before)
    for (auto& c : t.second) CHECK(now.count(t.first) && now.at(t.first).count(c.first) && now.at(t.first).at(c.first) == c.second, "input ", t.first, " ", c.first, " changed");

  // Chunks.
  std::vector<size_t> chunk(nt), first;
  for (size_t k = 0; k < nt; ++k) {
    if (k == 0 || (per_chunk && tee->bufs[k]->GetTime() - tee->bufs[first.back()]->GetTime() >= (per_chunk - 0.3) * step)) first.push_back(k);
    chunk[k] = first.size() - 1;
  }
  first.push_back(nt);
  for (size_t k = 0; k + 1 < first.size() && per_chunk && nt; ++k) CHECK(first[k + 1] - first[k] == size_t(per_chunk) || k + 2 == first.size(), "size of chunk ", k);
  CHECK_EQ(tee->added.size(), std::max<size_t>(1, first.size() - 1), "finished measurement sets");
  CHECK_EQ(g_vds.size(), vds ? first.size() - 1 : 0, "vds files");
  if (!thread) {
    CHECK_EQ(after->bufs.size(), nt, "buffers passed on");
    CHECK_EQ(after->n_finish, 1, "finish");
  }
  size_t values = 0, flagged_rows = 0;
  for (size_t c = 0; c + 1 < first.size(); ++c) {
    const std::string name = chunk_name(c);
    CHECK(cc::Table::isReadable(name), "no ", name);
    CHECK_EQ(tee->added[c], name, "name given to addToMS");
    if (vds) {
      const std::string base = name.substr(6) + ".vds";
      CHECK_EQ(g_vds[c][0], name, "measurement set of the vds file");
      CHECK_EQ(g_vds[c][1], vds_dir ? "/mini/vds/" + base : "/mini/" + base, "vds file");
      CHECK_EQ(g_vds[c][2], std::string("/mini/cl.desc"), "cluster description");
    }
    cc::Table out(name);
    CHECK(!out.tableDesc().isColumn("OLD"), "the existing measurement set is not replaced");
    CHECK_EQ(size_t(out.nrow()), (first[c + 1] - first[c]) * nb, "rows of ", name);
    for (size_t i = 0; i < out.nrow(); ++i) {
      const size_t k = first[c] + i / nb, b = i % nb;
      const DPBuffer& buf = *tee->bufs[k];
      auto in_ = [&](const char* n) { return cc::ScalarColumn<int>(out, n)(i); };
      auto do_ = [&](const char* n) { return cc::ScalarColumn<double>(out, n)(i); };
      CHECK_EQ(in_("ANTENNA1"), x.bl[b].first, "first station of row ", i);
      CHECK_EQ(in_("ANTENNA2"), x.bl[b].second, "second station of row ", i);
      CHECK_EQ(do_("TIME"), buf.GetTime(), "time of row ", i);
      CHECK_EQ(do_("TIME_CENTROID"), buf.GetTime(), "centroid of row ", i);
      CHECK_EQ(do_("EXPOSURE"), buf.GetExposure(), "exposure of row ", i);
      CHECK_EQ(do_("INTERVAL"), info.timeInterval(), "interval of row ", i);
      for (const char* n : {"ARRAY_ID", "DATA_DESC_ID", "FEED1", "FEED2", "FIELD_ID", "OBSERVATION_ID", "PROCESSOR_ID", "SCAN_NUMBER", "STATE_ID"}) CHECK_EQ(in_(n), 0, n, " of row ", i);
      for (const char* n : {"SIGMA", "WEIGHT"}) {
        const auto v = cc::ArrayColumn<float>(out, n)(i);
        CHECK_EQ(size_t(v.size()), np, n, " size");
        for (auto& y : v) CHECK_EQ(y, 1.0f, n, " of row ", i);
      }
      const auto d = cc::ArrayColumn<cf>(out, "DATA")(i);
      const auto f = cc::ArrayColumn<bool>(out, "FLAG")(i);
      const auto w = cc::ArrayColumn<float>(out, "WEIGHT_SPECTRUM")(i);
      const auto u = cc::ArrayColumn<double>(out, "UVW")(i);
      CHECK(d.shape() == cc::IPosition(2, np, nc) && f.shape() == d.shape() && w.shape() == d.shape() && u.size() == 3, "shape of row ", i);
      bool all = true;
      for (size_t j = 0; j < nc * np; ++j, ++values) {
        const size_t at = b * nc * np + j;
        const bool flag = buf.GetFlags().data()[at];
        const bool blank = manager == "dysco" && flag;
        all = all && flag;
        CHECK_EQ(bool(f.data()[j]), flag, "flag ", j, " of row ", i);
        if (blank) CHECK(std::isnan(d.data()[j].real()) && std::isnan(d.data()[j].imag()), "flagged visibility ", j, " of row ", i, " of compressed data: ", d.data()[j]);
        else CHECK(SameC(d.data()[j], buf.GetData().data()[at]), "visibility ", j, " of row ", i, ": ", d.data()[j], " for ", buf.GetData().data()[at]);
        CHECK_EQ(w.data()[j], blank ? 0.0f : buf.GetWeights().data()[at], "weight ", j, " of row ", i);
      }
      flagged_rows += all;
      CHECK_EQ(cc::ScalarColumn<bool>(out, "FLAG_ROW")(i), all, "row flag of row ", i);
      for (int q = 0; q < 3; ++q) CHECK_EQ(u.data()[q], buf.GetUvw().data()[3 * b + q], "uvw ", q, " of row ", i);
    }
    // The storage of the columns.
    const std::string cls = manager == "dysco" ? "DyscoStMan" : manager == "sisco" ? "SiscoStMan" : manager == "stokes_i" ? "StokesIStMan" : "TiledColumnStMan";
    CHECK_EQ(out.manager("DATA"), no_data_bits ? "TiledColumnStMan" : cls, "storage of the data");
    CHECK_EQ(out.manager("WEIGHT_SPECTRUM"), manager == "dysco" && !no_weight_bits ? "DyscoStMan" : "TiledColumnStMan", "storage of the weights");
    CHECK_EQ(out.manager("FLAG"), scalar_flags ? "StokesIStMan" : "TiledColumnStMan", "storage of the flags");
    if (uvw_comp) CHECK_EQ(out.manager("UVW"), std::string("UvwStMan"), "storage of the uvw");
    if (ant_comp) for (const char* n : {"ANTENNA1", "ANTENNA2"}) CHECK_EQ(out.manager(n), std::string("AntennaPairStMan"), "storage of ", n);
    // The subtables.
    const cc::TableRecord& keys = out.keywordSet();
    CHECK(!keys.isDefined("BDA_FACTORS") && !keys.isDefined("BDA_TIME_AXIS"), "BDA tables are kept");
    for (const char* n : {"ANTENNA", "FIELD", "OBSERVATION", "SPECTRAL_WINDOW", "DATA_DESCRIPTION", "POLARIZATION", "HISTORY", "LOFAR_EXTRA"}) {
      CHECK(keys.isDefined(n), "no subtable ", n);
      cc::Table t = keys.asTable(n);
      CHECK_EQ(std::string(t.tableName()), name + "/" + n, "name of the subtable");
      CHECK(t.rep() != in.keywordSet().asTable(n).rep(), "subtable ", n, " is shared with the input");
    }
    for (const char* n : {"ANTENNA", "POLARIZATION", "LOFAR_EXTRA"}) CHECK(Snap(keys.asTable(n)) == before.at(std::string("/") + n), "subtable ", n, " differs");
    cc::Table spw = keys.asTable("SPECTRAL_WINDOW"), dd = keys.asTable("DATA_DESCRIPTION");
    const int band = std::max(0, x.band);
    CHECK_EQ(size_t(spw.nrow()), 1, "windows");
    CHECK_EQ(size_t(dd.nrow()), 1, "data descriptions");
    CHECK_EQ(cc::ScalarColumn<int>(dd, "SPECTRAL_WINDOW_ID")(0), 0, "window of the data description");
    CHECK_EQ(cc::ScalarColumn<int>(dd, "POLARIZATION_ID")(0), 0, "polarisation of the data description");
    CHECK_EQ(cc::ScalarColumn<int>(spw, "NUM_CHAN")(0), int(nc), "NUM_CHAN");
    CHECK_EQ(std::string(cc::ScalarColumn<cc::String>(spw, "NAME")(0)), "SB" + std::to_string(band), "name of the window");
    CHECK_EQ(cc::ScalarColumn<int>(spw, "MEAS_FREQ_REF")(0), m.freq_ref + band, "frame of the window");
    CHECK_EQ(cc::ScalarColumn<double>(spw, "REF_FREQUENCY")(0), info.refFreq(), "reference frequency");
    double bw = 0;
    for (double v : info.effectiveBW()) bw += v;
    CHECK_NEAR(cc::ScalarColumn<double>(spw, "TOTAL_BANDWIDTH")(0), bw, 1e-6 * bw, "total bandwidth");
    auto check = [&](const char* n, const std::vector<double>& want) {
      const auto v = cc::ArrayColumn<double>(spw, n)(0);
      CHECK_EQ(size_t(v.size()), want.size(), n);
      for (size_t i = 0; i < want.size(); ++i) CHECK_EQ(v.data()[i], want[i], n, " ", i);
    };
    check("CHAN_FREQ", info.chanFreqs());
    check("CHAN_WIDTH", info.chanWidths());
    check("RESOLUTION", info.resolutions());
    check("EFFECTIVE_BW", info.effectiveBW());
    cc::Table obs = keys.asTable("OBSERVATION");
    const auto range = cc::ArrayColumn<double>(obs, "TIME_RANGE")(0);
    CHECK_EQ(size_t(range.size()), 2, "time range");
    CHECK_NEAR(range.data()[0], info.firstTime() - 0.5 * info.timeInterval(), 1e-5, "start of the observation");
    CHECK_NEAR(range.data()[1], info.lastTime() + 0.5 * info.timeInterval(), 1e-5, "end of the observation");
    cc::Table field = keys.asTable("FIELD");
    const cc::MDirection ph = cc::ArrayColumn<cc::MDirection>(field, "PHASE_DIR")(0).data()[0];
    CHECK(ph.getValue().separation(info.phaseCenter().getValue()) < 1e-12, "phase centre");
    CHECK(cc::ArrayColumn<cc::MDirection>(field, "DELAY_DIR")(0).data()[0].getValue().separation(info.delayCenter().getValue()) < 1e-9, "delay centre");
    if (tee->shift) CHECK_EQ(cc::ArrayColumn<cc::MDirection>(field, "PHASE_DIR").keywordSet().asInt("mini_refcode"), int(tee->dir.type()), "frame of the phase centre");
    cc::Table hist = keys.asTable("HISTORY");
    const size_t oldh = in.keywordSet().asTable("HISTORY").nrow();
    CHECK_EQ(size_t(hist.nrow()), oldh + 1, "history rows");
    const auto params = cc::ArrayColumn<cc::String>(hist, "APP_PARAMS")(oldh);
    std::string text;
    for (auto& l : params) text += "\n" + l + "\n";
    if (!history_fixed) CHECK_EQ(size_t(params.size()), x.p.size(), "history lines");
    else CHECK_EQ(size_t(params.size()), 1, "history lines");
    for (auto& kv : x.p) CHECK(text.find("\n" + kv.first + "=" + kv.second.get() + "\n") != std::string::npos, kv.first, " is not in the history");
    for (size_t i = 0; i < oldh; ++i) CHECK_EQ(std::string(cc::ScalarColumn<cc::String>(hist, "MESSAGE")(i)), std::string("old"), "old history");
    const cc::TableRecord& dk = cc::ArrayColumn<cf>(out, "DATA").keywordSet();
    const std::string mode = everybeam::ToString(everybeam::BeamMode(info.beamCorrectionMode()));
    CHECK_EQ(info.beamCorrectionMode() != 0, tee->beam || (beam_keys && x.data_column == "DATA"), "beam mode of the data");
    CHECK_EQ(dk.isDefined("LOFAR_APPLIED_BEAM_MODE"), info.beamCorrectionMode() != 0, "beam keyword");
    if (info.beamCorrectionMode()) {
      CHECK_EQ(dk.asString("LOFAR_APPLIED_BEAM_MODE"), mode, "beam mode");
      cc::String err;
      cc::MeasureHolder h;
      h.fromRecord(err, dk.get<cc::Record>("LOFAR_APPLIED_BEAM_DIR"));
      CHECK(h.asMDirection().getValue().separation(info.beamCorrectionDir().getValue()) < 1e-12, "beam direction");
    }
  }
  // What is passed on.
  for (size_t k = 0; k < after->bufs.size(); ++k) {
    const DPBuffer &a = *after->bufs[k], &b = *tee->bufs[k];
    CHECK_EQ(a.GetTime(), b.GetTime(), "time passed on");
    CHECK_EQ(after->rows[k].size(), nb, "row numbers");
    for (size_t i = 0; i < nb; ++i) CHECK_EQ(size_t(after->rows[k][i]), (k - first[chunk[k]]) * nb + i, "row number passed on");
    for (size_t j = 0; j < b.GetData().size(); ++j) {
      CHECK_EQ(bool(a.GetFlags().data()[j]), bool(b.GetFlags().data()[j]), "flag passed on");
      if (!b.GetFlags().data()[j] || manager != "dysco") {
        CHECK(SameC(a.GetData().data()[j], b.GetData().data()[j]), "visibility passed on");
        CHECK_EQ(a.GetWeights().data()[j], b.GetWeights().data()[j], "weight passed on");
      }
    }
  }
  // And back.
  for (size_t c = 0; c + 1 < first.size(); ++c) {
    ParameterSet q;
    q.add("msin.autoweight", "false");
    auto back = std::make_shared<MsReader>(cc::MeasurementSet(chunk_name(c)), q, "msin.");
    auto got = std::make_shared<TeeR>();
    back->setNextStep(got);
    back->setFieldsToRead(AllFields());
    DPInfo none2;
    back->setInfo(none2);
    size_t guard = 0;
    while (back->process(std::make_unique<DPBuffer>())) CHECK(++guard <= nt, "the reader does not end");
    back->finish();
    const DPInfo& g = back->getInfoOut();
    CHECK_EQ(got->bufs.size(), first[c + 1] - first[c], "time slots read back");
    CHECK(g.chanFreqs() == info.chanFreqs() && g.chanWidths() == info.chanWidths(), "channels read back");
    CHECK_EQ(g.refFreq(), info.refFreq(), "reference frequency read back");
    CHECK_EQ(g.timeInterval(), info.timeInterval(), "interval read back");
    CHECK(g.getAnt1() == info.getAnt1() && g.getAnt2() == info.getAnt2(), "baselines read back");
    CHECK(g.antennaNames() == info.antennaNames(), "stations read back");
    CHECK(g.phaseCenter().getValue().separation(info.phaseCenter().getValue()) < 1e-12, "phase centre read back");
    for (size_t k = 0; k < got->bufs.size(); ++k) {
      const DPBuffer &a = *got->bufs[k], &b = *tee->bufs[first[c] + k];
      CHECK_NEAR(a.GetTime(), b.GetTime(), 1e-6 * m.dt, "time read back");
      CHECK_EQ(a.GetExposure(), b.GetExposure(), "exposure read back");
      for (size_t j = 0; j < b.GetUvw().size(); ++j) CHECK_EQ(a.GetUvw().data()[j], b.GetUvw().data()[j], "uvw read back");
      for (size_t j = 0; j < b.GetData().size(); ++j) {
        if (b.GetFlags().data()[j]) { CHECK(a.GetFlags().data()[j], "flag read back"); continue; }
        CHECK(SameC(a.GetData().data()[j], b.GetData().data()[j]), "visibility read back: ", a.GetData().data()[j], " for ", b.GetData().data()[j]);
        CHECK_EQ(a.GetWeights().data()[j], b.GetWeights().data()[j], "weight read back");
      }
    }
  }
  if (per_chunk) s.label(first.size() > 2 ? "several chunks" : "one chunk");
  if (thread) s.label("write thread");
  if (!manager.empty()) s.label(manager.c_str());
  if (flagged_rows) s.label("flagged rows");
  s.nontrivial(values > 0);
}
VPT_MAIN
