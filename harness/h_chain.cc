// P44 the filter step, P45 fields that steps ask for and change.
#include "blsel_util.h"

#include <cmath>
#include <limits>
#include <memory>
#include <random>
#include <set>

#include "base/FlagCounter.h"
#include "steps/AntennaFlagger.h"
#include "steps/Averager.h"
#include "steps/BDAAverager.h"
#include "steps/Combine.h"
#include "steps/Counter.h"
#include "steps/Filter.h"
#include "steps/Interpolate.h"
#include "steps/MadFlagger.h"
#include "steps/MsReader.h"
#include "steps/NullStokes.h"
#include "steps/PhaseShift.h"
#include "steps/PreFlagger.h"
#include "steps/ScaleData.h"
#include "steps/StationAdder.h"
#include "steps/UVWFlagger.h"
#include "steps/Upsample.h"

#include <casacore/casa/Containers/Record.h>
#include <casacore/tables/TaQL/ExprNode.h>
#include <casacore/tables/TaQL/RecordGram.h>

namespace dp3 {
namespace steps {
// Used when the function in the repository cannot be taken on its own.
__attribute__((weak)) std::pair<unsigned int, unsigned int> MsReader::ParseChannelSelection(const std::string& start, const std::string& n,
                                                                                            unsigned int all) {
  casacore::Record rec;
  rec.define("nchan", all);
  double x;
  casacore::RecordGram::parse(rec, start).get(rec, x);
  const unsigned int first = x + 0.001;
  casacore::RecordGram::parse(rec, n).get(rec, x);
  const unsigned int count = x + 0.0001;
  if (first >= all) throw std::runtime_error("startchan");
  return {first, count == 0 ? all - first : std::min(count, all - first)};
}
__attribute__((weak)) void MsReader::FlagInfinityNan(base::DPBuffer& b, base::FlagCounter& c) {
  const size_t n = b.GetData().shape(2);
  for (size_t i = 0; i < b.GetData().size(); i += n) {
    size_t p = 0;
    while (p < n && std::isfinite(b.GetData().data()[i + p].real()) && std::isfinite(b.GetData().data()[i + p].imag()) && !b.GetFlags().data()[i + p]) ++p;
    if (p == n) continue;
    if (!std::isfinite(b.GetData().data()[i + p].real()) || !std::isfinite(b.GetData().data()[i + p].imag())) c.incrCorrelation(p);
    std::fill_n(b.GetFlags().data() + i, n, true);
  }
}
}  // namespace steps
namespace base {
common::Fields GetChainRequiredFields(std::shared_ptr<steps::Step> first);
__attribute__((weak)) common::Fields GetChainRequiredFields(std::shared_ptr<steps::Step> first) {
  std::vector<steps::Step*> all;
  for (steps::Step* p = first.get(); p; p = p->getNextStep().get()) all.push_back(p);
  common::Fields f;
  for (size_t i = all.size(); i-- > 0;) f.UpdateRequirements(all[i]->getRequiredFields(), all[i]->getProvidedFields());
  return f;
}
}  // namespace base
}  // namespace dp3

namespace {
using dp3::common::Fields;
using dp3::steps::Filter;

// A text for a number of channels; may use the total number.
std::string Channels(Src& s, unsigned v, unsigned all) {
  switch (s.n(6)) {
    case 0: return Cat("nchan-", int(all) - int(v) + 0);
    case 1: return v && all % v == 0 ? Cat("nchan/", all / v) : Cat(v);
    case 2: return Cat("nchan*0+", v);
    case 3: return Cat("(", v, ")");
    default: return Cat(v);
  }
}

bool Same(const Obs& b, const std::vector<size_t>& bl, size_t c0, size_t nc, const DPBuffer& o, const Slot& d, bool uvw) {
  size_t i = 0;
  for (size_t k = 0; k < bl.size(); ++k) {
    for (size_t c = 0; c < nc; ++c)
      for (size_t p = 0; p < b.ncorr; ++p, ++i) {
        const size_t j = (bl[k] * b.nch + c0 + c) * b.ncorr + p;
        CHECK_EQ(o.GetData().data()[i], d.data[j], "data of baseline ", bl[k], " channel ", c0 + c);
        CHECK_EQ(o.GetWeights().data()[i], d.weight[j], "weight of baseline ", bl[k], " channel ", c0 + c);
        CHECK_EQ(bool(o.GetFlags().data()[i]), bool(d.flag[j]), "flag of baseline ", bl[k], " channel ", c0 + c);
      }
    if (uvw)
      for (int x = 0; x < 3; ++x) CHECK_EQ(o.GetUvw().data()[k * 3 + x], d.uvw[bl[k] * 3 + x], "uvw of baseline ", bl[k]);
  }
  return true;
}
}  // namespace

PROP("P44.filter", 6000, 200000) {
  ObsOpt oo;
  oo.max_ant = 6;
  oo.max_bl = 12;
  oo.max_ch = 12;
  oo.max_t = 3;
  const Obs b = GenObs(s, oo);
  ParameterSet p;
  unsigned c0 = 0, nc = b.nch;
  bool chan_set = false;
  if (s.b()) {
    c0 = s.n(0, b.nch - 1);
    const std::string t = Channels(s, c0, b.nch);
    p.add("f.startchan", t);
    chan_set |= t != "0";
    nc = b.nch - c0;
  }
  if (s.b()) {
    const unsigned n = s.n(0, b.nch + 3);
    const std::string t = n > b.nch ? Cat(n) : Channels(s, n, b.nch);
    p.add("f.nchan", t);
    chan_set |= t != "0";
    if (n) nc = std::min<unsigned>(n, b.nch - c0);
  }
  BlSel sel;
  if (s.chance(3, 4)) sel = GenBl(s, b, p, "f.", false);
  const bool remove = s.chance(1, 3);
  if (remove || s.chance(1, 4)) p.add("f.remove", remove ? "true" : "false");
  s.note(Note(b));
  s.note(ShowSet(p));
  std::vector<size_t> bl;
  std::set<int> used;
  for (size_t k = 0; k < b.nbl; ++k)
    if (!sel.any || sel.Match(b, k)) bl.push_back(k), used.insert(b.a1[k]), used.insert(b.a2[k]);
  if (bl.empty()) throw vpt::Discard{};  // not claimed
  Filter step(p, "f.");
  Fields want;
  if (chan_set || sel.any || remove) want |= Step::kDataField | Step::kFlagsField | Step::kWeightsField;
  if (sel.any || remove) want |= Step::kUvwField;
  CHECK(step.getRequiredFields() == want, "required fields ", step.getRequiredFields());
  CHECK(step.getProvidedFields() == want, "provided fields ", step.getProvidedFields());
  auto sink = std::make_shared<Sink>();
  step.setNextStep(sink);
  const DPInfo in = MakeInfo(b);
  step.setInfo(in);
  const DPInfo& info = step.getInfoOut();
  CHECK_EQ(info.nbaselines(), bl.size());
  CHECK_EQ(info.nchan(), nc);
  CHECK_EQ(info.ncorr(), b.ncorr);
  CHECK_EQ(info.chanFreqs().size(), size_t(nc));
  for (size_t c = 0; c < nc; ++c) {
    CHECK_EQ(info.chanFreqs()[c], b.freq[c0 + c], "frequency ", c);
    CHECK_EQ(info.chanWidths()[c], b.width[c0 + c], "width ", c);
  }
  std::vector<int> left;
  for (size_t a = 0; a < b.nant; ++a)
    if (!remove || used.count(a)) left.push_back(a);
  CHECK_EQ(info.nantenna(), left.size(), "number of stations");
  for (size_t a = 0; a < left.size(); ++a) {
    CHECK_EQ(info.antennaNames()[a], b.names[left[a]], "station ", a);
    CHECK_EQ(info.antennaDiam()[a], b.diam[left[a]], "diameter ", a);
  }
  for (size_t k = 0; k < bl.size(); ++k) {
    CHECK_EQ(left[info.getAnt1()[k]], b.a1[bl[k]], "first station of baseline ", k);
    CHECK_EQ(left[info.getAnt2()[k]], b.a2[bl[k]], "second station of baseline ", k);
  }
  const bool rows = s.b();
  const bool no_uvw = !(want.Uvw()) && s.b();
  for (size_t t = 0; t < b.nt; ++t) {
    const Slot d = GenSlot(s, b, t);
    auto buf = MakeBuffer(b, d);
    if (no_uvw) buf->GetUvw().resize(std::array<size_t, 2>{0, 0});
    if (rows) {
      casacore::Vector<dp3::common::rownr_t> r(b.nbl);
      for (size_t k = 0; k < b.nbl; ++k) r[k] = 1000 * t + k;
      buf->SetRowNumbers(r);
    }
    CHECK(step.process(std::move(buf)), "process");
    CHECK_EQ(sink->bufs.size(), t + 1, "one buffer out per buffer in");
    const DPBuffer& o = *sink->bufs[t];
    CHECK_EQ(o.GetTime(), d.time);
    CHECK_EQ(o.GetExposure(), d.exposure);
    CheckShape(o, bl.size(), nc, b.ncorr);
    if (!no_uvw) CHECK_EQ(o.GetUvw().size(), bl.size() * 3, "uvw size");
    Same(b, bl, c0, nc, o, d, !no_uvw);
    if (rows) {
      CHECK_EQ(size_t(o.GetRowNumbers().size()), bl.size(), "row numbers");
      for (size_t k = 0; k < bl.size(); ++k) CHECK_EQ(o.GetRowNumbers()[k], 1000 * t + bl[k], "row number");
    }
  }
  step.finish();
  CHECK_EQ(sink->n_finish, 1, "finish");
  s.nontrivial(bl.size() < b.nbl || nc < b.nch);
  if (left.size() < b.nant) s.label("stations removed");
}

PROP("P44.channels", 5000, 100000) {
  const unsigned all = s.pick({16u, 1u, 7u, 256u, 65536u});
  const unsigned c0 = s.n(0, all + (s.chance(1, 6) ? 3 : -1)), n = s.n(0, s.b() ? 5 : all + 2);
  const std::string t0 = c0 > all ? Cat(c0) : Channels(s, c0, all), t1 = n > all ? Cat(n) : Channels(s, n, all);
  s.note(Cat("start ", t0, " number ", t1, " of ", all));
  std::pair<unsigned, unsigned> r;
  const bool bad = vpt::Throws([&] { r = dp3::steps::MsReader::ParseChannelSelection(t0, t1, all); });
  CHECK_EQ(bad, c0 >= all, "start channel outside the data");
  s.nontrivial(!bad);
  if (bad) return;
  CHECK_EQ(r.first, c0, "first channel");
  CHECK_EQ(r.second, n == 0 ? all - c0 : std::min(n, all - c0), "number of channels");
}

PROP("P44.nan", 3000, 100000) {
  struct Reader : dp3::steps::MsReader {
    using dp3::steps::MsReader::FlagInfinityNan;
  };
  Obs b = GenObs(s);
  Slot d = GenSlot(s, b, 0);
  const float bad[] = {std::nanf(""), INFINITY, -INFINITY};
  const int perc = s.pick({0, 5, 30});
  std::vector<char> want(d.flag.size());
  std::vector<int64_t> count(b.ncorr);
  for (size_t i = 0; i < d.data.size(); i += b.ncorr) {
    bool f = false;
    for (size_t p = 0; p < b.ncorr; ++p) {
      const bool x = int(s.n(100)) < perc;
      if (x) {
        const float v = bad[s.n(3)];
        d.data[i + p] = s.b() ? cf(v, 1) : s.b() ? cf(2, v) : cf(v, v);
      }
      if (x && !f) ++count[p];
      f |= x || d.flag[i + p];
    }
    for (size_t p = 0; p < b.ncorr; ++p) want[i + p] = f;
  }
  auto buf = MakeBuffer(b, d);
  dp3::base::FlagCounter c;
  c.init(MakeInfo(b));
  Reader::FlagInfinityNan(*buf, c);
  for (size_t i = 0; i < want.size(); ++i) CHECK_EQ(bool(buf->GetFlags().data()[i]), bool(want[i]), "flag ", i);
  CHECK(c.correlationCounts() == count, "counts");
  s.nontrivial(perc > 0);
}

// ---------------------------------------------------------------------- fields
namespace {
const char* GenSettings(Src& s, const Obs& b, ParameterSet& p, size_t which, bool all_baselines) {
  const std::string x = "x.";
  auto opt = [&](const char* k, const std::string& v) {
    if (s.b()) p.add(x + k, v);
  };
  switch (which) {
    case 0:
      opt("threshold", s.pick({"0.5", "2"}));
      opt("freqwindow", Cat(s.n(1, 5)));
      opt("timewindow", Cat(s.n(1, 5)));
      return "madflagger";
    case 1:
      if (!all_baselines) throw vpt::Discard{};
      opt("antenna_flagging_sigma", "1.1");
      opt("station_flagging_sigma", "0.8");
      return "antennaflagger";
    case 2:
      p.add(x + (s.b() ? "timestep" : "freqstep"), Cat(s.n(1, 4)));
      return "averager";
    case 3:
      p.add(x + "timebase", Cat(s.n(1, 5000)));
      p.add(x + "maxinterval", Cat(b.dt * s.n(1, 5)));
      return "bdaaverager";
    case 4:
      p.add(x + "operation", s.b() ? "add" : "subtract");
      p.add(x + "buffername", "model");
      return "combine";
    case 5: return "counter";
    case 6: {
      if (s.b()) p.add(x + "startchan", Cat(s.n(b.nch)));
      if (s.b()) p.add(x + "nchan", Cat(s.n(1, b.nch)));
      if (s.b()) GenBl(s, b, p, x, false);
      opt("remove", s.b() ? "true" : "false");
      return "filter";
    }
    case 7:
      opt("windowsize", s.pick({"3", "5", "15"}));
      return "interpolate";
    case 8:
      opt("modify_q", s.b() ? "true" : "false");
      opt("modify_u", s.b() ? "true" : "false");
      return "nullstokes";
    case 9:
      p.add(x + "phasecenter", s.b() ? "[0.3rad,0.7rad]" : "[]");
      return "phaseshifter";
    case 10: {
      static const char* kMode[] = {"set", "clear", "setcomplement", "clearcomplement"};
      opt("mode", kMode[s.n(4)]);
      if (s.b()) p.add(x + "chan", Cat("[", s.n(b.nch), "]"));
      if (s.b()) p.add(x + "amplmax", Cat(s.n(1, 16)));
      if (s.b()) p.add(x + "uvmmax", Cat(s.n(1, 3000)));
      if (s.b()) p.add(x + "phasemin", Cat(s.sym(2)));
      if (s.b()) p.add(x + "timeslot", Cat("[", s.n(3), "]"));
      if (s.b()) GenBl(s, b, p, x);
      return "preflagger";
    }
    case 11:
      p.add(x + "stations", "[*]");
      p.add(x + "coeffs", "[[1,2]]");
      p.add(x + "scalesize", "false");
      return "scaledata";
    case 12:
      p.add(x + "stations", Cat("{NEW:[", b.names[0], ",", b.names[b.nant - 1], "]}"));
      opt("average", "false");
      opt("autocorr", "true");
      return "stationadder";
    case 13:
      p.add(x + "timestep", Cat(s.n(2, 3)));
      opt("updateuvw", s.b() ? "true" : "false");
      return "upsample";
    default:
      if (s.chance(3, 4)) p.add(x + (s.b() ? "uvmrange" : "uvlambdarange"), Cat("[0..", s.n(1, 4000), "]"));
      if (s.b()) p.add(x + "ulambdamin", Cat(s.n(1, 3000)));
      if (s.chance(1, 4)) p.add(x + "phasecenter", "[0.3rad,0.7rad]");
      return "uvwflagger";
  }
}

std::shared_ptr<Step> Build(const std::string& kind, ParameterSet& p, bool alt) {
  using namespace dp3::steps;
  const std::string x = "x.";
  if (kind == "madflagger") return std::make_shared<MadFlagger>(p, x);
  if (kind == "antennaflagger") return std::make_shared<AntennaFlagger>(p, x);
  if (kind == "averager") return std::make_shared<Averager>(p, x);
  if (kind == "bdaaverager") return std::make_shared<BdaAverager>(p, x, alt);
  if (kind == "combine") return std::make_shared<Combine>(p, x, Step::MsType::kRegular);
  if (kind == "counter") return std::make_shared<Counter>(p, x);
  if (kind == "filter") return std::make_shared<Filter>(p, x);
  if (kind == "interpolate") return std::make_shared<Interpolate>(p, x);
  if (kind == "nullstokes") return std::make_shared<NullStokes>(p, x);
  if (kind == "phaseshifter") return std::make_shared<PhaseShift>(p, x);
  if (kind == "preflagger") return std::make_shared<PreFlagger>(p, x);
  if (kind == "scaledata") return std::make_shared<ScaleData>(p, x, Step::MsType::kRegular);
  if (kind == "stationadder") return std::make_shared<StationAdder>(p, x);
  if (kind == "upsample") return std::make_shared<Upsample>(p, x);
  if (kind == "uvwflagger") return std::make_shared<UVWFlagger>(p, x, Step::MsType::kRegular);
  throw std::runtime_error("unknown " + kind);
}

struct Out {
  std::vector<double> time, exposure;
  std::vector<std::vector<cf>> data;
  std::vector<std::vector<float>> weight;
  std::vector<std::vector<char>> flag;
  std::vector<std::vector<double>> uvw;
};

template <typename A, typename T>
void Take(const A& a, std::vector<std::vector<T>>& v) {
  v.emplace_back(a.data(), a.data() + a.size());
}

Out Collect(const Sink& k) {
  Out o;
  for (auto& b : k.bufs) {
    o.time.push_back(b->GetTime());
    o.exposure.push_back(b->GetExposure());
    Take(b->GetData(), o.data);
    Take(b->GetWeights(), o.weight);
    Take(b->GetFlags(), o.flag);
    Take(b->GetUvw(), o.uvw);
  }
  for (auto& b : k.bdas)
    for (auto& r : b->GetRows()) {
      const size_t n = r.n_channels * r.n_correlations;
      o.time.push_back(r.time);
      o.exposure.push_back(r.exposure);
      o.data.emplace_back(b->GetData(), b->GetData() ? b->GetData() + n : nullptr);
      o.data.back().assign(b->GetData() + r.offset, b->GetData() + r.offset + n);
      o.weight.emplace_back(b->GetWeights() + r.offset, b->GetWeights() + r.offset + n);
      o.flag.emplace_back(b->GetFlags() + r.offset, b->GetFlags() + r.offset + n);
      o.uvw.emplace_back(r.uvw, r.uvw + 3);
    }
  return o;
}

template <typename T>
bool EqualOrNan(const T& a, const T& b) { return a == b || (a != a && b != b); }

template <typename T>
void CheckEqual(const char* what, const std::vector<std::vector<T>>& a, const std::vector<std::vector<T>>& b, const std::string& kind) {
  CHECK_EQ(a.size(), b.size(), "number of ", what, " after ", kind);
  for (size_t i = 0; i < a.size(); ++i) {
    CHECK_EQ(a[i].size(), b[i].size(), "size of ", what, " after ", kind);
    for (size_t j = 0; j < a[i].size(); ++j) CHECK(EqualOrNan(a[i][j], b[i][j]), what, " after ", kind, " differ at ", i, ",", j);
  }
}
}  // namespace

PROP("P45.fields", 4000, 120000) {
  ObsOpt oo;
  oo.max_ant = 5;
  oo.max_bl = 15;
  oo.max_ch = 6;
  oo.max_t = 6;
  Obs b = GenObs(s, oo);
  const size_t which = s.n(15);
  bool all_baselines = false;
  if (which == 1) {
    b.a1.clear(), b.a2.clear();
    for (size_t i = 0; i < b.nant; ++i)
      for (size_t j = i; j < b.nant; ++j) b.a1.push_back(i), b.a2.push_back(j);
    b.nbl = b.a1.size();
    all_baselines = true;
  }
  if (which == 8 || which == 12) b.ncorr = 4;
  ParameterSet p;
  const std::string kind = GenSettings(s, b, p, which, all_baselines);
  s.note(kind);
  s.note(Note(b));
  s.note(ShowSet(p));
  s.label(kind.c_str());
  // The same step with the same settings, the second one given only what it
  // asks for.
  const bool absent = s.chance(2, 3), alt = s.chance(1, 3);
  const std::shared_ptr<Step> st[2] = {Build(kind, p, alt), Build(kind, p, alt)};
  const Fields req = st[0]->getRequiredFields(), prov = st[0]->getProvidedFields();
  CHECK(st[1]->getRequiredFields() == req && st[1]->getProvidedFields() == prov, "fields of the same step");
  std::vector<Slot> slots;
  for (size_t t = 0; t < b.nt; ++t) slots.push_back(GenSlot(s, b, t));
  // All correlations of a sample have the same flag.
  for (auto& d : slots)
    for (size_t i = 0; i < d.flag.size(); ++i) d.flag[i] = d.flag[i - i % b.ncorr];
  std::vector<Slot> other;
  for (size_t t = 0; t < b.nt; ++t) other.push_back(GenSlot(s, b, t));
  Out out[2];
  bool refused[2] = {false, false};
  const auto info = MakeInfo(b);
  for (int k = 0; k < 2; ++k) {
    auto sink = std::make_shared<Sink>();
    st[k]->setNextStep(sink);
    // Invalid settings for this data set are not of interest.
    if (vpt::Throws([&] { st[k]->setInfo(info); })) {
      refused[k] = true;
      continue;
    }
    for (size_t t = 0; t < b.nt; ++t) {
      Slot d = slots[t];
      if (k) {
        if (!req.Data()) d.data = other[t].data;
        if (!req.Weights()) d.weight = other[t].weight;
        if (!req.Flags()) d.flag = other[t].flag;
        if (!req.Uvw()) d.uvw = other[t].uvw;
      }
      auto buf = MakeBuffer(b, d);
      if (which == 4) {
        buf->AddData("model");
        for (size_t i = 0; i < d.data.size(); ++i) buf->GetData("model").data()[i] = slots[t].data[d.data.size() - 1 - i];
      }
      if (k && absent) {
        if (!req.Data()) buf->GetData().resize({0, 0, 0});
        if (!req.Weights()) buf->GetWeights().resize({0, 0, 0});
        if (!req.Flags()) buf->GetFlags().resize({0, 0, 0});
        if (!req.Uvw()) buf->GetUvw().resize(std::array<size_t, 2>{0, 0});
      }
      st[k]->process(std::move(buf));
    }
    st[k]->finish();
    CHECK_EQ(sink->n_finish, 1, "finish of ", kind);
    out[k] = Collect(*sink);
  }
  CHECK_EQ(refused[0], refused[1], kind);
  s.nontrivial(!refused[0] && !(req == AllFields()));
  if (refused[0]) return;
  CHECK(out[0].time == out[1].time, "times after ", kind);
  CHECK(out[0].exposure == out[1].exposure, "exposures after ", kind);
  // Provided fields only depend on the required ones. Fields that are required
  // are the same for both. Other fields only go through.
  const bool through = !absent || kind == "bdaaverager";
  const size_t n_out = out[0].time.size();
  if (req.Data() || prov.Data()) CheckEqual("data", out[0].data, out[1].data, kind);
  if (req.Weights() || prov.Weights()) CheckEqual("weights", out[0].weight, out[1].weight, kind);
  if (req.Flags() || prov.Flags()) CheckEqual("flags", out[0].flag, out[1].flag, kind);
  if (req.Uvw() || prov.Uvw()) CheckEqual("uvw", out[0].uvw, out[1].uvw, kind);
  // Fields that are not provided are those of the input.
  if (which == 13 || n_out != b.nt) return;
  for (size_t t = 0; t < b.nt; ++t) {
    if (!prov.Data()) CHECK(out[0].data[t] == slots[t].data, "data changed by ", kind);
    if (!prov.Weights()) CHECK(out[0].weight[t] == slots[t].weight, "weights changed by ", kind);
    if (!prov.Flags()) CHECK(out[0].flag[t] == slots[t].flag, "flags changed by ", kind);
    if (!prov.Uvw()) CHECK(out[0].uvw[t] == slots[t].uvw, "uvw changed by ", kind);
    if (through) {
      if (!prov.Data() && !req.Data()) CHECK(out[1].data[t] == other[t].data, "data changed by ", kind);
      if (!prov.Weights() && !req.Weights()) CHECK(out[1].weight[t] == other[t].weight, "weights changed by ", kind);
      if (!prov.Flags() && !req.Flags()) CHECK(out[1].flag[t] == other[t].flag, "flags changed by ", kind);
      if (!prov.Uvw() && !req.Uvw()) CHECK(out[1].uvw[t] == other[t].uvw, "uvw changed by ", kind);
    }
  }
}

// Several steps after each other: reading only the fields that the chain asks
// for gives the same result as reading everything.
PROP("P45.chain", 3000, 100000) {
  ObsOpt oo;
  oo.max_ant = 4;
  oo.max_bl = 10;
  oo.max_ch = 6;
  oo.max_t = 5;
  Obs b = GenObs(s, oo);
  if (s.chance(2, 3)) b.ncorr = 4;
  const bool all_baselines = s.chance(1, 3);
  if (all_baselines) {
    b.a1.clear(), b.a2.clear();
    for (size_t i = 0; i < b.nant; ++i)
      for (size_t j = i; j < b.nant; ++j) b.a1.push_back(i), b.a2.push_back(j);
    b.nbl = b.a1.size();
  }
  static const size_t kKind[] = {0, 2, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 1, 3};
  const size_t n_steps = s.n(1, 4);
  std::vector<ParameterSet> par(n_steps);
  std::vector<std::string> kinds;
  const bool alt = s.b();
  std::shared_ptr<Step> chain[2][5];
  s.note(Note(b));
  for (size_t i = 0; i < n_steps; ++i) {
    const size_t which = kKind[s.n(i + 1 == n_steps ? 14 : 13)];
    if (which == 1 && !all_baselines) throw vpt::Discard{};
    if ((which == 8 || which == 12) && b.ncorr != 4) throw vpt::Discard{};
    kinds.push_back(GenSettings(s, b, par[i], which, all_baselines));
    s.note(Cat(kinds.back(), " ", ShowSet(par[i])));
    for (auto& c : chain) c[i] = Build(kinds.back(), par[i], alt);
  }
  Fields need;
  if (s.chance(2, 3)) need |= Step::kDataField;
  if (s.b()) need |= Step::kWeightsField;
  if (s.b()) need |= Step::kFlagsField;
  if (s.b()) need |= Step::kUvwField;
  s.note(Cat("needs ", need));
  struct Needs : Sink {
    Fields need;
    Fields getRequiredFields() const override { return need; }
  };
  std::vector<Slot> slots, other;
  for (size_t t = 0; t < b.nt; ++t) slots.push_back(GenSlot(s, b, t)), other.push_back(GenSlot(s, b, t));
  // All correlations of a sample have the same flag.
  for (auto* v : {&slots, &other})
    for (auto& d : *v)
      for (size_t i = 0; i < d.flag.size(); ++i) d.flag[i] = d.flag[i - i % b.ncorr];
  const auto info = MakeInfo(b);
  const bool absent = s.chance(2, 3);
  Out out[2];
  Fields req;
  for (int k = 0; k < 2; ++k) {
    auto sink = std::make_shared<Needs>();
    sink->need = need;
    for (size_t i = 0; i + 1 < n_steps; ++i) chain[k][i]->setNextStep(chain[k][i + 1]);
    chain[k][n_steps - 1]->setNextStep(sink);
    if (k == 0) {
      req = dp3::base::GetChainRequiredFields(chain[k][0]);
      Fields model = need;
      for (size_t i = n_steps; i-- > 0;) {
        const Fields r = chain[k][i]->getRequiredFields(), p = chain[k][i]->getProvidedFields();
        auto f = [&](bool m, bool ri, bool pi) { return ri || (m && !pi); };
        Fields next;
        if (f(model.Data(), r.Data(), p.Data())) next |= Step::kDataField;
        if (f(model.Weights(), r.Weights(), p.Weights())) next |= Step::kWeightsField;
        if (f(model.Flags(), r.Flags(), p.Flags())) next |= Step::kFlagsField;
        if (f(model.Uvw(), r.Uvw(), p.Uvw())) next |= Step::kUvwField;
        model = next;
      }
      CHECK(req == model, "fields required by the chain ", req, " not ", model);
    }
    // Settings that are invalid for this data set are not of interest.
    if (vpt::Throws([&] { chain[k][0]->setInfo(info); })) throw vpt::Discard{};
    for (size_t t = 0; t < b.nt; ++t) {
      Slot d = slots[t];
      if (k) {
        if (!req.Data()) d.data = other[t].data;
        if (!req.Weights()) d.weight = other[t].weight;
        if (!req.Flags()) d.flag = other[t].flag;
        if (!req.Uvw()) d.uvw = other[t].uvw;
      }
      auto buf = MakeBuffer(b, d);
      if (k && absent) {
        if (!req.Data()) buf->GetData().resize({0, 0, 0});
        if (!req.Weights()) buf->GetWeights().resize({0, 0, 0});
        if (!req.Flags()) buf->GetFlags().resize({0, 0, 0});
        if (!req.Uvw()) buf->GetUvw().resize(std::array<size_t, 2>{0, 0});
      }
      chain[k][0]->process(std::move(buf));
    }
    chain[k][0]->finish();
    CHECK_EQ(sink->n_finish, 1, "finish");
    out[k] = Collect(*sink);
  }
  s.nontrivial(n_steps > 1 && !(req == AllFields()));
  CHECK(out[0].time == out[1].time, "times");
  CHECK(out[0].exposure == out[1].exposure, "exposures");
  if (need.Data()) CheckEqual("data", out[0].data, out[1].data, "the chain");
  if (need.Weights()) CheckEqual("weights", out[0].weight, out[1].weight, "the chain");
  if (need.Flags()) CheckEqual("flags", out[0].flag, out[1].flag, "the chain");
  if (need.Uvw()) CheckEqual("uvw", out[0].uvw, out[1].uvw, "the chain");
}

VPT_MAIN
