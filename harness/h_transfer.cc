// P55: taking data and flags over from an averaged measurement set, and clipping
// by a predicted model.
#include "ms_util.h"
#include "blsel_util.h"

#include "steps/FlagTransfer.h"
#include "steps/NullStep.h"
#include "steps/ResultStep.h"
#include "steps/Transfer.h"

// The clipper makes a predict step, which the harness replaces.
#define DP3_STEPS_ONEPREDICT_H_
namespace dp3::steps {
class OnePredict : public Step {
 public:
  OnePredict(const common::ParameterSet&, const std::string&, const std::vector<std::string>&) {}
  common::Fields getRequiredFields() const override { return kUvwField; }
  common::Fields getProvidedFields() const override { return kDataField; }
  bool process(std::unique_ptr<base::DPBuffer>) override { return false; }
  void finish() override {}
  void show(std::ostream&) const override {}
};
}  // namespace dp3::steps
#include "steps/Clipper.cc"

namespace dp3::base {
common::Fields GetChainRequiredFields(std::shared_ptr<steps::Step> first) {
  common::Fields f;
  for (auto s = first; s; s = s->getNextStep()) f |= s->getRequiredFields();
  return f;
}
}  // namespace dp3::base

namespace {
using namespace mu;
using dp3::steps::Clipper;

typedef std::vector<cc::rownr_t> RowNrs;
void SetRows(DPBuffer& b, const RowNrs& r) {
  cc::Vector<cc::rownr_t> v(r.size());
  for (size_t i = 0; i < r.size(); ++i) v[i] = r[i];
  b.SetRowNumbers(v);
}
// Row numbers as they are after reading everything, after an earlier selection,
// or in a time slot that the reader has inserted.
struct RowGen {
  int mode;
  cc::rownr_t next = 0;
  std::vector<size_t> gap;
  RowGen(Src& s, size_t nbl) : mode(s.n(3)) {
    for (size_t i = 0; i <= nbl; ++i) gap.push_back(mode == 0 ? 0 : s.n(3));
  }
  RowNrs Take(size_t nbl, bool inserted) {
    RowNrs r;
    for (size_t i = 0; i < nbl && !inserted; ++i) {
      next += gap[i];
      r.push_back(next++);
    }
    next += gap[nbl];
    return r;
  }
};

// The measurement set and an observation that it is an average of.
struct Pair {
  Ms m;
  Obs b;
  size_t factor = 1;
  std::vector<size_t> bl;    // target baseline of each source baseline
  std::vector<size_t> chan;  // source channel of each target channel
  bool filter = false;
};
Pair GenPair(Src& s, bool equal_widths) {
  Pair p;
  MsOpt o;
  o.bands = o.missing_slots = o.nan = false;
  o.weights = false;
  o.max_ch = 4;
  o.max_slot = 4;
  Ms& m = p.m;
  m = GenMs(s, o);
  m.name = "/mini/source.ms";
  p.factor = s.n(1, 3);
  Obs& b = p.b;
  b.ncorr = 4;
  b.dt = m.dt / double(p.factor);
  b.t0 = m.t0 - 0.5 * m.dt + 0.5 * b.dt;
  b.nt = m.nslot * p.factor;
  if (b.nt > 1 && s.b()) b.nt -= s.n(0, p.factor - 1);
  b.ra = m.ra;
  b.dec = m.dec;
  for (size_t i = 0; i < m.nant; ++i) {
    b.names.push_back(Cat("A", i));
    b.pos.push_back(m.pos[i]);
  }
  const size_t extra = s.b() ? s.n(1, 2) : 0;
  for (size_t i = 0; i < extra; ++i) {
    b.names.push_back(Cat("B", i));
    b.pos.push_back({3826000.0 + i, 461000.0, 5064000.0});
  }
  b.nant = b.names.size();
  b.diam.assign(b.nant, 30);
  auto more = [&] {
    while (extra && s.chance(1, 2) && b.a1.size() < 14) {
      p.filter = true;
      int i = m.nant + s.n(extra), j = s.n(b.nant);
      if (s.b()) std::swap(i, j);
      b.a1.push_back(i);
      b.a2.push_back(j);
    }
  };
  for (auto& x : m.bl) {
    more();
    p.bl.push_back(b.a1.size());
    b.a1.push_back(x.first);
    b.a2.push_back(x.second);
  }
  more();
  b.nbl = b.a1.size();
  // Channels.
  const size_t split = s.n(1, 3);
  const double w = m.width[0][0];
  double f = m.freq[0][0] - 0.5 * w;
  for (size_t c = 0; c < m.nch; ++c) {
    size_t k = split;
    if (!equal_widths) k = s.n(1, 3);
    else if (c + 1 == m.nch) k = s.n(1, split);
    const double tw = w / double(split);
    m.freq[0][c] = f + 0.5 * k * tw;
    m.width[0][c] = k * tw;
    for (size_t i = 0; i < k; ++i) {
      b.freq.push_back(f + (i + 0.5) * tw);
      b.width.push_back(tw);
      p.chan.push_back(c);
    }
    f += k * tw;
  }
  b.nch = b.freq.size();
  return p;
}
void Selection(Src& s, const Pair& p, ParameterSet& ps) {
  if (p.filter || s.chance(1, 4)) {
    ps.add("t.baseline", "[[A*,A*]]");
    if (s.b()) ps.add("t.remove", "true");
  }
}

void Run(Src& s, const Pair& p, const ParameterSet& ps, bool data, bool flags, const std::string& column, const std::string& out, bool old) {
  const Obs& b = p.b;
  const Ms& m = p.m;
  DPInfo info = MakeInfo(b);
  auto sink = std::make_shared<Sink>();
  std::shared_ptr<Step> step;
  if (old) step = std::make_shared<dp3::steps::FlagTransfer>(ps, "t.");
  else step = std::make_shared<dp3::steps::Transfer>(ps, "t.");
  step->setNextStep(sink);
  step->setInfo(info);
  RowGen rows(s, b.nbl);
  std::vector<Slot> in;
  const bool bare = !p.filter && s.chance(1, 4);  // without data or flags, which all come from the source
  bool inserted = false;
  for (size_t t = 0; t < b.nt; ++t) {
    in.push_back(GenSlot(s, b, t));
    auto buf = MakeBuffer(b, in.back());
    const bool ins = s.chance(1, 6);
    inserted |= ins;
    SetRows(*buf, rows.Take(b.nbl, ins));
    if (bare && flags) buf->GetFlags().resize(std::array<size_t, 3>{0, 0, 0});
    if (bare && data && !ps.isDefined("t.baseline")) buf->GetData().resize(std::array<size_t, 3>{0, 0, 0});
    if (bare && ps.isDefined("t.baseline")) {
      buf = MakeBuffer(b, in.back());
      SetRows(*buf, rows.Take(b.nbl, ins));
    }
    step->process(std::move(buf));
  }
  step->finish();
  CHECK_EQ(sink->bufs.size(), b.nt, "number of buffers");
  CHECK_EQ(sink->n_finish, 1);
  for (size_t t = 0; t < b.nt; ++t) {
    const DPBuffer& r = *sink->bufs[t];
    const Slot& d = in[t];
    CHECK_NEAR(r.GetTime(), d.time, 1e-6, "time of slot ", t);
    std::vector<int> src(b.nbl, -1);
    for (size_t j = 0; j < p.bl.size(); ++j) src[p.bl[j]] = j;
    const auto& rd = r.GetData();
    const auto& rf = r.GetFlags();
    const DPBuffer::DataType* named = out.empty() ? nullptr : &r.GetData(out);
    const std::array<size_t, 3> sh{b.nbl, b.nch, b.ncorr};
    if (!bare || !out.empty() || data) CHECK(std::equal(sh.begin(), sh.end(), (named ? *named : rd).shape().begin()), "shape of the data of slot ", t);
    CHECK(std::equal(sh.begin(), sh.end(), rf.shape().begin()), "shape of the flags of slot ", t);
    for (size_t i = 0; i < b.nbl; ++i)
      for (size_t c = 0; c < b.nch; ++c)
        for (size_t q = 0; q < 4; ++q) {
          const size_t k = (i * b.nch + c) * 4 + q;
          cf v = d.data[k];
          bool f = d.flag[k];
          const Row* row = src[i] < 0 ? nullptr : &m.rows[(t / p.factor) * m.bl.size() + src[i]];
          const size_t sk = p.chan[c] * 4 + q;
          const cf sv = row ? (column == "DATA" ? row->data : row->extra)[sk] : cf();
          if (row && data && out.empty()) v = sv;
          if (row && flags) f = row->flag[sk];
          if (rd.size()) CHECK(rd(i, c, q) == v, "slot ", t, " baseline ", i, " channel ", c, " correlation ", q, ": data ", rd(i, c, q), ", expected ", v);
          CHECK_EQ(bool(rf(i, c, q)), f, "slot ", t, " baseline ", i, " channel ", c, " correlation ", q, ": flag");
          if (named && row) CHECK((*named)(i, c, q) == sv, "slot ", t, " baseline ", i, " channel ", c, " correlation ", q, ": named data ", (*named)(i, c, q), ", expected ", sv);
          CHECK_EQ(r.GetWeights()(i, c, q), d.weight[k], "weight");
        }
    for (size_t i = 0; i < b.nbl * 3; ++i) CHECK_EQ(r.GetUvw().data()[i], d.uvw[i], "uvw");
  }
  s.label(inserted ? "inserted slot" : "");
  s.nontrivial(p.filter || p.factor > 1 || b.nch != m.nch);
}

}  // namespace

PROP("P55.transfer", 300, 4000) {
  Pair p = GenPair(s, false);
  p.m.has_extra = s.b();
  const std::string column = p.m.has_extra && s.b() ? "MODEL_DATA" : "DATA";
  ParameterSet ps;
  ps.add("t.source_ms", p.m.name);
  bool data = s.b(), flags = s.b() || !data;
  if (data) ps.add("t.data", "true");
  if (flags) ps.add("t.flags", "true");
  if (column != "DATA" || s.b()) ps.add("t.datacolumn", column);
  std::string out;
  if (data && s.chance(1, 3)) ps.add("t.outputbuffername", out = "other");
  Selection(s, p, ps);
  s.note(Cat(Note(p.b), " source nch=", p.m.nch, " slots=", p.m.nslot, " factor=", p.factor, " ", ShowSet(ps)));
  cc::mini_tables().clear();
  auto keep = Store(p.m);
  Run(s, p, ps, data, flags, column, out, false);
}

PROP("P55.flags", 200, 3000) {
  const Pair p = GenPair(s, true);
  ParameterSet ps;
  ps.add("t.source_ms", p.m.name);
  Selection(s, p, ps);
  s.note(Cat(Note(p.b), " source nch=", p.m.nch, " slots=", p.m.nslot, " factor=", p.factor, " ", ShowSet(ps)));
  cc::mini_tables().clear();
  auto keep = Store(p.m);
  Run(s, p, ps, false, true, "DATA", "", true);
}

// Sources that do not fit are refused.
PROP("P55.refuse", 150, 2000) {
  Pair p = GenPair(s, true);
  const bool old = s.b();
  ParameterSet ps;
  ps.add("t.source_ms", p.m.name);
  const int what = s.n(old ? 4 : 7);
  if (what != 4) ps.add("t.flags", "true");
  if (what != 3) Selection(s, p, ps);
  if (what == 5) {
    ps.add("t.data", "true");
    ps.add("t.datacolumn", "NOT_THERE");
  }
  if (what == 0) p.b.dt *= s.b() ? 1.01 : 0.99 / 1.5;
  if (what == 1) p.b.t0 += (s.b() ? 1 : -1) * s.pick(std::vector<double>{0.001, 0.5, 100});
  if (what == 2) p.b.ncorr = s.pick(std::vector<size_t>{1, 2});
  if (what == 6) {  // another station in front: only seen when the numbers differ
    if (p.b.nant == p.m.nant) throw vpt::Discard{};
    p.b.names[s.n(p.m.nant)] = "A77";
  }
  if (what == 3 && !p.filter) {
    p.b.a1.push_back(0);
    p.b.a2.push_back(0);
    ++p.b.nbl;
  }
  cc::mini_tables().clear();
  auto keep = Store(p.m);
  s.note(Cat("case ", what, old ? " flagtransfer " : " transfer ", Note(p.b), " ", ShowSet(ps)));
  CHECK(vpt::Throws([&] {
          std::shared_ptr<Step> step;
          if (old) step = std::make_shared<dp3::steps::FlagTransfer>(ps, "t.");
          else step = std::make_shared<dp3::steps::Transfer>(ps, "t.");
          auto sink = std::make_shared<Sink>();
          step->setNextStep(sink);
          DPInfo info = MakeInfo(p.b);
          step->setInfo(info);
          auto buf = MakeBuffer(p.b, GenSlot(s, p.b, 0));
          RowNrs r;
          for (size_t i = 0; i < p.b.nbl; ++i) r.push_back(i);
          SetRows(*buf, r);
          step->process(std::move(buf));
        }),
        "not refused: case ", what);
  s.nontrivial(true);
}

namespace {
// Gives amplitudes from a table; finds the baseline by its first uvw coordinate.
struct Model : Step {
  const Obs* b = nullptr;
  size_t step = 1, slot = 0;
  const std::vector<std::vector<float>>* amp = nullptr;  // per slot: [bl][ch][corr]
  std::vector<size_t> asked;
  dp3::common::Fields getRequiredFields() const override { return kUvwField; }
  dp3::common::Fields getProvidedFields() const override { return kDataField; }
  void finish() override {}
  void show(std::ostream&) const override {}
  bool process(std::unique_ptr<DPBuffer> buf) override {
    size_t t = std::lround((buf->GetTime() - b->t0) / b->dt);
    asked.push_back(t);
    const size_t nch = getInfoOut().nchan(), nbl = getInfoOut().nbaselines();
    CHECK_EQ(nch, (b->nch + step - 1) / step, "channels of the prediction");
    CHECK_EQ(buf->GetUvw().shape(0), nbl, "uvw of the prediction");
    buf->GetData().resize(std::array<size_t, 3>{nbl, nch, b->ncorr});
    for (size_t i = 0; i < nbl; ++i) {
      const size_t k = size_t(buf->GetUvw()(i, 0));
      CHECK(k < b->nbl, "uvw given to the prediction");
      CHECK(getInfoOut().antennaNames()[getInfoOut().getAnt1()[i]] == b->names[b->a1[k]] && getInfoOut().antennaNames()[getInfoOut().getAnt2()[i]] == b->names[b->a2[k]], "baseline given to the prediction");
      for (size_t c = 0; c < nch; ++c) {
        CHECK_NEAR(getInfoOut().chanFreqs()[c], b->freq[c * step], 1, "frequency of the prediction");
        for (size_t q = 0; q < b->ncorr; ++q) {
          const float a = (*amp)[t][(k * b->nch + c * step) * b->ncorr + q];
          buf->GetData()(i, c, q) = cf(0.6f * a, -0.8f * a);
        }
      }
    }
    return getNextStep()->process(std::move(buf));
  }
};
}  // namespace

PROP("P55.clip", 300, 4000) {
  ObsOpt o;
  o.max_ch = 7;
  o.max_t = 9;
  const Obs b = GenObs(s, o);
  const std::string set = s.pick(std::vector<std::string>{"HBA_DUAL", "LBA_INNER", ""});
  DPInfo info = MakeInfo(b, set);
  auto sink = std::make_shared<Sink>();
  ParameterSet ps;
  size_t tstep = 5, fstep = 1;
  bool all = true;
  double limit = set.substr(0, 3) == "LBA" ? 50 : 5;
  if (s.chance(2, 3)) ps.add("c.timestep", Cat(tstep = s.n(1, 4)));
  if (s.chance(2, 3)) ps.add("c.freqstep", Cat(fstep = s.n(1, 4)));
  if (s.b()) {
    all = s.b();
    ps.add("c.flagallcorrelations", all ? "true" : "false");
  }
  if (s.b()) ps.add("c.amplmax", Cat(limit = s.pick(std::vector<double>{1, 7.5, 100, 0.25})));
  BlSel sel;
  if (s.b()) sel = GenBl(s, b, ps, "c.", false);
  std::vector<char> in_sel;
  bool any = false;
  for (size_t i = 0; i < b.nbl; ++i) {
    in_sel.push_back(!sel.any || sel.Match(b, i));
    any |= in_sel.back() != 0;
  }
  if (!any) throw vpt::Discard{};  // selects nothing: stated limitation of the filter
  s.note(Cat(Note(b), " ", set, " ", ShowSet(ps)));
  std::vector<std::vector<float>> amp(b.nt);
  const int density = s.i(2, 12);
  for (auto& a : amp)
    for (size_t i = 0; i < b.nbl * b.nch * b.ncorr; ++i) a.push_back(float(limit) * (s.chance(1, density) ? s.pick(std::vector<float>{1.01f, 2, 30}) : s.pick(std::vector<float>{0, 0.5f, 0.99f})));
  auto step = std::make_shared<Clipper>(ps, "c.");
  auto model = std::make_shared<Model>();
  model->b = &b;
  model->step = fstep;
  model->amp = &amp;
  step->SetPredict(model);
  step->setNextStep(sink);
  step->setInfo(info);
  RowGen rows(s, b.nbl);
  std::vector<Slot> in;
  for (size_t t = 0; t < b.nt; ++t) {
    in.push_back(GenSlot(s, b, t));
    for (size_t i = 0; i < b.nbl; ++i) in.back().uvw[3 * i] = i;
    auto buf = MakeBuffer(b, in.back());
    SetRows(*buf, rows.Take(b.nbl, s.chance(1, 6)));
    step->process(std::move(buf));
  }
  step->finish();
  CHECK_EQ(sink->bufs.size(), b.nt, "number of buffers");
  CHECK_EQ(sink->n_finish, 1);
  bool clipped = false;
  for (size_t t = 0; t < b.nt; ++t) {
    const DPBuffer& r = *sink->bufs[t];
    const auto& a = amp[t / tstep * tstep];
    for (size_t i = 0; i < b.nbl; ++i)
      for (size_t c = 0; c < b.nch; ++c) {
        const size_t at = (i * b.nch + c / fstep * fstep) * b.ncorr;
        bool one = false;
        for (size_t q = 0; q < b.ncorr; ++q) one |= a[at + q] > limit;
        for (size_t q = 0; q < b.ncorr; ++q) {
          const size_t k = (i * b.nch + c) * b.ncorr + q;
          const bool f = in_sel[i] && (all ? one : a[at + q] > limit);
          clipped |= f;
          CHECK_EQ(bool(r.GetFlags()(i, c, q)), f || in[t].flag[k], "slot ", t, " baseline ", i, " channel ", c, " correlation ", q, ": flag");
          CHECK(r.GetData()(i, c, q) == in[t].data[k], "data changed");
          CHECK_EQ(r.GetWeights()(i, c, q), in[t].weight[k], "weight");
        }
      }
    for (size_t i = 0; i < b.nbl * 3; ++i) CHECK_EQ(r.GetUvw().data()[i], in[t].uvw[i], "uvw");
  }
  CHECK_EQ(model->asked.size(), (b.nt + tstep - 1) / tstep, "number of predictions");
  s.nontrivial(clipped);
}

VPT_MAIN
