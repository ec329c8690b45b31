// P54: the DDECal step: what it solves, writes and hands on.
#include "steps_util.h"

#include <map>
#include <set>

#include <schaapcommon/h5parm/h5parm.h>

#include "base/CalType.h"
#include "base/DP3.h"
#include "ddecal/InitialSolutions.h"
#include "ddecal/Settings.h"
#include "ddecal/SolutionWriter.h"
#include "ddecal/SolverFactory.h"
#include "ddecal/constraints/Constraint.h"
#include "ddecal/gain_solvers/SolveData.h"
#include "ddecal/gain_solvers/SolverBase.h"
#include "ddecal/gain_solvers/SolverTools.h"
#include "sky_model/SkyModelFunctions.h"
#include "steps/DDECal.h"
#include "steps/IDGPredict.h"
#include "steps/UVWFlagger.h"
#include "steps/Predict.h"

using dp3::base::Direction;
using schaapcommon::h5parm::MiniFiles;
using schaapcommon::h5parm::SolTab;
using namespace su;
typedef std::complex<double> dc;

namespace {
// The model visibilities of a direction: [time slot][(bl * nch + ch) * 4 + corr].
std::map<std::string, std::vector<std::vector<cf>>> g_model;
std::map<std::string, Direction> g_dir;
std::map<const void*, std::string> g_predict;
double g_t0 = 0, g_dt = 1;
}  // namespace

// Stand-ins: a Predict step that gives the visibilities above.
namespace dp3 {
namespace steps {
Predict::Predict(const common::ParameterSet&, const std::string&, MsType t) : ms_type_(t) {}
Predict::Predict(const common::ParameterSet&, const std::string&, const std::vector<std::string>& p, MsType t) : ms_type_(t) { g_predict[this] = p.front(); }
bool Predict::process(std::unique_ptr<base::DPBuffer> b) {
  const auto& m = g_model.at(g_predict.at(this)).at(size_t(std::lround((b->GetTime() - g_t0) / g_dt)));
  b->GetData().resize({getInfoOut().nbaselines(), getInfoOut().nchan(), 4});
  std::copy(m.begin(), m.end(), b->GetData().data());
  return getNextStep()->process(std::move(b));
}
bool Predict::process(std::unique_ptr<base::BdaBuffer>) { return false; }
void Predict::finish() { getNextStep()->finish(); }
void Predict::show(std::ostream&) const {}
void Predict::setNextStep(std::shared_ptr<Step> s) { Step::setNextStep(s); }
base::Direction Predict::GetFirstDirection() const { return g_dir.at(g_predict.at(this)); }
void Predict::SetOperation(const std::string&) {}
void Predict::updateInfo(const base::DPInfo& i) { Step::updateInfo(i); }
void Predict::SetThreadData(std::mutex*) {}
void Predict::SetNumThreads(size_t) {}
IDGPredict::IDGPredict(const common::ParameterSet&, const std::string&, const std::vector<aocommon::FitsReader>&, std::vector<schaapcommon::facets::Facet>&&, const std::string&) {}
void IDGPredict::updateInfo(const base::DPInfo&) {}
bool IDGPredict::process(std::unique_ptr<base::DPBuffer>) { return false; }
void IDGPredict::finish() {}
void IDGPredict::show(std::ostream&) const {}
void IDGPredict::showTimings(std::ostream&, double) const {}
void IDGPredict::flush() {}
base::Direction IDGPredict::GetFirstDirection() const { return {}; }
void IDGPredict::SetBufferSize(size_t) {}
size_t IDGPredict::GetBufferSize() const { return 0; }
std::vector<aocommon::FitsReader> IDGPredict::GetReaders(const std::vector<std::string>&) { throw std::runtime_error("no IDG"); }
std::vector<schaapcommon::facets::Facet> IDGPredict::GetFacets(const std::string&, const aocommon::FitsReader&) { throw std::runtime_error("no IDG"); }
}  // namespace steps
namespace sky_model {
std::vector<std::vector<std::string>> MakeDirectionList(const std::vector<std::string>& packed, const std::string&) {
  std::vector<std::vector<std::string>> r;
  for (const std::string& d : packed) r.push_back(common::ParameterValue(d).getStringVector());
  return r;
}
}  // namespace sky_model
namespace base {
namespace {
// A model step that multiplies the visibilities.
class Times : public steps::Step {
 public:
  explicit Times(float f) : f_(f) {}
  common::Fields getRequiredFields() const override { return kDataField; }
  common::Fields getProvidedFields() const override { return kDataField; }
  bool process(std::unique_ptr<DPBuffer> b) override {
    for (auto& v : b->GetData()) v *= f_;
    return getNextStep()->process(std::move(b));
  }
  void finish() override { getNextStep()->finish(); }
  void show(std::ostream&) const override {}
 private:
  float f_;
};
}  // namespace
std::shared_ptr<steps::Step> MakeStepsFromParset(const common::ParameterSet& p, const std::string&, const std::string& key, const std::string&, bool, steps::Step::MsType) {
  const float f = p.getFloat(key);
  if (f == 0) return nullptr;
  return std::make_shared<Times>(f);
}
common::Fields GetChainRequiredFields(std::shared_ptr<steps::Step>) { return su::AllFields(); }
}  // namespace base
}  // namespace dp3

namespace {
struct Case {
  Obs o;
  std::vector<size_t> used, index;  // used antennas, and the number of each among those
  size_t nall = 0, solint = 1, nint = 1, nchan = 1, ncb = 1, ndir = 1, npol = 1, nsub = 1;
  std::vector<std::string> names, labels;   // of model data and of directions, in order of the solutions
  std::vector<bool> reused;
  std::vector<float> factor;
  std::vector<Direction> dirs;
  std::vector<Slot> slots;
  std::vector<std::vector<std::vector<cf>>> model;  // [direction][slot], after the next steps of the model
  std::vector<size_t> begin, sub;
  std::string mode, prefix = "cal.";
  bool dd = false;
  ParameterSet p;
  size_t Block(size_t ch) const { size_t b = 0; while (ch >= begin[b + 1]) ++b; return b; }
  size_t I(size_t bl, size_t ch) const { return (bl * o.nch + ch) * 4; }
};
std::string Text(double x) { return Cat(x); }
bool SameC(cf a, cf b) {
  auto eq = [](float x, float y) { return x == y || (std::isnan(x) && std::isnan(y)); };
  return eq(a.real(), b.real()) && eq(a.imag(), b.imag());
}
bool NearD(double a, double b, double tol) { return a == b || (std::isnan(a) && std::isnan(b)) || std::abs(a - b) <= tol; }
bool CloseC(cf a, dc b, double scale) {
  auto ok = [&](double x, double y) { return (!std::isfinite(x) && !std::isfinite(y)) || std::abs(x - y) <= 1e-5 * scale || !(scale < 1e25); };
  return ok(a.real(), b.real()) && ok(a.imag(), b.imag());
}

struct Opt { bool junk = true, dd = true, one = false; };
Case Gen(Src& s, const Opt& opt) {
  Case c;
  Obs& o = c.o;
  ObsOpt oo;
  oo.all_corr = false;
  oo.max_t = 7;
  o = GenObs(s, oo);  // times, channels
  if (s.b()) {
    o.dt = s.pick(std::vector<double>{1.00139, 0.3, 8.01112, 2.0027773});
    o.t0 = s.pick(std::vector<double>{0.0, 4.8e9, 5.1e9}) + s.i(0, 1000) * 0.1 + o.dt / 2;
  }
  o.names.clear(), o.diam.clear(), o.pos.clear(), o.a1.clear(), o.a2.clear();
  // Antennas without a baseline are mixed with the others.
  const size_t n = s.n(3, 5);
  const bool holes = s.b();
  for (size_t i = 0; i < n; ++i) {
    while (holes && o.names.size() < 8 && s.chance(1, 3)) o.names.push_back("X" + std::to_string(o.names.size()));
    c.used.push_back(o.names.size());
    o.names.push_back("S" + std::to_string(o.names.size()));
  }
  if (holes && s.b()) o.names.push_back("Xlast");
  o.nant = o.names.size();
  c.index.assign(o.nant, 0);
  for (size_t i = 0; i < n; ++i) c.index[c.used[i]] = i;
  for (size_t i = 0; i < o.nant; ++i) o.diam.push_back(30), o.pos.push_back({3826000.0 + 100 * i + s.i(0, 90), 461000.0 + s.i(-2000, 2000), 5064000.0});
  const bool autos = opt.junk && s.chance(1, 3);
  std::vector<std::pair<int, int>> bl;
  for (size_t i = 0; i < n; ++i)
    for (size_t j = i; j < n; ++j) {
      if (i == j && !autos) continue;
      if (opt.junk && s.chance(1, 5)) bl.push_back({int(c.used[j]), int(c.used[i])});
      else bl.push_back({int(c.used[i]), int(c.used[j])});
    }
  if (s.b()) s.shuffle(bl);
  for (auto& b : bl) o.a1.push_back(b.first), o.a2.push_back(b.second);
  o.nbl = bl.size();
  g_t0 = o.t0, g_dt = o.dt;
  // Directions: predicted ones come before reused ones, which are sorted by name.
  c.ndir = opt.one ? 1 : s.n(1, 3);
  size_t npred = s.n(0, c.ndir);
  g_model.clear(), g_dir.clear(), g_predict.clear();
  std::vector<std::string> packed;
  for (size_t d = 0; d < c.ndir; ++d) {
    const bool re = d >= npred;
    const std::string label = std::string(re ? "r" : "p") + std::to_string(d);
    const bool two = !re && s.chance(1, 4);
    c.labels.push_back(two ? "[" + label + ",q]" : "[" + label + "]");
    c.names.push_back((re ? "old." : c.prefix) + label);
    c.reused.push_back(re);
    c.dirs.push_back(Direction(0.3 * d + 0.1, 0.4 - 0.2 * d));
    c.factor.push_back(1);
    if (!re) {
      packed.push_back(c.labels.back());
      g_dir[label] = c.dirs[d];
      if (s.chance(1, 4)) c.factor[d] = 2, c.p.add(c.prefix + "modelnextsteps." + label, "2");
    }
  }
  if (npred && s.chance(1, 5)) {
    c.p.add(c.prefix + "modelnextsteps", "0.5");
    for (size_t d = 0; d < npred; ++d) if (c.factor[d] == 1) c.factor[d] = 0.5;
  }
  if (npred) {
    std::string t;
    for (auto& x : packed) t += (t.empty() ? "" : ",") + x;
    c.p.add(c.prefix + "directions", "[" + t + "]");
  }
  if (npred < c.ndir) {
    if (s.b()) c.p.add(c.prefix + "reusemodel", "[old.*]");
    else {
      std::vector<std::string> l(c.names.begin() + npred, c.names.end());
      s.shuffle(l);
      std::string t;
      for (auto& x : l) t += (t.empty() ? "" : ",") + x;
      c.p.add(c.prefix + "reusemodel", "[" + t + "]");
    }
  }
  // Intervals and channel blocks.
  c.sub.assign(c.ndir, 1);
  c.dd = opt.dd && s.chance(1, 4);
  c.solint = c.dd ? s.pick(std::vector<size_t>{2, 4}) : s.n(0, 4);
  if (c.dd) {
    for (auto& x : c.sub) x = c.solint == 2 ? s.pick(std::vector<size_t>{2, 1}) : s.pick(std::vector<size_t>{2, 4, 1});
    std::string t;
    for (size_t x : c.sub) t += (t.empty() ? "" : ",") + std::to_string(x);
    c.p.add(c.prefix + "solutions_per_direction", "[" + t + "]");
  }
  c.p.add(c.prefix + "solint", std::to_string(c.solint));
  if (c.solint == 0) c.solint = o.nt;
  c.nint = (o.nt + c.solint - 1) / c.solint;
  c.nsub = 0;
  for (size_t x : c.sub) c.nsub += x;
  c.dd = c.nsub != c.ndir;
  const size_t nchan = s.n(0, o.nch + 1);
  c.p.add(c.prefix + "nchan", std::to_string(nchan));
  c.nchan = nchan == 0 || nchan > o.nch ? o.nch : nchan;
  c.ncb = o.nch / c.nchan;
  for (size_t b = 0; b <= c.ncb; ++b) c.begin.push_back(b * o.nch / c.ncb);
  // Data.
  for (size_t t = 0; t < o.nt; ++t) {
    Slot d = GenSlot(s, o, t, opt.junk ? s.pick(std::vector<int>{0, 0, 20, 70}) : 0);
    for (auto& w : d.weight) w = opt.junk && w == 0 ? 0 : s.i(1, 8) * 0.25f;
    c.slots.push_back(d);
  }
  c.model.resize(c.ndir);
  for (size_t d = 0; d < c.ndir; ++d) {
    auto& raw = g_model[c.reused[d] ? c.names[d] : c.names[d].substr(c.prefix.size())];
    for (size_t t = 0; t < o.nt; ++t) {
      raw.emplace_back(o.nbl * o.nch * 4);
      for (size_t i = 0; i < raw[t].size(); ++i) {
        dc v = std::polar(0.4 + s.real(0, 1), s.sym(3.1));
        if (i % 4 == 1 || i % 4 == 2) v *= 0.1;
        if (opt.junk && s.chance(1, 150)) v = dc(NAN, 0);
        raw[t][i] = cf(v);
      }
      c.model[d].push_back(raw[t]);
      for (auto& v : c.model[d][t]) v *= c.factor[d];
    }
  }
  return c;
}
// Data that are the sum of the models with gains, plus errors.
std::vector<std::vector<dc>> Truth(Src& s, Case& c, size_t npol, double spread, double noise) {
  std::vector<std::vector<dc>> all;  // [interval * ncb + block][(antenna * ndir + d) * npol + q]
  const size_t n = c.used.size();
  for (size_t k = 0; k < c.nint * c.ncb; ++k) {
    std::vector<dc> g(n * c.ndir * npol);
    for (size_t i = 0; i < g.size(); ++i) g[i] = npol == 4 && (i % 4 == 1 || i % 4 == 2) ? s.cplx(0.1) : std::polar(1 + 0.3 * s.sym(1), spread * s.sym(1));
    all.push_back(g);
  }
  (void)noise;
  return all;
}
typedef std::array<dc, 4> M;
M Jones(const dc* g, size_t npol) {
  return npol == 1 ? M{g[0], 0, 0, g[0]} : npol == 2 ? M{g[0], 0, 0, g[1]} : M{g[0], g[1], g[2], g[3]};
}
M Corrupt(const M& a, const cf* m, const M& b) {
  M t, r;
  for (int i = 0; i < 2; ++i)
    for (int j = 0; j < 2; ++j) t[i * 2 + j] = a[i * 2] * dc(m[j]) + a[i * 2 + 1] * dc(m[2 + j]);
  for (int i = 0; i < 2; ++i)
    for (int j = 0; j < 2; ++j) r[i * 2 + j] = t[i * 2] * std::conj(b[j * 2]) + t[i * 2 + 1] * std::conj(b[j * 2 + 1]);
  return r;
}
void SetData(Src& s, Case& c, const std::vector<std::vector<dc>>& g, size_t npol, double noise, bool nan) {
  for (size_t t = 0; t < c.o.nt; ++t)
    for (size_t bl = 0; bl < c.o.nbl; ++bl)
      for (size_t ch = 0; ch < c.o.nch; ++ch) {
        const auto& k = g[t / c.solint * c.ncb + c.Block(ch)];
        M sum{};
        for (size_t d = 0; d < c.ndir; ++d) {
          const M r = Corrupt(Jones(&k[(c.index[c.o.a1[bl]] * c.ndir + d) * npol], npol), &c.model[d][t][c.I(bl, ch)], Jones(&k[(c.index[c.o.a2[bl]] * c.ndir + d) * npol], npol));
          for (int q = 0; q < 4; ++q) sum[q] += r[q];
        }
        for (int q = 0; q < 4; ++q) {
          if (noise > 0) sum[q] += s.cplx(noise);
          c.slots[t].data[c.I(bl, ch) + q] = cf(sum[q]);
          if (nan && s.chance(1, 100)) c.slots[t].data[c.I(bl, ch) + q] = cf(NAN, 1);
        }
      }
}
std::unique_ptr<DPBuffer> Buffer(const Case& c, size_t t, bool extra) {
  auto b = MakeBuffer(c.o, c.slots[t]);
  for (size_t d = 0; d < c.ndir; ++d)
    if (c.reused[d]) {
      b->AddData(c.names[d]);
      std::copy(c.model[d][t].begin(), c.model[d][t].end(), b->GetData(c.names[d]).data());
    }
  if (extra) {
    b->AddData("other");
    b->GetData("other").fill(cf(float(t), 3));
  }
  return b;
}
struct Out {
  std::shared_ptr<Sink> sink;
  DPInfo info;
};
// Runs the step over all time slots.
Out Run(const Case& c, bool extra) {
  DPInfo info = MakeInfo(c.o);
  for (size_t d = 0; d < c.ndir; ++d)
    if (c.reused[d]) info.GetDirections()[c.names[d]] = c.dirs[d];
  if (extra) info.GetDirections()["other"] = Direction(1, 1);
  auto step = std::make_shared<dp3::steps::DDECal>(c.p, c.prefix);
  Out r;
  r.sink = std::make_shared<Sink>();
  step->setNextStep(r.sink);
  step->setInfo(info);
  for (size_t t = 0; t < c.o.nt; ++t) {
    step->process(Buffer(c, t, extra));
    const size_t full = (t + 1) / c.solint * c.solint;
    CHECK_EQ(r.sink->bufs.size(), full, "buffers passed on after time slot ", t);
  }
  step->finish();
  CHECK_EQ(r.sink->n_finish, 1, "finish of the next step");
  std::ostringstream o;
  step->show(o);
  step->showTimings(o, 1);
  r.info = step->getInfoOut();
  return r;
}
// The tables of two files.
void SameFiles(const std::string& a, const std::string& b) {
  CHECK(MiniFiles().count(a) && MiniFiles().count(b), "file written");
  CHECK_EQ(MiniFiles()[a]->solsets.size(), MiniFiles()[b]->solsets.size(), "solution sets");
  auto& x = MiniFiles()[a]->solsets.begin()->second;
  auto& y = MiniFiles()[b]->solsets.begin()->second;
  CHECK(x.antennas == y.antennas, "stations of the file");
  CHECK(x.sources == y.sources, "directions of the file");
  CHECK_EQ(x.soltabs.size(), y.soltabs.size(), "tables");
  for (auto& [name, t] : y.soltabs) {
    CHECK(x.soltabs.count(name), "table ", name);
    const SolTab& u = x.soltabs[name];
    CHECK_EQ(u.GetType(), t.GetType(), "type of ", name);
    for (const char* axis : {"ant", "dir", "pol"}) CHECK(u.GetStringAxis(axis) == t.GetStringAxis(axis), name, ": axis ", axis);
    CHECK_EQ(u.GetRealAxis("time").size(), t.GetRealAxis("time").size(), name, ": number of times");
    for (size_t i = 0; i < t.GetRealAxis("time").size(); ++i) CHECK_NEAR(u.GetRealAxis("time")[i], t.GetRealAxis("time")[i], 1e-5, name, ": time ", i);
    CHECK_EQ(u.GetRealAxis("freq").size(), t.GetRealAxis("freq").size(), name, ": number of frequencies");
    for (size_t i = 0; i < t.GetRealAxis("freq").size(); ++i) CHECK_NEAR(u.GetRealAxis("freq")[i], t.GetRealAxis("freq")[i], 1.0, name, ": frequency ", i);
    CHECK_EQ(u.vals.size(), t.vals.size(), name, ": number of values");
    for (size_t i = 0; i < t.vals.size(); ++i) {
      CHECK(NearD(u.vals[i], t.vals[i], 1e-6 * std::max(1.0, std::abs(t.vals[i]))), name, ": value ", i, " is ", u.vals[i], ", expected ", t.vals[i]);
      CHECK(NearD(u.weights[i], t.weights[i], 1e-6 * std::max(1.0, std::abs(t.weights[i]))), name, ": weight ", i, " is ", u.weights[i], ", expected ", t.weights[i]);
    }
  }
}
const std::vector<std::string> kModes = {"scalar", "diagonal", "fulljones", "scalarphase", "diagonalphase", "scalaramplitude", "diagonalamplitude", "tec", "tecandphase", "rotation", "rotation+diagonal", "leakage"};
const size_t kPol[] = {1, 2, 4, 1, 2, 1, 2, 1, 1, 4, 4, 4};

// Chooses a mode, an algorithm and other settings of the solver.
void GenSolver(Src& s, Case& c) {
  size_t m = s.n(kModes.size());
  if (c.ncb < 3 && kModes[m].substr(0, 3) == "tec") m = 3;  // several values of TEC fit equally well
  c.mode = kModes[m], c.npol = kPol[m];
  auto add = [&](const std::string& k, const std::string& v) { c.p.add(c.prefix + k, v); };
  add("mode", c.mode);
  std::string alg = s.pick(std::vector<std::string>{"directionsolve", "directioniterative", "hybrid"});
  if (alg == "directioniterative" && s.b() && c.npol <= 2) add("datause", c.npol == 1 && s.b() ? "single" : "dual");
  add("solveralgorithm", alg);
  add("maxiter", std::to_string(s.i(1, 12)));
  add("stepsize", Text(s.pick(std::vector<double>{0.2, 0.5, 0.8})));
  add("tolerance", Text(s.pick(std::vector<double>{1e-4, 1e-8, 1e-1})));
  if (s.b()) add("detectstalling", "false");
  if (s.b()) {
    s.label("constraint");
    switch (s.n(4)) {
      case 0: add("smoothnessconstraint", Text(s.pick(std::vector<double>{2e6, 1e5}))); if (s.b()) add("smoothnessrefdistance", "500"); break;
      case 1: add("antennaconstraint", "[[" + c.o.names[c.used[0]] + "," + c.o.names[c.used[2]] + "]]"); break;
      case 2: add("coreconstraint", "900"); break;
      default:
        if (c.dd) {
          const size_t m = *std::max_element(c.sub.begin(), c.sub.end());
          const std::string last = c.o.names[c.used.back()];
          add("antenna_averaging_factors", "[S*:1," + last + ":" + std::to_string(m) + "]");
        }
    }
  }
}
std::vector<std::array<double, 3>> UsedPos(const Case& c) {
  std::vector<std::array<double, 3>> r;
  for (size_t i : c.used) r.push_back(c.o.pos[i]);
  return r;
}
std::vector<std::string> UsedNames(const Case& c) {
  std::vector<std::string> r;
  for (size_t i : c.used) r.push_back(c.o.names[i]);
  return r;
}

typedef std::vector<std::vector<std::vector<dc>>> Sols;  // [interval][block][(antenna * nsub + solution) * npol + q]
// An independent schedule around the same solver: every interval on its own.
Sols Reference(const Case& c, const std::string& file, bool* flagged_block) {
  const Obs& o = c.o;
  const size_t n = c.used.size();
  auto sink = std::make_shared<Sink>();  // the first step sets the number of threads
  dp3::ddecal::Settings st(c.p, c.prefix);
  auto solver = dp3::ddecal::CreateSolver(st, UsedNames(c));
  st.PrepareSubSolutionsPerDirection(c.ndir);
  std::vector<double> freqs;
  for (size_t b = 0; b < c.ncb; ++b) {
    double f = 0;
    for (size_t ch = c.begin[b]; ch < c.begin[b + 1]; ++ch) f += o.freq[ch];
    freqs.push_back(f / (c.begin[b + 1] - c.begin[b]));
  }
  auto pos = UsedPos(c);
  for (auto* x : solver->ConstraintSolvers()) dp3::ddecal::InitializeSolverConstraints(*x, st, pos, UsedNames(c), c.dirs, freqs);
  solver->Initialize(n, st.sub_solutions_per_direction, c.ncb);
  CHECK_EQ(solver->NSolutionPolarizations(), c.npol, "polarizations of the solutions");
  dp3::ddecal::InitialSolutions init(c.p, c.prefix);
  init.Initialize(c.ndir, c.npol);
  const bool uvw = c.p.isDefined(c.prefix + "wmrange");
  DPInfo info = MakeInfo(o);
  dp3::steps::UVWFlagger flagger(c.p, c.prefix, dp3::steps::Step::MsType::kRegular);
  if (uvw) {
    flagger.setNextStep(sink);
    flagger.setInfo(info);
  }
  std::vector<int> a1, a2;
  for (size_t bl = 0; bl < o.nbl; ++bl) a1.push_back(c.index[o.a1[bl]]), a2.push_back(c.index[o.a2[bl]]);
  Sols sols(c.nint);
  std::vector<std::vector<std::vector<dp3::ddecal::ConstraintResult>>> results(c.nint);
  size_t last_iter = 0;
  for (size_t k = 0; k < c.nint; ++k) {
    const size_t first = k * c.solint, end = std::min(first + c.solint, o.nt);
    std::vector<std::unique_ptr<DPBuffer>> in;
    std::vector<double> wa(n * c.ncb, 0.0);
    std::vector<size_t> good(c.ncb, 0), total(c.ncb, 0);
    double mean = 0;
    const double factor = 1.0 / double(o.nch * (n - 1) * 4 * c.solint);
    for (size_t t = first; t < end; ++t) {
      mean += c.slots[t].time / double(end - first);
      auto b = MakeBuffer(o, c.slots[t]);
      if (uvw) {
        flagger.process(std::move(b));
        b = std::make_unique<DPBuffer>(*sink->bufs.back());
      }
      for (size_t d = 0; d < c.ndir; ++d) {
        b->AddData(c.names[d]);
        std::copy(c.model[d][t].begin(), c.model[d][t].end(), b->GetData(c.names[d]).data());
      }
      for (size_t bl = 0; bl < o.nbl; ++bl)
        for (size_t ch = 0; ch < o.nch; ++ch)
          for (size_t q = 0; q < 4; ++q) {
            const double w = b->GetFlags()(bl, ch, q) ? 0.0 : b->GetWeights()(bl, ch, q);
            const size_t cb = c.Block(ch);
            wa[a1[bl] * c.ncb + cb] += w * factor;
            wa[a2[bl] * c.ncb + cb] += w * factor;
            ++total[cb];
            if (w > 0) ++good[cb];
          }
      in.push_back(std::move(b));
    }
    for (size_t cb = 0; cb < c.ncb; ++cb)
      if (st.min_vis_ratio > 0 && double(good[cb]) / total[cb] < st.min_vis_ratio) {
        *flagged_block = true;
        for (size_t a = 0; a < n; ++a) wa[a * c.ncb + cb] = 0;
        for (auto& b : in)
          for (size_t bl = 0; bl < o.nbl; ++bl)
            for (size_t ch = c.begin[cb]; ch < c.begin[cb + 1]; ++ch)
              for (size_t q = 0; q < 4; ++q) b->GetFlags()(bl, ch, q) = true;
      }
    while (in.size() < c.solint) {
      in.push_back(std::make_unique<DPBuffer>(*in[0]));
      in.back()->GetFlags().fill(true);
    }
    for (auto* x : solver->ConstraintSolvers()) for (auto& y : x->GetConstraints()) y->SetWeights(wa);
    std::vector<DPBuffer> weighted(in.size());
    dp3::ddecal::AssignAndWeight(in, c.names, weighted, true, false);
    sols[k].resize(c.ncb);
    const bool prev = k > 0 && st.propagate_solutions && !(st.propagate_converged_only && last_iter > solver->GetMaxIterations());
    if (prev) sols[k] = sols[k - 1];
    else if (!init.Empty()) init.Read(st, sols[k], UsedNames(c), freqs, c.dirs, mean);
    else
      for (auto& x : sols[k]) {
        x.assign(n * c.nsub * c.npol, 1.0);
        for (size_t i = 0; c.npol == 4 && i < x.size(); ++i) x[i] = i % 4 == 0 || i % 4 == 3 ? 1.0 : 0.0;
      }
    dp3::ddecal::SolverBase::SolveResult r;
    auto solve = [&](auto data) {
      if (st.model_weighted_constraints) solver->SetDdConstraintWeights(data.GetSolutionWeights());
      r = solver->Solve(data, sols[k], mean);
    };
    const std::string use = c.p.getString(c.prefix + "datause", "full");
    if (use == "single") solve(dp3::ddecal::UniSolveData(std::move(weighted), c.names, c.ncb, n, st.sub_solutions_per_direction, a1, a2));
    else if (use == "dual") solve(dp3::ddecal::DuoSolveData(std::move(weighted), c.names, c.ncb, n, st.sub_solutions_per_direction, a1, a2));
    else solve(dp3::ddecal::FullSolveData(std::move(weighted), c.names, c.ncb, n, st.sub_solutions_per_direction, a1, a2));
    last_iter = r.iterations;
    const bool unconverged = r.iterations > solver->GetMaxIterations();
    bool any = false;
    for (auto& x : r.results) {
      if (!x.empty()) any = true;
      for (auto& y : x)
        for (double& w : y.weights) {
          if (unconverged && st.flag_unconverged) w = st.flag_diverged_only ? std::max(w, 0.0) : 0.0;
          else if (w < 0) w = 1;
        }
    }
    if (any) results[k] = r.results;
  }
  dp3::ddecal::SolutionWriter writer(file);
  writer.AddAntennas(o.names, o.pos);
  std::vector<std::vector<std::string>> patches;
  for (auto& l : c.labels) patches.push_back(dp3::common::ParameterValue(l).getStringVector());
  writer.Write(sols, results, c.slots[0].time - 0.5 * o.dt, c.slots[o.nt - 1].time + 0.5 * o.dt, o.dt, c.solint, st.sub_solutions_per_direction, st.mode, UsedNames(c), c.dirs, patches, o.freq, freqs, "");
  return sols;
}
// What the step hands on.
void CheckOut(const Case& c, const Out& r, const Sols& sols, bool subtract, bool keep, bool store, bool extra) {
  const Obs& o = c.o;
  CHECK_EQ(r.sink->bufs.size(), o.nt, "buffers passed on");
  for (size_t t = 0; t < o.nt; ++t) {
    DPBuffer& b = *r.sink->bufs[t];
    const Slot& d = c.slots[t];
    CHECK_EQ(b.GetTime(), d.time, "time of buffer ", t);
    for (size_t i = 0; i < d.flag.size(); ++i) CHECK_EQ(bool(b.GetFlags().data()[i]), bool(d.flag[i]), "flag ", i, " of time slot ", t);
    for (size_t i = 0; i < d.weight.size(); ++i) CHECK_EQ(b.GetWeights().data()[i], d.weight[i], "weight ", i, " of time slot ", t);
    for (size_t i = 0; i < d.uvw.size(); ++i) CHECK_EQ(b.GetUvw().data()[i], d.uvw[i], "uvw ", i, " of time slot ", t);
    for (const std::string& n : c.names) CHECK_EQ(b.HasData(n), keep, "model data ", n, " of time slot ", t);
    CHECK_EQ(b.HasData("other"), extra, "other data of time slot ", t);
    if (extra) for (cf v : b.GetData("other")) CHECK(v == cf(float(t), 3), "other data of time slot ", t);
    for (size_t bl = 0; bl < o.nbl; ++bl)
      for (size_t ch = 0; ch < o.nch; ++ch) {
        const size_t i = c.I(bl, ch);
        M sum{};
        double scale[4];
        for (int q = 0; q < 4; ++q) scale[q] = std::abs(dc(d.data[i + q]));
        if (subtract || keep)
          for (size_t x = 0; x < c.ndir; ++x) {
            const auto& g = sols[t / c.solint][c.Block(ch)];
            const M ga = Jones(&g[(c.index[o.a1[bl]] * c.ndir + x) * c.npol], c.npol), gb = Jones(&g[(c.index[o.a2[bl]] * c.ndir + x) * c.npol], c.npol);
            const M v = Corrupt(ga, &c.model[x][t][i], gb);
            double na = 0, nb = 0, nm = 0;
            for (int q = 0; q < 4; ++q) na += std::abs(ga[q]), nb += std::abs(gb[q]), nm += std::abs(dc(c.model[x][t][i + q]));
            for (int q = 0; q < 4; ++q) {
              sum[q] += v[q];
              scale[q] += na * nb * nm;
              if (keep) {
                const cf m = b.GetData(c.names[x]).data()[i + q];
                CHECK(CloseC(m, v[q], na * nb * nm), "corrected model ", c.names[x], " of baseline ", bl, " channel ", ch, " correlation ", q, " time slot ", t, ": ", m, " expected ", v[q]);
              }
            }
          }
        for (int q = 0; q < 4; ++q) {
          const cf v = b.GetData().data()[i + q];
          if (subtract) CHECK(CloseC(v, dc(d.data[i + q]) - sum[q], scale[q]), "residual of baseline ", bl, " channel ", ch, " correlation ", q, " time slot ", t, ": ", v, " expected ", dc(d.data[i + q]) - sum[q]);
          else CHECK(SameC(v, d.data[i + q]), "data of baseline ", bl, " channel ", ch, " correlation ", q, " time slot ", t, " changed");
        }
      }
    const bool front = store && t % c.solint == 0;
    CHECK_EQ(b.GetSolution().size(), front ? c.ndir : 0, "solutions in the buffer of time slot ", t);
    for (size_t x = 0; front && x < c.ndir; ++x) {
      const auto& z = b.GetSolution().at(c.names[x]);
      CHECK(z.shape(0) == c.ncb && z.shape(1) == c.used.size() && z.shape(2) == c.npol, "shape of the solutions of time slot ", t);
      for (size_t cb = 0; cb < c.ncb; ++cb)
        for (size_t a = 0; a < c.used.size(); ++a)
          for (size_t q = 0; q < c.npol; ++q) {
            const dc v = z(cb, a, q), e = sols[t / c.solint][cb][(a * c.ndir + x) * c.npol + q];
            CHECK(CloseC(cf(v), e, 1 + std::abs(e)), "solution in the buffer: ", v, " expected ", e);
          }
    }
  }
  // The directions that later steps may use.
  DPInfo info = r.info;
  auto& dirs = info.GetDirections();
  size_t n = extra ? 1 : 0;
  if (extra) CHECK_EQ(dirs.count("other"), 1u, "other direction");
  for (size_t x = 0; x < c.ndir; ++x) {
    CHECK_EQ(bool(dirs.count(c.names[x])), keep, "direction ", c.names[x]);
    if (!keep) continue;
    ++n;
    CHECK(dirs[c.names[x]].ra == c.dirs[x].ra && dirs[c.names[x]].dec == c.dirs[x].dec, "coordinates of ", c.names[x]);
  }
  CHECK_EQ(dirs.size(), n, "directions");
}
// A file with initial solutions.
void MakeInit(Src& s, const Case& c) {
  auto f = std::make_shared<schaapcommon::h5parm::MiniFile>();
  auto& set = f->solsets["sol000"];
  set.antennas.clear();
  std::vector<std::string> dirs;
  for (size_t d = 0; d < c.ndir; ++d) {
    const std::string n = "[i" + std::to_string(d) + "]";
    dirs.push_back(n);
    set.sources.push_back({n, {c.dirs[d].ra, c.dirs[d].dec}});
  }
  std::vector<double> times, freqs = c.o.freq;
  // Off centre, so that rounding does not decide which one is nearest.
  for (size_t t = 0; t < c.o.nt; ++t) times.push_back(c.slots[t].time + 0.11 * c.o.dt);
  const size_t np = c.npol == 4 ? 4 : 2;
  for (const char* type : {"amplitude", "phase"}) {
    const bool amp = type[0] == 'a';
    SolTab t(std::string(type) + "000", type, {{"time", unsigned(times.size())}, {"freq", unsigned(freqs.size())}, {"ant", unsigned(c.o.nant)}, {"dir", unsigned(dirs.size())}, {"pol", unsigned(np)}});
    std::vector<double> v(t.Size());
    for (size_t i = 0; i < v.size(); ++i) {
      v[i] = amp ? s.real(0.6, 1.6) : s.sym(2);
      if (np == 4 && amp && (i % 4 == 1 || i % 4 == 2)) v[i] *= 0.1;
    }
    t.SetValues(v, {});
    t.SetAntennas(c.o.names);
    t.SetSources(dirs);
    t.SetPolarizations(np == 2 ? std::vector<std::string>{"XX", "YY"} : std::vector<std::string>{"XX", "XY", "YX", "YY"});
    t.SetFreqs(freqs);
    t.SetTimes(times);
    set.soltabs[t.GetName()] = t;
  }
  MiniFiles()["init.h5"] = f;
}
std::string Show(const Case& c) { return Cat(su::Note(c.o), " solint=", c.solint, " nchan=", c.nchan, " ndir=", c.ndir, " used=", c.used.size(), "/", c.o.nant, " dd=", c.dd, " mode=", c.mode); }
}  // namespace

// The solutions are those of the solver for exactly the data of each interval.
PROP("P54.solve", 250, 3000) {
  Case c = Gen(s, {});
  GenSolver(s, c);
  auto add = [&](const std::string& k, const std::string& v) { c.p.add(c.prefix + k, v); };
  add("h5parm", "out.h5");
  MiniFiles().clear();
  const bool nan = s.chance(1, 3);
  const size_t np = s.pick(std::vector<size_t>{1, 2, 4});
  SetData(s, c, Truth(s, c, np, 1.0, 0), np, s.pick(std::vector<double>{0, 0.1}), nan);
  if (s.chance(1, 3)) add("wmrange", "[0..300]"), s.label("uvw flags");
  if (s.chance(1, 3)) add("minvisratio", Text(s.pick(std::vector<double>{0.3, 0.6, 0.9})));
  if (s.chance(1, 3)) add("propagatesolutions", "true");
  if (s.b()) add("propagateconvergedonly", "true");
  if (s.chance(1, 3)) add("flagunconverged", "true");
  if (s.b()) add("flagdivergedonly", "true");
  if (s.chance(1, 4)) add("model_weighted_constraints", "true");
  if (c.npol != 1 && s.chance(1, 3)) {
    MakeInit(s, c);
    add("initialsolutions.h5parm", "init.h5");
    add("initialsolutions.soltab", "[amplitude000,phase000]");
    s.label("initial solutions");
  }
  const bool subtract = !c.dd && s.b(), keep = !c.dd && s.chance(1, 3), store = !c.dd && s.chance(1, 3), extra = s.chance(1, 3);
  if (subtract) add("subtract", "true");
  if (keep) add("keepmodel", "true");
  if (store) add("storebuffer", "true");
  s.note(Show(c));
  std::ostringstream ps;
  for (const auto& kv : c.p) ps << kv.first << '=' << kv.second << ' ';
  s.note(ps.str());
  bool block = false, refused = false;
  std::string why;
  Sols sols;
  try {
    sols = Reference(c, "ref.h5", &block);
  } catch (const std::exception& e) {
    refused = true;
    why = e.what();
  }
  if (refused) {
    s.note(why);
    CHECK(vpt::Throws([&] { Run(c, extra); }), "refused by the solver but not by the step: ", why);
    s.label("refused");
    return;
  }
  const Out r = Run(c, extra);
  bool diverged = false;
  for (auto& k : sols) for (auto& b : k) for (dc v : b) if (!(std::abs(v) < 100)) diverged = true;
  if (diverged) {
    s.label("diverged");
    // Rounding of the antenna weights is amplified.
    if (c.mode.substr(0, 3) == "tec" || c.p.isDefined(c.prefix + "smoothnessconstraint")) return;
  }
  SameFiles("out.h5", "ref.h5");
  CheckOut(c, r, sols, subtract, keep, store, extra);
  if (block) s.label("flagged block");
  if (c.used.size() < c.o.nant) s.label("unused antennas");
  if (c.dd) s.label("dd intervals");
  s.nontrivial(c.nint > 1 || c.ncb > 1 || c.ndir > 1);
}

// Noiseless data of one direction are explained completely.
PROP("P54.truth", 120, 1500) {
  Opt opt;
  opt.junk = opt.dd = false;
  opt.one = true;
  Case c = Gen(s, opt);
  auto add = [&](const std::string& k, const std::string& v) { c.p.add(c.prefix + k, v); };
  const size_t m = s.n(2);  // full Jones converges too slowly
  c.mode = kModes[m], c.npol = kPol[m];
  add("mode", c.mode);
  add("h5parm", "out.h5");
  add("solveralgorithm", s.pick(std::vector<std::string>{"directionsolve", "directioniterative"}));
  add("maxiter", "300");
  add("tolerance", "1e-9");
  add("detectstalling", "false");
  add("stepsize", "0.3");
  add("subtract", "true");
  const auto g = Truth(s, c, c.npol, 0.5, 0);
  SetData(s, c, g, c.npol, 0, false);
  s.note(Show(c));
  MiniFiles().clear();
  const Out r = Run(c, false);
  for (size_t t = 0; t < c.o.nt; ++t) {
    double left = 0, all = 0;
    for (size_t i = 0; i < c.slots[t].data.size(); ++i) {
      left += std::norm(dc(r.sink->bufs[t]->GetData().data()[i]));
      all += std::norm(dc(c.slots[t].data[i]));
    }
    CHECK(left <= 0.0025 * all, "residual of time slot ", t, ": ", std::sqrt(left / all), " of the data");
  }
  s.nontrivial(c.nint * c.ncb > 1);
}

// Only the model is asked for.
PROP("P54.predict", 150, 1500) {
  Opt opt;
  opt.dd = false;
  Case c = Gen(s, opt);
  auto add = [&](const std::string& k, const std::string& v) { c.p.add(c.prefix + k, v); };
  add("onlypredict", "true");
  add("mode", "scalar");
  c.npol = 1;
  const bool keep = s.b(), extra = s.b();
  if (keep) add("keepmodel", "true");
  s.note(Show(c));
  MiniFiles().clear();
  SetData(s, c, Truth(s, c, 1, 1, 0), 1, 0, s.b());
  const Out r = Run(c, extra);
  CHECK(MiniFiles().empty(), "no solutions are written");
  for (size_t t = 0; t < c.o.nt; ++t) {
    DPBuffer& b = *r.sink->bufs[t];
    const Slot& d = c.slots[t];
    CHECK_EQ(b.GetTime(), d.time, "time of buffer ", t);
    for (size_t i = 0; i < d.data.size(); ++i) {
      CHECK_EQ(bool(b.GetFlags().data()[i]), bool(d.flag[i]), "flag ", i);
      CHECK_EQ(b.GetWeights().data()[i], d.weight[i], "weight ", i);
      dc sum = 0;
      double scale = 0;
      for (size_t x = 0; x < c.ndir; ++x) {
        sum += dc(c.model[x][t][i]);
        const double a = std::abs(dc(c.model[x][t][i]));
        if (std::isfinite(a)) scale += a;
        if (keep) CHECK(SameC(b.GetData(c.names[x]).data()[i], c.model[x][t][i]), "model ", c.names[x], " value ", i, " of time slot ", t);
        else CHECK(!b.HasData(c.names[x]), "model ", c.names[x], " is still there");
      }
      const cf v = b.GetData().data()[i];
      if (keep) CHECK(SameC(v, d.data[i]), "data ", i, " of time slot ", t, " changed");
      else CHECK(CloseC(v, sum, scale), "sum of the models ", i, " of time slot ", t, ": ", v, " expected ", sum);
    }
    CHECK_EQ(b.HasData("other"), extra, "other data");
  }
  s.nontrivial(c.ndir > 1);
}

// Requests that cannot be met are refused.
PROP("P54.refuse", 100, 1000) {
  Opt opt;
  const int what = s.n(5);
  opt.dd = what == 0;
  Case c = Gen(s, opt);
  auto add = [&](const std::string& k, const std::string& v) { c.p.add(c.prefix + k, v); };
  add("mode", "diagonal");
  add("maxiter", "2");
  MiniFiles().clear();
  if (what != 4) add("h5parm", "out.h5");
  SetData(s, c, Truth(s, c, 2, 1, 0), 2, 0, false);
  if (what == 0) {
    if (!c.dd) throw vpt::Discard{};
    add(s.b() ? "subtract" : "keepmodel", "true");
  } else if (what == 1) {
    const std::string k = c.prefix + "reusemodel";
    if (c.p.isDefined(k)) {
      std::string v = c.p.getString(k);
      v.insert(v.size() - 1, ",nothing*");
      c.p.replace(k, v);
    } else c.p.add(k, "[nothing*]");
  } else if (what == 2) {
    bool any = false;
    for (bool r : c.reused) any |= r;
    if (!any) throw vpt::Discard{};
    size_t victim = c.ndir;
    for (size_t d = 0; d < c.ndir; ++d) if (c.reused[d] && (victim == c.ndir || s.b())) victim = d;
    DPInfo info = MakeInfo(c.o);
    for (size_t d = 0; d < c.ndir; ++d) if (c.reused[d]) info.GetDirections()[c.names[d]] = c.dirs[d];
    auto step = std::make_shared<dp3::steps::DDECal>(c.p, c.prefix);
    auto sink = std::make_shared<Sink>();
    step->setNextStep(sink);
    step->setInfo(info);
    auto b = Buffer(c, 0, true);
    b->RemoveData(c.names[victim]);
    CHECK(vpt::Throws([&] { step->process(std::move(b)); }), "buffer without ", c.names[victim]);
    s.nontrivial(true);
    return;
  } else if (what == 3) {
    ParameterSet p;
    p.add(c.prefix + "h5parm", "out.h5");
    DPInfo info = MakeInfo(c.o);
    if (s.b()) info.GetDirections()["x"] = Direction(1, 1);
    CHECK(vpt::Throws([&] {
            auto step = std::make_shared<dp3::steps::DDECal>(p, c.prefix);
            step->setNextStep(std::make_shared<Sink>());
            step->setInfo(info);
          }),
          "no directions");
    s.nontrivial(true);
    return;
  }
  s.note(Cat(what, " ", Show(c)));
  CHECK(vpt::Throws([&] { Run(c, false); }), "not refused: ", what);
  s.nontrivial(true);
}
VPT_MAIN
