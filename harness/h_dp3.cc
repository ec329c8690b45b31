// P46: the chain of steps that a parset and the command line stand for. The
// complete base/DP3.cc, with stand-ins for the steps (shims/dp3).
#include <algorithm>
#include <cctype>
#include <filesystem>
#include <fstream>
#include <map>
#include <set>

#include "base/DP3.h"
#include "base/DPInfo.h"
#include "common/Fields.h"
#include "common/ParameterSet.h"
#include "standin.h"
#include "steps/NullStep.h"
#include "vpt.h"

#include <casacore/ms/MeasurementSets/MeasurementSet.h>
#include <schaapcommon/threading/threadpool.h>

using dp3::common::Fields;
using dp3::common::ParameterSet;
using dp3::steps::InputStep;
using dp3::steps::NullStep;
using dp3::steps::OutputStep;
using dp3::steps::Step;
using standin::Decode;
using standin::Event;
using vpt::Src;

namespace dp3 {
namespace steps {
InputStep::~InputStep() = default;
std::string InputStep::msName() const { return ""; }
const casacore::Table& InputStep::table() const { throw std::runtime_error("no table"); }
bool InputStep::HasBda(const casacore::MeasurementSet&) { return false; }
std::unique_ptr<InputStep> InputStep::CreateReader(const common::ParameterSet& p) { return std::make_unique<FakeInput>(p, "msin.", "Reader"); }
void FakeInput::updateInfo(const base::DPInfo& i) {
  standin::Log().push_back({prefix, "info"});
  base::DPInfo info = i;
  if (n_ > 0) info.setTimes(100.0, 100.0 + n_ - 1, 1.0);
  InputStep::updateInfo(info);
}
}  // namespace steps
}  // namespace dp3

namespace {
template <typename... A>
std::string Cat(const A&... a) {
  std::ostringstream o;
  (o << ... << a);
  return o.str();
}

const std::vector<std::pair<const char*, const char*>> kTypes = {
    {"aoflagger", "AOFlaggerStep"}, {"aoflag", "AOFlaggerStep"}, {"averager", "Averager"}, {"average", "Averager"},
    {"squash", "Averager"}, {"bdaaverage", "BdaAverager"}, {"bdaaverager", "BdaAverager"}, {"bdaexpander", "BdaExpander"},
    {"madflagger", "MadFlagger"}, {"madflag", "MadFlagger"}, {"preflagger", "PreFlagger"}, {"preflag", "PreFlagger"},
    {"antennaflagger", "AntennaFlagger"}, {"antflag", "AntennaFlagger"}, {"uvwflagger", "UVWFlagger"}, {"uvwflag", "UVWFlagger"},
    {"clipper", "Clipper"}, {"combine", "Combine"}, {"columnreader", "MsColumnReader"}, {"counter", "Counter"}, {"count", "Counter"},
    {"phaseshifter", "PhaseShift"}, {"phaseshift", "PhaseShift"}, {"demixer", "Demixer"}, {"demix", "Demixer"},
    {"applybeam", "ApplyBeam"}, {"stationadder", "StationAdder"}, {"stationadd", "StationAdder"}, {"scaledata", "ScaleData"},
    {"setbeam", "SetBeam"}, {"filter", "Filter"}, {"applycal", "ApplyCal"}, {"correct", "ApplyCal"}, {"nullstokes", "NullStokes"},
    {"predict", "Predict"}, {"wgridderpredict", "WGridderPredict"}, {"idgpredict", "IDGPredict"}, {"idgimager", "IDGImager"},
    {"upsample", "Upsample"}, {"interpolate", "Interpolate"}, {"grouppredict", "BdaGroupPredict"}, {"h5parmpredict", "H5ParmPredict"},
    {"gaincal", "GainCal"}, {"calibrate", "GainCal"}, {"python", "PyStep"}, {"pythondppp", "PyStep"}, {"ddecal", "DDECal"},
    {"dynspec", "DynSpec"}, {"wscleanwriter", "WSCleanWriter"}, {"flagtransfer", "FlagTransfer"}, {"transfer", "Transfer"}};
const std::set<std::string> kTyped = {"UVWFlagger", "Combine", "MsColumnReader", "ScaleData", "Predict"};

struct Model {
  std::string kind, prefix, out_name;
  int input_type = -1;
  bool output = false, null = false;
  Fields write;
};

struct Case {
  std::map<std::string, std::string> keys;
  bool error = false;           // the chain cannot be made
  std::string why;
  std::vector<Model> chain;     // after the input step, including a final null step
  Fields read;
  std::string input_kind, input_prefix;
  int n = 0;
  std::set<std::string> unused;
};

std::string Mixed(Src& s, std::string t) {
  if (s.chance(1, 4))
    for (char& c : t)
      if (s.b()) c = std::toupper(c);
  return t;
}

std::string Absolute(const std::string& n) { return n[0] == '/' ? n : Cat(std::filesystem::current_path().string(), "/", n); }

std::string FieldText(Src& s) {
  std::string t;
  for (char c : {'d', 'w', 'f', 'u'})
    if (s.chance(1, 3)) t += c;
  return t;
}

void Next(const Fields& req, const Fields& prov, Fields& all) {
  Fields r = req;
  if (all.Data() && !prov.Data()) r |= Step::kDataField;
  if (all.Weights() && !prov.Weights()) r |= Step::kWeightsField;
  if (all.Flags() && !prov.Flags()) r |= Step::kFlagsField;
  if (all.Uvw() && !prov.Uvw()) r |= Step::kUvwField;
  all = r;
}

// sub: only the steps (for steps inside another step).
Case Generate(Src& s, bool sub, const std::string& sub_ms, bool sub_bda) {
  Case c;
  auto fail = [&](const std::string& w) {
    if (!c.error) c.why = w;
    c.error = true;
  };
  std::string ms = sub_ms;
  bool bda = sub_bda, input_bda = sub_bda;
  if (!sub) {
    const int kind = s.n(8);
    c.input_prefix = "msin.";
    std::string name = s.pick({"in.ms", "/data/in.ms", "dir/in.ms", "./in.ms"});
    if (kind == 0) {
      c.keys["msin.filetype"] = "aartfaac";
      c.keys["msin.name"] = name;
      c.input_kind = "AartfaacReader";
    } else if (kind == 1) {
      c.keys["stream.socket"] = "1234";
      c.input_prefix = "stream.";
      c.input_kind = "SVPInput";
      name = "stream";
    } else if (kind == 2) {
      c.input_kind = "";
      fail("no input");
      if (s.b()) c.keys["msin.filetype"] = "ms";
    } else {
      c.input_kind = "Reader";
      c.keys[s.b() ? "msin" : "msin.name"] = name;
      if (s.b()) c.keys["msin.filetype"] = "ms";
      // A measurement set comes before a stream.
      if (s.chance(1, 6)) c.keys["stream.socket"] = "1234", c.unused.insert("stream.socket");
    }
    c.n = s.n(0, 4);
    c.keys[c.input_prefix + "n"] = Cat(c.n);
    if (s.chance(1, 4)) c.keys[c.input_prefix + "bda"] = "true", bda = input_bda = true;
    ms = std::filesystem::path(Absolute(name)).lexically_normal().string();
  }
  const std::string input_ms = ms;
  const size_t n_steps = s.n(0, 5);
  std::string list;
  std::vector<Fields> req, prov;
  Fields since;
  bool first = true, split = false;
  for (size_t i = 0; i < n_steps; ++i) {
    Model m;
    std::string type, name;
    const int what = s.n(20);
    if (what < 14) {
      const auto& t = kTypes[s.n(kTypes.size())];
      type = t.first;
      m.kind = t.second;
      if (m.kind == "DDECal" && bda) m.kind = "BdaDdeCal";
    } else if (what < 17) {
      type = s.pick({"out", "output", "msout"});
      m.output = true;
    } else if (what == 17) {
      type = "null";
      m.kind = "null";
      m.null = m.output = true;
    } else if (what == 18 && i + 1 == n_steps) {
      type = s.pick({"split", "explode"});
      m.kind = "Split";
      split = m.output = true;
    } else if (what == 19 && s.chance(1, 2)) {
      type = s.pick({"nosuchstep", "", "averag", "image", "sagecalpredict", "outs"});
      fail(Cat("type ", type));
    } else {
      type = "averager";
      m.kind = "Averager";
    }
    if (m.kind == "WSCleanWriter") m.output = true;
    if (type == "" || s.b()) {
      name = Cat(s.pick({"a", "step", "x_", "out9b"}), i, s.b() ? "" : "b");
      c.keys[name + ".type"] = type == "" ? "\"\"" : Mixed(s, type);
    } else {
      // The type is the name, with a number or not. msout has its own meaning
      // for the name.
      name = Mixed(s, type);
      if (name == "msout" || s.b()) name += Cat(i);
      else if (c.keys.count(name + ".req")) name += Cat(i + 10);
    }
    list += Cat(list.empty() ? "" : ",", name);
    m.prefix = name + ".";
    Fields r, p;
    bool accepts[2] = {true, true};
    bool out_bda = false;
    if (m.kind != "null" && m.kind != "BdaExpander") {
      const std::string tr = FieldText(s), tp = FieldText(s);
      c.keys[m.prefix + "req"] = Cat("\"", tr, "\"");
      c.keys[m.prefix + "prov"] = Cat("\"", tp, "\"");
      r = Decode(tr);
      if (!m.output) p = Decode(tp);
      if (s.chance(1, 8)) {
        accepts[0] = s.b();
        accepts[1] = s.b();
        c.keys[m.prefix + "accepts"] = Cat("\"", accepts[0] ? "r" : "", accepts[1] ? "b" : "", "\"");
      }
      if (s.chance(1, 5) || m.kind == "BdaAverager") {
        out_bda = s.chance(4, 5);
        c.keys[m.prefix + "out"] = out_bda ? "b" : "r";
      }
    }
    if (m.output && m.kind != "Split") out_bda = false;
    if (kTyped.count(m.kind)) m.input_type = bda;
    if (m.output && m.kind.empty() && !c.error) {
      // A measurement set.
      std::string out = s.pick({".", "", "new.ms", "/data/in.ms", "in.ms", "dir/../in.ms", "/data/new.ms"});
      c.keys[m.prefix + "name"] = Cat("\"", out, "\"");
      const bool update = out == "" || out == "." || std::filesystem::path(Absolute(out)).lexically_normal().string() == ms;
      if ((out == "" || out == ".") && ms.empty()) fail("no name");
      if (update && bda) fail("update of BDA data");
      m.out_name = update ? ms : out;
      m.kind = bda ? "MSBDAWriter" : update ? "MSUpdater" : "MSWriter";
      if (!c.error) ms = std::filesystem::path(Absolute(m.out_name)).lexically_normal().string();
      out_bda = bda;
    }
    if (!first && !accepts[bda]) fail("incompatible");
    if (!first && !c.error && m.null && bda) {}  // takes everything
    first = false;
    if (m.output) {
      m.write = since;
      since = Fields();
    } else {
      since |= p;
    }
    bda = out_bda;
    req.push_back(r), prov.push_back(p);
    c.chain.push_back(m);
  }
  c.keys["steps"] = Cat("[", list, "]");
  if (sub) return c;
  // The last output step.
  const bool ends = !c.chain.empty() && c.chain.back().output;
  std::string out = s.pick({"", "new.ms", ".", "/data/in.ms", "in.ms"});
  const int given = s.n(10);
  const std::string key = given < 5 ? "msout" : "msout.name";
  if (given > 0) c.keys[key] = Cat("\"", out, "\"");
  else if (!ends) fail("no msout");
  if (ends && given > 0) c.unused.insert(key);
  if (!ends && !c.error && (out != "" || since != Fields())) {
    Model m;
    m.output = true;
    m.prefix = "msout.";
    const std::string tr = FieldText(s);
    c.keys["msout.req"] = Cat("\"", tr, "\"");
    const bool update = out == "" || out == "." || std::filesystem::path(Absolute(out)).lexically_normal().string() == input_ms;
    if (c.chain.empty()) bda = input_bda;
    if (update && bda) fail("update of BDA data");
    m.out_name = update ? input_ms : out;
    m.kind = bda ? "MSBDAWriter" : update ? "MSUpdater" : "MSWriter";
    m.write = since;
    req.push_back(Decode(tr)), prov.push_back(Fields());
    c.chain.push_back(m);
  }
  for (size_t i = req.size(); i-- > 0;) Next(req[i], prov[i], c.read);
  if (!split) {
    Model m;
    m.kind = "null";
    m.null = m.output = true;
    c.chain.push_back(m);
  }
  return c;
}

void Show(Src& s, const Case& c) {
  std::string t;
  for (auto& k : c.keys) t += Cat(k.first, "=", k.second, "; ");
  s.note(t);
  if (c.error) s.note("expect an error: " + c.why);
}

void CheckChain(const Case& c, const std::shared_ptr<Step>& begin, bool sub) {
  size_t i = 0;
  for (std::shared_ptr<Step> p = begin; p; p = p->getNextStep(), ++i) {
    CHECK(i < c.chain.size(), "more steps than ", c.chain.size());
    const Model& m = c.chain[i];
    if (m.null) {
      CHECK(dynamic_cast<NullStep*>(p.get()) != nullptr, "step ", i, " is not a null step");
    } else {
      auto* q = dynamic_cast<standin::Info*>(p.get());
      CHECK(q != nullptr, "step ", i, " is not a ", m.kind);
      CHECK_EQ(q->kind, m.kind, "step ", i);
      CHECK_EQ(q->prefix, m.prefix, "prefix of step ", i, " ", m.kind);
      CHECK_EQ(q->out_name, m.out_name, "output name of step ", i, " ", m.kind);
      if (q->input_type >= 0) CHECK_EQ(q->input_type, m.input_type, "data type given to step ", i, " ", m.kind);
    }
    if (m.output && !sub) {
      auto* o = dynamic_cast<OutputStep*>(p.get());
      CHECK(o != nullptr, "step ", i, " is no output step");
      if (!m.null) CHECK(o->GetFieldsToWrite() == m.write, "fields written by step ", i, " ", m.kind, ": ", o->GetFieldsToWrite(), " not ", m.write);
    }
    if (p->getNextStep()) CHECK(p->getNextStep()->getPrevStep() == p.get(), "previous of step ", i + 1);
  }
  CHECK_EQ(i, c.chain.size(), "number of steps");
}

std::string Dir() {
  const char* t = std::getenv("VPT_TMP");
  return Cat(t ? t : "/tmp", "/dp3_", getpid());
}

struct Scratch {
  Scratch() : old(std::filesystem::current_path()), dir(Dir()) {
    std::filesystem::create_directories(dir);
    std::filesystem::current_path(dir);
  }
  ~Scratch() {
    std::filesystem::current_path(old);
    std::filesystem::remove_all(dir);
  }
  std::filesystem::path old, dir;
};
}  // namespace

PROP("P46.chain", 6000, 150000) {
  const Case c = Generate(s, false, "", false);
  Show(s, c);
  ParameterSet p;
  for (auto& k : c.keys) p.add(k.first, k.second);
  std::shared_ptr<InputStep> in;
  std::string msg;
  const bool bad = vpt::Throws([&] { in = dp3::base::MakeMainSteps(p); });
  CHECK_EQ(bad, c.error, "failure to make the steps; ", c.why);
  s.nontrivial(!bad && c.chain.size() > 1);
  if (bad) return;
  auto* q = dynamic_cast<standin::Info*>(in.get());
  CHECK(q && q->kind == c.input_kind && q->prefix == c.input_prefix, "input step");
  CheckChain(c, in->getNextStep(), false);
  CHECK(in->getFieldsToRead() == c.read, "fields to read ", in->getFieldsToRead(), " not ", c.read);
}

PROP("P46.substeps", 3000, 100000) {
  const std::string ms = s.pick({"", "/data/in.ms"});
  const bool bda = s.chance(1, 3), end = s.b();
  Case c = Generate(s, true, ms, bda);
  s.note(Cat("ms ", ms, " bda ", bda, " end ", end));
  Show(s, c);
  ParameterSet p;
  const std::string prefix = s.pick({"", "sub."}), key = s.pick({"steps", "modelsteps"});
  for (auto& k : c.keys) p.add(k.first == "steps" ? prefix + key : k.first, k.second);
  if (end && !c.chain.empty() && c.chain.back().kind == "Split") throw vpt::Discard{};
  std::shared_ptr<Step> first;
  const bool bad = vpt::Throws([&] {
    first = dp3::base::MakeStepsFromParset(p, prefix, key, ms, end, bda ? Step::MsType::kBda : Step::MsType::kRegular);
  });
  CHECK_EQ(bad, c.error, "failure to make the steps; ", c.why);
  s.nontrivial(!bad && c.chain.size() > 1);
  if (bad) return;
  if (end && !c.chain.empty()) {
    Model m;
    m.null = m.output = true;
    c.chain.push_back(m);
  }
  CheckChain(c, first, true);
}

PROP("P46.run", 2500, 80000) {
  Scratch scratch;
  Case c = Generate(s, false, "", false);
  bool strict = false;
  if (s.b()) {
    static const std::pair<const char*, bool> kCheck[] = {{"0", false}, {"1", true}, {"-1", false}, {"true", true}, {"false", false}, {"2", true}};
    auto v = kCheck[s.n(6)];
    c.keys["checkparset"] = v.first;
    strict = v.second;
  }
  if (s.chance(1, 4)) {
    const std::string k = s.pick({"avreager.timestep", "msin.typo", "stpes", "msout.namee"});
    c.keys[k] = "4";
    c.unused.insert(k);
  }
  bool counts = true, timings = true;
  if (s.chance(1, 3)) c.keys["showcounts"] = (counts = s.b()) ? "true" : "false";
  if (s.chance(1, 3)) c.keys["showtimings"] = (timings = s.b()) ? "T" : "F";
  if (s.b()) c.keys["showprogress"] = s.b() ? "true" : "false";
  if (s.chance(1, 5)) c.keys["verbosity"] = s.pick({"quiet", "normal", "verbose"});
  size_t threads = 0;
  if (s.b()) c.keys["numthreads"] = Cat(threads = s.n(0, 6));
  // Spread the keys over the file and the command line, which goes first.
  std::vector<std::string> file, args;
  for (auto& k : c.keys) {
    const int where = s.n(4);
    if (where < 3) file.push_back(Cat(k.first, where == 2 ? "=wrong" : Cat(s.b() ? " = " : "=", k.second)));
    if (where >= 2 || (where == 0 && s.chance(1, 8))) args.push_back(Cat(k.first, "=", k.second));
  }
  s.shuffle(args);
  std::string name = s.pick({"my.parset", "sub.parset", "x"});
  bool named = true, help = false;
  if (s.chance(1, 3)) {
    // Everything in a default file, or everything on the command line.
    named = false;
    const bool all_args = s.b();
    file.clear(), args.clear();
    for (auto& k : c.keys) (all_args ? args : file).push_back(Cat(k.first, "=", k.second));
    name = all_args ? "" : s.pick({"DP3.parset", "DPPP.parset", "NDPPP.parset"});
    if (name == "DP3.parset" && s.b()) std::ofstream(s.b() ? "DPPP.parset" : "NDPPP.parset") << "steps=[nosuchstep]\n";
    // Not used when there are arguments.
    if (all_args && s.b()) std::ofstream("DP3.parset") << "steps=[nosuchstep]\n";
  }
  s.note(name);
  s.note(Cat(file.size(), " keys in the file, ", args.size(), " arguments"));
  Show(s, c);
  if (!name.empty()) {
    std::ofstream f(name);
    for (auto& l : file) f << l << "\n";
  }
  args.insert(args.begin(), "DP3");
  if (named) args.insert(args.begin() + 1, name);
  if (s.chance(1, 20)) {
    help = true;
    args.insert(args.begin() + 1, s.pick({"--help", "-help", "-h", "--usage", "-usage", "-v", "--version"}));
  }
  standin::Log().clear();
  const bool bad = vpt::Throws([&] { dp3::base::ExecuteFromCommandLine(args); });
  const std::vector<Event> log = standin::Log();
  if (help) {
    CHECK(!bad && log.empty(), "asking for help");
    return;
  }
  const bool want_bad = c.error || (strict && !c.unused.empty());
  CHECK_EQ(bad, want_bad, "failure; ", c.why, " unused keys: ", c.unused.size());
  s.nontrivial(!bad && c.chain.size() > 1 && c.n > 0);
  if (c.error) {
    CHECK(log.empty(), "something was done in spite of an error");
    return;
  }
  CHECK_EQ(schaapcommon::ThreadPool::GetInstance().NThreads(), threads ? threads : 4, "number of threads");
  std::vector<Event> want;
  std::vector<std::string> who{c.input_prefix}, run{c.input_prefix};
  bool stop = false;
  for (auto& m : c.chain) {
    if (!m.null) who.push_back(m.prefix);
    if (!m.null && !stop) run.push_back(m.prefix);
    stop |= m.null;
  }
  auto add = [&](const std::vector<std::string>& v, const std::string& what) {
    for (auto& x : v) want.push_back({x, what});
  };
  add(who, "info");
  add(who, "show");
  if (!bad) {
    for (int i = 0; i < c.n; ++i) add(run, Cat("process ", i));
    want.push_back({c.input_prefix, "end"});
    add(run, "finish");
    if (counts) add(who, "counts");
    if (timings) add(who, "timings");
  }
  for (size_t i = 0; i < std::min(log.size(), want.size()); ++i)
    CHECK(log[i] == want[i], "event ", i, " is ", log[i].who, log[i].what, " not ", want[i].who, want[i].what);
  CHECK_EQ(log.size(), want.size(), "number of events");
}

VPT_MAIN
