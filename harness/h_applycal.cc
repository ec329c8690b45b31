// P52: applying calibration solutions (ApplyCal, OneApplyCal).
#include "steps_util.h"

#include <schaapcommon/h5parm/h5parm.h>
#include <schaapcommon/h5parm/jonesparameters.h>

#include "parmdb/ParmFacadeLocal.h"
#include "steps/ApplyCal.h"
#include "steps/OneApplyCal.h"

using namespace su;
using schaapcommon::h5parm::AxisInfo;
using schaapcommon::h5parm::GainType;
using schaapcommon::h5parm::JonesParameters;
using schaapcommon::h5parm::MiniFile;
using schaapcommon::h5parm::MiniFiles;
using schaapcommon::h5parm::SolTab;
typedef std::complex<double> dc;

// ---------------------------------------------------------------- parameter database stand-in
namespace {
struct Pdb {
  // Value = base + slope_t * (t - t0) / dt + slope_f * (f - f0) / df, or NaN.
  struct Parm { double base = 0, st = 0, sf = 0; };
  std::map<std::string, Parm> parms;
  std::map<std::string, std::vector<double>> defs;
  double t0 = 0, dt = 1, f0 = 0, df = 1;
  double Value(const Parm& p, double f, double t) const { return p.base + p.st * (t - t0) / dt + p.sf * (f - f0) / df; }
};
Pdb* g_pdb = nullptr;

bool Glob1(const char* p, const char* s) {
  if (!*p) return !*s;
  if (*p == '*') return Glob1(p + 1, s) || (*s && Glob1(p, s + 1));
  return *p == *s && Glob1(p + 1, s + 1);
}
bool Glob(const std::string& pat, const std::string& s) {
  const size_t o = pat.find('{');
  if (o == std::string::npos) return Glob1(pat.c_str(), s.c_str());
  const size_t c = pat.find('}', o);
  std::stringstream alts(pat.substr(o + 1, c - o - 1) + ",");
  std::string a;
  while (std::getline(alts, a, ','))
    if (Glob(pat.substr(0, o) + a + pat.substr(c + 1), s)) return true;
  return false;
}
}  // namespace

namespace dp3::parmdb {
ParmDB::ParmDB(const ParmDBMeta&, bool) : itsRep(nullptr) {}
void ParmDB::decrCount() {}
ParmFacadeRep::~ParmFacadeRep() {}
ParmFacadeLocal::ParmFacadeLocal(const std::string& n, bool) : itsPDB(ParmDBMeta("casa", n), false) {}
ParmFacadeLocal::~ParmFacadeLocal() {}
std::vector<double> ParmFacadeLocal::getRange(const std::string&) const { return {}; }
std::vector<std::string> ParmFacadeLocal::getNames(const std::string& p, bool) const {
  std::vector<std::string> r;
  for (auto& [n, v] : g_pdb->parms) if (Glob(p, n)) r.push_back(n);
  return r;
}
std::vector<std::string> ParmFacadeLocal::getDefNames(const std::string& p) const {
  std::vector<std::string> r;
  for (auto& [n, v] : g_pdb->defs) if (Glob(p, n)) r.push_back(n);
  return r;
}
casacore::Record ParmFacadeLocal::getDefValues(const std::string& p) const {
  casacore::Record r;
  for (auto& [n, v] : g_pdb->defs)
    if (Glob(p, n)) {
      casacore::Vector<double> a(v);
      r.define(n, casacore::Array<double>(a));
    }
  return r;
}
casacore::Record ParmFacadeLocal::getValues(const std::string& p, double f1, double f2, double fs, double t1, double t2, double ts, bool as_start_end, bool) {
  CHECK(as_start_end, "the domain is given as start and end");
  const long nf = std::lround((f2 - f1) / fs), nt = std::lround((t2 - t1) / ts);
  casacore::Record r;
  for (auto& [n, v] : g_pdb->parms) {
    if (!Glob(p, n)) continue;
    casacore::Vector<double> a(size_t(nf * nt));
    size_t i = 0;
    for (long t = 0; t < nt; ++t)
      for (long f = 0; f < nf; ++f) a[i++] = g_pdb->Value(v, f1 + (f + 0.5) * (f2 - f1) / nf, t1 + (t + 0.5) * (t2 - t1) / nt);
    casacore::Record sub;
    sub.define("values", casacore::Array<double>(a));
    r.defineRecord(n, sub);
  }
  return r;
}
casacore::Record ParmFacadeLocal::getValues(const std::string&, const std::vector<double>&, const std::vector<double>&, const std::vector<double>&, const std::vector<double>&, bool, bool) { return {}; }
casacore::Record ParmFacadeLocal::getValuesGrid(const std::string&, double, double, double, double, bool) { return {}; }
casacore::Record ParmFacadeLocal::getCoeff(const std::string&, double, double, double, double, bool) { return {}; }
void ParmFacadeLocal::addDefValues(const casacore::Record&, bool) {}
void ParmFacadeLocal::deleteDefValues(const std::string&) {}
void ParmFacadeLocal::clearTables() {}
void ParmFacadeLocal::flush(bool) {}
void ParmFacadeLocal::lock(bool) {}
void ParmFacadeLocal::unlock() {}
std::vector<double> ParmFacadeLocal::getDefaultSteps() const { return {}; }
void ParmFacadeLocal::setDefaultSteps(const std::vector<double>&) {}
void ParmFacadeLocal::addValues(const casacore::Record&) {}
void ParmFacadeLocal::deleteValues(const std::string&, double, double, double, double, bool) {}
}  // namespace dp3::parmdb

namespace {
// ---------------------------------------------------------------- the reference
typedef std::vector<std::complex<float>> Gain;  // 2 or 4 values

// Applies the gains to one sample; the data may be that of another direction.
void ApplyRef(const Gain& ga, const Gain& gb, dc* v, double* w, char* fl, bool update_weights, double* scale) {
  bool bad = false;
  for (auto& g : {ga, gb}) for (auto x : g) if (!std::isfinite(x.real()) || !std::isfinite(x.imag())) bad = true;
  if (bad) {
    for (int c = 0; c < 4; ++c) fl[c] = 1;
    return;
  }
  // A singular matrix leaves only rounding in its inverse.
  for (auto& g : {ga, gb})
    if (g.size() == 4) {
      double m = 0;
      for (auto x : g) m = std::max(m, double(std::norm(x)));
      if (m > 0 && std::abs(dc(g[0]) * dc(g[3]) - dc(g[1]) * dc(g[2])) < 1e-2 * m) throw vpt::Discard{};
    }
  dc a[4] = {}, b[4] = {};
  for (int c = 0; c < 4; ++c) {
    a[c] = ga.size() == 4 ? dc(ga[c]) : c == 0 ? dc(ga[0]) : c == 3 ? dc(ga[1]) : dc(0);
    b[c] = gb.size() == 4 ? dc(gb[c]) : c == 0 ? dc(gb[0]) : c == 3 ? dc(gb[1]) : dc(0);
  }
  dc r[4] = {};
  double s[4] = {}, var[4] = {};
  for (int i = 0; i < 2; ++i)
    for (int j = 0; j < 2; ++j)
      for (int k = 0; k < 2; ++k)
        for (int l = 0; l < 2; ++l) {
          const dc f = a[2 * i + k] * std::conj(b[2 * j + l]);
          r[2 * i + j] += f * v[2 * k + l];
          s[2 * i + j] += std::abs(f) * scale[2 * k + l];
          if (std::norm(f) > 0) var[2 * i + j] += std::norm(f) / w[2 * k + l];
        }
  for (int c = 0; c < 4; ++c) {
    v[c] = r[c];
    scale[c] = s[c];
    if (update_weights) w[c] = 1 / var[c];
  }
}

struct Cell {
  std::vector<dc> v;
  std::vector<double> scale;
};
struct State {
  Cell main;
  std::map<std::string, Cell> named;
  std::vector<double> w;
  std::vector<char> fl;
};
Cell MakeCell(const std::vector<cf>& d) {
  Cell c;
  for (cf x : d) { c.v.push_back(dc(x)); c.scale.push_back(std::abs(dc(x))); }
  return c;
}
State MakeState(const Slot& d) {
  State s;
  s.main = MakeCell(d.data);
  s.w.assign(d.weight.begin(), d.weight.end());
  s.fl.assign(d.flag.begin(), d.flag.end());
  return s;
}

template <typename F>
void ApplyAll(const Obs& o, State& st, Cell& cell, bool update, const F& gain) {
  for (size_t bl = 0; bl < o.nbl; ++bl)
    for (size_t ch = 0; ch < o.nch; ++ch) {
      const size_t i = (bl * o.nch + ch) * 4;
      ApplyRef(gain(o.a1[bl], ch), gain(o.a2[bl], ch), &cell.v[i], &st.w[i], &st.fl[i], update, &cell.scale[i]);
    }
}

void CheckCell(const Cell& c, const DPBuffer::DataType& data, const State& st, size_t t, const std::string& what) {
  size_t i = 0;
  for (auto& x : data) {
    CHECK(NearC(x, c.v[i], 2e-5 * c.scale[i] + 1e-30), what, " visibility ", i, " of time slot ", t, ": ", x, " expected ", c.v[i]);
    ++i;
  }
  CHECK_EQ(i, c.v.size(), "size");
}
void CheckState(const State& st, DPBuffer& b, const Slot& d, size_t t) {
  CHECK_EQ(b.GetTime(), d.time, "time");
  CheckCell(st.main, b.GetData(), st, t, "main");
  for (auto& [n, c] : st.named) CheckCell(c, b.GetData(n), st, t, n);
  size_t i = 0;
  for (auto&& f : b.GetFlags()) {
    CHECK_EQ(bool(f), bool(st.fl[i]), "flag ", i, " of time slot ", t);
    ++i;
  }
  i = 0;
  for (float w : b.GetWeights()) {
    CHECK((!std::isfinite(st.w[i]) && !std::isfinite(w)) || std::abs(w - st.w[i]) <= 2e-5 * std::abs(st.w[i]), "weight ", i, " of time slot ", t, ": ", w, " expected ", st.w[i]);
    ++i;
  }
  i = 0;
  for (double u : b.GetUvw()) CHECK_EQ(u, d.uvw[i++], "uvw");
}

Obs GenCalObs(Src& s, size_t max_t = 9) {
  ObsOpt oo;
  oo.all_corr = false;
  oo.max_t = max_t;
  oo.max_ch = 4;
  oo.max_bl = 4;
  return GenObs(s, oo);
}
Slot GenCalSlot(Src& s, const Obs& o, size_t t, bool zero_weights) {
  Slot d = GenSlot(s, o, t);
  if (!zero_weights) for (float& w : d.weight) if (w == 0) w = 0.5f;
  return d;
}

// ---------------------------------------------------------------- H5Parm files
struct Made {
  std::string file, solset;
  std::vector<std::string> dirs, missing;
  std::map<std::string, SolTab> tabs;
};
Made GenFile(Src& s, const Obs& o, const std::string& name, const std::vector<std::string>& dirs, bool allow_missing, bool need_dir = false) {
  Made m;
  m.file = name;
  m.dirs = dirs;
  auto f = std::make_shared<MiniFile>();
  m.solset = s.b() ? "sol000" : "other";
  auto& set = f->solsets[m.solset];
  if (s.chance(1, 3)) { f->solsets["zzz"]; }
  std::vector<std::string> ants;
  for (auto& a : o.names) {
    if (allow_missing && s.chance(1, 6)) m.missing.push_back(a);
    else ants.push_back(a);
  }
  if (ants.empty()) { ants.push_back(m.missing.back()); m.missing.pop_back(); }
  if (s.b()) ants.push_back("OTHER");
  s.shuffle(ants);
  const size_t nt = s.n(1, 4), nf = s.n(1, 3);
  std::vector<double> times, freqs;
  const double span = o.nt * o.dt, band = o.freq.back() - o.freq.front() + o.width.front();
  for (size_t i = 0; i < nt; ++i) times.push_back(o.t0 - 0.5 * o.dt + (i + 0.37137 + 0.1 * s.real(0, 1)) * span / nt);
  for (size_t i = 0; i < nf; ++i) freqs.push_back(o.freq.front() - 0.5 * o.width.front() + (i + 0.37137 + 0.1 * s.real(0, 1)) * band / nf);
  auto add = [&](const std::string& tab, const std::string& type, size_t npol, double lo, double hi) {
    std::vector<AxisInfo> axes = {{"time", unsigned(nt)}, {"freq", unsigned(nf)}, {"ant", unsigned(ants.size())}, {"dir", unsigned(dirs.size())}};
    if (npol > 0) axes.push_back({"pol", unsigned(npol)});
    if (!need_dir && dirs.size() == 1 && s.chance(1, 3)) axes.erase(axes.begin() + 3);
    if (s.chance(1, 4)) std::swap(axes[0], axes[2]);
    if (axes[1].name == "freq" && axes[0].name == "ant") std::swap(axes[1], axes[2]);  // time before freq
    SolTab t(tab, type, axes);
    std::vector<double> v(t.Size()), w(t.Size(), 1.0);
    const size_t n_bad = s.chance(1, 3) ? 8 : 1000000;
    for (size_t i = 0; i < v.size(); ++i) {
      v[i] = s.real(lo, hi);
      if (npol == 4 && type == "amplitude" && (i % 4) % 3 != 0) v[i] *= 0.3;
      if (s.chance(1, n_bad)) { if (s.b()) w[i] = 0; else v[i] = std::numeric_limits<double>::quiet_NaN(); }
    }
    t.SetValues(v, w);
    t.SetAntennas(ants);
    if (t.HasAxis("dir")) t.SetSources(dirs);
    if (npol == 2) t.SetPolarizations({"XX", "YY"});
    if (npol == 4) t.SetPolarizations({"XX", "XY", "YX", "YY"});
    t.SetFreqs(freqs);
    t.SetTimes(times);
    set.soltabs[tab] = t;
  };
  auto some = [&] { return s.chance(2, 3) ? 2 : size_t(s.n(0, 1)); };
  add("phase000", "phase", some(), -4, 4);
  add("amplitude000", "amplitude", some(), 0.5, 2);
  // A few turns at most: a larger phase only amplifies the rounding of the time.
  const double fmin = *std::min_element(o.freq.begin(), o.freq.end()), fmax = *std::max_element(o.freq.begin(), o.freq.end());
  const double mtec = std::min(0.01, 6 * fmin / 8.44797245e9), mdel = std::min(1e-8, 1 / fmax), mrm = std::min(1.0, 6 * fmin * fmin / 8.98755e16);
  add("tec000", "tec", some(), -mtec, mtec);
  add("clock000", "clock", some(), -mdel, mdel);
  add("rotation000", "rotation", 0, -3, 3);
  add("rm000", "rotationmeasure", 0, -mrm, mrm);
  add("sph", "scalarphase", 0, -3, 3);
  add("samp", "scalaramplitude", 0, 0.5, 2);
  add("jamp", "amplitude", 4, 0.5, 2);
  add("jph", "phase", 4, -3, 3);
  m.tabs = set.soltabs;
  MiniFiles()[name] = f;
  return m;
}

// Settings of one correction, resolved.
struct Op {
  const Made* file = nullptr;
  std::string corr;
  std::vector<std::string> soltab;
  std::string dir, interp, missing;
  bool invert = true, update = false, model = false;
  Gain At(const Obs& o, size_t ant, double time, size_t ch, const std::string& dirname) const {
    const SolTab *t1, *t2 = nullptr;
    GainType type;
    unsigned psize = 0;
    if (corr == "fulljones") {
      t1 = &file->tabs.at(soltab[0]);
      t2 = &file->tabs.at(soltab[1]);
      type = GainType::kFullJones;
    } else {
      t1 = &file->tabs.at(corr);
      const size_t npol = t1->HasAxis("pol") ? t1->GetAxis("pol").size : 1;
      const std::string y = t1->GetType();
      type = y == "phase" ? (npol == 1 ? GainType::kScalarPhase : GainType::kDiagonalPhase)
             : y == "amplitude" ? (npol == 1 ? GainType::kScalarAmplitude : GainType::kDiagonalAmplitude)
             : y == "tec" ? GainType::kTec : y == "clock" ? GainType::kDelay : y == "rotation" ? GainType::kRotationAngle
             : y == "rotationmeasure" ? GainType::kRotationMeasure : y == "scalarphase" ? GainType::kScalarPhase : GainType::kScalarAmplitude;
      psize = npol;
    }
    hsize_t d = 0;
    for (size_t i = 0; i < file->dirs.size(); ++i) if (file->dirs[i] == dirname) d = i;
    SolTab c1 = *t1, c2 = t2 ? *t2 : *t1;
    JonesParameters j({o.freq[ch]}, {time}, {o.names[ant]}, type, interp == "linear" ? JonesParameters::InterpolationType::LINEAR : JonesParameters::InterpolationType::NEAREST, d, &c1, &c2, invert, psize,
                      missing == "flag" ? JonesParameters::MissingAntennaBehavior::kFlag : JonesParameters::MissingAntennaBehavior::kUnit);
    Gain g;
    for (ssize_t c = 0; c < j.GetParms().shape()[0]; ++c) g.push_back(j.GetParms()(c, 0, 0));
    return g;
  }
};

struct Setup {
  ParameterSet ps;
  std::vector<Op> ops;
  std::string text;
  void Add(const std::string& k, const std::string& v) { ps.add(k, v); text += k + "=" + v + " "; }
};
}  // namespace

// All settings of the step and of its substeps, with solutions in H5Parm files.
PROP("P52.h5parm", 300, 4000) {
  const Obs o = GenCalObs(s);
  s.note(Note(o));
  const bool use_model = s.chance(1, 5);
  std::vector<std::string> dirs;
  const size_t ndir = use_model ? s.n(1, 3) : s.pick(std::vector<size_t>{1, 1, 2, 3});
  for (size_t i = 0; i < ndir; ++i) dirs.push_back("[p" + std::to_string(i) + "]");
  s.shuffle(dirs);
  const bool allow_missing = s.b();
  std::deque<Made> files;
  files.push_back(GenFile(s, o, "a.h5", dirs, allow_missing, use_model));
  files.push_back(GenFile(s, o, "dir.h5parm/b", dirs, allow_missing, use_model));
  const bool is_sub = !use_model && s.chance(1, 5);
  const std::string predict_dir = is_sub && s.b() ? s.pick(dirs) : "";
  Setup u;
  const std::string P = "ac.";
  const size_t nsub = s.pick(std::vector<size_t>{0, 0, 1, 2, 3});
  bool zero_w = true;
  struct Level { std::map<std::string, std::string> kv; };
  auto gen_level = [&](bool top) {
    Level l;
    const size_t den = top ? 2 : 3;
    if (s.chance(1, den)) l.kv["parmdb"] = files[s.n(files.size())].file;
    if (s.chance(1, den)) l.kv["correction"] = s.pick(std::vector<std::string>{"phase000", "amplitude000", "tec000", "clock000", "rotation000", "rm000", "sph", "samp", "fulljones", "fulljones"});
    if (s.chance(1, den)) l.kv["interpolation"] = s.pick(std::vector<std::string>{"nearest", "linear", "linear"});
    if (s.chance(1, den)) l.kv["updateweights"] = s.b() ? "true" : "false";
    if (s.chance(1, den)) l.kv["invert"] = s.b() ? "true" : "false";
    if (s.chance(1, den)) l.kv["timeslotsperparmupdate"] = std::to_string(s.n(1, 5));
    if (s.chance(1, den) && !use_model) l.kv["direction"] = s.pick(dirs);
    if (s.chance(1, den)) l.kv["missingantennabehavior"] = s.b() ? "flag" : "unit";
    if (s.chance(1, den)) l.kv["soltab"] = s.b() ? "[jamp,jph]" : "[jamp,jph]";
    if (use_model) l.kv["updateweights"] = "false";
    return l;
  };
  const bool model_top = s.b();
  Level top = gen_level(true);
  std::vector<Level> subs;
  std::vector<std::string> names;
  for (size_t i = 0; i < nsub; ++i) {
    subs.push_back(gen_level(false));
    names.push_back(std::string(1, char('x' + i)));
  }
  if (nsub == 0) subs.push_back(Level());
  s.shuffle(names);
  // What cannot be left open.
  for (size_t i = 0; i < subs.size(); ++i) {
    auto get = [&](const std::string& k, const std::string& def) { return subs[i].kv.count(k) ? subs[i].kv[k] : top.kv.count(k) ? top.kv[k] : def; };
    auto& own = nsub == 0 ? top.kv : subs[i].kv;
    if (get("parmdb", "").empty()) own["parmdb"] = files[s.n(files.size())].file;
    if (get("correction", "").empty()) own["correction"] = "phase000";
    const Made* f = nullptr;
    for (auto& x : files) if (x.file == get("parmdb", "")) f = &x;
    const bool several_sets = MiniFiles()[f->file]->solsets.size() > 1;
    if (several_sets || s.chance(1, 3)) own["solset"] = f->solset;
    else if (top.kv.count("solset")) own["solset"] = f->solset;
    if (!f->missing.empty() && get("missingantennabehavior", "error") == "error") own["missingantennabehavior"] = s.b() ? "flag" : "unit";
    if (!use_model && ndir > 1 && get("direction", predict_dir).empty()) own["direction"] = s.pick(dirs);
    if (get("correction", "") == "fulljones" && get("soltab", "").empty()) own["soltab"] = "[jamp,jph]";
    if (get("correction", "") != "fulljones") own.erase("soltab");
    if (use_model) (model_top ? top.kv : own)["usemodeldata"] = "true";
  }
  if (nsub == 0) {
    if (s.b()) subs[0].kv.clear();
  } else {
    std::string l = "[";
    for (size_t i = 0; i < nsub; ++i) l += (i ? "," : "") + names[i];
    u.Add(P + "steps", l + "]");
  }
  for (auto& [k, v] : top.kv) u.Add(P + k, v);
  for (size_t i = 0; i < nsub; ++i) for (auto& [k, v] : subs[i].kv) u.Add(P + names[i] + "." + k, v);
  size_t chunk_min = 1000;
  for (size_t i = 0; i < subs.size(); ++i) {
    auto get = [&](const std::string& k, const std::string& def) { return subs[i].kv.count(k) ? subs[i].kv[k] : top.kv.count(k) ? top.kv[k] : def; };
    Op op;
    for (auto& x : files) if (x.file == get("parmdb", "")) op.file = &x;
    op.corr = get("correction", "");
    if (op.corr == "fulljones") op.soltab = {"jamp", "jph"};
    op.dir = get("direction", predict_dir);
    op.interp = get("interpolation", "nearest");
    op.missing = get("missingantennabehavior", "error");
    op.invert = is_sub ? false : get("invert", "true") == "true";
    op.update = get("updateweights", "false") == "true";
    op.model = use_model;
    chunk_min = std::min<size_t>(chunk_min, std::stoul(get("timeslotsperparmupdate", "200")));
    if (op.corr == "fulljones" || op.corr == "rotation000" || op.corr == "rm000") zero_w = false;
    if (op.corr == "fulljones" && op.update && !op.invert) {
      CHECK(vpt::Throws([&] { dp3::steps::ApplyCal a(u.ps, P, is_sub, predict_dir); }), "updating weights for corrupting with full Jones gains must be refused: ", u.text);
      s.label("refused");
      return;
    }
    u.ops.push_back(op);
  }
  s.note(u.text);
  DPInfo info = MakeInfo(o);
  std::map<std::string, dp3::base::Direction> dmap;
  if (use_model) {
    for (auto& d : dirs) {
      if (dmap.size() && s.chance(1, 4)) continue;
      dmap["src" + std::to_string(dmap.size()) + "." + d.substr(1, d.size() - 2)] = dp3::base::Direction(0.1, 0.2);
    }
    info.GetDirections() = dmap;
  }
  auto step = std::make_shared<dp3::steps::ApplyCal>(u.ps, P, is_sub, predict_dir);
  auto sink = std::make_shared<Sink>();
  step->setNextStep(sink);
  step->setInfo(info);
  std::ostringstream os;
  step->show(os);
  bool changed = false;
  for (size_t t = 0; t < o.nt; ++t) {
    const Slot d = GenCalSlot(s, o, t, zero_w);
    State st = MakeState(d);
    auto b = MakeBuffer(o, d);
    for (auto& [n, dd] : dmap) {
      const Slot md = GenSlot(s, o, t);
      auto mb = MakeBuffer(o, md);
      b->AddData(n);
      b->GetData(n) = mb->GetData();
      st.named[n] = MakeCell(md.data);
    }
    for (const Op& op : u.ops) {
      if (use_model) {
        for (auto& [n, dd] : dmap) {
          const std::string patch = "[" + n.substr(n.find('.') + 1) + "]";
          ApplyAll(o, st, st.named[n], op.update, [&](size_t a, size_t ch) { return op.At(o, a, d.time, ch, patch); });
        }
      } else {
        ApplyAll(o, st, st.main, op.update, [&](size_t a, size_t ch) { return op.At(o, a, d.time, ch, ndir > 1 ? op.dir : dirs[0]); });
      }
    }
    for (size_t i = 0; i < st.fl.size(); ++i) if (std::abs(st.main.v[i] - dc(d.data[i])) > 1e-3 || use_model) changed = true;
    step->process(std::move(b));
    CHECK_EQ(sink->bufs.size(), t + 1, "buffers at the next step");
    CheckState(st, *sink->bufs.back(), d, t);
  }
  step->finish();
  CHECK_EQ(sink->n_finish, 1, "finish");
  s.nontrivial(changed);
  if (o.nt > chunk_min) s.label("several chunks");
  if (nsub > 1) s.label("several corrections");
  if (use_model) s.label("model data");
}

// Solutions in a parameter database, with defaults.
PROP("P52.parmdb", 300, 4000) {
  Obs o = GenCalObs(s);
  // Evenly spaced channels, possibly with gaps.
  const double spacing = o.width[0] * s.pick(std::vector<double>{1, 1, 1.5, 2});
  for (size_t c = 0; c < o.nch; ++c) o.freq[c] = o.freq[0] + c * spacing;
  Pdb db;
  g_pdb = &db;
  db.t0 = o.t0;
  db.dt = o.dt;
  db.f0 = o.freq[0];
  db.df = o.nch > 1 ? spacing : o.width[0];
  const std::string corr = s.pick(std::vector<std::string>{"gain", "gain", "fulljones", "Gain", "tec", "clock", "rotationangle", "commonrotationangle", "scalarphase", "commonscalarphase", "scalaramplitude", "rotationmeasure"});
  const bool ap = s.b(), two = s.b(), common = s.b(), off_diag = corr != "fulljones" ? s.chance(1, 3) : true;
  const std::string post = s.chance(1, 4) ? ":phase_center" : "";
  struct Kind { std::string name; double lo, hi; };
  std::vector<Kind> kinds;
  GainType type = GainType::kScalarPhase;
  if (corr == "gain" || corr == "Gain" || corr == "fulljones") {
    const bool full = off_diag;
    for (std::string e : full ? std::vector<std::string>{"0:0", "0:1", "1:0", "1:1"} : std::vector<std::string>{"0:0", "1:1"}) {
      const bool diag = e[0] == e[2];
      kinds.push_back({"Gain:" + e + (ap ? ":Ampl" : ":Real"), diag ? 0.7 : -0.2, diag ? 1.5 : 0.2});
      kinds.push_back({"Gain:" + e + (ap ? ":Phase" : ":Imag"), ap ? -3.0 : -0.2, ap ? 3.0 : 0.2});
    }
    type = full ? (ap ? GainType::kFullJones : GainType::kFullJonesRealImaginary) : (ap ? GainType::kDiagonalComplex : GainType::kDiagonalRealImaginary);
  } else if (corr == "tec" || corr == "clock") {
    const std::string n = corr == "tec" ? "TEC" : "Clock";
    // A few turns at most: a larger phase only amplifies the rounding of the time.
    const double fmin = *std::min_element(o.freq.begin(), o.freq.end()), fmax = *std::max_element(o.freq.begin(), o.freq.end());
    const double m = corr == "tec" ? std::min(0.01, 6 * fmin / 8.44797245e9) : std::min(1e-8, 1 / fmax);
    if (two) kinds = {{n + ":0", -m, m}, {n + ":1", -m, m}};
    else kinds = {{n, -m, m}};
    type = corr == "tec" ? GainType::kTec : GainType::kDelay;
  } else if (corr == "rotationangle" || corr == "commonrotationangle") {
    kinds = {{common ? "CommonRotationAngle" : "RotationAngle", -3, 3}};
    type = GainType::kRotationAngle;
  } else if (corr == "rotationmeasure") {
    const double lambda = 2.99792458e8 / *std::min_element(o.freq.begin(), o.freq.end());
    const double m = std::min(1.0, 6 / (lambda * lambda));
    kinds = {{"RotationMeasure", -m, m}};
    type = GainType::kRotationMeasure;
  } else if (corr == "scalaramplitude") {
    kinds = {{common ? "CommonScalarAmplitude" : "ScalarAmplitude", 0.5, 2}};
    type = GainType::kScalarAmplitude;
  } else {
    kinds = {{common ? "CommonScalarPhase" : "ScalarPhase", -3, 3}};
    type = GainType::kScalarPhase;
  }
  std::string text = corr;
  bool any_nan = false, has_default = false;
  for (const Kind& k : kinds) {
    size_t n_own = 0;
    for (size_t a = 0; a < o.nant; ++a) {
      const std::string n = k.name + ":" + o.names[a] + post;
      const bool force = (a == o.nant - 1 && n_own == 0);  // postfix and Common are taken from the first parameter
      if (force || s.chance(3, 4)) {
        Pdb::Parm p;
        p.base = s.real(k.lo, k.hi);
        p.st = s.sym(0.1) * (k.hi - k.lo);
        p.sf = s.sym(0.1) * (k.hi - k.lo);
        if (s.chance(1, 10)) { p.base = NAN; any_nan = true; }
        db.parms[n] = p;
        ++n_own;
      } else if (s.b()) {
        db.defs[n] = {s.real(k.lo, k.hi)};
        has_default = true;
      }
    }
    if (s.b()) { db.defs[k.name] = {s.real(k.lo, k.hi)}; has_default = true; }
  }
  // Parameters of another kind do not matter.
  if (s.b()) db.parms["Other:" + o.names[0]] = Pdb::Parm();
  const bool inv = s.chance(2, 3);
  const bool fj = type == GainType::kFullJones || type == GainType::kFullJonesRealImaginary;
  const bool upd = s.b() && !(corr == "fulljones" && !inv) && !(fj && !inv);
  const bool mat = JonesParameters::NCorr(type) == 4;
  ParameterSet ps;
  ps.add("c.parmdb", "x.parmdb");
  ps.add("c.correction", corr);
  if (!inv || s.b()) ps.add("c.invert", inv ? "true" : "false");
  if (upd || s.b()) ps.add("c.updateweights", upd ? "true" : "false");
  size_t chunk = 200;
  if (s.chance(2, 3)) { chunk = s.n(1, 5); ps.add("c.timeslotsperparmupdate", std::to_string(chunk)); }
  s.note(Cat(Note(o), " ", text, " ap=", ap, " kinds=", kinds.size(), " chunk=", chunk, " invert=", inv, " update=", upd, " spacing=", spacing));
  for (auto& [n, p] : db.parms) s.note(Cat(n, " ", p.base));
  for (auto& [n, p] : db.defs) s.note(Cat("default ", n, " ", p[0]));
  casacore::mini_tables()["x.parmdb"];
  // The reference value of a parameter.
  bool unknown = false;
  auto value = [&](const Kind& k, size_t a, double f, double t) {
    const std::string n = k.name + ":" + o.names[a] + post;
    if (db.parms.count(n)) return db.Value(db.parms[n], f, t);
    if (db.defs.count(n)) return db.defs[n][0];
    if (db.defs.count(k.name)) return db.defs[k.name][0];
    if (k.name.substr(0, 5) != "Gain:") unknown = true;
    return 0.0;
  };
  for (size_t a = 0; a < o.nant; ++a) for (auto& k : kinds) value(k, a, o.freq[0], o.t0);
  DPInfo info = MakeInfo(o);
  auto step = std::make_shared<dp3::steps::ApplyCal>(ps, "c.");
  auto sink = std::make_shared<Sink>();
  step->setNextStep(sink);
  step->setInfo(info);
  if (unknown) {
    CHECK(vpt::Throws([&] { step->process(MakeBuffer(o, GenSlot(s, o, 0))); }), "a station without value must be refused");
    s.label("refused");
    return;
  }
  bool changed = false;
  for (size_t t = 0; t < o.nt; ++t) {
    const Slot d = GenCalSlot(s, o, t, !mat);
    State st = MakeState(d);
    step->process(MakeBuffer(o, d));
    CHECK_EQ(sink->bufs.size(), t + 1, "buffers at the next step");
    ApplyAll(o, st, st.main, upd, [&](size_t a, size_t ch) {
      std::vector<std::vector<std::vector<double>>> p;
      for (auto& k : kinds) p.push_back({{value(k, a, o.freq[ch], d.time)}});
      JonesParameters j({o.freq[ch]}, {d.time}, {o.names[a]}, type, JonesParameters::InterpolationType::NEAREST, 0, std::move(p), inv);
      Gain g;
      for (ssize_t c = 0; c < j.GetParms().shape()[0]; ++c) g.push_back(j.GetParms()(c, 0, 0));
      return g;
    });
    for (size_t i = 0; i < st.fl.size(); ++i) {
      if (std::abs(st.main.v[i] - dc(d.data[i])) > 1e-3) changed = true;
      st.main.scale[i] *= 30;  // the gains themselves are only equal up to rounding
      st.main.scale[i] += 1e-3 * std::abs(d.data[i]);
    }
    CheckState(st, *sink->bufs.back(), d, t);
  }
  step->finish();
  CHECK_EQ(sink->n_finish, 1, "finish");
  s.nontrivial(changed);
  if (has_default) s.label("defaults");
  if (any_nan) s.label("NaN");
  g_pdb = nullptr;
}

// Solutions that an earlier step left in the buffer.
PROP("P52.buffer", 300, 4000) {
  const Obs o = GenCalObs(s, 4);
  ParameterSet ps;
  const bool inv = s.b(), full = s.b(), upd = s.b() && !(full && !inv);
  if (!inv || s.b()) ps.add("c.invert", inv ? "true" : "false");
  if (upd) ps.add("c.updateweights", "true");
  if (full) ps.add("c.correction", "fulljones");
  else if (s.b()) ps.add("c.correction", "gain");
  const size_t ndir = s.n(1, 3);
  const std::string want = s.chance(2, 3) ? "d" + std::to_string(s.n(4)) : "";
  if (!want.empty()) ps.add("c.direction", want);
  s.note(Cat(Note(o), " invert=", inv, " full=", full, " update=", upd, " ndir=", ndir, " want=", want));
  DPInfo info = MakeInfo(o);
  auto step = std::make_shared<dp3::steps::ApplyCal>(ps, "c.");
  auto sink = std::make_shared<Sink>();
  step->setNextStep(sink);
  step->setInfo(info);
  const size_t bad = s.chance(1, 4) ? s.n(1, 3) : 0;
  bool changed = false;
  for (size_t t = 0; t < o.nt; ++t) {
    const Slot d = GenCalSlot(s, o, t, !full);
    State st = MakeState(d);
    auto b = MakeBuffer(o, d);
    const size_t nc = full ? 4 : 2;
    std::map<std::string, std::vector<std::vector<dc>>> sols;
    for (size_t i = 0; i < ndir; ++i) {
      std::vector<std::vector<dc>> x(o.nch + (bad == 1 ? 1 : 0), std::vector<dc>(o.nant * (bad == 2 ? 1 : nc)));
      for (auto& c : x)
        for (size_t k = 0; k < c.size(); ++k) {
          const double m = full && (k % 4) % 3 != 0 ? 0.2 : 1.0;
          c[k] = std::polar(m * s.real(0.5, 2), s.sym(3));
          if (s.chance(1, 40)) c[k] = dc(NAN, 0);
        }
      const std::string n = "d" + std::to_string(i);
      sols[n] = x;
    }
    if (bad != 3) {  // in the layout of a solver: channel, antenna, direction, polarization
      std::vector<std::string> order;
      for (auto& [n, x] : sols) order.push_back(n);
      s.shuffle(order);
      const size_t np = bad == 2 ? 1 : nc;
      std::vector<std::vector<dc>> flat(o.nch + (bad == 1 ? 1 : 0));
      for (size_t c = 0; c < flat.size(); ++c)
        for (size_t a = 0; a < o.nant; ++a)
          for (auto& n : order) for (size_t p = 0; p < np; ++p) flat[c].push_back(sols[n][c][a * np + p]);
      b->SetSolution(flat, o.nant, np, order);
    }
    const bool known = sols.count(want) > 0;
    if (bad || (!known && ndir > 1)) {
      CHECK(vpt::Throws([&] { step->process(std::move(b)); }), "no, several or misshaped solutions must be refused");
      s.label("refused");
      return;
    }
    const auto& x = known ? sols[want] : sols.begin()->second;
    ApplyAll(o, st, st.main, upd, [&](size_t a, size_t ch) {
      std::vector<dc> g(x[ch].begin() + a * nc, x[ch].begin() + (a + 1) * nc);
      if (inv && !full) for (dc& v : g) v = 1.0 / v;
      if (inv && full) {
        const dc det = g[0] * g[3] - g[1] * g[2];
        g = {g[3] / det, -g[1] / det, -g[2] / det, g[0] / det};
      }
      Gain r;
      for (dc v : g) r.push_back(cf(v));
      return r;
    });
    for (size_t i = 0; i < st.fl.size(); ++i) if (std::abs(st.main.v[i] - dc(d.data[i])) > 1e-3) changed = true;
    step->process(std::move(b));
    CHECK_EQ(sink->bufs.size(), t + 1, "buffers at the next step");
    CheckState(st, *sink->bufs.back(), d, t);
  }
  step->finish();
  s.nontrivial(changed);
}

// The functions that other steps use for one sample.
PROP("P52.sample", 2000, 20000) {
  Obs o = GenCalObs(s, 1);
  const Slot d = GenCalSlot(s, o, 0, false);
  State st = MakeState(d);
  auto b = MakeBuffer(o, d);
  DPInfo info = MakeInfo(o);
  dp3::base::FlagCounter fc;
  fc.init(info);
  dp3::base::FlagCounter ref;
  ref.init(info);
  const bool upd = s.b();
  const size_t kind = s.n(3);
  const size_t n = s.n(1, 12);
  size_t n_bad = 0;
  for (size_t k = 0; k < n; ++k) {
    const size_t bl = s.n(o.nbl), ch = s.n(o.nch), i = (bl * o.nch + ch) * 4;
    Gain ga(kind == 2 ? 4 : 2), gb(kind == 2 ? 4 : 2);
    for (Gain* g : {&ga, &gb})
      for (size_t c = 0; c < g->size(); ++c) {
        (*g)[c] = cf(std::polar(s.real(0.5, 2), s.sym(3)));
        if (s.chance(1, 40)) (*g)[c] = s.b() ? cf(NAN, 1) : s.b() ? cf(1, INFINITY) : cf(1, NAN);
      }
    if (kind == 0) { ga[1] = ga[0]; gb[1] = gb[0]; }
    const bool was = st.fl[i];
    std::vector<char> before(&st.fl[i], &st.fl[i] + 4);
    bool bad = false;
    for (auto& g : {ga, gb}) for (auto x : g) if (!std::isfinite(x.real()) || !std::isfinite(x.imag())) bad = true;
    ApplyRef(ga, gb, &st.main.v[i], &st.w[i], &st.fl[i], upd, &st.main.scale[i]);
    if (bad && !was) { ref.incrChannel(ch); ref.incrBaseline(bl); ++n_bad; }
    if (kind == 0) dp3::steps::ApplyCal::ApplyScalar(ga[0], gb[0], *b, bl, ch, upd, fc);
    else if (kind == 1) dp3::steps::ApplyCal::ApplyDiag(aocommon::MC2x2FDiag(ga.data()), aocommon::MC2x2FDiag(gb.data()), *b, bl, ch, upd, fc);
    else dp3::steps::ApplyCal::ApplyFull(aocommon::MC2x2F(ga.data()), aocommon::MC2x2F(gb.data()), *b, bl, ch, upd, fc);
  }
  CheckState(st, *b, d, 0);
  std::ostringstream a1, a2;
  fc.showBaseline(a1, 1); fc.showChannel(a1, 1);
  ref.showBaseline(a2, 1); ref.showChannel(a2, 1);
  CHECK_EQ(a1.str(), a2.str(), "the counts of flagged samples");
  // Inverting a matrix.
  std::complex<double> m[4], w[4];
  for (auto& x : m) x = dc(s.sym(2), s.sym(2));
  std::copy(m, m + 4, w);
  if (std::abs(m[0] * m[3] - m[1] * m[2]) > 0.1) {
    dp3::steps::ApplyCal::invert(w);
    for (int i = 0; i < 2; ++i)
      for (int j = 0; j < 2; ++j) CHECK(std::abs(m[2 * i] * w[j] + m[2 * i + 1] * w[2 + j] - dc(i == j)) < 1e-10, "inverse");
  }
  s.nontrivial(true);
  if (n_bad) s.label("bad gains");
}

// What must be refused.
PROP("P52.refuse", 300, 2000) {
  Obs o = GenCalObs(s, 2);
  std::vector<std::string> dirs = {"[a]", "[b]"};
  const size_t what = s.n(10);
  if (what != 2 && s.b()) dirs.pop_back();
  Made m = GenFile(s, o, "a.h5", dirs, false);
  std::map<std::string, std::string> kv = {{"parmdb", "a.h5"}, {"solset", m.solset}, {"correction", s.pick(std::vector<std::string>{"phase000", "tec000", "samp"})}};
  if (what != 2 && dirs.size() > 1) kv["direction"] = "[b]";
  auto& set = MiniFiles()["a.h5"]->solsets[m.solset];
  bool fails = true;
  switch (what) {
    case 0: o.ncorr = s.pick(std::vector<size_t>{1, 2}); break;
    case 1: kv["timeslotsperparmupdate"] = "0"; break;
    case 2: break;
    case 3: if (dirs.size() > 1) kv["direction"] = "[c]"; else fails = false; break;
    case 4: kv["correction"] = "none"; break;
    case 5: kv["interpolation"] = "cubic"; break;
    case 6: {  // the time axis varies faster than frequency
      SolTab& t = set.soltabs[kv["correction"]];
      t = SolTab(t.GetName(), t.GetType(), {{"freq", 1}, {"time", 1}, {"ant", 1}});
      break;
    }
    case 7: kv["correction"] = "fulljones"; kv["soltab"] = s.b() ? "[jamp]" : "[jamp,jph,jph]"; break;
    case 8: kv["parmdb"] = "absent.h5"; break;
    case 9: o.names[0] = "UNKNOWN"; break;
  }
  ParameterSet ps;
  for (auto& [k, v] : kv) { ps.add("q." + k, v); s.note(Cat(k, "=", v)); }
  s.note("case", what);
  const std::function<void()> run = [&] {
    DPInfo info = MakeInfo(o);
    dp3::steps::ApplyCal a(ps, "q.");
    auto sink = std::make_shared<Sink>();
    a.setNextStep(sink);
    a.setInfo(info);
    a.process(MakeBuffer(o, GenSlot(s, o, 0)));
  };
  bool threw = false;
  try { run(); } catch (const std::exception&) { threw = true; } catch (const H5::Exception&) { threw = true; }
  CHECK_EQ(threw, fails, "refused");
  s.nontrivial(fails);
}

VPT_MAIN
