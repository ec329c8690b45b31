// P53: solutions in H5Parm files: written by SolutionWriter, read by InitialSolutions.
#include "vpt.h"

#include <array>
#include <cmath>
#include <complex>
#include <map>

#include <schaapcommon/h5parm/h5parm.h>

#include "base/CalType.h"
#include "common/ParameterSet.h"
#include "ddecal/InitialSolutions.h"
#include "ddecal/Settings.h"
#include "ddecal/SolutionWriter.h"

using dp3::base::CalType;
using dp3::base::Direction;
using dp3::common::ParameterSet;
using dp3::ddecal::ConstraintResult;
using schaapcommon::h5parm::MiniFiles;
using schaapcommon::h5parm::SolTab;
using vpt::Src;
typedef std::complex<double> dc;

namespace {
template <typename... A> std::string su_cat(const A&... a) { std::ostringstream o; o.precision(12); ((o << a), ...); return o.str(); }
std::string Text(double x) { std::ostringstream o; o.precision(17); o << x; return o.str(); }

struct Case {
  size_t nant = 1, ndir = 1, nblock = 1, nch = 1, ntime = 1, solint = 1, nint = 1, npol = 1, nsub = 0, nstep = 1, nout = 0;
  bool dd = false;
  CalType mode = CalType::kScalar;
  std::vector<size_t> sub;
  double t0 = 0, dt = 1, start = 0, end = 0, outdur = 1;
  std::vector<std::string> ants;
  std::vector<std::vector<std::string>> dirs;
  std::vector<std::string> dirnames;
  std::vector<Direction> pos;
  std::vector<double> freqs, blockfreqs, times;
  std::vector<std::vector<std::vector<dc>>> sols;  // [interval][block][(ant * nsub + sub) * npol + pol]
  std::string note;
  // Solution of output interval k.
  dc Value(size_t k, size_t b, size_t a, size_t d, size_t p) const { return sols[k / nstep][b][(a * nsub + SubIndex(k, d)) * npol + p]; }
  size_t SubIndex(size_t k, size_t d) const {
    size_t o = 0;
    for (size_t i = 0; i < d; ++i) o += sub[i];
    return o + (k % nstep) * sub[d] / nstep;
  }
};

Case Gen(Src& s) {
  Case c;
  c.nant = s.n(1, 4);
  for (size_t i = 0; i < c.nant; ++i) c.ants.push_back("ant" + std::to_string(i));
  s.shuffle(c.ants);
  c.ndir = s.n(1, 3);
  for (size_t i = 0; i < c.ndir; ++i) {
    std::vector<std::string> n{"p" + std::to_string(i)};
    if (s.chance(1, 3)) n.push_back("q" + std::to_string(i));
    c.dirs.push_back(n);
    c.dirnames.push_back(n.size() == 1 ? "[" + n[0] + "]" : "[" + n[0] + "," + n[1] + "]");
    c.pos.push_back(Direction(0.4 * i - 0.3, s.pick(std::vector<double>{0.5, -0.2, 1.0}) + 0.1 * i));
  }
  c.nch = s.n(1, 7);
  for (size_t i = 0; i < c.nch; ++i) c.freqs.push_back(1e8 + i * 2e5);
  c.nblock = s.n(1, c.nch);
  for (size_t b = 0; b < c.nblock; ++b) {
    const size_t i0 = b * c.nch / c.nblock, i1 = (b + 1) * c.nch / c.nblock;
    c.blockfreqs.push_back((c.freqs[i0] + c.freqs[i1 - 1]) / 2);
  }
  c.solint = s.pick(std::vector<size_t>{1, 2, 4, 6, 12, 3});
  c.sub.assign(c.ndir, 1);
  if (s.b())
    for (auto& x : c.sub) {
      std::vector<size_t> div;
      for (size_t k = 1; k <= c.solint; ++k) if (c.solint % k == 0) div.push_back(k);
      x = s.pick(div);
    }
  for (size_t x : c.sub) c.nsub += x;
  c.dd = c.nsub != c.ndir;
  c.ntime = s.n(1, 14);
  c.nint = (c.ntime + c.solint - 1) / c.solint;
  c.dt = s.pick(std::vector<double>{1, 10, 1.00139, 0.3});
  c.t0 = s.pick(std::vector<double>{0.0, 4.8e9 + 0.5, 1234.5});
  c.start = c.t0;
  c.end = c.t0 + c.ntime * c.dt;
  // Substeps: as many as the largest number, if that fits all, and otherwise one per time slot.
  if (c.dd) {
    const size_t m = *std::max_element(c.sub.begin(), c.sub.end());
    c.nstep = m;
    for (size_t x : c.sub) if (m % x) c.nstep = c.solint;
  }
  c.outdur = c.dt * (c.solint / c.nstep);
  c.nout = (c.ntime + c.solint / c.nstep - 1) / (c.solint / c.nstep);
  for (size_t k = 0; k < c.nout; ++k) c.times.push_back(c.start + (k + 0.5) * c.outdur);
  c.note = "nant=" + std::to_string(c.nant) + " ndir=" + std::to_string(c.ndir) + " blocks=" + std::to_string(c.nblock) + " nch=" + std::to_string(c.nch) + " ntime=" + std::to_string(c.ntime) + " solint=" + std::to_string(c.solint) + " sub=[";
  for (size_t x : c.sub) c.note += std::to_string(x) + " ";
  c.note += "] dt=" + Text(c.dt) + " t0=" + Text(c.t0);
  return c;
}
void GenSols(Src& s, Case& c, bool phase, bool ampl) {
  c.sols.assign(c.nint, std::vector<std::vector<dc>>(c.nblock, std::vector<dc>(c.nant * c.nsub * c.npol)));
  for (auto& i : c.sols)
    for (auto& b : i)
      for (dc& v : b) {
        v = std::polar(ampl ? s.real(0.3, 3) : 1.0, phase ? s.sym(3.1) : 0.0);
        if (s.chance(1, 40)) v = dc(NAN, NAN);
      }
}
bool Same(double a, double b) { return (std::isnan(a) && std::isnan(b)) || std::abs(a - b) <= 1e-12 * std::max(1.0, std::abs(b)); }

void CheckMeta(const SolTab& t, const Case& c, const std::vector<double>& freqs) {
  CHECK(t.GetStringAxis("ant") == c.ants, "stations of the table");
  CHECK(t.GetStringAxis("dir") == c.dirnames, "directions of the table");
  CHECK_EQ(t.GetRealAxis("time").size(), c.times.size(), "number of times");
  for (size_t k = 0; k < c.times.size(); ++k) CHECK_NEAR(t.GetRealAxis("time")[k], c.times[k], 1e-6 + 1e-6 * c.dt, "time ", k);
  CHECK_EQ(t.GetRealAxis("freq").size(), freqs.size(), "number of frequencies");
  for (size_t k = 0; k < freqs.size(); ++k) CHECK_NEAR(t.GetRealAxis("freq")[k], freqs[k], 1.0, "frequency ", k);
  const std::vector<std::string> pols = t.GetStringAxis("pol");
  if (t.HasAxis("pol")) CHECK(pols == (t.GetAxis("pol").size == 2 ? std::vector<std::string>{"XX", "YY"} : std::vector<std::string>{"XX", "XY", "YX", "YY"}), "polarizations");
  CHECK_EQ(t.histories.size(), size_t(1), "history");
  CHECK_EQ(t.histories[0], std::string("the history"), "history");
}
void CheckFile(const Case& c, const std::string& file, const std::vector<std::string>& all, const std::vector<std::array<double, 3>>& pos) {
  CHECK_EQ(MiniFiles()[file]->solsets.size(), size_t(1), "solution sets");
  auto& set = MiniFiles()[file]->solsets.begin()->second;
  CHECK_EQ(set.antennas.size(), all.size(), "stations of the set");
  for (size_t i = 0; i < all.size(); ++i) {
    CHECK_EQ(set.antennas[i].first, all[i], "station name");
    CHECK(set.antennas[i].second == pos[i], "station position");
  }
  CHECK_EQ(set.sources.size(), c.ndir, "directions of the set");
  for (size_t i = 0; i < c.ndir; ++i) {
    CHECK_EQ(set.sources[i].first, c.dirnames[i], "direction name");
    CHECK_EQ(set.sources[i].second.first, c.pos[i].ra, "ra");
    CHECK_EQ(set.sources[i].second.second, c.pos[i].dec, "dec");
  }
}
struct All { std::vector<std::string> names; std::vector<std::array<double, 3>> pos; };
All GenAll(Src& s, const Case& c) {
  All a;
  a.names = c.ants;
  if (s.b()) a.names.push_back("unused");
  s.shuffle(a.names);
  for (size_t i = 0; i < a.names.size(); ++i) a.pos.push_back({s.sym(1e6), s.sym(1e6), 5.0 * i});
  return a;
}
const std::vector<CalType> kModes = {CalType::kScalar, CalType::kDiagonal, CalType::kFullJones, CalType::kLeakage, CalType::kScalarPhase, CalType::kDiagonalPhase, CalType::kScalarAmplitude, CalType::kDiagonalAmplitude, CalType::kLeakageAmplitude};
bool WritesPhase(CalType m) { return !(m == CalType::kScalarAmplitude || m == CalType::kDiagonalAmplitude || m == CalType::kLeakageAmplitude); }
bool WritesAmpl(CalType m) { return !(m == CalType::kScalarPhase || m == CalType::kDiagonalPhase); }
}  // namespace

// Solutions of a solver.
PROP("P53.solver", 600, 8000) {
  Case c = Gen(s);
  c.mode = s.pick(kModes);
  c.npol = dp3::base::GetNPolarizations(c.mode);
  GenSols(s, c, WritesPhase(c.mode), WritesAmpl(c.mode));
  s.note(c.note);
  s.note("mode", dp3::base::ToString(c.mode));
  if (s.b()) MiniFiles()["out.h5"] = std::make_shared<schaapcommon::h5parm::MiniFile>(), MiniFiles()["out.h5"]->solsets["old"].soltabs["x"];
  const All all = GenAll(s, c);
  dp3::ddecal::SolutionWriter w("out.h5");
  w.AddAntennas(all.names, all.pos);
  std::vector<std::vector<std::vector<ConstraintResult>>> none(s.b() ? 0 : c.nint);
  w.Write(c.sols, none, c.start, c.end, c.dt, c.solint, c.sub, c.mode, c.ants, c.pos, c.dirs, c.freqs, c.blockfreqs, "the history");
  CheckFile(c, "out.h5", all.names, all.pos);
  auto& tabs = MiniFiles()["out.h5"]->solsets.begin()->second.soltabs;
  CHECK_EQ(tabs.size(), size_t(WritesPhase(c.mode)) + size_t(WritesAmpl(c.mode)), "number of tables");
  for (const bool phase : {true, false}) {
    if (!(phase ? WritesPhase(c.mode) : WritesAmpl(c.mode))) continue;
    const std::string n = phase ? "phase000" : "amplitude000";
    CHECK(tabs.count(n) == 1, "table ", n);
    const SolTab& t = tabs[n];
    CHECK_EQ(t.GetType(), std::string(phase ? "phase" : "amplitude"), "type");
    CheckMeta(t, c, c.blockfreqs);
    CHECK_EQ(t.HasAxis("pol"), c.npol > 1, "pol axis");
    const std::vector<std::pair<std::string, size_t>> want = {{"time", c.nout}, {"freq", c.nblock}, {"ant", c.nant}, {"dir", c.ndir}};
    for (auto& [a, n] : want) CHECK_EQ(size_t(t.GetAxis(a).size), n, "axis ", a);
    CHECK_EQ(t.Size(), c.nout * c.nblock * c.nant * c.ndir * c.npol, "size");
    for (size_t k = 0; k < c.nout; ++k)
      for (size_t b = 0; b < c.nblock; ++b)
        for (size_t a = 0; a < c.nant; ++a)
          for (size_t d = 0; d < c.ndir; ++d)
            for (size_t p = 0; p < c.npol; ++p) {
              const dc v = c.Value(k, b, a, d, p);
              CHECK(Same(t.At(k, b, a, d, p), phase ? std::arg(v) : std::abs(v)), n, " at time ", k, " block ", b, " antenna ", a, " direction ", d, " pol ", p, ": ", t.At(k, b, a, d, p), " expected ", v);
            }
  }
  s.nontrivial(c.nout * c.nblock * c.nant * c.ndir > 1);
  if (c.dd) s.label("intervals per direction");
  if (c.nint * c.nstep > c.nout) s.label("trimmed");
}

// Results of constraints (TEC, rotation and the like).
PROP("P53.constraints", 600, 8000) {
  Case c = Gen(s);
  s.note(c.note);
  c.mode = s.pick(std::vector<CalType>{CalType::kTec, CalType::kTecAndPhase, CalType::kRotation, CalType::kRotationAndDiagonal, CalType::kFaradayRotation});
  c.npol = dp3::base::GetNPolarizations(c.mode);
  GenSols(s, c, true, false);
  struct Kind { std::string name, axes; size_t nf, np; bool weights; };
  std::vector<std::vector<Kind>> kinds;
  const size_t ncon = s.n(1, 3);
  size_t id = 0;
  for (size_t i = 0; i < ncon; ++i) {
    kinds.push_back({});
    const size_t nres = s.pick(std::vector<size_t>{0, 1, 1, 2, 3});
    for (size_t r = 0; r < nres; ++r) {
      Kind k;
      k.name = std::string(s.pick(std::vector<std::string>{"tec", "phase", "rotation", "rotationmeasure"})) + std::to_string(id++);
      k.nf = s.pick(std::vector<size_t>{0, 1, c.nblock, c.nblock});
      k.np = s.pick(std::vector<size_t>{0, 0, 2, 4});
      k.axes = std::string("ant,dir") + (k.nf ? ",freq" : "") + (k.np ? ",pol" : "");
      k.weights = c.dd || s.chance(3, 4);
      kinds.back().push_back(k);
      s.note(su_cat(i, ": ", k.name, " ", k.axes, " nf=", k.nf, " np=", k.np, " weights=", k.weights));
    }
  }
  std::vector<std::vector<std::vector<ConstraintResult>>> res(c.nint);
  for (auto& t : res)
    for (auto& ks : kinds) {
      t.push_back({});
      for (auto& k : ks) {
        ConstraintResult r;
        r.name = k.name;
        r.axes = k.axes;
        r.dims = {c.nant, c.nsub};
        if (k.nf) r.dims.push_back(k.nf);
        if (k.np) r.dims.push_back(k.np);
        size_t n = 1;
        for (size_t d : r.dims) n *= d;
        for (size_t i = 0; i < n; ++i) {
          r.vals.push_back(s.sym(5));
          if (k.weights) r.weights.push_back(s.real(0.5, 2));
        }
        t.back().push_back(r);
      }
    }
  const All all = GenAll(s, c);
  dp3::ddecal::SolutionWriter w("out.h5");
  w.AddAntennas(all.names, all.pos);
  w.Write(c.sols, res, c.start, c.end, c.dt, c.solint, c.sub, c.mode, c.ants, c.pos, c.dirs, c.freqs, c.blockfreqs, "the history");
  CheckFile(c, "out.h5", all.names, all.pos);
  auto& tabs = MiniFiles()["out.h5"]->solsets.begin()->second.soltabs;
  CHECK_EQ(tabs.size(), id, "number of tables");
  for (size_t i = 0; i < ncon; ++i)
    for (size_t r = 0; r < kinds[i].size(); ++r) {
      const Kind& k = kinds[i][r];
      CHECK(tabs.count(k.name + "000") == 1, "table ", k.name);
      const SolTab& t = tabs[k.name + "000"];
      CHECK_EQ(t.GetType(), k.name, "type");
      const size_t nf = std::max<size_t>(1, k.nf), np = std::max<size_t>(1, k.np);
      std::vector<double> f;
      for (size_t b = 0; b < nf; ++b) {
        double sum = 0;
        const size_t i0 = b * c.nch / nf, i1 = (b + 1) * c.nch / nf;
        for (size_t j = i0; j < i1; ++j) sum += c.freqs[j];
        f.push_back(sum / (i1 - i0));
      }
      CheckMeta(t, c, f);
      CHECK_EQ(t.HasAxis("freq"), k.nf > 0, "freq axis");
      CHECK_EQ(t.HasAxis("pol"), k.np > 0, "pol axis");
      CHECK_EQ(size_t(t.GetAxis("time").size), c.nout, "time axis");
      CHECK_EQ(t.Size(), c.nout * c.nant * c.ndir * nf * np, "size");
      for (size_t o = 0; o < c.nout; ++o)
        for (size_t a = 0; a < c.nant; ++a)
          for (size_t d = 0; d < c.ndir; ++d)
            for (size_t b = 0; b < nf; ++b)
              for (size_t p = 0; p < np; ++p) {
                const size_t in = ((a * c.nsub + c.SubIndex(o, d)) * nf + b) * np + p;
                const ConstraintResult& x = res[o / c.nstep][i][r];
                CHECK_EQ(t.At(o, b, a, d, p), x.vals[in], k.name, " at time ", o, " block ", b, " antenna ", a, " direction ", d, " pol ", p);
                size_t flat = 0;
                for (auto& ax : t.GetAxes()) flat = flat * ax.size + (ax.name == "time" ? o : ax.name == "freq" ? b : ax.name == "ant" ? a : ax.name == "dir" ? d : p);
                CHECK_EQ(t.weights[flat], k.weights ? x.weights[in] : 1.0, "weight of ", k.name, " at time ", o);
              }
    }
  s.nontrivial(id > 0 && c.nout > 1);
  if (c.dd) s.label("intervals per direction");
  if (c.nint * c.nstep > c.nout) s.label("trimmed");
  if (ncon > 1) s.label("several constraints");
}

// Written solutions are found back as initial solutions.
PROP("P53.initial", 600, 8000) {
  Case c = Gen(s);
  c.mode = s.pick(std::vector<CalType>{CalType::kScalar, CalType::kDiagonal, CalType::kFullJones, CalType::kScalarPhase, CalType::kDiagonalPhase, CalType::kScalarAmplitude, CalType::kDiagonalAmplitude});
  c.npol = dp3::base::GetNPolarizations(c.mode);
  GenSols(s, c, WritesPhase(c.mode), WritesAmpl(c.mode));
  const bool linear = s.b();
  if (linear)  // a missing value next to the one wanted counts with weight zero up to rounding
    for (auto& i : c.sols) for (auto& b : i) for (dc& v : b) if (std::isnan(v.real())) v = 1;
  s.note(c.note);
  s.note("mode", dp3::base::ToString(c.mode));
  const All all = GenAll(s, c);
  {
    dp3::ddecal::SolutionWriter w("init.h5");
    w.AddAntennas(all.names, all.pos);
    w.Write(c.sols, {}, c.start, c.end, c.dt, c.solint, c.sub, c.mode, c.ants, c.pos, c.dirs, c.freqs, c.blockfreqs, "the history");
  }
  ParameterSet ps;
  ps.add("d.h5parm", "new.h5");
  ps.add("d.initialsolutions.h5parm", "init.h5");
  const bool both = WritesPhase(c.mode) && WritesAmpl(c.mode);
  if (!both || s.b()) ps.add("d.initialsolutions.soltab", both ? (c.npol == 4 || s.b() ? "[amplitude000,phase000]" : "[phase000,amplitude000]") : WritesPhase(c.mode) ? "[phase000]" : "[amplitude000]");
  if (linear || s.b()) ps.add("d.initialsolutions.interpolation", linear ? "linear" : "nearest");
  // Other stations, in another order.
  std::vector<std::string> ants = c.ants;
  const bool extra = s.chance(1, 3);
  if (extra) ants.push_back("new");
  s.shuffle(ants);
  ps.add("d.initialsolutions.missingantennabehavior", extra ? "unit" : s.pick(std::vector<std::string>{"error", "unit", "flag"}));
  // Other directions: each is closest to one of the file.
  const size_t ndir = s.n(1, 4);
  std::vector<size_t> from;
  std::vector<Direction> pos;
  std::vector<size_t> sub;
  std::string subtext;
  for (size_t d = 0; d < ndir; ++d) {
    from.push_back(s.n(c.ndir));
    pos.push_back(Direction(c.pos[from[d]].ra + s.sym(0.02), c.pos[from[d]].dec + s.sym(0.02)));
    sub.push_back(s.pick(std::vector<size_t>{1, 1, 2, 3}));
    subtext += (d ? "," : "") + std::to_string(sub[d]);
  }
  ps.add("d.solutions_per_direction", "[" + subtext + "]");
  ps.add("d.solint", "6");
  dp3::ddecal::Settings settings(ps, "d.");
  settings.PrepareSubSolutionsPerDirection(ndir);
  dp3::ddecal::InitialSolutions init(ps, "d.");
  CHECK(!init.Empty(), "not empty");
  const size_t np = s.pick(c.npol == 4 ? std::vector<size_t>{4} : c.npol == 2 ? std::vector<size_t>{2} : std::vector<size_t>{1, 2});
  init.Initialize(ndir, np);
  std::ostringstream os;
  init.Show(os);
  const size_t k = s.n(c.nout);
  std::vector<std::vector<dc>> out(c.nblock);
  init.Read(settings, out, ants, c.blockfreqs, pos, c.times[k]);
  size_t total = 0;
  for (size_t x : sub) total += x;
  for (size_t b = 0; b < c.nblock; ++b) {
    CHECK_EQ(out[b].size(), ants.size() * total * np, "number of solutions");
    for (size_t a = 0; a < ants.size(); ++a) {
      size_t o = 0;
      for (size_t d = 0; d < ndir; ++d)
        for (size_t i = 0; i < sub[d]; ++i, ++o)
          for (size_t p = 0; p < np; ++p) {
            const size_t fa = std::find(c.ants.begin(), c.ants.end(), ants[a]) - c.ants.begin();
            const dc want = fa == c.ants.size() ? dc(np < 4 || p % 3 == 0) : c.Value(k, b, fa, from[d], std::min(p, c.npol - 1));
            const dc got = out[b][(a * total + o) * np + p];
            if (!std::isfinite(want.real())) CHECK(!std::isfinite(got.real()), "missing solution");
            else CHECK(std::abs(got - want) <= 1e-4 * std::abs(want), "block ", b, " station ", ants[a], " direction ", d, " solution ", i, " pol ", p, ": ", got, " expected ", want);
          }
    }
  }
  s.nontrivial(c.nout * c.nblock * c.nant * c.ndir > 1);
}

// The numbers of solutions per direction that are accepted.
PROP("P53.intervals", 2000, 20000) {
  const size_t ndir = s.n(1, 4), n = s.n(0, 5), solint = s.n(0, 12);
  std::vector<size_t> v;
  std::string text;
  for (size_t i = 0; i < n; ++i) {
    v.push_back(s.chance(1, 12) ? 0 : s.pick(std::vector<size_t>{1, 1, 2, 3, 4, 6}));
    text += (i ? "," : "") + std::to_string(v[i]);
  }
  ParameterSet ps;
  ps.add("d.h5parm", "new.h5");
  if (n) ps.add("d.solutions_per_direction", "[" + text + "]");
  ps.add("d.solint", std::to_string(solint));
  std::vector<double> f;
  const size_t nf = s.chance(1, 3) ? s.n(1, 4) : 0;
  std::string ft;
  bool bad_f = false;
  for (size_t i = 0; i < nf; ++i) {
    f.push_back(s.pick(std::vector<double>{1, 0.5, 0.25, 1, 0.1, 0, 1.5}));
    bad_f |= f[i] <= 0 || f[i] > 1;
    ft += (i ? "," : "") + Text(f[i]);
  }
  if (nf) ps.add("d.smoothness_dd_factors", "[" + ft + "]");
  s.note(su_cat("ndir=", ndir, " solint=", solint, " [", text, "] factors=", ft));
  bool ok = v.size() <= ndir && !bad_f && (nf == 0 || nf == ndir);
  v.resize(std::max(ndir, v.size()), 1);
  for (size_t x : v) if (x == 0 || solint % x != 0 || (solint == 0 && x > 1)) ok = false;
  std::unique_ptr<dp3::ddecal::Settings> settings;
  const bool threw = vpt::Throws([&] {
    settings = std::make_unique<dp3::ddecal::Settings>(ps, "d.");
    settings->PrepareSubSolutionsPerDirection(ndir);
  });
  CHECK_EQ(threw, !ok, "refused");
  s.nontrivial(n > 0);
  if (!ok) return;
  CHECK(settings->sub_solutions_per_direction == v, "solutions per direction");
  size_t total = 0;
  std::vector<double> ex;
  for (size_t d = 0; d < ndir; ++d) {
    total += v[d];
    for (size_t i = 0; nf && i < v[d]; ++i) ex.push_back(f[d]);
  }
  CHECK_EQ(settings->GetNSolutions(), total, "number of solutions");
  if (nf) CHECK(settings->GetExpandedSmoothnessDdFactors() == ex, "smoothness factors");
}

VPT_MAIN
