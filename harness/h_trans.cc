// P31 PhaseShift, P32 StationAdder, P33 ScaleData, NullStokes, Combine, Interpolate.
#include "steps_util.h"

#include <cmath>
#include <limits>
#include <map>
#include <memory>
#include <set>

#include <casacore/tables/Tables/ArrayColumn.h>
#include <casacore/tables/Tables/Table.h>

#include "base/UVWCalculator.h"
#include "steps/Combine.h"
#include "steps/Interpolate.h"
#include "steps/NullStokes.h"
#include "steps/PhaseShift.h"
#include "steps/ScaleData.h"
#include "steps/StationAdder.h"

namespace {
using namespace su;
typedef std::complex<double> cd;

std::string Num(double v) { return Cat(v); }
std::string Join(const std::vector<std::string>& v) {
  std::string r = "[";
  for (size_t i = 0; i < v.size(); ++i) r += (i ? "," : "") + v[i];
  return r + "]";
}

bool Glob(const std::string& p, const std::string& t, size_t i = 0, size_t j = 0) {
  if (i == p.size()) return j == t.size();
  if (p[i] == '*') return Glob(p, t, i + 1, j) || (j < t.size() && Glob(p, t, i, j + 1));
  if (j == t.size()) return false;
  if (p[i] == '?') return Glob(p, t, i + 1, j + 1);
  return p[i] == t[j] && Glob(p, t, i + 1, j + 1);
}

std::string Pattern(Src& s, const Obs& b) {
  const std::string n = b.names[s.n(b.nant)];
  switch (s.n(6)) {
    case 0: return n;
    case 1: return n.substr(0, s.n(1, 5)) + "*";
    case 2: return "*" + n.substr(n.size() - 4);
    case 3: { std::string r = n; r[s.n(n.size())] = '?'; return r; }
    case 4: return "*";
    default: return s.b() ? "ZZ*" : n;
  }
}

void RunSteps(std::shared_ptr<Step> step, std::shared_ptr<Sink> sink, const DPInfo& info) {
  step->setNextStep(sink);
  step->setInfo(info);
}

void SameRest(const DPBuffer& o, const Slot& d, bool flags = true, bool uvw = true) {
  size_t i = 0;
  CHECK(Near(o.GetTime(), d.time, 1e-9), "the time was changed");
  CHECK(Near(o.GetExposure(), d.exposure, 1e-9), "the exposure was changed");
  CHECK_EQ(o.GetWeights().size(), d.weight.size());
  for (auto& x : o.GetWeights()) { CHECK(x == d.weight[i], "weights were changed"); ++i; }
  if (flags) {
    i = 0;
    for (auto&& x : o.GetFlags()) { CHECK(x == (d.flag[i] != 0), "flags were changed"); ++i; }
  }
  if (uvw) {
    i = 0;
    for (auto& x : o.GetUvw()) { CHECK(x == d.uvw[i], "uvw were changed"); ++i; }
  }
}

void AddExtra(Src& s, DPBuffer& buf, const std::string& name, std::vector<cf>& vals) {
  buf.AddData(name);
  buf.GetData(name).resize(buf.GetData().shape());
  vals.clear();
  for (auto& x : buf.GetData(name)) {
    x = cf(s.i(-64, 64) * 0.25f, s.i(-64, 64) * 0.25f);
    vals.push_back(x);
  }
}

// =============================================================== P31 PhaseShift
struct V3 {
  double x, y, z;
};
double Dot(V3 a, V3 b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
V3 Dir(double ra, double dec) { return {std::cos(ra) * std::cos(dec), std::sin(ra) * std::cos(dec), std::sin(dec)}; }
V3 East(double ra) { return {-std::sin(ra), std::cos(ra), 0}; }
V3 North(double ra, double dec) { return {-std::cos(ra) * std::sin(dec), -std::sin(ra) * std::sin(dec), std::cos(dec)}; }
// The sky frame used for uvw: u towards the east, v north, w to the direction,
// up to the fixed handedness of the axes, which cancels in all relations below.
V3 FromUvw(const double* uvw, double ra, double dec) {
  const V3 e = East(ra), n = North(ra, dec), w = Dir(ra, dec);
  return {uvw[0] * e.x + uvw[1] * n.x + uvw[2] * w.x, uvw[0] * e.y + uvw[1] * n.y + uvw[2] * w.y, uvw[0] * e.z + uvw[1] * n.z + uvw[2] * w.z};
}

std::string AngleText(Src& s, double rad) {
  switch (s.n(3)) {
    case 0: return Num(rad) + "rad";
    case 1: return Num(rad * 180 / M_PI) + "deg";
    default: return Num(rad * 180 / M_PI) + " deg";
  }
}

PROP("P31.source", 40000, 1500000) {
  ObsOpt o;
  o.max_t = 3;
  const Obs b = GenObs(s, o);
  const double nra = b.ra + s.pick(std::vector<double>{0.0, 0.01, -0.3, 1.5, 3.0}), ndec = s.pick(std::vector<double>{b.dec, b.dec + 0.02, -b.dec, 1.55, 0.0});
  const bool dflt = s.chance(1, 8), twice = s.b();
  ParameterSet ps;
  ps.add("s.phasecenter", dflt ? "[]" : "[" + AngleText(s, nra) + ", " + AngleText(s, ndec) + "]");
  DPInfo info = MakeInfo(b);
  // The present centre need not be the original one.
  const double cra = dflt ? b.ra + s.pick(std::vector<double>{0, 0.1, -0.7}) : b.ra, cdec = dflt ? b.dec - 0.2 : b.dec;
  if (dflt) info.setPhaseCenter(casacore::MDirection(casacore::MVDirection(cra, cdec), casacore::MDirection::J2000));
  const double tra = dflt ? b.ra : nra, tdec = dflt ? b.dec : ndec;
  auto step = std::make_shared<dp3::steps::PhaseShift>(ps, "s.");
  auto sink = std::make_shared<Sink>();
  std::shared_ptr<dp3::steps::PhaseShift> back;
  if (twice) {
    ParameterSet p2;
    p2.add("b.phasecenter", "[" + Cat(cra) + "rad," + Cat(cdec) + "rad]");
    back = std::make_shared<dp3::steps::PhaseShift>(p2, "b.");
    step->setNextStep(back);
    back->setNextStep(sink);
    step->setInfo(info);
  } else {
    RunSteps(step, sink, info);
  }
  s.note(Note(b) + Cat(" from ", cra, ",", cdec, " to ", tra, ",", tdec, twice ? " and back" : ""));
  CHECK(step->getInfoOut().metaChanged(), "a changed phase centre must be marked");
  const auto pc = step->getInfoOut().phaseCenterDirection();
  CHECK(Near(std::cos(pc.ra - tra), 1, 1e-12) && Near(std::sin(pc.ra - tra), 0, 1e-8) && Near(pc.dec, tdec, 1e-8), "phase centre in the metadata");
  // A point source somewhere.
  const double sra = b.ra + s.pick(std::vector<double>{0, 0.05, -1.0}), sdec = s.pick(std::vector<double>{b.dec, b.dec - 0.1, 0.3});
  const V3 s0 = Dir(cra, cdec), s1 = Dir(tra, tdec), src = Dir(sra, sdec);
  std::vector<Slot> in;
  std::vector<std::vector<cf>> amp;
  double len = 0;
  for (size_t t = 0; t < b.nt; ++t) {
    Slot d = GenSlot(s, b, t);
    amp.push_back(d.data);
    for (size_t k = 0; k < b.nbl; ++k) {
      const V3 bl = FromUvw(&d.uvw[3 * k], cra, cdec);
      len = std::max(len, Dot(bl, bl));
      for (size_t c = 0; c < b.nch; ++c) {
        const double ph = 2 * M_PI * b.freq[c] / 299792458.0 * (Dot(bl, src) - Dot(bl, s0));
        for (size_t p = 0; p < b.ncorr; ++p) {
          cf& x = d.data[(k * b.nch + c) * b.ncorr + p];
          x = cf(cd(x) * std::polar(1.0, ph));
        }
      }
    }
    in.push_back(d);
    auto buf = MakeBuffer(b, d);
    std::vector<cf> extra;
    const bool ex = s.chance(1, 4);
    if (ex) AddExtra(s, *buf, "extra", extra);
    step->process(std::move(buf));
    CHECK_EQ(sink->bufs.size(), t + 1);
    const DPBuffer& r = *sink->bufs.back();
    CheckShape(r, b.nbl, b.nch, b.ncorr);
    SameRest(r, d, true, false);
    if (ex) {
      size_t i = 0;
      for (auto& x : r.GetData("extra")) CHECK(x == extra[i++], "extra data were changed");
    }
    if (!twice) {
      const auto& phasors = step->getPhasors();
      CHECK_EQ(phasors.shape(0), b.nbl);
      CHECK_EQ(phasors.shape(1), b.nch);
    }
    for (size_t k = 0; k < b.nbl; ++k) {
      const V3 bl = FromUvw(&d.uvw[3 * k], cra, cdec);
      const double e0 = twice ? cra : tra, e1 = twice ? cdec : tdec;
      const double exp_uvw[3] = {Dot(bl, East(e0)), Dot(bl, North(e0, e1)), Dot(bl, Dir(e0, e1))};
      for (int i = 0; i < 3; ++i)
        CHECK(Near(r.GetUvw()(k, i), exp_uvw[i], 2e-4), Cat("uvw ", i, " of baseline ", k, ": ", r.GetUvw()(k, i), " expected ", exp_uvw[i]));
      for (size_t c = 0; c < b.nch; ++c) {
        const double kf = 2 * M_PI * b.freq[c] / 299792458.0;
        const double ph = kf * (Dot(bl, src) - Dot(bl, twice ? s0 : s1));
        if (!twice) {
          const cd want = std::polar(1.0, kf * (Dot(bl, s0) - Dot(bl, s1)));
          CHECK(std::abs(step->getPhasors()(k, c) - want) < 2e-4, Cat("phasor of baseline ", k, " channel ", c));
        }
        for (size_t p = 0; p < b.ncorr; ++p) {
          const cd want = cd(amp[t][(k * b.nch + c) * b.ncorr + p]) * std::polar(1.0, ph);
          const cf got = r.GetData()(k, c, p);
          CHECK(NearC(got, want, 1e-2 + 1e-5 * std::abs(want)), Cat("visibility ", k, ",", c, ",", p, ": ", got, " expected ", want));
        }
      }
    }
  }
  step->finish();
  CHECK_EQ(sink->n_finish, 1);
  s.nontrivial(b.nbl > 1 && len > 1 && !(tra == cra && tdec == cdec));
}

PROP("P31.invalid", 3000, 50000) {
  const Obs b = GenObs(s);
  static const std::vector<std::string> bad = {"[1deg]", "[1deg,2deg,B1950]", "[1deg,2deg,J2000,4]", "[abc,1deg]", "[1deg,xyz]", "[nosuchsource]", "[1deg,2deg,3deg]"};
  const std::string t = s.pick(bad);
  s.note(t);
  ParameterSet ps;
  ps.add("s.phasecenter", t);
  auto step = std::make_shared<dp3::steps::PhaseShift>(ps, "s.");
  auto sink = std::make_shared<Sink>();
  const DPInfo info = MakeInfo(b);
  CHECK(vpt::Throws([&] { RunSteps(step, sink, info); }), "accepted phasecenter " + t);
  s.nontrivial(true);
}

// ============================================================= P32 StationAdder
PROP("P32.stations", 50000, 1500000) {
  ObsOpt o;
  o.max_ant = 7;
  o.max_bl = 16;
  o.max_ch = 3;
  o.max_t = 3;
  Obs b = GenObs(s, o);
  // Definitions in name order, as a record keeps them.
  struct Def {
    std::string name;
    std::vector<std::string> pats;
    std::vector<int> parts;
  };
  const int ndef = s.i(1, 3);
  std::vector<Def> defs;
  static const char* kNames[] = {"NEW1", "ST2", "X3"};
  for (int i = 0; i < ndef; ++i) {
    Def d;
    d.name = kNames[i];
    const int np = s.i(1, 3);
    for (int j = 0; j < np; ++j) {
      std::string p = Pattern(s, b);
      if (ndef > 1 && s.chance(3, 4)) p = b.names[s.n(b.nant)];
      if (j > 0 && s.chance(1, 3)) p = (s.b() ? "!" : "^") + p;
      d.pats.push_back(p);
    }
    std::vector<char> used(b.nant, 0);
    for (auto& p : d.pats) {
      const bool neg = p[0] == '!' || p[0] == '^';
      for (size_t a = 0; a < b.nant; ++a)
        if (Glob(neg ? p.substr(1) : p, b.names[a])) used[a] = !neg;
    }
    for (size_t a = 0; a < b.nant; ++a)
      if (used[a]) d.parts.push_back(a);
    defs.push_back(d);
  }
  const bool exists = s.chance(1, 20);
  if (exists) defs[0].name = b.names[s.n(b.nant)];
  const unsigned minpoints = s.pick(std::vector<unsigned>{1, 1, 2, 3, 0});
  const bool mkauto = s.b(), sumauto = s.b(), average = s.chance(2, 3), usew = s.chance(2, 3);
  std::string rec = "{";
  for (int i = 0; i < ndef; ++i) {
    std::string v = "[";
    for (size_t j = 0; j < defs[i].pats.size(); ++j) v += (j ? "," : "") + (s.b() ? "'" + defs[i].pats[j] + "'" : defs[i].pats[j]);
    v += "]";
    rec += (i ? "," : "") + defs[i].name + ":" + v;
  }
  rec += "}";
  ParameterSet ps;
  ps.add("s.stations", rec);
  if (minpoints != 1 || s.b()) ps.add("s.minpoints", std::to_string(minpoints));
  if (mkauto || s.b()) ps.add("s.autocorr", mkauto ? "true" : "false");
  if (!sumauto || s.b()) ps.add("s.sumauto", sumauto ? "true" : "false");
  if (!average || s.b()) ps.add("s.average", average ? "true" : "false");
  if (!usew || s.b()) ps.add("s.useweights", usew ? "true" : "false");
  s.note(Note(b) + " stations=" + rec + Cat(" min=", minpoints, " auto=", mkauto, " sumauto=", sumauto, " avg=", average, " usew=", usew));
  auto step = std::make_shared<dp3::steps::StationAdder>(ps, "s.");
  auto sink = std::make_shared<Sink>();
  const DPInfo info = MakeInfo(b);
  // What should happen.
  bool reject = false;
  std::vector<int> owner(b.nant, -1);
  std::vector<Def> act;
  std::sort(defs.begin(), defs.end(), [](auto& x, auto& y) { return x.name < y.name; });
  for (auto& d : defs) {
    if (std::count(b.names.begin(), b.names.end(), d.name)) reject = true;
    if (d.parts.empty()) continue;
    for (int a : d.parts) {
      if (owner[a] >= 0) reject = true;
      owner[a] = act.size();
    }
    act.push_back(d);
  }
  if (reject) {
    CHECK(vpt::Throws([&] { RunSteps(step, sink, info); }), "a station name that exists or a station used twice was accepted");
    s.label("rejected");
    return;
  }
  RunSteps(step, sink, info);
  const DPInfo& out = step->getInfoOut();
  CHECK(out.metaChanged(), "added stations must be marked as changed metadata");
  const size_t nant = b.nant + act.size();
  CHECK_EQ(out.nantenna(), nant);
  auto P3 = [](const casacore::MPosition& m) {
    const auto& v = m.getValue().getValue();
    return V3{v(0), v(1), v(2)};
  };
  std::vector<casacore::MPosition> pos;
  for (size_t a = 0; a < b.nant; ++a) {
    CHECK_EQ(out.antennaNames()[a], b.names[a]);
    CHECK(out.antennaDiam()[a] == b.diam[a], "diameter of an existing station");
    const V3 q = P3(out.antennaPos()[a]);
    CHECK(Near(q.x, b.pos[a][0], 1e-6) && Near(q.y, b.pos[a][1], 1e-6) && Near(q.z, b.pos[a][2], 1e-6), "position of an existing station");
    pos.push_back(casacore::MPosition(casacore::MVPosition(b.pos[a][0], b.pos[a][1], b.pos[a][2]), casacore::MPosition::ITRF));
  }
  for (size_t j = 0; j < act.size(); ++j) {
    CHECK_EQ(out.antennaNames()[b.nant + j], act[j].name);
    V3 m{0, 0, 0};
    for (int a : act[j].parts) {
      m.x += b.pos[a][0] / act[j].parts.size();
      m.y += b.pos[a][1] / act[j].parts.size();
      m.z += b.pos[a][2] / act[j].parts.size();
    }
    double size = 0;
    for (int a : act[j].parts)
      size = std::max(size, 2 * std::sqrt(std::pow(b.pos[a][0] - m.x, 2) + std::pow(b.pos[a][1] - m.y, 2) + std::pow(b.pos[a][2] - m.z, 2)) + b.diam[a]);
    const V3 q = P3(out.antennaPos()[b.nant + j]);
    CHECK(Near(q.x, m.x, 1e-4) && Near(q.y, m.y, 1e-4) && Near(q.z, m.z, 1e-4), "position of the new station " + act[j].name);
    CHECK(Near(out.antennaDiam()[b.nant + j], size, 1e-4), "diameter of the new station " + act[j].name);
    pos.push_back(casacore::MPosition(casacore::MVPosition(m.x, m.y, m.z), casacore::MPosition::ITRF));
  }
  // The baselines of the output and the ones each new one is made of: number and
  // whether it has to be conjugated.
  const std::vector<int> o1 = out.getAnt1(), o2 = out.getAnt2();
  CHECK(o1.size() >= b.nbl && o1.size() == o2.size(), "existing baselines are kept");
  for (size_t k = 0; k < b.nbl; ++k) CHECK(o1[k] == b.a1[k] && o2[k] == b.a2[k], "existing baselines are kept in order");
  const size_t nout = o1.size();
  std::vector<std::vector<std::pair<size_t, bool>>> from(nout);
  std::vector<int> m1 = b.a1, m2 = b.a2;
  size_t nexpect = b.nbl;
  for (size_t j = 0; j < act.size(); ++j) {
    const int S = b.nant + j;
    auto in = [&](int a) { return a < int(b.nant) && owner[a] == int(j); };
    std::map<int, std::vector<std::pair<size_t, bool>>> need;  // other station -> inputs
    for (size_t k = 0; k < m1.size(); ++k) {
      const bool h1 = in(m1[k]), h2 = in(m2[k]);
      if (h1 && h2) {
        if (mkauto && (m1[k] == m2[k]) == sumauto) need[S].push_back({k, false});
      } else if (h1) {
        need[m2[k]].push_back({k, true});
      } else if (h2) {
        need[m1[k]].push_back({k, false});
      }
    }
    for (auto& [X, v] : need) {
      // Each has to be there exactly once, as X-S.
      size_t found = 0, at = 0;
      for (size_t k = b.nbl; k < nout; ++k)
        if (o1[k] == X && o2[k] == S) {
          ++found;
          at = k;
        }
      CHECK(found == 1, Cat("new baseline ", X, "-", S, " present ", found, " times"));
      from[at] = v;
    }
    nexpect += need.size();
    // The later stations are made from these as well.
    for (size_t k = m1.size(); k < nexpect; ++k) {
      CHECK(k < nout, "a new baseline is missing");
      CHECK(o2[k] == S, "new baselines are ordered by new station");
      m1.push_back(o1[k]);
      m2.push_back(o2[k]);
    }
  }
  CHECK_EQ(nout, nexpect);
  bool mixed = false, conj = false;
  dp3::base::UVWCalculator uvwcalc(info.phaseCenter(), info.arrayPos(), pos);
  for (size_t t = 0; t < b.nt; ++t) {
    const Slot d = GenSlot(s, b, t);
    step->process(MakeBuffer(b, d));
    CHECK_EQ(sink->bufs.size(), t + 1);
    const DPBuffer& r = *sink->bufs.back();
    CheckShape(r, nout, b.nch, b.ncorr);
    CHECK_EQ(r.GetUvw().shape(0), nout);
    CHECK(r.GetTime() == d.time, "time");
    for (size_t k = 0; k < b.nbl; ++k) {
      for (int i = 0; i < 3; ++i) CHECK(r.GetUvw()(k, i) == d.uvw[3 * k + i], "uvw of an existing baseline");
      for (size_t c = 0; c < b.nch; ++c)
        for (size_t p = 0; p < b.ncorr; ++p) {
          const size_t i = (k * b.nch + c) * b.ncorr + p;
          CHECK(r.GetData()(k, c, p) == d.data[i] && r.GetWeights()(k, c, p) == d.weight[i] && r.GetFlags()(k, c, p) == (d.flag[i] != 0),
                "an existing baseline was changed");
        }
    }
    for (size_t k = b.nbl; k < nout; ++k) {
      double usum = 0, u[3] = {0, 0, 0};
      for (size_t c = 0; c < b.nch; ++c)
        for (size_t p = 0; p < b.ncorr; ++p) {
          cd good = 0, all = 0;
          double wgood = 0, wall = 0;
          unsigned n = 0;
          bool bad_in = false;
          for (auto& [q, cj] : from[k]) {
            conj |= cj;
            cd v = r.GetData()(q, c, p);
            if (cj) v = std::conj(v);
            const double w = usew ? double(r.GetWeights()(q, c, p)) : 1.0;
            if (!std::isfinite(v.real())) bad_in = true;
            all += v * w;
            wall += w;
            if (!r.GetFlags()(q, c, p)) {
              good += v * w;
              wgood += w;
              ++n;
              for (int i = 0; i < 3; ++i) u[i] += (cj ? -1 : 1) * w * r.GetUvw()(q, i);
              usum += w;
            } else {
              mixed = true;
            }
          }
          const bool fl = wgood == 0 || n < minpoints;
          CHECK(r.GetFlags()(k, c, p) == fl, Cat("flag of new baseline ", o1[k], "-", o2[k], " at ", c, ",", p));
          const double w = fl ? wall : wgood;
          CHECK(Near(r.GetWeights()(k, c, p), w, 1e-4 * (1 + w)), Cat("weight of new baseline ", o1[k], "-", o2[k]));
          cd v = fl ? all : good;
          if (average && w == 0) continue;
          if (average) v /= w;
          if (bad_in) continue;
          CHECK(NearC(r.GetData()(k, c, p), v, 1e-4 * (50 + std::abs(v))),
                Cat("visibility of new baseline ", o1[k], "-", o2[k], " at ", c, ",", p, ": ", r.GetData()(k, c, p), " expected ", v));
        }
      if (average && usum != 0) {
        for (int i = 0; i < 3; ++i) CHECK(Near(r.GetUvw()(k, i), u[i] / usum, 1e-2), Cat("uvw of new baseline ", o1[k], "-", o2[k]));
      } else {
        const auto e = uvwcalc.getUVW(o1[k], o2[k], d.time);
        for (int i = 0; i < 3; ++i) CHECK(Near(r.GetUvw()(k, i), e[i], 1e-2), Cat("calculated uvw of new baseline ", o1[k], "-", o2[k]));
      }
    }
  }
  step->finish();
  CHECK_EQ(sink->n_finish, 1);
  s.label(act.size() == 1 ? "new1" : act.size() == 2 ? "new2" : "new0or3");
  if (conj) s.label("conjugated");
  s.nontrivial(nout > b.nbl && mixed);
}

// ==================================================== P33 transforming visibilities
struct Bda {
  std::vector<size_t> nch;
  std::vector<std::vector<double>> freq, width;
};
Bda GenBda(Src& s, const Obs& b) {
  Bda r;
  for (size_t k = 0; k < b.nbl; ++k) {
    std::vector<size_t> div;
    for (size_t n = 1; n <= b.nch; ++n)
      if (b.nch % n == 0) div.push_back(n);
    const size_t n = s.chance(1, 3) ? b.nch : div[s.n(div.size())];
    const size_t f = b.nch / n;
    r.nch.push_back(n);
    std::vector<double> fr, wi;
    for (size_t c = 0; c < n; ++c) {
      double m = 0, w = 0;
      for (size_t i = 0; i < f; ++i) {
        m += b.freq[c * f + i] / f;
        w += b.width[c * f + i];
      }
      fr.push_back(m);
      wi.push_back(w);
    }
    r.freq.push_back(fr);
    r.width.push_back(wi);
  }
  return r;
}
struct BRow {
  double time, dt, exp;
  size_t bl, n;
  std::vector<cf> data;
  std::vector<float> weight;
  std::vector<char> flag;
  std::array<double, 3> uvw;
};
std::vector<BRow> GenRows(Src& s, const Obs& b, const Bda& bda) {
  std::vector<BRow> rows;
  const int n = s.i(1, 8);
  for (int i = 0; i < n; ++i) {
    BRow r;
    r.bl = s.n(b.nbl);
    r.time = b.t0 + s.i(0, 5) * b.dt;
    r.dt = r.exp = b.dt * s.i(1, 4);
    r.n = bda.nch[r.bl];
    for (size_t j = 0; j < r.n * b.ncorr; ++j) {
      r.data.push_back(cf(s.i(-64, 64) * 0.25f, s.i(-64, 64) * 0.25f));
      r.weight.push_back(s.i(0, 16) * 0.25f);
      r.flag.push_back(s.chance(1, 3));
    }
    for (auto& x : r.uvw) x = s.i(-100, 100);
    rows.push_back(r);
  }
  std::stable_sort(rows.begin(), rows.end(), [](auto& x, auto& y) { return x.time - x.dt / 2 < y.time - y.dt / 2; });
  return rows;
}
std::unique_ptr<BdaBuffer> MakeBda(const Obs& b, const std::vector<BRow>& rows) {
  size_t size = 0;
  for (auto& r : rows) size += r.data.size();
  auto buf = std::make_unique<BdaBuffer>(size, AllFields());
  size_t nr = 0;
  for (auto& r : rows) {
    std::vector<char> f = r.flag;
    CHECK(buf->AddRow(r.time, r.dt, r.exp, r.bl, r.n, b.ncorr, nr++, r.data.data(), reinterpret_cast<const bool*>(f.data()), r.weight.data(), r.uvw.data()),
          "a row does not fit");
  }
  return buf;
}
void SameRowsButData(const BdaBuffer& o, const std::vector<BRow>& rows) {
  CHECK_EQ(o.GetRows().size(), rows.size());
  for (size_t i = 0; i < rows.size(); ++i) {
    const auto& r = o.GetRows()[i];
    CHECK(r.time == rows[i].time && r.interval == rows[i].dt && r.exposure == rows[i].exp && r.baseline_nr == rows[i].bl && r.n_channels == rows[i].n &&
              r.row_nr == i,
          "metadata of a row were changed");
    for (size_t j = 0; j < rows[i].weight.size(); ++j)
      CHECK(o.GetWeights(i)[j] == rows[i].weight[j] && o.GetFlags(i)[j] == (rows[i].flag[j] != 0), "weights or flags of a row were changed");
  }
}

void MakeAntennaFields(const std::string& name, const std::vector<std::vector<std::vector<char>>>& used, size_t nant) {
  using namespace casacore;
  TableDesc td;
  td.addColumn(ScalarColumnDesc<int>("ANTENNA_ID"));
  td.addColumn(ArrayColumnDesc<bool>("ELEMENT_FLAG"));
  size_t rows = 0;
  for (auto& a : used) rows += a.size();
  SetupNewTable sf(name + "/LOFAR_ANTENNA_FIELD", td, Table::New);
  Table tf(sf, rows);
  ScalarColumn<int> id(tf, "ANTENNA_ID");
  ArrayColumn<bool> fl(tf, "ELEMENT_FLAG");
  // Field by field, so that the rows of one station need not be together.
  size_t r = 0;
  for (size_t f = 0; f < 2; ++f)
    for (size_t a = 0; a < used.size(); ++a)
      if (f < used[a].size()) {
        id.put(r, int(a));
        const auto& e = used[a][f];
        Matrix<bool> m(2, e.size() / 2);
        for (size_t i = 0; i < e.size(); ++i) m(i % 2, i / 2) = e[i] == 0;
        fl.put(r, m);
        ++r;
      }
  TableDesc ta;
  ta.addColumn(ScalarColumnDesc<String>("NAME"));
  SetupNewTable sa(name + "/ANTENNA", ta, Table::New);
  Table an(sa, nant);
  SetupNewTable sm(name, TableDesc(), Table::New);
  Table ms(sm, 0);
  ms.rwKeywordSet().define("LOFAR_ANTENNA_FIELD", tf);
  ms.rwKeywordSet().define("ANTENNA", an);
}

PROP("P33.scale", 30000, 1000000) {
  ObsOpt o;
  o.max_ant = 5;
  o.max_ch = 6;
  o.max_t = 2;
  const Obs b = GenObs(s, o);
  const bool bda = s.b();
  const bool lba = s.b();
  // Coefficients with a positive value everywhere.
  const int nst = s.i(0, 3);
  std::vector<std::string> pats, ctext;
  std::vector<std::vector<double>> coeff;
  for (int i = 0; i < nst; ++i) {
    pats.push_back(Pattern(s, b));
    std::vector<double> c;
    const int n = s.i(1, 4);
    for (int j = 0; j < n; ++j) c.push_back(s.i(1, 8) * (j ? 0.01 / std::pow(100.0, j - 1) : 0.5));
    coeff.push_back(c);
    std::vector<std::string> t;
    for (double x : c) t.push_back(Num(x));
    ctext.push_back(Join(t));
  }
  const int size = s.n(3);  // not given, true, false
  std::vector<std::vector<std::vector<char>>> used(b.nant);
  std::vector<double> extra(b.nant, 1);
  for (size_t a = 0; a < b.nant; ++a) {
    const int nf = s.i(1, 2);
    double n = 0;
    for (int f = 0; f < nf; ++f) {
      std::vector<char> e(2 * s.i(1, 6));
      for (auto& x : e) x = s.chance(3, 4);
      e[0] = 1;
      for (char x : e) n += x * 0.5;
      used[a].push_back(e);
    }
    extra[a] = (lba ? 48 : 24) / n;
  }
  const bool miscount = size != 2 && s.chance(1, 20);
  MakeAntennaFields("scale.ms", used, b.nant + miscount);
  ParameterSet ps;
  if (nst || s.b()) {
    ps.add("s.stations", Join(pats));
    ps.add("s.coeffs", Join(ctext));
  }
  if (size) ps.add("s.scalesize", size == 1 ? "true" : "false");
  s.note(Note(b) + Cat(" stations=", Join(pats), " coeffs=", Join(ctext), " scalesize=", size, lba ? " LBA" : " HBA", bda ? " bda" : ""));
  auto step = std::make_shared<dp3::steps::ScaleData>(ps, "s.", bda ? Step::MsType::kBda : Step::MsType::kRegular);
  CHECK(step->accepts(bda ? Step::MsType::kBda : Step::MsType::kRegular) && !step->accepts(bda ? Step::MsType::kRegular : Step::MsType::kBda), "accepted data");
  auto sink = std::make_shared<Sink>();
  DPInfo info = MakeInfo(b, lba ? "LBA_OUTER" : "HBA_DUAL");
  info.setMsNames("scale.ms", "DATA", "FLAG", "WEIGHT_SPECTRUM");
  Bda layout;
  if (bda) {
    layout = GenBda(s, b);
    auto f = layout.freq, w = layout.width;
    info.setChannels(std::move(f), std::move(w));
  }
  if (miscount) {
    CHECK(vpt::Throws([&] { RunSteps(step, sink, info); }), "a different number of stations in the measurement set was accepted");
    return;
  }
  RunSteps(step, sink, info);
  static const std::vector<double> kLba{1.02306755e+06, -7.31426342e+04, 2.05537660e+03, -2.61310245e+01, 1.26031118e-01};
  static const std::vector<double> kHba{2.35166277e+05, -6.20793100e+03, 6.22685124e+01, -2.78418826e-01, 4.67920578e-04};
  bool both = false, given = false;
  auto factor = [&](int a, double f) {
    for (int i = 0; i <= nst; ++i)
      if (i == nst || Glob(pats[i], b.names[a])) {
        const auto& c = i < nst ? coeff[i] : (lba ? kLba : kHba);
        double v = 0;
        for (size_t k = 0; k < c.size(); ++k) v += c[k] * std::pow(f * 1e-6, double(k));
        if (size == 1 || (size == 0 && i == nst)) v *= extra[a];
        (i < nst ? given : both) = true;
        return v;
      }
    return 0.0;
  };
  auto check = [&](cf got, cf in, size_t bl, double f) {
    const double p = factor(b.a1[bl], f) * factor(b.a2[bl], f);
    if (p < 0) return;
    const cd want = cd(in) * std::sqrt(p);
    // The default polynomials nearly cancel.
    CHECK(NearC(got, want, 2e-5 * std::abs(want) + 1e-4), Cat("scaled value ", got, " of ", in, " expected ", want));
  };
  if (bda) {
    const auto rows = GenRows(s, b, layout);
    step->process(MakeBda(b, rows));
    CHECK_EQ(sink->bdas.size(), size_t(1));
    const BdaBuffer& r = *sink->bdas[0];
    SameRowsButData(r, rows);
    for (size_t i = 0; i < rows.size(); ++i)
      for (size_t c = 0; c < rows[i].n; ++c)
        for (size_t p = 0; p < b.ncorr; ++p)
          check(r.GetData(i)[c * b.ncorr + p], rows[i].data[c * b.ncorr + p], rows[i].bl, layout.freq[rows[i].bl][c]);
  } else {
    for (size_t t = 0; t < b.nt; ++t) {
      const Slot d = GenSlot(s, b, t);
      step->process(MakeBuffer(b, d));
      CHECK_EQ(sink->bufs.size(), t + 1);
      const DPBuffer& r = *sink->bufs.back();
      SameRest(r, d);
      for (size_t k = 0; k < b.nbl; ++k)
        for (size_t c = 0; c < b.nch; ++c)
          for (size_t p = 0; p < b.ncorr; ++p) check(r.GetData()(k, c, p), d.data[(k * b.nch + c) * b.ncorr + p], k, b.freq[c]);
    }
  }
  step->finish();
  CHECK_EQ(sink->n_finish, 1);
  s.label(bda ? "bda" : "regular");
  s.nontrivial(b.nbl > 1 && (given || size != 2));
}

PROP("P33.scale_invalid", 1000, 20000) {
  const Obs b = GenObs(s);
  ParameterSet ps;
  const int how = s.n(3);
  ps.add("s.stations", how == 0 ? "[CS*,RS*]" : "[CS*]");
  ps.add("s.coeffs", how == 1 ? "[[]]" : "[[1,2]]");
  if (how != 2) ps.add("s.scalesize", "false");
  DPInfo info = MakeInfo(b);
  MakeAntennaFields("ok.ms", {}, 0);
  casacore::SetupNewTable sm("nofield.ms", casacore::TableDesc(), casacore::Table::New);
  casacore::Table tm(sm, 0);
  info.setMsNames("nofield.ms", "DATA", "FLAG", "WEIGHT_SPECTRUM");
  s.note(Cat("case ", how));
  auto sink = std::make_shared<Sink>();
  CHECK(vpt::Throws([&] {
          auto step = std::make_shared<dp3::steps::ScaleData>(ps, "s.", Step::MsType::kRegular);
          RunSteps(step, sink, info);
        }),
        "invalid settings were accepted");
  s.nontrivial(true);
}

PROP("P33.nullstokes", 30000, 1000000) {
  ObsOpt o;
  o.all_corr = false;
  o.max_t = 2;
  const Obs b = GenObs(s, o);
  bool m[4];
  ParameterSet ps;
  std::string t;
  for (int i = 0; i < 4; ++i) {
    m[i] = s.b();
    t += m[i] ? "IQUV"[i] : '-';
    if (m[i] || s.b()) ps.add(std::string("s.modify_") + "iquv"[i], m[i] ? "true" : "false");
  }
  s.note(Note(b) + " " + t);
  auto step = std::make_shared<dp3::steps::NullStokes>(ps, "s.");
  auto sink = std::make_shared<Sink>();
  RunSteps(step, sink, MakeInfo(b));
  for (size_t tt = 0; tt < b.nt; ++tt) {
    const Slot d = GenSlot(s, b, tt);
    auto buf = MakeBuffer(b, d);
    std::vector<cf> extra;
    AddExtra(s, *buf, "extra", extra);
    step->process(std::move(buf));
    CHECK_EQ(sink->bufs.size(), tt + 1);
    const DPBuffer& r = *sink->bufs.back();
    SameRest(r, d);
    size_t n = 0;
    for (auto& x : r.GetData("extra")) CHECK(x == extra[n++], "extra data were changed");
    for (size_t k = 0; k < b.nbl; ++k)
      for (size_t c = 0; c < b.nch; ++c) {
        const cf* i = &d.data[(k * b.nch + c) * 4];
        auto g = [&](int p) { return r.GetData()(k, c, p); };
        // Stokes products of input and output.
        const cf si[4] = {i[0] + i[3], i[0] - i[3], i[1] + i[2], i[1] - i[2]}, so[4] = {g(0) + g(3), g(0) - g(3), g(1) + g(2), g(1) - g(2)};
        for (int j = 0; j < 4; ++j) {
          const cf want = m[j] ? cf(0) : si[j];
          CHECK(NearC(so[j], want, 1e-5), Cat("Stokes ", "IQUV"[j], " of ", k, ",", c, " with ", t, ": ", so[j], " expected ", want));
        }
      }
  }
  step->finish();
  CHECK_EQ(sink->n_finish, 1);
  s.nontrivial(m[0] || m[1] || m[2] || m[3]);
}

PROP("P33.combine", 30000, 1000000) {
  const Obs b = GenObs(s);
  const bool bda = s.b();
  const int op = s.n(3);  // default, add, subtract
  ParameterSet ps;
  ps.add("s.buffername", "model");
  if (op) ps.add("s.operation", op == 1 ? "add" : "subtract");
  s.note(Note(b) + Cat(" op ", op, bda ? " bda" : ""));
  auto step = std::make_shared<dp3::steps::Combine>(ps, "s.", bda ? Step::MsType::kBda : Step::MsType::kRegular);
  CHECK(step->accepts(bda ? Step::MsType::kBda : Step::MsType::kRegular) && !step->accepts(bda ? Step::MsType::kRegular : Step::MsType::kBda), "accepted data");
  auto sink = std::make_shared<Sink>();
  RunSteps(step, sink, MakeInfo(b));
  const float sg = op == 1 ? 1 : -1;
  const bool other = s.b();
  if (bda) {
    const Bda layout = GenBda(s, b);
    const auto rows = GenRows(s, b, layout);
    auto buf = MakeBda(b, rows);
    buf->AddData("model");
    if (other) buf->AddData("other");
    std::vector<cf> mod, oth;
    for (size_t i = 0; i < buf->GetNumberOfElements(); ++i) {
      mod.push_back(cf(s.i(-64, 64), s.i(-64, 64)));
      buf->GetData("model")[i] = mod.back();
      oth.push_back(cf(i, -1));
      if (other) buf->GetData("other")[i] = oth.back();
    }
    step->process(std::move(buf));
    CHECK_EQ(sink->bdas.size(), size_t(1));
    const BdaBuffer& r = *sink->bdas[0];
    SameRowsButData(r, rows);
    CHECK(!r.HasData("model"), "the combined data must be gone");
    CHECK_EQ(r.HasData("other"), other);
    size_t n = 0;
    for (size_t i = 0; i < rows.size(); ++i)
      for (size_t j = 0; j < rows[i].data.size(); ++j, ++n) {
        CHECK(NearC(r.GetData(i)[j], rows[i].data[j] + sg * mod[n], 1e-4), Cat("combined value ", r.GetData(i)[j], " from ", rows[i].data[j], " and ", mod[n]));
        if (other) CHECK(r.GetData(i, "other")[j] == oth[n], "other data were changed");
      }
    s.nontrivial(rows.size() > 1);
  } else {
    for (size_t t = 0; t < b.nt; ++t) {
      const Slot d = GenSlot(s, b, t);
      auto buf = MakeBuffer(b, d);
      std::vector<cf> mod, oth;
      AddExtra(s, *buf, "model", mod);
      if (other) AddExtra(s, *buf, "other", oth);
      step->process(std::move(buf));
      CHECK_EQ(sink->bufs.size(), t + 1);
      const DPBuffer& r = *sink->bufs.back();
      SameRest(r, d);
      CHECK(!r.HasData("model"), "the combined data must be gone");
      CHECK_EQ(r.HasData("other"), other);
      size_t i = 0;
      for (auto& x : r.GetData()) {
        CHECK(NearC(x, d.data[i] + sg * mod[i], 1e-4), Cat("combined value ", x, " from ", d.data[i], " and ", mod[i]));
        ++i;
      }
      i = 0;
      if (other)
        for (auto& x : r.GetData("other")) CHECK(x == oth[i++], "other data were changed");
    }
    s.nontrivial(b.nbl > 1 && b.nt > 1);
  }
  step->finish();
  CHECK_EQ(sink->n_finish, 1);
}

PROP("P33.invalid", 1000, 20000) {
  ParameterSet ps;
  const int how = s.n(3);
  if (how == 0) {
    const std::string o = s.pick(std::vector<std::string>{"multiply", "", "Add", "subtract ", "addsub"});
    ps.add("s.buffername", "m");
    ps.add("s.operation", "'" + o + "'");
    s.note("operation " + o);
    CHECK(vpt::Throws([&] { dp3::steps::Combine c(ps, "s.", Step::MsType::kRegular); }), "accepted operation '" + o + "'");
  } else if (how == 1) {
    s.note("no buffername");
    CHECK(vpt::Throws([&] { dp3::steps::Combine c(ps, "s.", Step::MsType::kRegular); }), "accepted a combination without name");
  } else {
    const int w = 2 * s.i(0, 20);
    s.note(Cat("window ", w));
    ps.add("s.windowsize", std::to_string(w));
    CHECK(vpt::Throws([&] { dp3::steps::Interpolate c(ps, "s."); }), "accepted an even window size");
  }
  s.nontrivial(true);
}

PROP("P33.interpolate", 10000, 400000) {
  ObsOpt o;
  o.max_bl = 3;
  o.max_ch = 10;
  o.max_t = 24;
  const Obs b = GenObs(s, o);
  const bool dflt = s.chance(1, 4);
  const int w = dflt ? 15 : s.pick(std::vector<int>{1, 3, 5, 7, 9, 11});
  ParameterSet ps;
  if (!dflt || s.b()) ps.add("s.windowsize", std::to_string(w));
  s.note(Note(b) + Cat(" window ", w));
  auto step = std::make_shared<dp3::steps::Interpolate>(ps, "s.");
  auto sink = std::make_shared<Sink>();
  RunSteps(step, sink, MakeInfo(b));
  std::vector<Slot> in;
  const bool per_corr = s.b();
  for (size_t t = 0; t < b.nt; ++t) {
    Slot d = GenSlot(s, b, t);
    if (!per_corr)
      for (size_t i = 0; i < d.flag.size(); ++i) d.flag[i] = d.flag[i - i % b.ncorr];
    // Flagged values must not be used, whatever they are.
    for (size_t i = 0; i < d.flag.size(); ++i)
      if (d.flag[i] && s.chance(1, 3)) d.data[i] = s.b() ? cf(NAN, NAN) : cf(1e30f, INFINITY);
    in.push_back(d);
    step->process(MakeBuffer(b, d));
  }
  step->finish();
  CHECK_EQ(sink->n_finish, 1);
  CHECK_EQ(sink->bufs.size(), b.nt);
  const int h = w / 2;
  bool some = false;
  for (size_t t = 0; t < b.nt; ++t) {
    const DPBuffer& r = *sink->bufs[t];
    CheckShape(r, b.nbl, b.nch, b.ncorr);
    SameRest(r, in[t], false);
    for (size_t k = 0; k < b.nbl; ++k)
      for (size_t c = 0; c < b.nch; ++c)
        for (size_t p = 0; p < b.ncorr; ++p) {
          const size_t i = (k * b.nch + c) * b.ncorr + p;
          const cf got = r.GetData()(k, c, p);
          if (!in[t].flag[i]) {
            CHECK(got == in[t].data[i], "an unflagged value was changed");
            CHECK(!r.GetFlags()(k, c, p), "an unflagged value was flagged");
            continue;
          }
          cd sum = 0;
          double ws = 0, big = 0;
          for (int y = -h; y <= h; ++y)
            for (int x = -h; x <= h; ++x) {
              const long tt = long(t) + y, cc = long(c) + x;
              if (tt < 0 || tt >= long(b.nt) || cc < 0 || cc >= long(b.nch)) continue;
              const size_t j = (k * b.nch + cc) * b.ncorr + p;
              if (in[tt].flag[j]) continue;
              const double e = std::exp(-0.5 * (x * x + y * y));
              sum += e * cd(in[tt].data[j]);
              ws += e;
              big = std::max(big, std::abs(cd(in[tt].data[j])));
            }
          if (ws == 0) {
            CHECK(r.GetFlags()(k, c, p) && got == cf(0), Cat("a value without unflagged neighbours must be zero and flagged: ", t, ",", k, ",", c, ",", p));
          } else {
            some = true;
            CHECK(!r.GetFlags()(k, c, p), Cat("an interpolated value must not be flagged: ", t, ",", k, ",", c, ",", p));
            CHECK(NearC(got, sum / ws, 1e-4 * (big + 1)), Cat("interpolated value ", t, ",", k, ",", c, ",", p, ": ", got, " expected ", sum / ws));
          }
        }
  }
  s.nontrivial(some && w > 1 && b.nt > 1);
}
}  // namespace

VPT_MAIN
