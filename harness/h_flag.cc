// P29 PreFlagger and baseline selection, P30 UVWFlagger and uvw coordinates.
#include "blsel_util.h"
#include "steps_util.h"

#include <cmath>
#include <memory>
#include <set>

#include "base/BaselineSelection.h"
#include "base/FlagCounter.h"
#include "base/UVWCalculator.h"
#include "steps/PreFlagger.h"
#include "steps/UVWFlagger.h"

namespace {
using namespace su;
using dp3::steps::PreFlagger;
using dp3::steps::UVWFlagger;

bool In(double v, const Ranges& r) {
  for (auto& x : r)
    if (v > x.first && v < x.second) return true;
  return false;
}

// ---------------------------------------------------------------- text forms

// Seconds as a time text.
std::string TimeText(Src& s, double v) {
  const int how = s.n(4);
  const bool neg = v < 0;
  v = std::abs(v);
  if (how == 1) return Num(neg ? -v : v) + "s";
  if (how == 2) return Num((neg ? -v : v) / 60) + "min";
  if (how == 3) return Num((neg ? -v : v) / 3600) + " h";
  const int h = int(v / 3600), m = int(v / 60) % 60;
  const double sec = v - h * 3600 - m * 60;
  char b[64];
  if (how == 0)
    snprintf(b, sizeof b, "%s%d:%02d:%05.2f", neg ? "-" : "", h, m, sec);
  else
    snprintf(b, sizeof b, "%s%dh%02dm%05.2fs", neg ? "-" : "", h, m, sec);
  return b;
}

// Seconds since MJD 0 as a date.
std::string DateText(Src& s, double v) {
  long mjd = long(std::floor(v / 86400));
  double sec = v - mjd * 86400.0;
  // Civil date from days (algorithm of H. Hinnant).
  long z = mjd - 40587 + 719468;
  const long era = (z >= 0 ? z : z - 146096) / 146097;
  const unsigned doe = unsigned(z - era * 146097);
  const unsigned yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
  const unsigned doy = doe - (365 * yoe + yoe / 4 - yoe / 100), mp = (5 * doy + 2) / 153;
  const unsigned d = doy - (153 * mp + 2) / 5 + 1, m = mp < 10 ? mp + 3 : mp - 9;
  const long y = long(yoe) + era * 400 + (m <= 2);
  const int hh = int(sec / 3600), mi = int(sec / 60) % 60;
  static const char* kMon[] = {"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"};
  char b[64];
  if (s.b())
    snprintf(b, sizeof b, "%ld/%02u/%02u/%02d:%02d:%05.2f", y, m, d, hh, mi, sec - hh * 3600 - mi * 60);
  else
    snprintf(b, sizeof b, "%02u-%s-%ld/%02d:%02d:%05.2f", d, kMon[m - 1], y, hh, mi, sec - hh * 3600 - mi * 60);
  return b;
}

// ------------------------------------------------------------------ criteria
struct Sel;
struct Expr {
  char op = 'n';  // n name, ! & |
  size_t name = 0;
  std::vector<Expr> kids;
};
struct Sel {
  bool any = false;
  bool has_slots = false, has_tod = false, has_abs = false, has_rel = false, has_lst = false, has_az = false, has_el = false;
  std::set<size_t> slots;
  Ranges tod, abst, rel, lst, az, el;
  BlSel bl;
  double uvmin = -1, uvmax = -1;
  bool has_ch = false;
  std::vector<bool> ch;
  struct Lim {
    bool on = false;
    double lo[4], hi[4];
  } amp, ph, re, im;
  std::vector<Sel> kids;
  bool has_expr = false;
  Expr expr;
  size_t depth = 0;
};

// Ranges of values of a day (wrapping) or not wrapping.
Ranges GenTimes(Src& s, std::vector<std::string>& text, double around, double spread, bool wrap, bool date, double off = 0) {
  Ranges r;
  const size_t n = s.n(1, 2);
  for (size_t k = 0; k < n; ++k) {
    // Bounds are at quarters of seconds, where there are no times.
    double v1 = std::floor(around + s.i(-100, 100) * 0.01 * spread) + 0.25;
    double w = std::floor(s.n(1, 100) * 0.01 * spread) + 2.5;
    if (wrap) {
      v1 = std::fmod(v1 + 2 * 86400, 86400.0);
      w = std::min(w, 40000.0);
    } else if (v1 < 0)
      v1 = 0.25;
    auto text1 = [&](double v) { return date ? DateText(s, v) : TimeText(s, v); };
    if (s.b()) {  // centre and half width; the centre is given
      const double hw = w;
      text.push_back(text1(v1) + Blank(s) + "+-" + Blank(s) + TimeText(s, hw));
      double lo = v1 - hw, hi = v1 + hw;
      if (wrap) {
        if (lo < 0) {
          r.push_back({lo + 86400, 1e9});
          r.push_back({-1e9, hi});
        } else if (hi > 86400) {
          r.push_back({lo, 1e9});
          r.push_back({-1e9, hi - 86400});
        } else
          r.push_back({lo, hi});
      } else
        r.push_back({lo + off, hi + off});
    } else {
      double hi = v1 + w;
      if (wrap && hi >= 86400) {
        hi -= 86400;
        r.push_back({v1, 1e9});
        r.push_back({-1e9, hi});
      } else
        r.push_back({v1 + off, hi + off});
      text.push_back(text1(v1) + Blank(s) + ".." + Blank(s) + text1(hi));
    }
  }
  return r;
}

Sel::Lim GenLim(Src& s, ParameterSet& p, const std::string& name, const Obs& b, double scale) {
  Sel::Lim l;
  for (int i = 0; i < 4; ++i) l.lo[i] = -1e30, l.hi[i] = 1e30;
  for (int side = 0; side < 2; ++side) {
    if (side == 1 && l.on && s.b()) continue;
    if (side == 0 && s.chance(1, 3)) continue;
    double* t = side == 0 ? l.lo : l.hi;
    auto val = [&] { return (s.i(-100, 100) * 0.01 + (side == 0 ? -0.3 : 0.3)) * scale + 1e-3; };
    if (s.b()) {
      const double v = val();
      for (int i = 0; i < 4; ++i) t[i] = v;
      p.add(name + (side == 0 ? "min" : "max"), Num(v));
    } else {
      std::vector<std::string> v;
      const size_t n = s.n(1, 4);
      for (size_t i = 0; i < n; ++i) {
        if (n > 1 && s.chance(1, 3)) {
          v.push_back("");
          continue;
        }
        t[i] = val();
        v.push_back(Num(t[i]));
      }
      p.add(name + (side == 0 ? "min" : "max"), Join(v));
    }
    l.on = true;
  }
  return l;
}

std::string Render(Src& s, const Expr& e, const std::vector<std::string>& names, int prec) {
  std::string r;
  int p;
  if (e.op == 'n') {
    r = names[e.name];
    p = 3;
  } else if (e.op == '!') {
    const std::string k = Render(s, e.kids[0], names, 2);
    const int how = s.n(3);
    r = how == 0 ? "!" + k : how == 1 ? "not " + k : k[0] == '(' ? "NOT" + k : "Not\t" + k;
    p = 2;
  } else {
    p = e.op == '&' ? 1 : 0;
    for (size_t i = 0; i < e.kids.size(); ++i) {
      if (i) {
        static const char* kAnd[] = {" and ", "&", " && ", " AND\t", "&&"};
        static const char* kOr[] = {" or ", "|", " || ", ",", " OR "};
        r += e.op == '&' ? kAnd[s.n(5)] : kOr[s.n(5)];
      }
      r += Render(s, e.kids[i], names, p);
    }
  }
  if (p < prec || s.chance(1, 6)) r = "(" + Blank(s) + r + Blank(s) + ")";
  return r;
}

Expr GenExpr(Src& s, size_t depth, size_t& n_names) {
  Expr e;
  const size_t k = depth == 0 ? 0 : s.n(4);
  if (k == 0 || n_names >= 5) {
    e.name = n_names++;
    return e;
  }
  if (k == 1) {
    e.op = '!';
    e.kids.push_back(GenExpr(s, depth - 1, n_names));
    return e;
  }
  e.op = k == 2 ? '&' : '|';
  const size_t n = s.n(2, 3);
  for (size_t i = 0; i < n; ++i) e.kids.push_back(GenExpr(s, depth - 1, n_names));
  return e;
}

Sel GenSel(Src& s, const Obs& b, ParameterSet& p, const std::string& pre, size_t depth) {
  Sel r;
  r.depth = depth;
  const size_t ncrit = depth == 0 ? s.n(0, 3) : s.n(0, 2);
  std::set<int> crit;
  for (size_t i = 0; i < ncrit; ++i) crit.insert(s.n(14));
  const double tspan = b.nt * b.dt, tmid = b.t0 + tspan / 2, day = std::floor(tmid / 86400) * 86400;
  std::vector<std::string> v;
  for (int c : crit) {
    v.clear();
    r.any = true;
    switch (c) {
      case 0: {
        r.has_slots = true;
        const size_t n = s.n(1, 3);
        for (size_t i = 0; i < n; ++i) {
          const size_t a = s.n(0, b.nt);
          if (s.b()) {
            const size_t e = a + s.n(0, 3);
            v.push_back(Cat(a) + ".." + Cat(e));
            for (size_t t = a; t <= e; ++t) r.slots.insert(t);
          } else {
            v.push_back(Cat(a));
            r.slots.insert(a);
          }
        }
        p.add(pre + "timeslot", Join(v));
        break;
      }
      case 1:
        r.has_tod = true;
        r.tod = GenTimes(s, v, tmid - day, tspan, true, false);
        p.add(pre + "timeofday", Join(v));
        break;
      case 2:
        r.has_abs = true;
        r.abst = GenTimes(s, v, tmid, tspan, false, true);
        p.add(pre + "abstime", Join(v));
        break;
      case 3:
        r.has_rel = true;
        r.rel = GenTimes(s, v, tspan / 2, tspan, false, false, b.t0 - b.dt / 2);
        p.add(pre + "reltime", Join(v));
        break;
      case 4: {
        r.has_lst = true;
        double g = casacore::mini_gmst(tmid / 86400) / (2 * M_PI);
        g -= std::floor(g);
        r.lst = GenTimes(s, v, g * 86400, tspan, true, false);
        p.add(pre + "lst", Join(v));
        break;
      }
      case 5: r.bl = GenBl(s, b, p, pre); break;
      case 6:
        r.uvmin = s.chance(1, 3) ? -1 : s.n(1, 3000) + 0.1234;
        if (r.uvmin < 0 || s.b()) r.uvmax = std::max(0.0, r.uvmin) + s.n(1, 3000) + 0.1;
        if (r.uvmin >= 0) p.add(pre + "uvmmin", Num(r.uvmin));
        if (r.uvmax >= 0) p.add(pre + "uvmmax", Num(r.uvmax));
        break;
      case 7: {
        const std::vector<bool> old = r.has_ch ? r.ch : std::vector<bool>(b.nch, true);
        std::vector<bool> sel(b.nch);
        const size_t n = s.n(1, 3);
        for (size_t i = 0; i < n; ++i) {
          size_t a = s.n(0, b.nch), e = a;
          auto text = [&](size_t x) -> std::string {
            if (s.chance(2, 3)) return Cat(x);
            if (x < b.nch) return Cat("nchan-", b.nch - x);
            return Cat("nchan+", x - b.nch);
          };
          std::string t = text(a);
          if (s.b()) {
            e = a + s.n(0, 3);
            t += ".." + text(e);
          } else if (s.chance(1, 8)) {
            t = "nchan/2";
            a = e = b.nch / 2;
          }
          v.push_back(t);
          for (size_t ch = a; ch <= e && ch < b.nch; ++ch) sel[ch] = true;
        }
        for (size_t ch = 0; ch < b.nch; ++ch) sel[ch] = sel[ch] && old[ch];
        r.ch = sel;
        r.has_ch = true;
        p.add(pre + "chan", Join(v));
        break;
      }
      case 8: {
        const std::vector<bool> old = r.has_ch ? r.ch : std::vector<bool>(b.nch, true);
        std::vector<bool> sel(b.nch);
        const size_t n = s.n(1, 2);
        const double w = b.width[0];
        for (size_t i = 0; i < n; ++i) {
          // Bounds between the centres of the channels, or outside of the band.
          double lo = b.freq[0] + (s.i(-2, int(b.nch) + 1) - 0.41) * w, hi = lo + s.n(1, b.nch + 1) * w;
          auto text = [&](double f, int u) {
            static const double kF[] = {1e6, 1e6, 1, 1e3, 1e9};
            static const char* kU[] = {"", "MHz", "Hz", "kHz", " GHz"};
            char t[64];
            snprintf(t, sizeof t, "%.13g%s", f / kF[u], kU[u]);
            return std::string(t);
          };
          auto none = [&](const std::string& t) {  // without the unit
            size_t k = t.find_first_not_of("0123456789.e+-");
            if (k != std::string::npos && t[k - 1] == 'e') --k;
            return t.substr(0, k);
          };
          const bool pm = s.b();
          const double x = pm ? (lo + hi) / 2 : lo, y = pm ? (hi - lo) / 2 : hi;
          const int u = s.n(5);
          std::string tx = text(x, u), ty = text(y, u);
          if (u != 0) {
            const int how = s.n(3);
            if (how == 1) tx = none(tx);
            if (how == 2) ty = none(ty);
            if (how == 0) ty = text(y, s.n(1, 4));
          }
          v.push_back(tx + Blank(s) + (pm ? "+-" : "..") + Blank(s) + ty);
          for (size_t ch = 0; ch < b.nch; ++ch)
            if (b.freq[ch] > lo && b.freq[ch] < hi) sel[ch] = true;
        }
        for (size_t ch = 0; ch < b.nch; ++ch) sel[ch] = sel[ch] && old[ch];
        r.ch = sel;
        r.has_ch = true;
        p.add(pre + "freqrange", Join(v));
        break;
      }
      case 9: r.amp = GenLim(s, p, pre + "ampl", b, 20); break;
      case 10: r.ph = GenLim(s, p, pre + "phase", b, 3); break;
      case 11: r.re = GenLim(s, p, pre + "real", b, 16); break;
      case 12: r.im = GenLim(s, p, pre + "imag", b, 16); break;
      case 13: {
        const int which = s.n(1, 3);
        auto ang = [&](bool el) {
          Ranges g;
          v.clear();
          double lo = el ? s.i(-80, 60) : s.n(360), w = s.n(5, 170);
          if (el) {
            // Elevations as text: negative ones are not possible.
            lo = s.i(0, 60);
            w = std::min(w, 89 - lo);
            g.push_back({lo, lo + w});
            v.push_back(Cat(lo, "deg..", lo + w, "deg"));
          } else {
            const double hi = std::fmod(lo + w, 360);
            if (hi > lo)
              g.push_back({lo, hi});
            else {
              g.push_back({-1, hi});
              g.push_back({lo, 361});
            }
            v.push_back(s.b() ? Cat(lo, "deg..", hi, " deg") : Cat(int(lo), "d0m..", int(hi), "d"));
          }
          return g;
        };
        if (which & 1) {
          r.has_az = true;
          r.az = ang(false);
          p.add(pre + "azimuth", Join(v));
        }
        if (which & 2) {
          r.has_el = true;
          r.el = ang(true);
          p.add(pre + "elevation", Join(v));
        }
        break;
      }
    }
  }
  // Only those that turned out to select something count.
  r.any = r.has_slots || r.has_tod || r.has_abs || r.has_rel || r.has_lst || r.bl.any || r.uvmin >= 0 || r.uvmax >= 0 || r.has_ch ||
          r.amp.on || r.ph.on || r.re.on || r.im.on || r.has_az || r.has_el;
  if (depth < 2 && s.chance(1, 2)) {
    r.has_expr = r.any = true;
    size_t n = 0;
    r.expr = GenExpr(s, 3, n);
    static const char* kNames[] = {"s1", "Orange", "android", "note", "S_2", "c", "ORS", "x9", "NOTa", "andOR", "q", "w"};
    std::vector<std::string> names;
    for (size_t i = 0; i < n; ++i) {
      std::string nm = kNames[s.n(12)];
      while (std::find(names.begin(), names.end(), nm) != names.end()) nm += Cat(i);
      names.push_back(nm);
      r.kids.push_back(GenSel(s, b, p, pre + nm + ".", depth + 1));
    }
    p.add(pre + "expr", Render(s, r.expr, names, 0));
  }
  return r;
}

typedef std::vector<char> Mask;  // [bl][ch]

Mask Eval(const Sel& c, const Obs& b, const Slot& d, size_t t);
Mask EvalExpr(const Sel& c, const Expr& e, const Obs& b, const Slot& d, size_t t) {
  if (e.op == 'n') return Eval(c.kids[e.name], b, d, t);
  Mask m = EvalExpr(c, e.kids[0], b, d, t);
  if (e.op == '!')
    for (auto& x : m) x = !x;
  for (size_t k = 1; k < e.kids.size(); ++k) {
    const Mask o = EvalExpr(c, e.kids[k], b, d, t);
    for (size_t i = 0; i < m.size(); ++i) m[i] = e.op == '&' ? m[i] && o[i] : m[i] || o[i];
  }
  return m;
}

bool AzElOk(const Sel& c, const Obs& b, int ant, double time) {
  const casacore::MVPosition v = casacore::mini_rotz(casacore::MVDirection(b.ra, b.dec), -casacore::mini_gmst(time / 86400));
  const double lon = std::atan2(b.pos[ant][1], b.pos[ant][0]), lat = std::atan2(b.pos[ant][2], std::hypot(b.pos[ant][0], b.pos[ant][1]));
  const double x = std::cos(lon) * v(0) + std::sin(lon) * v(1), e = -std::sin(lon) * v(0) + std::cos(lon) * v(1);
  const double n = -std::sin(lat) * x + std::cos(lat) * v(2), u = std::cos(lat) * x + std::sin(lat) * v(2);
  double az = std::atan2(e, n) * 180 / M_PI, el = std::asin(u) * 180 / M_PI;
  if (az < 0) az += 360;
  for (auto* r : {&c.az, &c.el})
    for (auto& q : *r)
      for (double edge : {q.first, q.second})
        if (std::abs((r == &c.az ? az : el) - edge) < 1e-6) throw vpt::Discard{};
  return (!c.has_az || In(az, c.az)) && (!c.has_el || In(el, c.el));
}

Mask Eval(const Sel& c, const Obs& b, const Slot& d, size_t t) {
  Mask m(b.nbl * b.nch, c.any);
  if (!c.any) return m;
  bool tm = true;
  if (c.has_slots) tm = tm && c.slots.count(t);
  if (c.has_tod) tm = tm && In(d.time - std::floor(d.time / 86400) * 86400, c.tod);
  if (c.has_abs) tm = tm && In(d.time, c.abst);
  if (c.has_rel) tm = tm && In(d.time, c.rel);
  if (c.has_lst) {
    double g = casacore::mini_gmst(d.time / 86400) / (2 * M_PI);
    g = (g - std::floor(g)) * 86400;
    for (auto& q : c.lst)
      if (std::abs(g - q.first) < 1e-4 || std::abs(g - q.second) < 1e-4) throw vpt::Discard{};
    tm = tm && In(g, c.lst);
  }
  if (!tm) return Mask(m.size(), 0);
  for (size_t k = 0; k < b.nbl; ++k) {
    bool ok = true;
    if (c.bl.any) ok = ok && c.bl.Match(b, k);
    if (c.uvmin >= 0 || c.uvmax >= 0) {
      const double uv = std::hypot(d.uvw[3 * k], d.uvw[3 * k + 1]);
      ok = ok && ((c.uvmin >= 0 && uv < c.uvmin) || (c.uvmax >= 0 && uv > c.uvmax));
    }
    if (ok && (c.has_az || c.has_el)) ok = AzElOk(c, b, b.a1[k], d.time) && AzElOk(c, b, b.a2[k], d.time);
    for (size_t ch = 0; ch < b.nch; ++ch) {
      bool o = ok && (!c.has_ch || c.ch[ch]);
      auto lim = [&](const Sel::Lim& l, auto f) {
        if (!l.on || !o) return;
        bool out = false;
        for (size_t q = 0; q < b.ncorr; ++q) {
          const double x = f(d.data[(k * b.nch + ch) * b.ncorr + q]);
          out |= x < l.lo[q] || x > l.hi[q];
        }
        o = out;
      };
      lim(c.amp, [](cf x) { return std::hypot(double(x.real()), double(x.imag())); });
      lim(c.ph, [](cf x) { return std::atan2(double(x.imag()), double(x.real())); });
      lim(c.re, [](cf x) { return double(x.real()); });
      lim(c.im, [](cf x) { return double(x.imag()); });
      m[k * b.nch + ch] = o;
    }
  }
  if (c.has_expr) {
    const Mask e = EvalExpr(c, c.expr, b, d, t);
    for (size_t i = 0; i < m.size(); ++i) m[i] = m[i] && e[i];
  }
  return m;
}

Obs GenFlagObs(Src& s) {
  ObsOpt o;
  o.max_ant = 5;
  o.max_t = 5;
  Obs b = GenObs(s, o);
  // Times are whole seconds, not far from each other or spread over a day.
  b.dt = s.pick({1.0, 2.0, 10.0, 600.0, 3600.0, 14400.0});
  b.t0 = 86400.0 * s.n(50000, 58000) + s.n(86400);
  if (s.chance(1, 3))  // far apart
    for (auto& p : b.pos) {
      const double lon = s.i(-180, 180) * M_PI / 180, lat = s.i(-80, 80) * M_PI / 180;
      p = {6.371e6 * std::cos(lon) * std::cos(lat), 6.371e6 * std::sin(lon) * std::cos(lat), 6.371e6 * std::sin(lat)};
    }
  return b;
}

// Reads the counts of a flag counter back from its text.
}  // namespace

// ------------------------------------------------------------------- P29
PROP("P29.preflagger", 30000, 1000000) {
  const Obs b = GenFlagObs(s);
  ParameterSet p;
  const int mode = s.n(4);
  static const char* kMode[] = {"set", "clear", "setcomplement", "clearcomplement"};
  static const char* kMode2[] = {"SET", "Clear", "setother", "clearOther"};
  if (mode || s.b()) p.add("f.mode", s.b() ? kMode[mode] : kMode2[mode]);
  const Sel c = GenSel(s, b, p, "f.", 0);
  s.note(Note(b));
  s.note(ShowSet(p));
  auto step = std::make_shared<PreFlagger>(p, "f.");
  auto sink = std::make_shared<Sink>();
  step->setNextStep(sink);
  const DPInfo info = MakeInfo(b);
  step->setInfo(info);
  size_t hit = 0, miss = 0, changed = 0;
  for (size_t t = 0; t < b.nt; ++t) {
    Slot d = GenSlot(s, b, t);
    // All correlations of a point have the same flag.
    for (size_t i = 0; i < d.flag.size(); i += b.ncorr)
      for (size_t q = 1; q < b.ncorr; ++q) d.flag[i + q] = d.flag[i];
    if (s.chance(1, 4)) d.data[s.n(d.data.size())] = cf(s.pick({NAN, INFINITY, 1.0f}), s.pick({1.0f, -INFINITY, NAN}));
    for (auto& x : d.data)
      if (!std::isfinite(x.real()) || !std::isfinite(x.imag())) s.label("not finite");
    const Mask m = Eval(c, b, d, t);
    auto buf = MakeBuffer(b, d);
    step->process(std::move(buf));
    CHECK_EQ(sink->bufs.size(), t + 1);
    const DPBuffer& o = *sink->bufs.back();
    CHECK_EQ(o.GetTime(), d.time);
    for (size_t i = 0; i < d.data.size(); ++i) {
      const size_t cell = i / b.ncorr;
      bool want = d.flag[i];
      const bool match = (mode < 2) == bool(m[cell]);
      if (match && mode % 2 == 0) want = true;
      if (match && mode % 2 == 1) {
        want = false;
        for (size_t q = 0; q < b.ncorr; ++q) {
          const size_t j = cell * b.ncorr + q;
          want |= !std::isfinite(d.data[j].real()) || !std::isfinite(d.data[j].imag()) || d.weight[j] == 0;
        }
      }
      if (i % b.ncorr == 0) {
        (m[cell] ? hit : miss)++;
        changed += want != bool(d.flag[i]);
      }
      CHECK_EQ(o.GetFlags().data()[i], want, "flag of point", i, "at timeslot", t);
      CHECK(std::memcmp(&o.GetData().data()[i], &d.data[i], sizeof(cf)) == 0 && o.GetWeights().data()[i] == d.weight[i], "data and weights stay the same");
    }
  }
  step->finish();
  CHECK_EQ(sink->n_finish, 1);
  // The counts are those of the points that changed.
  std::ostringstream out;
  step->showCounts(out);
  const std::string text = out.str();
  const size_t pos = text.find("Total flagged:");
  CHECK(pos != std::string::npos, text);
  const size_t open = text.find('(', pos);
  const size_t total = b.nt * b.nbl * b.nch;
  CHECK_EQ(text.substr(open, text.find(')', open) - open + 1), Cat("(", changed, " out of ", total, " visibilities)"));
  s.nontrivial(c.any && hit > 0 && miss > 0);
}

// Expressions that are not proper are rejected.
PROP("P29.invalid", 6000, 200000) {
  const Obs b = GenFlagObs(s);
  ParameterSet p;
  static const char* kExpr[] = {"a b", "a and", "or b", "(a", "a)", "a & | b", "()", "a ! b", "!", "a (b)", "(a) b", "a &", "a,,b", "a.b", "1a",
                                "a and or b", "a not b", "not", "a b or c", "((a) or b", "a-b"};
  static const char* kKey[] = {"timeofday", "abstime", "reltime", "freqrange", "chan", "mode", "uvm", "corrtype", "blrange", "baseline", "abstime", "lst"};
  static const char* kVal[] = {"[12:00:00]", "[12:00:00..13:00:00]", "[10s..5s]", "[100MHz]", "[3..]", "flip", "", "both", "[1,2,3]", "[[a,b,c]]",
                               "[2011/03/04/12:00:00..2011/03/04/11:00:00]", "[x..y]"};
  if (s.b()) {
    p.add("f.expr", s.pick(std::vector<std::string>(kExpr, kExpr + sizeof kExpr / sizeof *kExpr)));
    for (const char* n : {"a", "b", "c"}) p.add(std::string("f.") + n + ".timeslot", "[0]");
  } else {
    const size_t k = s.n(sizeof kKey / sizeof *kKey);
    if (std::string(kKey[k]) == "uvm") {
      p.add("f.uvmmin", "20");
      p.add("f.uvmmax", s.b() ? "20" : "10");
    } else {
      const bool child = k != 5 && s.b();
      p.add(child ? std::string("f.s.") + kKey[k] : std::string("f.") + kKey[k], kVal[k]);
      if (child) p.add("f.expr", "s");
    }
  }
  s.note(ShowSet(p));
  CHECK(vpt::Throws([&] {
          PreFlagger step(p, "f.");
          step.setNextStep(std::make_shared<Sink>());
          const DPInfo info = MakeInfo(b);
          step.setInfo(info);
        }),
        "accepted ", ShowSet(p));
  s.nontrivial(true);
}

PROP("P29.baselines", 30000, 1000000) {
  const Obs b = GenFlagObs(s);
  ParameterSet p;
  const BlSel c = GenBl(s, b, p, "x.");
  s.note(Note(b));
  s.note(ShowSet(p));
  dp3::base::BaselineSelection sel(p, "x.", true);
  CHECK_EQ(sel.hasSelection(), c.any);
  const DPInfo info = MakeInfo(b);
  if (s.b()) info.getBaselineLengths();
  const auto v = sel.applyVec(info);
  const auto m = sel.apply(info);
  CHECK_EQ(v.size(), b.nbl);
  size_t n = 0;
  for (size_t k = 0; k < b.nbl; ++k) {
    CHECK_EQ(bool(v[k]), c.Match(b, k), "baseline", k);
    CHECK_EQ(bool(m(b.a1[k], b.a2[k])), bool(v[k]));
    CHECK_EQ(bool(m(b.a2[k], b.a1[k])), bool(v[k]), "selection does not depend on the order of the stations", k);
    n += bool(v[k]);
  }
  s.nontrivial(n > 0 && n < b.nbl);
}

// ------------------------------------------------------------------- P30
namespace {
struct UvSel {
  std::vector<std::vector<std::pair<double, double>>> r{8};  // uvm um vm wm, uvl ul vl wl
  std::string center;
};
UvSel GenUv(Src& s, const Obs& b, ParameterSet& p) {
  static const char* kName[] = {"uvm", "um", "vm", "wm", "uvlambda", "ulambda", "vlambda", "wlambda"};
  UvSel u;
  const size_t n = s.n(1, 3);
  std::set<int> crit;
  for (size_t i = 0; i < n; ++i) crit.insert(s.n(8));
  for (int c : crit) {
    // The uvw coordinates are multiples of a half.
    const double scale = c < 4 ? 1 : b.freq[0] / 299792458.0;
    const bool dist = c % 4 == 0;
    auto val = [&] { return ((dist ? s.i(0, 2800) : s.i(-2000, 2000)) + 0.137) * scale; };
    const int how = s.n(1, 7);
    if (how & 1) {
      std::vector<std::string> v;
      const size_t k = s.n(1, 2);
      for (size_t i = 0; i < k; ++i) {
        double x = val(), y = val();
        if (s.b()) {
          if (x > y) std::swap(x, y);
          v.push_back(Num(x) + Blank(s) + ".." + Blank(s) + Num(y));
          u.r[c].push_back({x, y});
        } else {
          y = std::abs(y) * s.pick({1.0, 0.25, 0.5});
          v.push_back(Num(x) + Blank(s) + "+-" + Blank(s) + Num(y));
          u.r[c].push_back({x - y, x + y});
        }
      }
      p.add(std::string("f.") + kName[c] + "range", Join(v));
    }
    if (how & 2) {
      const double x = std::abs(val());
      p.add(std::string("f.") + kName[c] + "min", Num(x));
      u.r[c].push_back({-1e15, x});
    }
    if (how & 4) {
      const double x = std::abs(val());
      p.add(std::string("f.") + kName[c] + "max", Num(x));
      u.r[c].push_back({x, 1e15});
    }
  }
  return u;
}

// Expected flag of the selection; edges are reported as uncertain.
bool UvMatch(const UvSel& u, const double* uvw, double freq) {
  const double l = freq / 299792458.0;
  const double v[4] = {std::hypot(uvw[0], uvw[1]), uvw[0], uvw[1], uvw[2]};
  bool m = false;
  for (int c = 0; c < 8; ++c) {
    const double x = c < 4 ? v[c] : v[c - 4] * l;
    for (auto& r : u.r[c]) {
      for (double e : {r.first, r.second})
        if (std::abs(x - e) < 1e-6 * (1 + std::abs(e))) throw vpt::Discard{};
      m |= x > r.first && x < r.second;
    }
  }
  return m;
}

// uvw coordinates of an antenna as the stand-in for casacore has it.
std::array<double, 3> AntUvw(const Obs& b, int a, double ra, double dec, bool itrf, double time) {
  const double g = casacore::mini_gmst(time / 86400);
  const casacore::MVPosition x =
      casacore::mini_rotz(casacore::MVPosition(b.pos[a][0] - b.pos[0][0], b.pos[a][1] - b.pos[0][1], b.pos[a][2] - b.pos[0][2]), g);
  if (itrf) ra += g;
  return {-std::sin(ra) * x(0) + std::cos(ra) * x(1),
          -std::sin(dec) * (std::cos(ra) * x(0) + std::sin(ra) * x(1)) + std::cos(dec) * x(2),
          std::cos(dec) * (std::cos(ra) * x(0) + std::sin(ra) * x(1)) + std::sin(dec) * x(2)};
}
}  // namespace

PROP("P30.uvwflagger", 30000, 1000000) {
  Obs b = GenFlagObs(s);
  ParameterSet p;
  UvSel u = GenUv(s, b, p);
  bool center = false, itrf = false;
  double ra = 0, dec = 0;
  if (s.chance(1, 3)) {
    center = true;
    const int rd = s.n(360), dd = s.i(-80, 80);
    ra = rd * M_PI / 180;
    dec = dd * M_PI / 180;
    std::vector<std::string> v{Cat(rd, "deg"), Cat(dd, " deg")};
    if (s.b()) {
      itrf = s.b();
      v.push_back(itrf ? (s.b() ? "ITRF" : "itrf") : "J2000");
    }
    p.add("f.phasecenter", Join(v));
  }
  s.note(Note(b));
  s.note(ShowSet(p));
  const bool bda = s.chance(1, 3);
  auto step = std::make_shared<UVWFlagger>(p, "f.", bda ? Step::MsType::kBda : Step::MsType::kRegular);
  auto sink = std::make_shared<Sink>();
  step->setNextStep(sink);
  DPInfo info = MakeInfo(b);
  std::vector<std::vector<double>> freqs(b.nbl, b.freq);
  if (bda) {
    std::vector<std::vector<double>> w(b.nbl, b.width);
    for (size_t k = 0; k < b.nbl; ++k)
      if (k != 0 && s.b()) {  // averaged in frequency
        const size_t n = s.n(1, b.nch);
        freqs[k].clear();
        w[k].clear();
        for (size_t i = 0; i < n; ++i) {
          freqs[k].push_back(b.freq[0] + b.width[0] * (b.nch * (i + 0.5) / n - 0.5));
          w[k].push_back(b.width[0] * b.nch / n);
        }
      }
    auto f = freqs;
    info.setChannels(std::move(f), std::move(w));
    info.setIsBDAIntervalFactorInteger(true);
  }
  step->setInfo(info);
  size_t hit = 0, miss = 0, changed = 0;
  for (size_t t = 0; t < b.nt; ++t) {
    Slot d = GenSlot(s, b, t);
    for (size_t i = 0; i < d.flag.size(); i += b.ncorr)
      for (size_t q = 1; q < b.ncorr; ++q) d.flag[i + q] = d.flag[i];
    auto uvw = [&](size_t k) {
      std::array<double, 3> x{d.uvw[3 * k], d.uvw[3 * k + 1], d.uvw[3 * k + 2]};
      if (center) {
        const auto x1 = AntUvw(b, b.a1[k], ra, dec, itrf, d.time), x2 = AntUvw(b, b.a2[k], ra, dec, itrf, d.time);
        for (int c = 0; c < 3; ++c) x[c] = x2[c] - x1[c];
      }
      return x;
    };
    if (!bda) {
      step->process(MakeBuffer(b, d));
      CHECK_EQ(sink->bufs.size(), t + 1);
      const DPBuffer& o = *sink->bufs.back();
      for (size_t k = 0; k < b.nbl; ++k)
        for (size_t ch = 0; ch < b.nch; ++ch) {
          const auto x = uvw(k);
          const bool m = UvMatch(u, x.data(), b.freq[ch]);
          (m ? hit : miss)++;
          for (size_t q = 0; q < b.ncorr; ++q) {
            const size_t i = (k * b.nch + ch) * b.ncorr + q;
            CHECK_EQ(o.GetFlags().data()[i], m || d.flag[i], "flag of baseline", k, "channel", ch, "timeslot", t);
          }
          changed += m && !d.flag[(k * b.nch + ch) * b.ncorr];
        }
    } else {
      auto buf = std::make_unique<BdaBuffer>(b.nbl * b.nch * b.ncorr, dp3::common::Fields(Step::kDataField | Step::kFlagsField | Step::kWeightsField));
      std::vector<size_t> order;
      for (size_t k = 0; k < b.nbl; ++k) order.push_back(k);
      s.shuffle(order);
      std::vector<std::vector<char>> fl;
      for (size_t k : order) {
        const size_t n = freqs[k].size() * b.ncorr;
        std::vector<cf> dat(n);
        std::unique_ptr<bool[]> f(new bool[n]);
        std::vector<float> wt(n, 1);
        std::vector<char> keep;
        for (size_t i = 0; i < n; ++i) {
          f[i] = d.flag[k * b.nch * b.ncorr + i];
          keep.push_back(f[i]);
        }
        fl.push_back(keep);
        CHECK(buf->AddRow(d.time, b.dt, b.dt, k, freqs[k].size(), b.ncorr, k, dat.data(), f.get(), wt.data(), &d.uvw[3 * k]));
      }
      step->process(std::move(buf));
      CHECK_EQ(sink->bdas.size(), t + 1);
      BdaBuffer& o = *sink->bdas.back();
      CHECK_EQ(o.GetRows().size(), b.nbl);
      for (size_t r = 0; r < b.nbl; ++r) {
        const size_t k = order[r];
        for (size_t ch = 0; ch < freqs[k].size(); ++ch) {
          const auto x = uvw(k);
          const bool m = UvMatch(u, x.data(), freqs[k][ch]);
          (m ? hit : miss)++;
          for (size_t q = 0; q < b.ncorr; ++q)
            CHECK_EQ(o.GetFlags(r)[ch * b.ncorr + q], m || fl[r][ch * b.ncorr + q], "flag of row", r, "channel", ch);
          changed += m && !fl[r][ch * b.ncorr];
        }
      }
    }
  }
  step->finish();
  CHECK_EQ(sink->n_finish, 1);
  std::ostringstream out;
  step->showCounts(out);
  const std::string text = out.str();
  const size_t pos = text.find("Total flagged:"), open = text.find('(', pos);
  CHECK(pos != std::string::npos, text);
  CHECK_EQ(text.substr(open, text.find(" out", open) - open), Cat("(", changed));
  s.nontrivial(hit > 0 && miss > 0);
}

// uvw coordinates only depend on the stations and the time asked for, whatever
// was asked for before.
PROP("P30.uvw", 30000, 1000000) {
  Obs b = GenFlagObs(s);
  const bool itrf = s.chance(1, 4);
  const casacore::MDirection dir(casacore::MVDirection(b.ra, b.dec), itrf ? casacore::MDirection::ITRF : casacore::MDirection::J2000);
  std::vector<casacore::MPosition> pos;
  for (auto& x : b.pos) pos.push_back(casacore::MPosition(casacore::MVPosition(x[0], x[1], x[2]), casacore::MPosition::ITRF));
  dp3::base::UVWCalculator calc(dir, pos[0], pos);
  std::vector<double> times;
  for (size_t i = 0; i < 3; ++i) times.push_back(b.t0 + s.i(0, 100000));
  if (s.chance(1, 8)) times[0] = 0;
  const size_t n = s.n(2, 12);
  s.note(Note(b));
  size_t back = 0;
  double last = -1;
  for (size_t i = 0; i < n; ++i) {
    const int x = s.n(b.nant), y = s.n(b.nant), z = s.n(b.nant);
    const double t = s.pick(times);
    back += t < last;
    last = t;
    const auto u = calc.getUVW(x, y, t);
    const auto ax = AntUvw(b, x, b.ra, b.dec, itrf, t), ay = AntUvw(b, y, b.ra, b.dec, itrf, t);
    for (int c = 0; c < 3; ++c) CHECK_NEAR(u[c], ay[c] - ax[c], 5e-3, "coordinate", c, "of", x, "-", y, "at", t);
    const auto v = calc.getUVW(y, x, t), w = calc.getUVW(y, z, t), k = calc.getUVW(x, z, t);
    for (int c = 0; c < 3; ++c) {
      CHECK_NEAR(u[c], -v[c], 1e-7);
      CHECK_NEAR(u[c] + w[c], k[c], 1e-5);
    }
  }
  s.nontrivial(back > 0 && b.nant > 1);
}

// The percentages shown are those of what was counted.
PROP("P30.counter", 20000, 500000) {
  Obs b = GenFlagObs(s);
  ParameterSet p;
  const double warn = s.b() ? s.n(1, 100) : 0;
  if (warn > 0) p.add("c.warnperc", Cat(warn));
  const bool full = s.b();
  if (full) p.add("c.showfullyflagged", "true");
  const DPInfo info = MakeInfo(b);
  dp3::base::FlagCounter a(p, "c."), o(p, "c.");
  a.init(info);
  o.init(info);
  std::vector<int64_t> bl(b.nbl), ch(b.nch), co(b.ncorr);
  const size_t nt = b.nt;
  for (size_t t = 0; t < nt; ++t) {
    const int dens = s.n(4);
    for (size_t k = 0; k < b.nbl; ++k)
      for (size_t c = 0; c < b.nch; ++c) {
        if (!(dens == 3 || (dens > 0 && s.chance(dens, 3)))) continue;
        auto& f = s.b() ? a : o;
        f.incrBaseline(k);
        f.incrChannel(c);
        ++bl[k];
        ++ch[c];
        const size_t q = s.n(b.ncorr);
        f.incrCorrelation(q);
        ++co[q];
      }
  }
  a.add(o);
  CHECK(a.baselineCounts() == bl && a.channelCounts() == ch && a.correlationCounts() == co, "counts");
  s.note(Note(b));
  std::ostringstream t1, t2, t3, t4;
  a.showChannel(t1, nt);
  a.showBaseline(t2, nt);
  a.showCorrelation(t3, nt);
  a.showStation(t4, nt);
  // Channels.
  std::string want = "\nPercentage of visibilities flagged per channel:\n channels    ";
  char tmp[200];
  auto pr = [&](const char* f, auto... v) {
    snprintf(tmp, sizeof tmp, f, v...);
    return std::string(tmp);
  };
  for (size_t c = 0; c < std::min<size_t>(10, b.nch); ++c) want += pr("%5d", int(c));
  want += '\n';
  int64_t tot = 0;
  for (size_t c0 = 0; c0 < b.nch; c0 += 10) {
    const size_t c1 = std::min(c0 + 10, b.nch);
    want += pr("%4d-%4d:    ", int(c0), int(c1 - 1));
    for (size_t c = c0; c < c1; ++c) {
      want += pr("%4d%%", int(100.0 * ch[c] / (nt * b.nbl) + 0.5));
      tot += ch[c];
    }
    want += '\n';
  }
  want += "Total flagged: ";
  const int64_t all = nt * b.nbl * b.nch;
  const int perc = int(100000.0 * tot / all + 0.5);
  want += pr("%5d.%03d%%   (%ld out of %ld visibilities)\n", perc / 1000, perc % 1000, long(tot), long(all));
  CHECK_EQ(t1.str().substr(0, want.size()), want);
  size_t warned = 0;
  for (size_t c = 0; c < b.nch; ++c) warned += warn > 0 && 100.0 * ch[c] / (nt * b.nbl) >= warn;
  size_t found = 0;
  for (size_t q = t1.str().find("flagged for channel"); q != std::string::npos; q = t1.str().find("flagged for channel", q + 1)) ++found;
  CHECK_EQ(found, warned, "warnings about channels");
  // Stations.
  std::vector<int64_t> cnt(b.nant), used(b.nant);
  for (size_t k = 0; k < b.nbl; ++k)
    for (int x : std::set<int>{b.a1[k], b.a2[k]}) {
      cnt[x] += bl[k];
      used[x] += nt * b.nch;
    }
  std::ostringstream st;
  st << "{\"flagged_fraction_dict\": \"{";
  for (size_t x = 0; x < b.nant; ++x) st << (x ? ", " : "") << "'" << b.names[x] << "': " << (used[x] ? double(cnt[x]) / used[x] : 0.0);
  st << "}\"}";
  CHECK_EQ(t4.str(), st.str());
  // Baselines: one row per used station, one column per used station.
  std::vector<int> ants;
  for (size_t x = 0; x < b.nant; ++x)
    if (used[x]) ants.push_back(x);
  std::ostringstream bt;
  bt << "\nPercentage of visibilities flagged per baseline (antenna pair):";
  std::string fulls;
  bt << "\n ant";
  for (int x : ants) bt << pr("%5d", x);
  bt << '\n';
  for (int x : ants) {
    bt << pr("%4d ", x);
    for (int y : ants) {
      int64_t n = 0, c = 0;
      for (size_t k = 0; k < b.nbl; ++k)
        if ((b.a1[k] == x && b.a2[k] == y) || (b.a1[k] == y && b.a2[k] == x)) {
          n += nt * b.nch;
          c += bl[k];
        }
      if (!n)
        bt << "     ";
      else
        bt << pr("%4d%%", int(100.0 * c / n + 0.5));
      if (n && c == n && x <= y) fulls += (fulls.empty() ? "" : "; ") + std::to_string(x) + "&" + std::to_string(y);
    }
    bt << '\n';
  }
  bt << "TOTAL";
  for (int x : ants) bt << pr("%4d%%", int(100.0 * cnt[x] / used[x] + 0.5));
  bt << '\n';
  CHECK_EQ(t2.str().substr(0, bt.str().size()), bt.str());
  if (full) CHECK(t2.str().find("Fully flagged baselines: " + fulls + "\n") != std::string::npos, t2.str(), "should have", fulls);
  warned = found = 0;
  for (int x : ants) warned += warn > 0 && 100.0 * cnt[x] / used[x] >= warn;
  for (size_t q = t2.str().find("flagged for station"); q != std::string::npos; q = t2.str().find("flagged for station", q + 1)) ++found;
  CHECK_EQ(found, warned, "warnings about stations");
  std::ostringstream ct;
  ct << "out of " << all << " visibilities   [";
  for (size_t q = 0; q < b.ncorr; ++q) ct << (q ? ", " : "") << int(100.0 * co[q] / all + 0.5) << '%';
  CHECK(t3.str().find(ct.str()) != std::string::npos, t3.str(), "should have", ct.str());
  s.nontrivial(tot > 0 && tot < all && ants.size() > 1);
}

VPT_MAIN
