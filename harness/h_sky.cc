// P39: reading and selecting sky models. P40: grouping of components into patches.
#include <cmath>
#include <filesystem>
#include <fstream>
#include <map>
#include <set>
#include <unistd.h>

#include "sky_model/ReadSkyModel.h"
#include "sky_model/SkyModelCache.h"
#include "sky_model/SkyModelFunctions.h"
#include "sky_model/SkyModelSelection.h"
#include "base/GaussianSource.h"
#include "base/PointSource.h"
#include "vpt.h"

using namespace dp3::sky_model;
using dp3::base::Direction;
using dp3::base::GaussianSource;
using dp3::base::ModelComponent;
using dp3::base::PointSource;
using vpt::Src;

namespace {
constexpr double kC = 299792458.0;

struct Scratch {
  std::string dir;
  Scratch() {
    char t[] = "/tmp/vpt_skyXXXXXX";
    dir = mkdtemp(t);
  }
  ~Scratch() { std::filesystem::remove_all(dir); }
  std::string write(const std::string& name, const std::string& text) const {
    const std::string f = dir + "/" + name;
    std::ofstream(f, std::ios::binary) << text;
    return f;
  }
};

std::string Num(double v) {
  char b[40];
  snprintf(b, sizeof b, "%.17g", v);
  return b;
}

// What a line means.
struct Rec {
  std::string name, patch, type = "", ref;
  double ra = 0, dec = 0;  // radians
  std::map<std::string, std::string> v;  // text of the other fields, by lower-case field name
  double I = 1, Q = 0, U = 0, V = 0, maj = 1, min = 1, ori = 1, rm = 0, pf = 0, pa = 0, wave = 0, freq = 0;
  bool has_rm = false, rm_from_qu = false, log_si = true, abs = false, has_pos = true;
  int cat = 2;
  std::vector<double> si;
  bool gaussian() const { return type == "gaussian"; }
};

// An angle as text, with its value in radians.
std::string Ra(Src& s, double& rad) {
  const double d2r = M_PI / 180;
  const unsigned h = s.n(0, 23), m = s.n(0, 59);
  const double sec = s.n(0, 59999) / 1000.0;
  char b[64];
  switch (s.n(4)) {
    case 0:
    case 1:
      snprintf(b, sizeof b, "%02u:%02u:%06.3f", h, m, sec);
      break;
    case 2:
      snprintf(b, sizeof b, "%uh%um%.3f", h, m, sec);
      break;
    default: {
      const double deg = s.n(0, 359999) / 1000.0 * (s.chance(1, 4) ? -1 : 1);
      snprintf(b, sizeof b, "%.3fdeg", deg);
      rad = deg * d2r;
      return b;
    }
  }
  rad = (h + m / 60.0 + sec / 3600.0) * 15 * d2r;
  return b;
}
std::string Dec(Src& s, double& rad) {
  const double d2r = M_PI / 180;
  const unsigned d = s.n(0, 89), m = s.n(0, 59);
  const double sec = s.n(0, 59999) / 1000.0;
  const char* sg = s.pick({"+", "-", ""});
  char b[64];
  switch (s.n(4)) {
    case 0:
    case 1:
      snprintf(b, sizeof b, "%s%02u.%02u.%06.3f", sg, d, m, sec);
      break;
    case 2:
      snprintf(b, sizeof b, "%s%ud%um%.3f", sg, d, m, sec);
      break;
    default:
      rad = (s.n(0, 180000) / 1000.0 - 90) * d2r;
      snprintf(b, sizeof b, "%.6frad", rad);
      rad = atof(b);
      return b;
  }
  rad = (d + m / 60.0 + sec / 3600.0) * (*sg == '-' ? -1 : 1) * d2r;
  return b;
}

struct Field {
  std::string name, key;  // as written; lower case
  char sep = ',';
  bool skip = false, fixed = false, def = false, extra = false;
  std::string value;
};

std::string Case(Src& s, const std::string& t) {
  std::string r = t;
  const unsigned k = s.n(4);
  for (char& c : r)
    c = k == 0 ? c : k == 1 ? std::tolower(c) : k == 2 ? std::toupper(c) : (s.b() ? std::toupper(c) : std::tolower(c));
  return r;
}
std::string Lower(std::string t) {
  for (char& c : t) c = std::tolower(c);
  return t;
}
std::string Ws(Src& s) { return s.chance(1, 4) ? s.pick({" ", "  ", "\t"}) : ""; }

enum PosMode { kSplit = 1, kHours = 2 };

struct Format {
  std::vector<Field> f;
  std::string text;
  bool ra_split = false, dec_split = false, ra_h = false, dec_h = false, space = false;
  bool has(const std::string& k) const {
    for (auto& x : f)
      if (x.key == k && !x.fixed) return true;
    return false;
  }
  const Field* find(const std::string& k) const {
    for (auto& x : f)
      if (x.key == k) return &x;
    return nullptr;
  }
};

Format GenFormat(Src& s) {
  Format r;
  std::vector<std::string> names{"Name"};
  auto maybe = [&](const char* n, unsigned a, unsigned b) {
    if (s.chance(a, b)) names.push_back(n);
  };
  maybe("Patch", 2, 3);
  maybe("Type", 3, 4);
  maybe("RefType", 1, 5);
  r.ra_split = s.chance(1, 4), r.dec_split = s.chance(1, 4);
  auto pos = [&](const char* p, bool split, bool& hours, bool always_d) {
    if (!split) {
      names.push_back(p);
      return;
    }
    const std::string q = Lower(p);
    hours = !always_d && s.b();
    names.push_back(q + (hours ? "h" : "d"));
    if (s.chance(3, 4)) {
      names.push_back(q + "m");
      if (s.chance(3, 4)) names.push_back(q + "s");
    }
  };
  pos("Ra", r.ra_split, r.ra_h, false);
  pos("Dec", r.dec_split, r.dec_h, s.chance(3, 4));
  maybe("I", 5, 6);
  maybe("Q", 1, 2);
  maybe("U", 1, 2);
  maybe("V", 1, 3);
  maybe("SpectralIndex", 1, 2);
  maybe("LogarithmicSI", 1, 3);
  maybe("ReferenceFrequency", 2, 3);
  maybe("MajorAxis", 1, 2);
  maybe("MinorAxis", 1, 2);
  maybe("Orientation", 1, 2);
  maybe("OrientationIsAbsolute", 1, 3);
  if (s.chance(1, 2)) {
    names.push_back("RotationMeasure");
    maybe("PolarizedFraction", 1, 2);
    maybe("PolarizationAngle", 1, 2);
    maybe("ReferenceWavelength", 1, 2);
  }
  maybe("Category", 1, 4);
  if (s.chance(1, 4)) names.push_back("dummy");
  if (s.chance(1, 6)) names.push_back("");
  if (s.chance(1, 4)) names.push_back("MyField");
  s.shuffle(names);
  r.space = s.chance(1, 6);
  const char main_sep = r.space ? ' ' : s.pick({',', ',', ';', '|', '/'});
  for (size_t k = 0; k < names.size(); ++k) {
    if (r.space && names[k].empty()) continue;
    Field f;
    f.name = Case(s, names[k]);
    f.key = Lower(names[k]);
    f.skip = f.key.empty() || f.key == "dummy";
    f.extra = f.key == "myfield";
    f.sep = main_sep;
    if (!r.space && s.chance(1, 12)) f.sep = s.pick({',', ';', '|'});
    r.f.push_back(f);
  }
  // The last field: nothing follows, any separator will do for its value.
  return r;
}

void WriteFormat(Src& s, Format& r) {
  for (size_t k = 0; k < r.f.size(); ++k) {
    Field& f = r.f[k];
    r.text += f.name;
    if (f.fixed || f.def) {
      const char q = f.value.find('\'') != std::string::npos ? '"' : s.pick({'"', '\''});
      r.text += Ws(s) + "=" + Ws(s) + (f.fixed ? Case(s, "fixed") : "") + q + f.value + q;
    }
    const bool last = k + 1 == r.f.size();
    if (last) {
      // A last field without a name or value only exists because of its separator.
      if (f.name.empty() || s.chance(1, 8)) r.text += f.sep;
      else f.sep = (f.fixed || f.def) ? '\0' : ' ';
    } else if (r.space)
      r.text += s.pick({" ", "  "});
    else
      r.text += Ws(s) + f.sep + Ws(s);
  }
}

// Quote a value when needed, or now and then.
std::string Quote(Src& s, const std::string& v, char sep, bool array) {
  bool need = v.empty() ? sep == ' ' : false;
  if (!array)
    for (char c : v)
      if (c == sep || c == ',' || c == ' ' || c == '[' || c == ']' || c == '\'' || c == '"') need = true;
  if (!need && (v.empty() || !s.chance(1, 8))) return v;
  if (v.find('"') != std::string::npos) return "'" + v + "'";
  if (v.find('\'') != std::string::npos) return '"' + v + '"';
  const char q = s.pick({'"', '\''});
  return q + v + q;
}

std::string Join(const std::vector<double>& v, Src& s) {
  std::string r = "[" + Ws(s);
  for (size_t k = 0; k < v.size(); ++k) r += (k ? Ws(s) + "," + Ws(s) : "") + Num(v[k]);
  return r + Ws(s) + "]";
}

// Fill the fields of a line; the fields that are not in the format are left at their defaults.
Rec GenRec(Src& s, const Format& fm, const std::string& name, const std::string& patch) {
  Rec r;
  r.name = name, r.patch = patch;
  auto given = [&](const char* k) { return fm.find(k) && s.chance(3, 4); };
  auto set = [&](const char* k, double& d, double lo, double hi) {
    if (given(k)) {
      d = s.real(lo, hi);
      if (s.chance(1, 3)) d = std::round(d);
      r.v[k] = Num(d);
    }
  };
  r.v["name"] = name;
  r.v["patch"] = patch;
  if (given("type")) {
    r.type = s.pick({"point", "gaussian", "gaussian"});
    r.v["type"] = Case(s, r.type);
  }
  if (given("reftype")) r.v["reftype"] = r.ref = s.chance(3, 4) ? "J2000" : s.pick({"B1950", "SUN", "mercury", "Jupiter"});
  if (!fm.ra_split)
    r.v["ra"] = Ra(s, r.ra);
  else {
    const std::string b = fm.ra_h ? "rah" : "rad";
    const int d = fm.ra_h ? s.i(0, 23) : s.i(0, 359);
    const bool neg = s.chance(1, 4);
    r.v[b] = (neg ? "-" : "") + std::to_string(d);
    double ms = 0;
    if (given("ram")) {
      const int m = s.i(0, 59);
      r.v["ram"] = std::to_string(m), ms += m;
    }
    if (given("ras")) {
      const double x = s.n(0, 59999) / 1000.0;
      r.v["ras"] = Num(x), ms += x / 60;
    }
    r.ra = (d + ms / 60) * (neg ? -1 : 1) * (fm.ra_h ? 15 : 1) * M_PI / 180;
  }
  if (!fm.dec_split)
    r.v["dec"] = Dec(s, r.dec);
  else {
    const std::string b = fm.dec_h ? "dech" : "decd";
    const int d = fm.dec_h ? s.i(0, 5) : s.i(0, 89);
    const bool neg = s.chance(1, 2);
    r.v[b] = (neg ? "-" : s.chance(1, 4) ? "+" : "") + std::to_string(d);
    double ms = 0;
    if (given("decm")) {
      const int m = s.i(0, 59);
      r.v["decm"] = std::to_string(m), ms += m;
    }
    if (given("decs")) {
      const double x = s.n(0, 59999) / 1000.0;
      r.v["decs"] = Num(x), ms += x / 60;
    }
    r.dec = (d + ms / 60) * (neg ? -1 : 1) * (fm.dec_h ? 15 : 1) * M_PI / 180;
  }
  set("i", r.I, -2, 10);
  set("v", r.V, -2, 2);
  if (given("category")) {
    r.cat = s.i(0, 5);
    r.v["category"] = std::to_string(r.cat);
  }
  if (fm.find("referencefrequency")) {
    r.freq = s.real(1e7, 3e8);
    r.v["referencefrequency"] = Num(r.freq);
    if (given("spectralindex")) {
      const unsigned n = s.n(0, 4);
      for (unsigned k = 0; k < n; ++k) r.si.push_back(s.sym(1));
      if (n == 1 && s.b())
        r.v["spectralindex"] = Num(r.si[0]);
      else
        r.v["spectralindex"] = Join(r.si, s);
    } else if (s.chance(1, 3)) {
      r.freq = 0;
      r.v.erase("referencefrequency");
    }
  }
  if (given("logarithmicsi")) {
    r.log_si = s.b();
    r.v["logarithmicsi"] = r.log_si ? s.pick({"true", "True", "1", "yes"}) : s.pick({"false", "F", "0", "no"});
  }
  set("majoraxis", r.maj, 0, 100);
  set("minoraxis", r.min, 0, 100);
  set("orientation", r.ori, -180, 180);
  if (given("orientationisabsolute")) {
    r.abs = s.b();
    r.v["orientationisabsolute"] = r.abs ? "true" : "false";
  }
  const bool qu_possible = fm.find("q") && fm.find("u") && (fm.find("referencewavelength") || r.freq > 0);
  const bool pf_possible = fm.find("polarizedfraction") && fm.find("polarizationangle");
  if (given("rotationmeasure") && (qu_possible || pf_possible)) {
    r.has_rm = true;
    r.rm = s.sym(10);
    r.v["rotationmeasure"] = Num(r.rm);
    if (qu_possible && (!pf_possible || s.b())) {
      r.rm_from_qu = true;
      r.Q = s.sym(1), r.U = s.sym(1);
      r.v["q"] = Num(r.Q), r.v["u"] = Num(r.U);
      r.wave = r.freq > 0 ? kC / r.freq : 0;
      if (fm.find("referencewavelength") && (r.freq <= 0 || s.b())) {
        r.wave = s.real(1, 4);
        r.v["referencewavelength"] = Num(r.wave);
      }
      if (std::abs(r.I) < 0.1) r.I = 0.5, r.v["i"] = "0.5";
      if (!fm.find("i")) r.I = 1;
    } else {
      r.pf = s.real(0, 1), r.pa = s.real(0, 3);
      r.v["polarizedfraction"] = Num(r.pf), r.v["polarizationangle"] = Num(r.pa);
      if (fm.find("referencewavelength") && s.b()) r.v["referencewavelength"] = "0";
    }
  } else {
    set("q", r.Q, -1, 1);
    set("u", r.U, -1, 1);
  }
  if (fm.find("myfield") && s.b()) r.v["myfield"] = Num(s.sym(10));
  return r;
}

// The values the format gives by itself are taken out of the text of the line.
void ApplyFixed(Rec& r, const Format& fm, const Rec& proto) {
  (void)r, (void)fm, (void)proto;
}

std::string Line(Src& s, const Format& fm, const Rec& r) {
  std::string t = s.chance(1, 6) ? s.pick({" ", "\t", "   "}) : "";
  // Fields at the end that have no value can be left out.
  size_t last = fm.f.size();
  auto text = [&](const Field& f) -> std::string {
    if (f.skip) return s.chance(1, 2) && !fm.space ? "" : s.pick({"junk", "7", "'a,b'"});
    auto it = r.v.find(f.key);
    return it == r.v.end() ? "" : it->second;
  };
  std::vector<std::string> cols;
  std::vector<char> seps;
  for (size_t k = 0; k < last; ++k) {
    const Field& f = fm.f[k];
    if (f.fixed) continue;
    std::string v = text(f);
    if (f.def && v == f.value && !fm.space && s.b()) v = "";
    else if (!f.skip) v = Quote(s, v, f.sep, f.key == "spectralindex" && !v.empty() && v[0] == '[');
    if (fm.space && v.empty()) v = "''";
    cols.push_back(v);
    seps.push_back(f.sep);
  }
  size_t n = cols.size();
  if (s.b())
    while (n > 0 && cols[n - 1].empty()) --n;
  for (size_t k = 0; k < n; ++k) {
    t += (cols[k].empty() ? "" : Ws(s)) + cols[k];
    if (k + 1 < n)
      t += (fm.space ? s.pick({" ", "  ", "\t "}) : Ws(s) + seps[k]);
    else
      t += Ws(s);
  }
  return t;
}

std::string Comment(Src& s) {
  return s.pick({"", "  ", "\t", "# comment", "  # a, b, c [ '", "#", "format = a,b", " FORMAT=Name"});
}

bool Glob(const char* p, const char* t) {
  if (*p == 0) return *t == 0;
  if (*p == '*') return Glob(p + 1, t) || (*t && Glob(p, t + 1));
  if (*t == 0) return false;
  if (*p == '?') return Glob(p + 1, t + 1);
  if (*p == '[') {
    const char* e = strchr(p, ']');
    bool in = false;
    for (const char* q = p + 1; q < e; ++q) in |= *q == *t;
    return in && Glob(e + 1, t + 1);
  }
  return *p == *t && Glob(p + 1, t + 1);
}

double Power(double I, const std::vector<double>& c, bool log_si, double f0, double f) {
  double x = f / f0, r = I;
  if (log_si) {
    double e = 0;
    for (size_t k = 0; k < c.size(); ++k) e += c[k] * std::pow(std::log10(x), double(k));
    return I * std::pow(x, e);
  }
  for (size_t k = 0; k < c.size(); ++k) r += c[k] * std::pow(x - 1, double(k + 1));
  return r;
}

struct Model {
  std::vector<Rec> patches, sources;  // in file order
  Format fm;
  std::string text, format_arg;
  std::string name;  // file
  bool explicit_format = false;
};

Model GenModel(Src& s) {
  Model m;
  m.fm = GenFormat(s);
  const bool has_patch = m.fm.find("patch");
  // Defaults and fixed values: used by all lines, so taken from a first record.
  const unsigned n_patch = has_patch ? s.n(0, 4) : 0;
  static const std::vector<std::string> kNames{"cas a", "CygA", "f", "format", "fornax", "3C_196", "p.1", "p.10", "a[0]", "O'Neil", "src,1", "P-x"};
  std::vector<size_t> order(kNames.size());
  for (size_t k = 0; k < order.size(); ++k) order[k] = k;
  s.shuffle(order);
  Rec proto = GenRec(s, m.fm, "proto", "proto");
  for (Field& f : m.fm.f) {
    static const std::set<std::string> kOk{"i", "type", "referencefrequency", "category", "logarithmicsi", "v", "majoraxis"};
    if (!kOk.count(f.key) || !proto.v.count(f.key) || !s.chance(1, 4)) continue;
    (s.b() ? f.fixed : f.def) = true;
    f.value = proto.v[f.key];
  }
  WriteFormat(s, m.fm);
  // Records with the values of the format; an absent value becomes the default.
  auto fix = [&](Rec& r) {
    bool changed = false;
    for (const Field& f : m.fm.f) {
      if (!f.fixed && !f.def) continue;
      if (f.def && r.v.count(f.key)) continue;
      changed = true;
      r.v[f.key] = f.value;
      if (f.key == "i") r.I = proto.I;
      if (f.key == "type") r.type = proto.type;
      if (f.key == "referencefrequency") r.freq = proto.freq;
      if (f.key == "category") r.cat = proto.cat;
      if (f.key == "logarithmicsi") r.log_si = proto.log_si;
      if (f.key == "v") r.V = proto.V;
      if (f.key == "majoraxis") r.maj = proto.maj;
    }
    if (r.rm_from_qu && r.v.count("referencewavelength") == 0 && r.freq > 0) r.wave = kC / r.freq;
    (void)changed;
  };
  size_t next = 0;
  std::vector<std::string> lines;
  auto junk = [&] {
    while (s.chance(1, 6)) lines.push_back(Comment(s));
  };
  junk();
  // The comments before the format must not be read as one.
  for (auto& l : lines)
    if (l.find('=') != std::string::npos) l = "#";
  const size_t format_at = lines.size();
  std::vector<std::string> defined;
  const unsigned n_src = s.n(1, 7);
  unsigned patches_left = n_patch, sources_left = n_src;
  while (patches_left + sources_left > 0 && next < order.size()) {
    const std::string name = kNames[order[next++]];
    if (patches_left > 0 && (sources_left == 0 || s.b())) {
      Rec r = GenRec(s, m.fm, "", name);
      fix(r);
      lines.push_back(Line(s, m.fm, r));
      m.patches.push_back(r);
      defined.push_back(name);
      --patches_left;
    } else {
      std::string patch;
      if (!defined.empty() && s.chance(3, 4)) patch = defined[s.n(0, defined.size() - 1)];
      Rec r = GenRec(s, m.fm, name, patch);
      fix(r);
      if (r.rm_from_qu && std::abs(Power(r.I, r.si, r.log_si, r.freq > 0 ? r.freq : 1, kC / r.wave)) < 1e-3 ) {
        // Without flux the polarized fraction is not defined.
        r.v.erase("rotationmeasure");
        r.v.erase("referencewavelength");
        r.has_rm = r.rm_from_qu = false;
        r.rm = 0;
      }
      lines.push_back(Line(s, m.fm, r));
      m.sources.push_back(r);
      --sources_left;
    }
    junk();
  }
  const unsigned how = s.n(3);
  m.explicit_format = how == 2;
  if (how == 0)
    lines.insert(lines.begin() + s.n(0, format_at), Ws(s) + "#" + Ws(s) + "(" + Ws(s) + m.fm.text + ")" + Ws(s) + "=" + Ws(s) + Case(s, "format") + Ws(s));
  else if (how == 1)
    lines.insert(lines.begin() + format_at, Ws(s) + Case(s, "format") + Ws(s) + "=" + Ws(s) + m.fm.text);
  const bool crlf = s.chance(1, 4);
  for (size_t k = 0; k < lines.size(); ++k) {
    m.text += lines[k];
    if (k + 1 < lines.size() || s.b()) m.text += crlf ? "\r\n" : "\n";
  }
  m.name = s.pick({"m.skymodel", "m.txt", "a.b.txt"});
  return m;
}

SkyModel Read(const Model& m, const Scratch& d) {
  const std::string f = d.write(m.name, m.text);
  return m.explicit_format ? ReadSkyModel(f, m.fm.text) : ReadSkyModel(f);
}

double Apart(double ra1, double dec1, double ra2, double dec2) {
  const double x = std::cos(ra1) * std::cos(dec1) - std::cos(ra2) * std::cos(dec2), y = std::sin(ra1) * std::cos(dec1) - std::sin(ra2) * std::cos(dec2),
               z = std::sin(dec1) - std::sin(dec2);
  return std::sqrt(x * x + y * y + z * z);
}

void NoteModel(Src& s, const Model& m) {
  s.note("format", m.fm.text);
  s.note("explicit", m.explicit_format);
  s.note("file", m.text);
}

// The name of the patch a source ends up in.
std::string PatchOf(const Rec& r) { return r.patch.empty() ? r.name : r.patch; }
}  // namespace

PROP("P39.read", 400, 12000) {
  const Model m = GenModel(s);
  NoteModel(s, m);
  const Scratch d;
  const SkyModel db = Read(m, d);
  s.nontrivial(m.sources.size() > 1);
  // Sources in the order of the file.
  CHECK_EQ(db.GetSources().size(), m.sources.size());
  bool rm = false;
  for (size_t k = 0; k < m.sources.size(); ++k) {
    const Rec& r = m.sources[k];
    const Source& x = db.GetSources()[k];
    CHECK_EQ(x.getInfo().getName(), r.name);
    CHECK_EQ(x.getPatchName(), PatchOf(r), "patch of", r.name);
    CHECK_EQ(int(x.getInfo().getType()), r.gaussian() ? int(SourceInfo::GAUSSIAN) : int(SourceInfo::POINT), r.name);
    CHECK_EQ(x.getInfo().getRefType(), r.ref.empty() ? std::string("J2000") : r.ref, r.name);
    CHECK_NEAR(x.getRa(), r.ra, 1e-11, "ra of", r.name);
    CHECK_NEAR(x.getDec(), r.dec, 1e-11, "dec of", r.name);
    CHECK_EQ(x.getI(), r.I, "I of", r.name);
    CHECK_EQ(x.getV(), r.V, "V of", r.name);
    CHECK_EQ(x.getInfo().getUseRotationMeasure(), r.has_rm, "RM of", r.name);
    if (r.has_rm) {
      rm = true;
      CHECK_EQ(x.getRotationMeasure(), r.rm, r.name);
      if (!r.rm_from_qu) {
        CHECK_EQ(x.getPolarizedFraction(), r.pf, r.name);
        CHECK_EQ(x.getPolarizationAngle(), r.pa, r.name);
      }
    } else {
      CHECK_EQ(x.getQ(), r.Q, "Q of", r.name);
      CHECK_EQ(x.getU(), r.U, "U of", r.name);
    }
    CHECK_EQ(x.getSpectralTerms(), r.si, "spectral terms of", r.name);
    CHECK_EQ(x.getInfo().getNSpectralTerms(), unsigned(r.si.size()), r.name);
    CHECK_EQ(x.getInfo().getHasLogarithmicSI(), r.log_si, r.name);
    CHECK_EQ(x.getInfo().getPositionAngleIsAbsolute(), r.abs, r.name);
    CHECK_EQ(x.getInfo().getSpectralTermsRefFreq(), r.freq, "frequency of", r.name);
    if (r.gaussian()) {
      CHECK_EQ(x.getMajorAxis(), r.maj, r.name);
      CHECK_EQ(x.getMinorAxis(), r.min, r.name);
      CHECK_EQ(x.getOrientation(), r.ori, r.name);
    }
  }
  if (rm) s.label("rotation measure");
  // Patches: those defined, and one for each source without.
  std::map<std::string, const Rec*> want;
  for (auto& p : m.patches) want[p.patch] = &p;
  for (auto& p : m.sources)
    if (p.patch.empty()) want[p.name] = &p;
  CHECK_EQ(db.GetPatches().size(), want.size());
  std::vector<std::string> names;
  for (auto& w : want) names.push_back(w.first);
  CHECK_EQ(db.GetPatchNames(), names);
  for (auto& w : want) {
    const PatchInfo& p = db.GetPatch(w.first);
    CHECK_EQ(p.getName(), w.first);
    CHECK_EQ(p.getCategory(), w.second->cat, "category of", w.first);
    double sum = 0, x = 0, y = 0, z = 0, total = 0;
    if (w.second->name.empty())
      for (auto& r : m.sources)
        if (r.patch == w.first) {
          sum += r.I, total += std::abs(r.I);
          x += r.I * std::cos(r.ra) * std::cos(r.dec), y += r.I * std::sin(r.ra) * std::cos(r.dec), z += r.I * std::sin(r.dec);
        }
    if (total == 0) {
      CHECK_NEAR(Apart(p.getRa(), p.getDec(), w.second->ra, w.second->dec), 0, 1e-10, "direction of", w.first);
      CHECK_EQ(p.apparentBrightness(), w.second->I, "brightness of", w.first);
    } else if (std::abs(sum) > 1e-6) {
      CHECK_NEAR(p.apparentBrightness(), sum, 1e-12 * (1 + total), "brightness of", w.first);
      const double norm = std::sqrt(x * x + y * y + z * z);
      if (norm > 1e-3 * total) {
        const double sg = sum < 0 ? -1 : 1;
        CHECK_NEAR(Apart(p.getRa(), p.getDec(), std::atan2(sg * y, sg * x), std::asin(sg * z / norm)), 0, 1e-8, "direction of", w.first);
        s.label("flux-weighted direction");
      }
    }
  }
  CHECK(vpt::Throws([&] { db.GetPatch("no such patch"); }));
}

PROP("P39.components", 300, 9000) {
  const Model m = GenModel(s);
  NoteModel(s, m);
  const Scratch d;
  const SkyModel db = Read(m, d);
  // A selection of patches in any order.
  std::vector<std::string> names;
  for (auto& p : m.patches) names.push_back(p.patch);
  for (auto& p : m.sources)
    if (p.patch.empty()) names.push_back(p.name);
  s.shuffle(names);
  names.resize(s.n(0, names.size()));
  s.note("patches", names);
  bool error = false, polarized = false, absolute = false;
  for (auto& n : names) {
    bool any = false;
    for (auto& r : m.sources)
      if (PatchOf(r) == n) {
        any = true;
        error |= !r.ref.empty() && r.ref != "J2000";
        polarized |= r.V != 0 || (r.has_rm ? (r.rm_from_qu ? r.Q != 0 || r.U != 0 : r.pf != 0) : r.Q != 0 || r.U != 0);
        absolute |= r.abs;
      }
    error |= !any;
  }
  CHECK_EQ(CheckPolarized(db, names), polarized);
  CHECK_EQ(CheckAnyOrientationIsAbsolute(db, names), absolute);
  SkyModelSelection sel{SkyModel(db)};
  sel.SelectPatchList(names);
  CHECK_EQ(sel.CheckPolarized(), polarized);
  CHECK_EQ(sel.CheckAnyOrientationIsAbsolute(), absolute);
  s.nontrivial(!error && !names.empty());
  if (error) {
    CHECK(vpt::Throws([&] { MakePatches(db, names); }), "empty patch or other reference frame accepted");
    return;
  }
  const auto patches = s.b() ? sel.MakePatchList() : MakePatches(db, names);
  CHECK_EQ(patches.size(), names.size());
  for (size_t p = 0; p < names.size(); ++p) {
    CHECK_EQ(patches[p]->Name(), names[p]);
    const PatchInfo& info = db.GetPatch(names[p]);
    CHECK_EQ(patches[p]->Direction().ra, info.getRa());
    CHECK_EQ(patches[p]->Direction().dec, info.getDec());
    CHECK_EQ(patches[p]->Brightness(), info.apparentBrightness());
    size_t c = 0;
    for (auto& r : m.sources) {
      if (PatchOf(r) != names[p]) continue;
      CHECK(c < patches[p]->NComponents(), "component missing in", names[p]);
      const auto comp = patches[p]->component(c++);
      CHECK_NEAR(comp->direction().ra, r.ra, 1e-11);
      CHECK_NEAR(comp->direction().dec, r.dec, 1e-11);
      const auto* g = dynamic_cast<const GaussianSource*>(comp.get());
      CHECK_EQ(g != nullptr, r.gaussian(), r.name);
      if (g) {
        CHECK_NEAR(g->getMajorAxis(), r.maj / 3600 * M_PI / 180, 1e-15);
        CHECK_NEAR(g->getMinorAxis(), r.min / 3600 * M_PI / 180, 1e-15);
        CHECK_NEAR(g->getPositionAngle(), r.ori * M_PI / 180, 1e-12);
        CHECK_EQ(g->getPositionAngleIsAbsolute(), r.abs);
      }
      const auto* ps = dynamic_cast<const PointSource*>(comp.get());
      CHECK(ps != nullptr);
      // Stokes parameters at a frequency.
      auto check = [&](double freq) {
        const auto st = ps->stokes(freq);
        const double I = r.si.empty() ? r.I : Power(r.I, r.si, r.log_si, r.freq, freq);
        const double tol = 1e-9 * (1 + std::abs(I));
        CHECK_NEAR(st.I, I, tol, "I of", r.name, "at", freq);
        if (!r.has_rm) {
          // The spectrum applies to all Stokes parameters.
          if (r.si.empty()) {
            CHECK_NEAR(st.Q, r.Q, tol, r.name);
            CHECK_NEAR(st.U, r.U, tol, r.name);
          }
        } else if (!r.rm_from_qu) {
          const double chi = 2 * (r.pa + r.rm * std::pow(kC / freq, 2));
          CHECK_NEAR(st.Q, I * r.pf * std::cos(chi), 1e-7 * (1 + std::abs(I)), r.name, "at", freq);
          CHECK_NEAR(st.U, I * r.pf * std::sin(chi), 1e-7 * (1 + std::abs(I)), r.name, "at", freq);
        }
      };
      if (!r.si.empty()) check(r.freq);
      check(s.real(3e7, 2.5e8));
      if (r.rm_from_qu) {
        // At the reference wavelength Q and U are those of the file.
        const double freq = kC / r.wave;
        const auto st = ps->stokes(freq);
        CHECK_NEAR(st.Q, r.Q, 1e-6, "Q of", r.name, "at reference wavelength", r.wave);
        CHECK_NEAR(st.U, r.U, 1e-6, "U of", r.name, "at reference wavelength", r.wave);
        s.label("Q and U with rotation measure");
      }
    }
    CHECK_EQ(patches[p]->NComponents(), c);
  }
  // One entry per component, with its patch; the indices of the patches.
  auto list = patches;
  const auto src = makeSourceList(list);
  size_t k = 0;
  for (auto& p : list)
    for (size_t c = 0; c < p->NComponents(); ++c, ++k) {
      CHECK(k < src.size());
      CHECK(src[k].first == p->component(c) && src[k].second == p, "source", k);
    }
  CHECK_EQ(src.size(), k);
  SetPatchIndices(list);
  for (size_t p = 0; p < list.size(); ++p) CHECK_EQ(list[p]->Index(), p);
}

PROP("P39.rotation", 400, 12000) {
  // Q, U and the rotation measure at a wavelength other than that of the spectrum.
  const Scratch d;
  const double I = s.real(0.5, 5), Q = s.sym(0.5), U = s.sym(0.5), rm = s.sym(20), freq0 = s.real(3e7, 2.5e8);
  const bool own_wave = s.chance(3, 4), log_si = s.b();
  double wave = own_wave ? s.real(1, 4) : kC / freq0;
  std::vector<double> si(s.n(0, 4));
  std::string list;
  for (auto& x : si) {
    x = log_si ? s.real(-0.8, 0.8) : s.sym(0.1);
    x = std::round(x * 1000) / 1000;
    list += (list.empty() ? "" : ",") + Num(x);
  }
  const double Iw = si.empty() ? I : Power(I, si, log_si, freq0, kC / wave);
  if (Iw < 0.05) throw vpt::Discard{};
  std::string t = "format=Name,Type,Ra,Dec,I,Q,U,ReferenceFrequency,SpectralIndex,LogarithmicSI,RotationMeasure,ReferenceWavelength\n";
  t += "s,POINT,1rad,0.5rad," + Num(I) + "," + Num(Q) + "," + Num(U) + "," + Num(freq0) + ",[" + list + "]," + (log_si ? "true" : "false") + "," +
       Num(rm) + "," + (own_wave ? Num(wave) : "") + "\n";
  s.note("file", t);
  const SkyModel db = ReadSkyModel(d.write("m.txt", t));
  const Source& x = db.GetSources()[0];
  CHECK_NEAR(x.getPolarizedFraction(), std::hypot(Q, U) / Iw, 1e-6 * (1 + 1 / Iw), "polarized fraction");
  const auto patches = MakePatches(db, {"s"});
  const auto comp = patches[0]->component(0);
  const auto* ps = dynamic_cast<const PointSource*>(comp.get());
  CHECK(ps != nullptr);
  for (int k = 0; k < 3; ++k) {
    const double freq = k ? s.real(3e7, 2.5e8) : kC / wave;
    const double If = si.empty() ? I : Power(I, si, log_si, freq0, freq);
    const double chi = std::atan2(U, Q) + 2 * rm * (std::pow(kC / freq, 2) - wave * wave);
    const double pol = std::hypot(Q, U) / Iw * If;
    const auto st = ps->stokes(freq);
    const double tol = 1e-6 * (1 + std::abs(pol));
    CHECK_NEAR(st.I, If, 1e-9 * (1 + std::abs(If)), "I at", freq);
    CHECK_NEAR(st.Q, pol * std::cos(chi), tol, "Q at", freq);
    CHECK_NEAR(st.U, pol * std::sin(chi), tol, "U at", freq);
  }
  s.nontrivial(!si.empty() && rm != 0);
  if (own_wave) s.label("own wavelength");
}

PROP("P39.shapelets", 150, 4000) {
  const Scratch d;
  struct F {
    int order;
    double scale;
    std::vector<double> c;
  };
  std::vector<F> f;
  std::string row = "s,SHAPELET,1rad,0.5rad,1";
  for (int k = 0; k < 4; ++k) {
    if (k && s.b()) {  // as Stokes I
      f.push_back(f[0]);
      row += ",";
      continue;
    }
    F x;
    x.order = s.n(1, 5);
    x.scale = s.i(1, 1000) * 0.125;
    std::string t = "10:11:12 20.30.40\n" + std::to_string(x.order) + " " + Num(x.scale) + "\n";
    for (int i = 0; i < x.order * x.order; ++i) {
      x.c.push_back(s.i(-1000, 1000) * 0.125);
      t += std::to_string(i) + " " + Num(x.c.back()) + "\n";
    }
    if (k == 0 && s.chance(1, 6)) {
      const size_t cut = t.find_last_of('\n', t.size() - 2);
      t = s.b() ? t.substr(0, cut + 1) : t.substr(0, cut + 1) + "99 1\n";
      if (x.order > 0) x.order = -1;
    }
    row += "," + d.write("c" + std::to_string(k), t);
    f.push_back(x);
  }
  s.note("row", row);
  const std::string file = d.write("m.txt", "format=Name,Type,Ra,Dec,I,IShapelet,QShapelet,UShapelet,VShapelet\n" + row + "\n");
  if (f[0].order < 0) {
    CHECK(vpt::Throws([&] { ReadSkyModel(file); }), "incomplete shapelet file accepted");
    return;
  }
  const SkyModel db = ReadSkyModel(file);
  const auto& x = db.GetSources()[0].getInfo();
  CHECK_EQ(int(x.getType()), int(dp3::sky_model::SourceInfo::SHAPELET));
  const double scale[] = {x.getShapeletScaleI(), x.getShapeletScaleQ(), x.getShapeletScaleU(), x.getShapeletScaleV()};
  const casacore::Array<double>* c[] = {&x.getShapeletCoeffI(), &x.getShapeletCoeffQ(), &x.getShapeletCoeffU(), &x.getShapeletCoeffV()};
  for (int k = 0; k < 4; ++k) {
    CHECK_EQ(scale[k], f[k].scale, "scale", k);
    CHECK_EQ(size_t(c[k]->size()), f[k].c.size(), "number of coefficients", k);
    for (size_t i = 0; i < f[k].c.size(); ++i) CHECK_EQ(c[k]->data()[i], f[k].c[i], "coefficient", i, "of", k);
  }
  s.nontrivial(true);
}

PROP("P39.names", 200, 5000) {
  // Checked additions keep the names of sources and patches unique.
  SkyModel db;
  std::set<std::string> src, pat;
  const int n = s.n(1, 12);
  size_t count = 0;
  for (int k = 0; k < n; ++k) {
    const std::string name = s.pick({"a", "b", "c", "d"}), patch = s.pick({"a", "b", "p", "q"});
    const dp3::sky_model::SourceInfo info(name, dp3::sky_model::SourceInfo::POINT, "J2000");
    switch (s.n(3)) {
      case 0: {
        const bool bad = pat.count(patch);
        CHECK_EQ(vpt::Throws([&] { db.addPatch(patch, 0, k + 1, 0.1, 0.2, true); }), bad, "patch", patch);
        if (!bad) pat.insert(patch);
        break;
      }
      case 1: {
        const bool bad = src.count(name);
        CHECK_EQ(vpt::Throws([&] { db.addSource(info, patch, {}, 0.1, 0.2, true); }), bad, "source", name);
        if (!bad) src.insert(name), ++count;
        break;
      }
      default: {
        const bool bad = src.count(name) || pat.count(patch);
        CHECK_EQ(vpt::Throws([&] { db.addSource(info, patch, 2, k + 1, {}, 0.1, 0.2, true); }), bad, "source", name, "of new patch", patch);
        if (!bad) src.insert(name), pat.insert(patch), ++count;
      }
    }
    CHECK_EQ(db.GetSources().size(), count);
    const auto names = db.GetPatchNames();
    CHECK(std::set<std::string>(names.begin(), names.end()) == pat, "patches");
    for (auto p : {"a", "b", "p", "q"}) {
      CHECK_EQ(vpt::Throws([&] { db.GetPatch(p); }), pat.count(p) == 0, "patch", p);
      if (pat.count(p)) CHECK_EQ(db.GetPatch(p).getName(), std::string(p));
    }
  }
  s.nontrivial(count > 1);
}

PROP("P39.select", 300, 9000) {
  Model m = GenModel(s);
  NoteModel(s, m);
  const Scratch d;
  const SkyModel db = Read(m, d);
  const std::vector<std::string> all = db.GetPatchNames();
  const unsigned n = s.n(0, 4);
  std::vector<std::string> pat;
  bool empty = false;
  for (unsigned k = 0; k < n; ++k) {
    std::string p;
    switch (s.n(6)) {
      case 0: p = "*"; break;
      case 1: p = s.pick({"", "@", "@cal"}); break;
      case 2:
        if (!all.empty()) p = all[s.n(0, all.size() - 1)];
        if (p.find('[') != std::string::npos) p = "a?0?";
        break;
      case 3: p = s.pick({"p*", "p.1?", "p.1", "?", "f*", "format", "*a*", "[fp]*", "3C_196"}); break;
      case 4: p = s.pick({"* *", "*.*", "*'*", "c", "CYGA", "*[0]*", "none"}); break;
      default:
        if (!all.empty()) {
          p = all[s.n(0, all.size() - 1)];
          if (p.find('[') != std::string::npos) p = "a";
          p = s.b() ? p.substr(0, s.n(1, p.size())) + "*" : "*" + p.substr(s.n(0, p.size() - 1));
        }
    }
    empty |= p.empty();
    pat.push_back(p);
  }
  s.note("patterns", pat);
  std::set<std::string> want;
  if (pat.empty()) want.insert(all.begin(), all.end());
  for (auto& p : pat) {
    if (!p.empty() && p[0] == '@') want.insert(p);
    else if (!p.empty())
      for (auto& a : all)
        if (Glob(p.c_str(), a.c_str())) want.insert(a);
  }
  const std::vector<std::string> w(want.begin(), want.end());
  s.nontrivial(!pat.empty() && w.size() < all.size() && !w.empty());
  CHECK_EQ(MakePatchList(db, pat), w);
  // Through the cache, the same for every use, whatever was selected before.
  SkyModelCache& cache = SkyModelCache::GetInstance();
  cache.Clear();
  const std::string file = d.write("cached.skymodel", m.explicit_format ? "format=" + m.fm.text + "\n" + m.text : m.text);
  for (int rep = 0; rep < 2; ++rep) {
    if (empty) {
      CHECK(vpt::Throws([&] { cache.GetMatchedSkyModel(file, pat); }), "empty pattern accepted");
      CHECK(vpt::Throws([&] { cache.GetSkyModelPatches(file, pat); }), "empty patch name accepted");
    } else {
      SkyModelSelection a = cache.GetMatchedSkyModel(file, pat);
      SkyModelSelection b(SkyModel{db});
      b.SelectPatchList(w);
      bool ok = true;
      for (auto& x : w) {
        bool any = false;
        for (auto& r : m.sources)
          if (PatchOf(r) == x) any = true, ok &= r.ref.empty() || r.ref == "J2000";
        ok &= any;
      }
      if (ok) {
        const auto p = a.MakePatchList(), q = b.MakePatchList();
        CHECK_EQ(p.size(), q.size());
        for (size_t k = 0; k < p.size(); ++k) {
          CHECK_EQ(p[k]->Name(), w[k]);
          CHECK_EQ(p[k]->NComponents(), q[k]->NComponents());
          CHECK_EQ(p[k]->Direction().ra, q[k]->Direction().ra);
          CHECK_EQ(p[k]->Direction().dec, q[k]->Direction().dec);
        }
      } else
        CHECK(vpt::Throws([&] { a.MakePatchList(); }));
    }
    const std::vector<std::vector<std::string>> dirs = [&]() -> std::vector<std::vector<std::string>> {
      try {
        return MakeDirectionList({}, file);
      } catch (std::exception&) {
        return {};
      }
    }();
    if (!dirs.empty()) {
      CHECK_EQ(dirs.size(), all.size());
      for (size_t k = 0; k < all.size(); ++k) CHECK_EQ(dirs[k], std::vector<std::string>{all[k]});
    }
    // The file was read once: a change is only seen after a Clear.
    if (rep == 0 && !empty) std::filesystem::remove(file), d.write("cached.skymodel", "format=Name,Ra,Dec\nx,1deg,1deg\n");
    if (!empty) CHECK_EQ(cache.GetSkyModel(file).GetPatchNames(), all);
    if (rep == 0 && !empty) {
      cache.Clear();
      CHECK_EQ(cache.GetSkyModel(file).GetPatchNames(), std::vector<std::string>{"x"});
      cache.Clear();
      d.write("cached.skymodel", m.explicit_format ? "format=" + m.fm.text + "\n" + m.text : m.text);
    }
  }
  cache.Clear();
}

PROP("P39.format", 300, 6000) {
  // The format in effect: of a separate file, of the catalog or the default.
  static const char* kDefault = "Name,Type,Ra,Dec,I,Q,U,V,MajorAxis,MinorAxis,Orientation";
  const Scratch d;
  std::string text, want = kDefault;
  const unsigned before = s.n(0, 3);
  for (unsigned k = 0; k < before; ++k) text += s.pick({"# comment\n", "\n", "  \t\n", "# format = no\n", "# (Name)\n", "#\n"});
  const char* const fm = s.pick({"Name, Ra,Dec", "Name,Type,Ra,Dec,I='1.5',Q=fixed\"0\"", "Name Ra Dec", "Name;Ra;Dec;ReferenceFrequency='134e6'"});
  const unsigned how = s.n(4);
  if (how == 0) text += Ws(s) + "#" + Ws(s) + "(" + Ws(s) + fm + ")" + Ws(s) + "=" + Ws(s) + Case(s, "format") + Ws(s) + "\n", want = fm;
  if (how == 1) text += Ws(s) + Case(s, "format") + Ws(s) + "=" + Ws(s) + fm + "\n", want = fm;
  text += "abc, POINT, 10:11:12, 20.30.40, 2.5";
  if (how == 2 || s.b()) text += s.pick({"\n", "\r\n"});
  // Too late.
  if (how == 2) text += "format = Ra,Dec,Name\n";
  s.nontrivial(how < 3);
  s.note("file", text);
  const std::string f = d.write("f.txt", text);
  const std::string other = d.write("other.txt", "# (Dec,Ra) = format\n");
  CHECK_EQ(ReadFormat("", f), want);
  CHECK_EQ(ReadFormat(f, other), want);
  CHECK_EQ(ReadFormat("", ""), std::string());
  CHECK(vpt::Throws([&] { ReadFormat(d.dir + "/none.txt", f); }));
  // An empty format, or just a separator: all known fields in their order.
  const char sep = s.pick({',', ';', '|'});
  const std::string row = std::string("n1,POINT,J2000,01:00:00,10.00.00,3,0.1,0.2,0.3,[0.5\t-0.1],true,1e8,,,,,,,");
  std::string r2 = row;
  for (char& c : r2)
    if (c == ',') c = sep;
  for (size_t k; (k = r2.find('\t')) != std::string::npos;) r2[k] = ',';
  const std::string g = d.write("g.txt", r2 + "\n");
  const SkyModel db = ReadSkyModel(g, sep == ',' && s.b() ? std::string(s.pick({"", " ", "\t "})) : Ws(s) + sep + Ws(s));
  CHECK_EQ(db.GetSources().size(), size_t(1));
  const Source& x = db.GetSources()[0];
  CHECK_EQ(x.getInfo().getName(), std::string("n1"));
  CHECK_NEAR(x.getRa(), 15 * M_PI / 180, 1e-12);
  CHECK_NEAR(x.getDec(), 10 * M_PI / 180, 1e-12);
  CHECK_EQ(x.getI(), 3.0);
  CHECK_EQ(x.getQ(), 0.1);
  CHECK_EQ(x.getU(), 0.2);
  CHECK_EQ(x.getV(), 0.3);
  CHECK_EQ(x.getSpectralTerms(), (std::vector<double>{0.5, -0.1}));
  CHECK_EQ(x.getInfo().getSpectralTermsRefFreq(), 1e8);
}

PROP("P39.errors", 400, 8000) {
  const Scratch d;
  const std::string fm = "format=Name,Type,Patch,RefType,Ra,Dec,I,Q,U,V,SpectralIndex,ReferenceFrequency,RotationMeasure,PolarizedFraction,PolarizationAngle,ReferenceWavelength,MajorAxis";
  struct Row {
    std::string c[17];
  };
  Row ok{{"s1", "POINT", "p1", "J2000", "10:11:12", "20.30.40", "1", "0", "0", "0", "", "", "", "", "", "", ""}};
  auto text = [&](const Row& r, const std::string& format) {
    std::string t = format + "\n,,p1,,0deg,0deg\n";
    for (int k = 0; k < 17; ++k) t += (k ? "," : "") + r.c[k];
    return t + "\n";
  };
  Row r = ok;
  std::string format = fm;
  const unsigned what = s.n(27);
  switch (what) {
    case 0: break;
    case 1: r.c[2] = "undefined"; break;
    case 2: r.c[1] = s.pick({"foo", "points", "gauss"}); break;
    case 3: r.c[3] = s.pick({"J2001", "x", "EARTH"}); break;
    case 4: r.c[4] = s.pick({"abc", "10:x", "1Jy"}); break;
    case 5: r.c[5] = s.pick({"20:30:40", "-01:02:03"}); break;
    case 6: r.c[5] = s.pick({"92.00.00", "-95deg", "1.7rad"}); break;
    case 7: r.c[4] = s.pick({"361deg", "25:00:00", "-6.5rad"}); break;
    case 8: r.c[6] = s.pick({"1.0Jy", "x", "1 2"}); break;
    case 9: r.c[10] = "[-0.7]"; break;  // no reference frequency
    case 10: r.c[10] = "[-0.7]", r.c[11] = s.pick({"0", "-1e8"}); break;
    case 11: r.c[13] = "0.1"; break;
    case 12: r.c[14] = "0.1"; break;
    case 13: r.c[15] = "2"; break;
    case 14: r.c[12] = "1", r.c[7] = "", r.c[8] = ""; break;
    case 15: r.c[12] = "1", r.c[7] = "0.1", r.c[8] = "", r.c[15] = "2"; break;
    case 16: r.c[12] = "1", r.c[15] = "2", r.c[13] = "0.1"; break;  // Q and U given too
    case 17: r.c[12] = "1"; break;                                 // no wavelength
    case 18: r.c[12] = "1", r.c[7] = r.c[8] = "", r.c[13] = "0.1", r.c[14] = "1", r.c[15] = "2"; break;
    case 19: r.c[10] = s.pick({"[1,2", "1]", "[[1]", "'1"}), r.c[11] = "1e8"; break;
    case 20: r.c[10] = s.pick({"[2e7]", "[-1e9,1]"}), r.c[11] = "1e8"; break;
    case 21: r.c[0] = "", r.c[2] = ""; break;
    case 22: format = s.pick({"format=Name,Ra", "format=Name,Dec", "format=Name,I", "format=Name,ram"}); break;
    case 23: format = s.pick({"format=Name,Ra,rah,Dec", "format=Name,rah,rad,Dec", "format=Name,Ra,Dec,decm", "format=Name,Ra,Dec,decd", "format=Name,Ra,dech,decd"}); break;
    case 24: format = s.pick({"format=Name,Ra,Dec,I=1", "format=Name,Ra,Dec,I='1", "format=Name,I=,Ra,Dec", "format=Name,I=fixed,Ra,Dec", "format=Name,Ra,Dec,I=fixed1,Q"}); break;
    case 25: format = "format=Name,Ra,Dec,SpectralIndexDegree,I"; break;
    default: r.c[1] = "SHAPELET"; break;  // no coefficients
  }
  s.nontrivial(what > 0);
  const std::string t = text(r, format);
  s.note("file", t);
  const std::string f = d.write("m.txt", t);
  if (what == 0)
    CHECK_EQ(ReadSkyModel(f).GetSources().size(), size_t(1));
  else
    CHECK(vpt::Throws([&] { ReadSkyModel(f); }), "accepted, case", what);
  if (s.chance(1, 8)) {
    const std::string g = d.write(s.pick({"m.sourcedb", "m", "txt", "m.txt.x", "skymodel"}), text(ok, fm));
    CHECK(vpt::Throws([&] { ReadSkyModel(g); }), "unknown extension accepted");
    CHECK(vpt::Throws([&] { ReadSkyModel(d.dir + "/none.txt", "Name,Ra,Dec"); }), "absent file accepted");
  }
}

namespace {
std::vector<std::shared_ptr<Patch>> GenPatches(Src& s, double spread) {
  std::vector<std::shared_ptr<Patch>> r;
  const double ra0 = s.chance(1, 3) ? 0 : s.real(-3, 6), dec0 = s.real(-1.2, 1.2);
  const unsigned n = s.n(0, 4);
  for (unsigned k = 0; k < n; ++k) {
    std::vector<std::shared_ptr<ModelComponent>> c;
    const unsigned m = s.n(1, 5);
    for (unsigned j = 0; j < m; ++j) {
      double ra = ra0 + s.sym(spread) / std::cos(dec0), dec = dec0 + s.sym(spread);
      if (s.b() && ra < 0) ra += 2 * M_PI;
      dp3::base::Stokes st;
      st.I = 1;
      c.push_back(std::make_shared<PointSource>(Direction(ra, dec), st));
    }
    r.push_back(std::make_shared<Patch>("p" + std::to_string(k), c.begin(), c.end()));
    r.back()->SetBrightness(k + 1);
  }
  return r;
}
Direction Mean(const std::vector<Direction>& v) {
  double x = 0, y = 0, z = 0;
  for (auto& d : v) x += std::cos(d.ra) * std::cos(d.dec), y += std::sin(d.ra) * std::cos(d.dec), z += std::sin(d.dec);
  return Direction(std::atan2(y, x), std::atan2(z, std::hypot(x, y)));
}
}  // namespace

PROP("P40.cluster", 500, 15000) {
  const double spread = s.pick({0.001, 0.02, 0.3});
  auto patches = GenPatches(s, spread);
  const double limit = spread * s.pick({0.0, 0.1, 0.5, 1.0, 10.0});
  std::vector<std::pair<std::shared_ptr<ModelComponent>, std::shared_ptr<Patch>>> comps = makeSourceList(patches);
  std::vector<std::pair<double, double>> pos;
  for (auto& c : comps) pos.emplace_back(c.first->direction().ra, c.first->direction().dec);
  s.note("positions", pos);
  s.note("limit", limit);
  const auto out = clusterProximateSources(patches, limit);
  // Each component is in exactly one cluster.
  std::map<const ModelComponent*, size_t> where;
  size_t total = 0;
  for (size_t k = 0; k < out.size(); ++k) {
    CHECK(out[k]->NComponents() > 0, "empty cluster");
    for (size_t c = 0; c < out[k]->NComponents(); ++c) {
      where[out[k]->component(c).get()] = k;
      ++total;
    }
  }
  CHECK_EQ(total, comps.size());
  CHECK_EQ(where.size(), comps.size());
  for (auto& c : comps) CHECK(where.count(c.first.get()), "component lost");
  s.nontrivial(out.size() > 1 && out.size() < comps.size() ? "some clusters" : out.size() == 1 ? "one cluster" : "none clustered");
  std::set<std::string> names;
  for (auto& o : out) names.insert(o->Name());
  CHECK_EQ(names.size(), out.size(), "cluster names are not unique");
  // The direction of a cluster is the middle of its components.
  for (size_t k = 0; k < out.size(); ++k) {
    std::vector<Direction> v;
    for (size_t c = 0; c < out[k]->NComponents(); ++c) v.push_back(out[k]->component(c)->direction());
    const Direction mean = Mean(v);
    double radius = 0;
    for (auto& d : v) radius = std::max(radius, Apart(d.ra, d.dec, mean.ra, mean.dec));
    CHECK(Apart(out[k]->Direction().ra, out[k]->Direction().dec, mean.ra, mean.dec) <= 0.2 * radius + 1e-9, "direction of cluster", k, "is not in its middle");
    // A component that is alone has none within the limit (when it was compared, clusters only grow).
    (void)limit;
  }
  // Components closer than the limit are joined when they are the only ones; nothing is joined beyond twice the reach.
  if (comps.size() == 2) {
    const double dist = 2 * std::asin(std::min(1.0, Apart(pos[0].first, pos[0].second, pos[1].first, pos[1].second) / 2));
    if (std::abs(dist - limit) > 1e-6) CHECK_EQ(out.size(), dist < limit ? size_t(1) : size_t(2), "distance", dist);
  }
  // Reference: agglomeration in order.
  std::vector<std::vector<size_t>> cl;
  for (size_t k = 0; k < comps.size(); ++k) cl.push_back({k});
  bool close_call = false;
  auto mean = [&](const std::vector<size_t>& v) {
    std::vector<Direction> d;
    for (size_t k : v) d.push_back(comps[k].first->direction());
    return Mean(d);
  };
  for (size_t i = 0; i < cl.size(); ++i)
    for (size_t j = i + 1; j < cl.size();) {
      (void)j;
      // All later clusters are compared with the cluster as it was.
      std::vector<std::vector<size_t>> rest;
      const Direction a = mean(cl[i]);
      std::vector<size_t> grown = cl[i];
      for (size_t k = i + 1; k < cl.size(); ++k) {
        const Direction b = mean(cl[k]);
        const double dist = 2 * std::asin(std::min(1.0, Apart(a.ra, a.dec, b.ra, b.dec) / 2));
        if (std::abs(dist - limit) < 1e-6) close_call = true;
        if (dist < limit)
          grown.insert(grown.end(), cl[k].begin(), cl[k].end());
        else
          rest.push_back(cl[k]);
      }
      cl.resize(i);
      cl.push_back(grown);
      cl.insert(cl.end(), rest.begin(), rest.end());
      break;
    }
  if (close_call) return;
  CHECK_EQ(out.size(), cl.size(), "number of clusters");
  for (size_t k = 0; k < cl.size(); ++k) {
    CHECK_EQ(out[k]->NComponents(), cl[k].size(), "size of cluster", k);
    for (size_t c : cl[k]) CHECK_EQ(where[comps[c].first.get()], k, "cluster of component", c);
  }
}

PROP("P40.single", 300, 6000) {
  const auto patches = GenPatches(s, 0.3);
  const auto out = makeOnePatchPerComponent(patches);
  size_t k = 0;
  std::set<std::string> names;
  for (auto& p : patches)
    for (size_t c = 0; c < p->NComponents(); ++c, ++k) {
      CHECK(k < out.size());
      CHECK_EQ(out[k]->NComponents(), size_t(1));
      CHECK(out[k]->component(0) == p->component(c), "component", k);
      CHECK_EQ(out[k]->Direction().ra, p->component(c)->direction().ra);
      CHECK_EQ(out[k]->Direction().dec, p->component(c)->direction().dec);
      names.insert(out[k]->Name());
    }
  CHECK_EQ(out.size(), k);
  CHECK_EQ(names.size(), k, "names are not unique");
  s.nontrivial(k > 1);
}

VPT_MAIN
