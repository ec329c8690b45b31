// P19 sky-model components and patches, P20 AARTFAAC input, P21 solution types.
#include "vpt.h"

#include <unistd.h>

#include <cstring>
#include <fstream>
#include <map>

#include "base/CalType.h"
#include "base/ComponentInfo.h"
#include "base/GaussianSource.h"
#include "base/PointSource.h"
#include "sky_model/Patch.h"
#include "sky_model/PatchInfo.h"

#include "aartfaac/PacketHeader.h"
#include "aartfaac/File.h"
#include "aartfaac/AntennaConfig.h"

using dp3::base::CalType;
using dp3::base::ComponentInfo;
using dp3::base::Direction;
using dp3::base::GaussianSource;
using dp3::base::ModelComponent;
using dp3::base::PointSource;
using dp3::base::RcuMode;
using dp3::base::Stokes;
using dp3::sky_model::Patch;
using dp3::sky_model::PatchSumInfo;
using vpt::Src;

namespace {
constexpr double kC = 299792458.0;

Direction GenDir(Src& s) {
  switch (s.n(4)) {
    case 0: return Direction(s.sym(0.01), s.sym(1.5));                   // around ra = 0
    case 1: return Direction(s.real(-7, 7), s.pick<double>({M_PI / 2, -M_PI / 2, 1.57, -1.57}));
    case 2: return Direction(M_PI + s.sym(0.01), s.sym(1.5));
    default: return Direction(s.real(-M_PI, 2 * M_PI), s.sym(M_PI / 2));
  }
}

Stokes GenStokes(Src& s) {
  Stokes st;
  st.I = s.chance(1, 8) ? 0.0 : s.sym(10);
  st.Q = s.sym(3);
  st.U = s.sym(3);
  st.V = s.sym(3);
  return st;
}

// What the source was told, as a plain record.
struct Told {
  Direction dir;
  Stokes st = Zero();
  static Stokes Zero() {
    Stokes z;
    z.I = z.Q = z.U = z.V = 0;
    return z;
  }
  bool has_terms = false, log = true, has_rm = false;
  double f0 = 0;
  std::vector<double> terms;
  double frac = 0, angle = 0, rm = 0;
};

void Tell(Src& s, PointSource& p, Told& t, size_t max_terms) {
  const int n = s.i(1, 5);
  for (int k = 0; k < n; ++k) switch (s.n(4)) {
      case 0:
        t.dir = GenDir(s);
        p.setDirection(t.dir);
        break;
      case 1:
        t.st = GenStokes(s);
        p.setStokes(t.st);
        break;
      case 2: {
        t.terms.clear();
        const size_t nt = s.n(max_terms + 1);
        for (size_t i = 0; i < nt; ++i) t.terms.push_back(s.chance(1, 6) ? 0.0 : s.sym(1.5));
        t.f0 = s.chance(1, 2) ? 150e6 : s.logu(1e7, 3e8);
        t.log = s.b();
        t.has_terms = nt != 0;
        if (s.b())
          p.setSpectralTerms(t.f0, t.log, t.terms.begin(), t.terms.end());
        else
          p.setSpectralTerms(t.f0, t.log, t.terms.data(), t.terms.data() + nt);
        break;
      }
      default:
        t.frac = s.real(0, 1);
        t.angle = s.sym(M_PI);
        t.rm = s.chance(1, 6) ? 0.0 : s.sym(5);
        t.has_rm = true;
        p.setRotationMeasure(t.frac, t.angle, t.rm);
    }
}

void CheckTold(const PointSource& p, const Told& t) {
  CHECK_EQ(p.direction().ra, t.dir.ra);
  CHECK_EQ(p.direction().dec, t.dir.dec);
  const Stokes st = p.stokes();
  CHECK_EQ(st.I, t.st.I);
  CHECK_EQ(st.Q, t.st.Q);
  CHECK_EQ(st.U, t.st.U);
  CHECK_EQ(st.V, t.st.V);
  CHECK_EQ(p.hasSpectralTerms(), t.has_terms);
  CHECK_EQ(p.hasRotationMeasure(), t.has_rm);
  CHECK(p.spectrum() == t.terms);
  CHECK_EQ(p.referenceFreq(), t.f0);
  CHECK_EQ(p.hasLogarithmicSI(), t.log);
  CHECK_EQ(p.polarizedFraction(), t.frac);
  CHECK_EQ(p.polarizationAngle(), t.angle);
  CHECK_EQ(p.rotationMeasure(), t.rm);
}

// Documented spectrum, evaluated term by term.
Stokes RefStokes(const Told& t, double f) {
  Stokes r = t.st;
  if (!t.terms.empty()) {
    const long double ratio = (long double)f / t.f0;
    if (t.log) {
      const long double lg = std::log10(ratio);
      long double e = 0, pw = 1;
      for (double c : t.terms) {
        e += c * pw;
        pw *= lg;
      }
      r.I = double(t.st.I * std::pow(ratio, e));
    } else {
      const long double x = ratio - 1;
      long double sum = t.st.I, pw = x;
      for (double c : t.terms) {
        sum += c * pw;
        pw *= x;
      }
      r.I = double(sum);
    }
  }
  if (t.has_rm) {
    const long double lam = (long double)kC / f;
    const long double chi = 2 * (t.angle + t.rm * lam * lam);
    r.Q = double(r.I * t.frac * std::cos(chi));
    r.U = double(r.I * t.frac * std::sin(chi));
  }
  return r;
}

std::string TempName(const char* tag) {
  static int k = 0;
  const char* d = std::getenv("TMPDIR");
  return std::string(d ? d : "/tmp") + "/vpt_" + tag + "_" + std::to_string(getpid()) + "_" + std::to_string(k++);
}
struct TempFile {
  std::string name;
  TempFile(const char* tag, const std::string& content) : name(TempName(tag)) {
    std::ofstream(name, std::ios::binary) << content;
  }
  ~TempFile() { ::unlink(name.c_str()); }
};
}  // namespace

// ---------------------------------------------------------------- P19
PROP("P19.spectrum", 6000, 60000) {
  Told t;
  t.dir = GenDir(s);
  const bool with_stokes = s.b();
  const bool gauss = s.b();
  if (with_stokes) t.st = GenStokes(s);
  std::shared_ptr<PointSource> p;
  if (gauss)
    p = with_stokes ? std::make_shared<GaussianSource>(t.dir, t.st) : std::make_shared<GaussianSource>(t.dir);
  else
    p = with_stokes ? std::make_shared<PointSource>(t.dir, t.st) : std::make_shared<PointSource>(t.dir);
  CheckTold(*p, t);
  Tell(s, *p, t, 5);
  CheckTold(*p, t);
  if (s.b()) {
    Tell(s, *p, t, 5);
    CheckTold(*p, t);
  }
  const int nf = s.i(1, 4);
  for (int k = 0; k < nf; ++k) {
    const double f = (t.f0 > 0 && s.chance(1, 4)) ? t.f0 : s.logu(1e7, 3e8);
    const Stokes got = p->stokes(f);
    const Stokes want = RefStokes(t, f);
    double scale = std::abs(t.st.I) + std::abs(want.I);
    if (t.has_terms && !t.log) {
      double x = std::abs(f / t.f0 - 1), pw = x;
      for (double c : t.terms) {
        scale += std::abs(c) * pw;
        pw *= x;
      }
    }
    const double chi = t.has_rm ? 2 * (std::abs(t.angle) + std::abs(t.rm) * (kC / f) * (kC / f)) : 0;
    double expo = 1;
    if (t.has_terms && t.log) {
      double lg = std::abs(std::log10(f / t.f0)), pw = lg;
      for (double c : t.terms) {
        expo += std::abs(c) * pw * 2.4;
        pw *= lg;
      }
    }
    const double tol = 1e-12 * scale * expo;
    CHECK_NEAR(got.I, want.I, tol);
    CHECK_NEAR(got.Q, want.Q, t.has_rm ? tol + 1e-13 * (10 + chi) * std::abs(want.I) : 0.0);
    CHECK_NEAR(got.U, want.U, t.has_rm ? tol + 1e-13 * (10 + chi) * std::abs(want.I) : 0.0);
    CHECK_EQ(got.V, t.st.V);
    if (t.has_terms && f == t.f0) CHECK_NEAR(got.I, t.st.I, 1e-13 * std::abs(t.st.I));
    CheckTold(*p, t);  // evaluating changes nothing
  }
  s.label(t.has_terms ? (t.log ? "log" : "linear") : "flat");
  s.label(t.has_rm ? "rm" : "no rm");
  s.nontrivial(t.has_terms || t.has_rm);
}

// One ComponentInfo inspects a whole list of components, as OnePredict does.
PROP("P19.inspect", 6000, 60000) {
  ComponentInfo info;
  const int n = s.i(1, 6);
  int distinct = 0;
  for (int k = 0; k < n; ++k) {
    Told t;
    t.dir = GenDir(s);
    t.st = GenStokes(s);
    const bool gauss = s.b();
    double pa = 0, maj = 0, mnr = 0;
    bool abs_pa = true;
    std::shared_ptr<PointSource> p;
    if (gauss) {
      auto g = s.b() ? std::make_shared<GaussianSource>(t.dir, t.st) : std::make_shared<GaussianSource>(t.dir);
      g->setStokes(t.st);
      CHECK_EQ(g->getPositionAngle(), 0.0);
      CHECK_EQ(g->getMajorAxis(), 0.0);
      CHECK_EQ(g->getMinorAxis(), 0.0);
      CHECK_EQ(g->getPositionAngleIsAbsolute(), true);
      if (s.chance(2, 3)) g->setPositionAngle(pa = s.sym(M_PI));
      if (s.chance(2, 3)) g->setMajorAxis(maj = s.real(0, 0.1));
      if (s.chance(2, 3)) g->setMinorAxis(mnr = s.real(0, 0.1));
      if (s.chance(1, 3)) g->setPositionAngleIsAbsolute(abs_pa = s.b());
      CHECK_EQ(g->getPositionAngle(), pa);
      CHECK_EQ(g->getMajorAxis(), maj);
      CHECK_EQ(g->getMinorAxis(), mnr);
      CHECK_EQ(g->getPositionAngleIsAbsolute(), abs_pa);
      p = g;
    } else {
      p = std::make_shared<PointSource>(t.dir, t.st);
    }
    if (s.chance(3, 4)) Tell(s, *p, t, 4);
    std::shared_ptr<const ModelComponent> mc = p;
    if (t.terms.size() > 3) {
      CHECK(vpt::Throws([&] { info.inspect(mc); }));
      continue;
    }
    info.inspect(mc);
    ++distinct;
    CHECK_EQ(info.ra_, t.dir.ra);
    CHECK_EQ(info.dec_, t.dir.dec);
    CHECK_EQ(info.sI_, t.st.I);
    CHECK_EQ(info.sQ_, t.st.Q);
    CHECK_EQ(info.sU_, t.st.U);
    CHECK_EQ(info.sV_, t.st.V);
    CHECK_EQ(info.spectrum_.size(), 3u);
    for (size_t i = 0; i < 3; ++i) CHECK_EQ(info.spectrum_[i], i < t.terms.size() ? t.terms[i] : 0.0);
    CHECK_EQ(info.f0_, t.f0);
    CHECK_EQ(int(info.source_type_), int(gauss ? ComponentInfo::kGaussian : ComponentInfo::kPoint));
    if (gauss) {
      CHECK_EQ(info.g_pa_, pa);
      CHECK_EQ(info.g_major_, maj);
      CHECK_EQ(info.g_minor_, mnr);
    }
  }
  s.nontrivial(distinct > 1);
}

namespace {
struct V3 {
  long double x = 0, y = 0, z = 0;
};
V3 Unit(const Direction& d, long double w) {
  return {w * cosl(d.ra) * cosl(d.dec), w * sinl(d.ra) * cosl(d.dec), w * sinl(d.dec)};
}
void CheckDir(double ra, double dec, V3 m, double tol) {
  const long double len = sqrtl(m.x * m.x + m.y * m.y + m.z * m.z);
  CHECK(dec >= -M_PI / 2 - 1e-12 && dec <= M_PI / 2 + 1e-12);
  CHECK_NEAR(double(cosl(ra) * cosl(dec)), double(m.x / len), tol);
  CHECK_NEAR(double(sinl(ra) * cosl(dec)), double(m.y / len), tol);
  CHECK_NEAR(double(sinl(dec)), double(m.z / len), tol);
}
}  // namespace

PROP("P19.patch_direction", 6000, 60000) {
  const int n = s.i(0, 8);
  std::vector<std::shared_ptr<ModelComponent>> comps;
  V3 sum, fsum;
  PatchSumInfo psi(7);
  double flux = 0;
  const Direction centre = GenDir(s);
  const double spread = s.pick<double>({1e-4, 0.1, 1.0, 3.0});
  for (int k = 0; k < n; ++k) {
    const Direction d(centre.ra + s.sym(spread), std::max(-M_PI / 2, std::min(M_PI / 2, centre.dec + s.sym(spread))));
    if (s.b())
      comps.push_back(std::make_shared<PointSource>(d));
    else
      comps.push_back(std::make_shared<GaussianSource>(d));
    const V3 u = Unit(d, 1);
    sum.x += u.x, sum.y += u.y, sum.z += u.z;
    const double w = s.real(0.01, 10);
    flux += w;
    psi.add(d.ra, d.dec, w);
    const V3 v = Unit(d, w);
    fsum.x += v.x, fsum.y += v.y, fsum.z += v.z;
  }
  const std::string name = s.str("abc_ .", 8);
  Patch p(name, comps.begin(), comps.end());
  CHECK_EQ(p.Name(), name);
  CHECK_EQ(p.NComponents(), size_t(n));
  CHECK_EQ(p.Brightness(), 0.0);
  CHECK_EQ(p.Index(), 0u);
  const Patch& cp = p;
  int k = 0;
  for (auto it = p.begin(); it != p.end(); ++it, ++k) {
    CHECK(*it == comps[k]);
    CHECK(p.component(k) == comps[k]);
    CHECK(cp.component(k) == comps[k]);
  }
  CHECK_EQ(k, n);
  CHECK_EQ(psi.getPatchId(), 7u);
  if (n == 0) {
    CHECK_EQ(p.Direction().ra, 0.0);
    CHECK_EQ(p.Direction().dec, 0.0);
    throw vpt::Discard{};
  }
  const long double len = sqrtl(sum.x * sum.x + sum.y * sum.y + sum.z * sum.z) / n;
  if (len > 1e-3) CheckDir(p.Direction().ra, p.Direction().dec, sum, double(1e-12 / len));
  const long double flen = sqrtl(fsum.x * fsum.x + fsum.y * fsum.y + fsum.z * fsum.z) / flux;
  if (flen > 1e-3) CheckDir(psi.getRa(), psi.getDec(), fsum, double(1e-12 / flen));
  CHECK_NEAR(psi.getFlux(), flux, 1e-12 * flux);
  // Explicit values win until the direction is computed again.
  const Direction other = GenDir(s);
  p.SetDirection(other);
  CHECK_EQ(p.Direction().ra, other.ra);
  CHECK_EQ(p.Direction().dec, other.dec);
  p.SetBrightness(3.5);
  p.SetIndex(11);
  CHECK_EQ(p.Brightness(), 3.5);
  CHECK_EQ(p.Index(), 11u);
  p.ComputeDirection();
  if (len > 1e-3) CheckDir(p.Direction().ra, p.Direction().dec, sum, double(1e-12 / len));
  CHECK_EQ(p.NComponents(), size_t(n));
  s.nontrivial(n > 1);
}

// ---------------------------------------------------------------- P20
namespace {
using dp3::aartfaac::AntennaConfig;
using dp3::aartfaac::File;
using dp3::aartfaac::PacketHeader;

void Put(std::string& b, size_t at, const void* p, size_t n) { std::memcpy(&b[at], p, n); }

struct Fields20 {
  uint32_t magic = 0x3B98F003u;
  uint16_t nrec = 0;
  uint8_t npol = 4, mode = 15;
  double t0 = 0, t1 = 0;
  uint32_t weights[300] = {};
  uint32_t nsamp = 0;
  uint16_t nchan = 0;
  double f0 = 0, bw = 0;
};

// The packet layout as the correlator writes it, byte by byte.
std::string Encode(const Fields20& f) {
  std::string b(1536, '\0');
  Put(b, 0, &f.magic, 4);
  Put(b, 4, &f.nrec, 2);
  Put(b, 6, &f.npol, 1);
  Put(b, 7, &f.mode, 1);
  Put(b, 8, &f.t0, 8);
  Put(b, 16, &f.t1, 8);
  Put(b, 24, f.weights, 1200);
  Put(b, 1224, &f.nsamp, 4);
  Put(b, 1228, &f.nchan, 2);
  Put(b, 1232, &f.f0, 8);
  Put(b, 1240, &f.bw, 8);
  return b;
}

Fields20 GenFields(Src& s, bool small) {
  Fields20 f;
  f.nrec = small ? s.i(1, 6) : (s.chance(1, 4) ? s.i(280, 600) : s.i(1, 300));
  f.npol = small ? s.pick<int>({4, 4, 4, 2, 1}) : s.pick<int>({4, 4, 2, 1});
  f.t0 = 1.4e9 + s.real(0, 1e8);
  f.t1 = f.t0 + s.real(0.1, 10);
  const int runs = s.i(1, 6);
  for (auto& w : f.weights) w = 0;
  for (int r = 0; r < runs; ++r) {
    const int a = s.i(0, 299), b = s.i(0, 299);
    const uint32_t w = s.chance(1, 3) ? s.i(0, 3) : uint32_t(s.n(0xffffffffu));
    for (int i = std::min(a, b); i <= std::max(a, b); ++i) f.weights[i] = w;
  }
  f.nsamp = s.chance(1, 2) ? s.i(0, 100000) : uint32_t(s.n(0xffffffffu));
  f.nchan = small ? s.i(1, 4) : (s.chance(1, 4) ? s.i(256, 65535) : s.i(1, 63));
  f.f0 = s.real(1e7, 2.5e8);
  f.bw = s.pick<double>({195312.5, 156250.0, 3051.7578125});
  return f;
}

double ModeBw(int m) { return m == 6 ? 156250.0 : 195312.5; }
double ToCasa(double t) { return t + 40587.0 * 86400.0; }
}  // namespace

PROP("P20.header", 4000, 40000) {
  Fields20 f = GenFields(s, false);
  const int what = s.n(4);
  if (what == 1) f.magic ^= 1u << s.n(32);
  if (what == 2) f.mode = s.pick<int>({0, 1, 3, 7, 14, 16, 31, 255});
  const std::string bytes = Encode(f);
  PacketHeader h;
  CHECK_EQ(sizeof h, bytes.size());
  CHECK_EQ(h.Magic(), 0x3B98F003u);
  CHECK_EQ(h.VisPerTimestep(), 0u);
  std::memcpy(static_cast<void*>(&h), bytes.data(), bytes.size());
  CHECK_EQ(h.Magic(), f.magic);
  CHECK_EQ(double(h.NrReceivers()), double(f.nrec));
  CHECK_EQ(int(h.NrPolarizations()), int(f.npol));
  CHECK_EQ(int(h.CorrelationMode()), int(f.mode));
  CHECK_EQ(h.StartTime(), f.t0);
  CHECK_EQ(h.EndTime(), f.t1);
  CHECK_EQ(uint64_t(h.NrSamplesPerIntegration()), uint64_t(f.nsamp));
  CHECK_EQ(uint64_t(h.NrChannels()), uint64_t(f.nchan));
  CHECK_EQ(h.FirstChannelFrequency(), f.f0);
  CHECK_EQ(h.ChannelBandwidth(), f.bw);
  const uint64_t nbl = uint64_t(f.nrec) * (f.nrec + 1u) / 2;
  CHECK_EQ(uint64_t(h.NrBaselines()), nbl);
  CHECK_EQ(uint64_t(h.VisPerTimestep()), nbl * f.nchan * f.npol);
  CHECK_EQ(h.NrWeights(), 300u);
  std::vector<double> wd(301, -1);
  h.CopyWeights(wd.data());
  std::vector<uint32_t> wi(301, 77);
  h.CopyWeights(wi.data());
  for (int i = 0; i < 300; ++i) {
    CHECK_EQ(wd[i], double(f.weights[i]));
    CHECK_EQ(wi[i], f.weights[i]);
    CHECK_EQ(h.Weights()[i], f.weights[i]);
  }
  CHECK_EQ(wd[300], -1.0);
  const bool bad = f.magic != 0x3B98F003u || f.mode != 15;
  CHECK_EQ(vpt::Throws([&] { h.Check(); }), bad);
  // The run-length weights in the text expand to all weights.
  const std::string text = h.ToString();
  const size_t a = text.find("weights = ["), b = text.find("] (300x)");
  CHECK(a != std::string::npos && b != std::string::npos);
  std::vector<uint64_t> shown;
  std::istringstream is(text.substr(a + 11, b - a - 11));
  std::string item;
  while (std::getline(is, item, ',')) {
    unsigned long long v = 0, c = 1;
    const int k = std::sscanf(item.c_str(), " %llux%llu", &v, &c);
    CHECK(k >= 1);
    for (unsigned long long q = 0; q < c; ++q) shown.push_back(v);
  }
  CHECK_EQ(shown.size(), 300u);
  for (int i = 0; i < 300; ++i) CHECK_EQ(shown[i], uint64_t(f.weights[i]));
  char buf[200];
  std::snprintf(buf, sizeof buf, "nr samples per integration = %u\n", f.nsamp);
  CHECK(text.find(buf) != std::string::npos);
  std::snprintf(buf, sizeof buf, "nr channels = %u\n", unsigned(f.nchan));
  CHECK(text.find(buf) != std::string::npos);
  std::snprintf(buf, sizeof buf, "nr receivers = %u\n", unsigned(f.nrec));
  CHECK(text.find(buf) != std::string::npos);
  std::snprintf(buf, sizeof buf, "first channel frequency = %.3f MHz\n", f.f0 / 1e6);
  CHECK(text.find(buf) != std::string::npos);
  s.label(bad ? "rejected" : "accepted");
  s.nontrivial(f.nrec > 1 && f.nchan > 1);
}

// A whole file and a history of seeks, skips and reads, against a model.
PROP("P20.file", 1500, 15000) {
  const Fields20 base = GenFields(s, true);
  const size_t nvis = size_t(base.nrec) * (base.nrec + 1u) / 2 * base.nchan * base.npol;
  const int nt = s.i(1, 9);
  std::string content;
  std::vector<Fields20> hdr(nt, base);
  std::vector<std::vector<std::complex<float>>> vis(nt);
  for (int t = 0; t < nt; ++t) {
    if (t > 0) {
      hdr[t].t0 = hdr[t - 1].t1 + (s.chance(1, 4) ? s.real(0, 100) : 0.0);
      hdr[t].t1 = hdr[t].t0 + (base.t1 - base.t0);
    }
    content += Encode(hdr[t]);
    vis[t].resize(nvis);
    for (size_t i = 0; i < nvis; ++i) vis[t][i] = {float(t * 1000 + i), float(-1.0 * t)};
    content.append(reinterpret_cast<const char*>(vis[t].data()), nvis * 8);
  }
  const size_t block = 1536 + nvis * 8;
  const size_t partial = s.chance(1, 3) ? s.n(block) : 0;
  content.append(partial, '\x11');
  std::string damaged = content;
  const int mode = s.i(1, 7);
  if (s.chance(1, 6)) {
    if (s.b())
      damaged[s.n(4)] ^= 0x10;
    else
      damaged[7] = 7;
    TempFile bad("aart", damaged);
    CHECK(vpt::Throws([&] { File f(bad.name.c_str(), RcuMode::FromNumber(mode)); }));
    CHECK(vpt::Throws([&] { File f(bad.name.c_str()); }));
  }
  TempFile tf("aart", content);
  const bool with_mode = s.chance(3, 4);
  std::unique_ptr<File> f(with_mode ? new File(tf.name.c_str(), RcuMode::FromNumber(mode)) : new File(tf.name.c_str()));
  size_t pos = 0;
  if (with_mode) {
    CHECK_EQ(f->Bandwidth(), ModeBw(mode));
    CHECK_EQ(f->Frequency(), base.f0);
  }
  CHECK_EQ(f->NTimesteps(), size_t(nt));
  CHECK_EQ(f->StartTime(), ToCasa(base.t0));
  CHECK_EQ(f->NChannels(), size_t(base.nchan));
  CHECK_EQ(f->NAntennas(), size_t(base.nrec));
  CHECK_EQ(f->NPolarizations(), size_t(base.npol));
  CHECK_EQ(int(f->CorrelationMode()), 15);
  CHECK_EQ(f->VisPerTimestep(), nvis);
  CHECK_NEAR(f->IntegrationTime(), base.t1 - base.t0, 1e-6);
  const int ops = s.i(1, 14);
  int reads = 0;
  bool sought = false;
  for (int k = 0; k < ops; ++k) {
    CHECK_EQ(f->BlockPos(), pos);
    CHECK_EQ(f->HasMore(), pos < size_t(nt));
    CHECK_EQ(f->NTimesteps(), size_t(nt));
    switch (s.n(6)) {
      case 0:
        pos = s.n(nt + 1);
        f->SeekToTimestep(pos);
        sought = true;
        break;
      case 1: {
        const int d = s.i(-int(pos), nt - int(pos));
        f->SkipTimesteps(d);
        pos += d;
        sought = true;
        break;
      }
      case 2:
        if (pos < size_t(nt)) {
          const int rep = s.i(1, 3);
          for (int r = 0; r < rep; ++r) {
            const auto m = f->ReadMetadata();
            CHECK_EQ(m.startTime, ToCasa(hdr[pos].t0));
            CHECK_EQ(m.endTime, ToCasa(hdr[pos].t1));
            CHECK_EQ(f->BlockPos(), pos);
          }
        }
        break;
      default: {
        std::vector<std::complex<float>> buf(nvis + 4, {-7.0f, -7.0f});
        if (pos < size_t(nt)) {
          const auto ts = f->ReadTimestep(buf.data());
          CHECK_EQ(ts.startTime, ToCasa(hdr[pos].t0));
          CHECK_EQ(ts.endTime, ToCasa(hdr[pos].t1));
          for (size_t i = 0; i < nvis; ++i) CHECK(buf[i] == vis[pos][i]);
          for (size_t i = nvis; i < buf.size(); ++i) CHECK(buf[i] == std::complex<float>(-7, -7));
          CHECK_EQ(f->StartTime(), ToCasa(hdr[pos].t0));
          CHECK_EQ(f->Header().EndTime(), hdr[pos].t1);
          ++pos;
          ++reads;
        } else {
          CHECK(vpt::Throws([&] { f->ReadTimestep(buf.data()); }));
          k = ops;
        }
      }
    }
  }
  s.label(partial ? "partial tail" : "whole");
  s.nontrivial(reads > 1 && sought);
}

PROP("P20.rcu_mode", 200, 2000) {
  const int m = s.i(-3, 12);
  if (m < 0 || m > 7) {
    CHECK(vpt::Throws([&] { RcuMode::FromNumber(m); }));
    throw vpt::Discard{};
  }
  RcuMode r = RcuMode::FromNumber(m);
  CHECK_EQ(int(r.mode), m);
  for (int k = 0; k < 8; ++k) CHECK_EQ(r == static_cast<RcuMode::Mode>(k), k == m);
  if (m == 0) {
    CHECK_EQ(r.ToString(), std::string("unused"));
    CHECK_EQ(r.AntennaType(), std::string("?"));
    CHECK(vpt::Throws([&] { r.Bandwidth(); }));
    CHECK(vpt::Throws([&] { r.CentralFrequency(); }));
    CHECK(vpt::Throws([&] { r.FrequencyOffset(); }));
    return;
  }
  // The name states the antenna set and the analogue filter.
  char set[16];
  int lo = 0, hi = 0;
  CHECK_EQ(std::sscanf(r.ToString().c_str(), "%15s %d-%d MHz", set, &lo, &hi), 3);
  const char* sets[] = {"", "LBA_OUTER", "LBA_OUTER", "LBA_INNER", "LBA_INNER", "HBA", "HBA", "HBA"};
  const int los[] = {0, 10, 30, 10, 30, 110, 170, 210}, his[] = {0, 90, 90, 90, 90, 190, 230, 270};
  CHECK_EQ(std::string(set), std::string(sets[m]));
  CHECK_EQ(lo, los[m]);
  CHECK_EQ(hi, his[m]);
  CHECK_EQ(r.AntennaType(), std::string(set).substr(0, 3));
  // The central frequency is the middle of the filter; sampling clock and
  // Nyquist zone give sub-band width and frequency offset.
  CHECK_EQ(r.CentralFrequency(), (lo + hi) / 2.0);
  const double clock = m == 6 ? 160e6 : 200e6;
  CHECK_EQ(r.Bandwidth(), clock / 1024);
  const int zone = m <= 4 ? 1 : (m == 5 ? 2 : 3);
  CHECK_EQ(r.FrequencyOffset(), (zone - 1) * clock / 2);
  CHECK(r.CentralFrequency() * 1e6 >= r.FrequencyOffset() && r.CentralFrequency() * 1e6 <= r.FrequencyOffset() + clock / 2);
  s.nontrivial(true);
}

PROP("P20.antenna_config", 2500, 25000) {
  // Arrays: name, band, one or two blocks.
  struct Arr {
    std::string key;
    std::vector<double> v;
  };
  std::vector<Arr> arrs;
  std::ostringstream out;
  auto noise = [&] {
    const int k = s.i(0, 2);
    for (int i = 0; i < k; ++i) out << s.pick<const char*>({"#\n", "\n", "  \n", "# 5 x [ 1 2 ] LBA\n", "\t\n", "  # note\n"});
  };
  auto sep = [&] { out << s.pick<const char*>({" ", " ", "  ", "\t", " \t ", "\n", "\n\n", " \n  ", "\n# c\n"}); };
  auto number = [&] {
    const double v = s.chance(1, 8) ? 0.0 : s.sym(5e6);
    char b[40];
    std::snprintf(b, sizeof b, s.pick<const char*>({"%.9f", "%.12e", "%.3f", "%+.6f"}), v);
    out << b;
    return std::atof(b);
  };
  auto block = [&](const std::vector<int>& dims) {
    std::vector<double> v;
    int n = 1;
    for (size_t i = 0; i < dims.size(); ++i) {
      if (i) {
        out << " x ";
      }
      out << dims[i];
      n *= dims[i];
    }
    sep();
    out << "[";
    for (int i = 0; i < n; ++i) {
      sep();
      v.push_back(number());
    }
    sep();
    out << "]";
    return v;
  };
  std::vector<std::pair<std::string, std::string>> names = {{"LBA", ""}, {"HBA", ""}, {"ROTATION_MATRIX", "LBA"},
      {"ROTATION_MATRIX", "HBA0"}, {"ROTATION_MATRIX", "HBA1"}, {"HBA0", ""}, {"NORMAL_VECTOR", "LBA"}};
  s.shuffle(names);
  const int na = s.i(0, int(names.size()));
  bool second = false;
  noise();
  for (int a = 0; a < na; ++a) {
    Arr arr;
    const bool pos = names[a].second.empty();
    arr.key = pos ? names[a].first : names[a].second + "_" + names[a].first;
    out << names[a].first;
    sep();
    if (!pos) {
      out << names[a].second;
      sep();
    }
    if (pos) {
      const int na2 = s.i(1, 6);
      const int kind = s.n(3);
      if (kind == 0) {
        arr.v = block({na2, 2, 3});
      } else {
        // reference position, then per-antenna offsets (twice, one per dipole)
        const std::vector<double> ref = block({3});
        sep();
        const std::vector<double> off = block({na2, 2, 3});
        arr.v = off;
        for (size_t i = 0; i < off.size(); ++i) arr.v[i] = off[i] + ref[i % 3];
        second = true;
      }
    } else {
      const int kind = s.n(4);
      if (kind == 3)
        arr.v = block({s.i(1, 4), s.i(1, 4)});
      else if (kind == 2)
        arr.v = block({9});
      else
        arr.v = block({3, 3});
    }
    arrs.push_back(arr);
    out << (s.chance(1, 5) ? "  \n" : "\n");
    noise();
  }
  if (s.chance(1, 4)) out << "   ";
  s.note(out.str());
  TempFile tf("conf", out.str());
  AntennaConfig conf(tf.name.c_str());
  std::map<std::string, std::vector<double>> model;
  for (const Arr& a : arrs) model.emplace(a.key, a.v);
  auto check_pos = [&](const std::string& key, std::function<std::vector<casacore::MPosition>()> get) {
    if (!model.count(key)) {
      CHECK(vpt::Throws([&] { get(); }));
      return;
    }
    const auto p = get();
    const auto& v = model[key];
    CHECK_EQ(p.size(), v.size() / 6);
    for (size_t i = 0; i < p.size(); ++i) {
      for (int k = 0; k < 3; ++k) CHECK_EQ(p[i].getValue()(k), v[6 * i + k]);
      CHECK(p[i].type() == casacore::MPosition::ITRF);
    }
  };
  auto check_axes = [&](const std::string& key, std::function<std::array<double, 9>()> get) {
    if (!model.count(key) || model[key].size() != 9) {
      CHECK(vpt::Throws([&] { get(); }));
      return;
    }
    const auto p = get();
    for (int k = 0; k < 9; ++k) CHECK_EQ(p[k], model[key][k]);
  };
  check_pos("LBA", [&] { return conf.GetLBAPositions(); });
  check_pos("HBA", [&] { return conf.GetHBAPositions(); });
  check_axes("LBA_ROTATION_MATRIX", [&] { return conf.GetLBAAxes(); });
  check_axes("HBA0_ROTATION_MATRIX", [&] { return conf.GetHBA0Axes(); });
  check_axes("HBA1_ROTATION_MATRIX", [&] { return conf.GetHBA1Axes(); });
  for (int m = 0; m < 8; ++m) {
    RcuMode mode = RcuMode::FromNumber(m);
    if (m == 0) {
      CHECK(vpt::Throws([&] { conf.GetAxesFromMode(mode); }));
      CHECK(vpt::Throws([&] { conf.GetArrayFromMode(mode); }));
    } else {
      check_pos(m <= 4 ? "LBA" : "HBA", [&] { return conf.GetArrayFromMode(mode); });
      check_axes(m <= 4 ? "LBA_ROTATION_MATRIX" : "HBA0_ROTATION_MATRIX", [&] { return conf.GetAxesFromMode(mode); });
    }
  }
  s.label(second ? "offset arrays" : "plain");
  s.nontrivial(arrs.size() > 1);
}

// ---------------------------------------------------------------- P21
namespace {
struct ModeRow {
  CalType type;
  size_t npol;
  std::vector<std::string> names;  // the documented name first, then aliases
};
const std::vector<ModeRow>& Modes() {
  static const std::vector<ModeRow> rows = {
      {CalType::kScalar, 1, {"scalar", "scalarcomplexgain", "scalarcomplex"}},
      {CalType::kScalarAmplitude, 1, {"scalaramplitude"}},
      {CalType::kScalarPhase, 1, {"scalarphase"}},
      {CalType::kDiagonal, 2, {"diagonal", "complexgain"}},
      {CalType::kDiagonalAmplitude, 2, {"diagonalamplitude", "amplitudeonly"}},
      {CalType::kDiagonalPhase, 2, {"diagonalphase", "phaseonly"}},
      {CalType::kFullJones, 4, {"fulljones"}},
      {CalType::kTec, 1, {"tec"}},
      {CalType::kTecAndDelay, 1, {"tec+delay"}},
      {CalType::kTecAndPhase, 1, {"tec+phase", "tecandphase"}},
      {CalType::kTecPhaseAndDelay, 1, {"tec+phase+delay"}},
      {CalType::kTecScreen, 1, {"tecscreen"}},
      {CalType::kRotationAndDiagonal, 4, {"rotation+diagonal"}},
      {CalType::kRotation, 4, {"rotation"}},
      {CalType::kFaradayRotation, 4, {"faradayrotation"}},
      {CalType::kLeakage, 4, {"leakage"}},
      {CalType::kLeakageAmplitude, 4, {"leakageamplitude"}}};
  return rows;
}
const ModeRow* FindMode(const std::string& n) {
  for (const ModeRow& r : Modes())
    for (const std::string& x : r.names)
      if (x == n) return &r;
  return nullptr;
}
}  // namespace

PROP("P21.modes", 6000, 60000) {
  const ModeRow& row = s.pick(Modes());
  CHECK_EQ(dp3::base::GetNPolarizations(row.type), row.npol);
  const std::string shown = dp3::base::ToString(row.type);
  const ModeRow* back = FindMode(shown);
  CHECK(back == &row);  // a name the user may write for this mode
  CHECK(dp3::base::StringToCalType(shown) == row.type);
  std::string name = s.pick(row.names);
  // Mutate the name: it is either another known name, or rejected.
  const int edits = s.i(0, 2);
  for (int k = 0; k < edits; ++k) {
    switch (s.n(6)) {
      case 0: if (!name.empty()) name.erase(s.n(name.size()), 1); break;
      case 1: name.insert(s.n(name.size() + 1), 1, s.pick<char>({' ', '+', 'a', 'e', 's', '_', '\0'})); break;
      case 2: if (!name.empty()) { char& c = name[s.n(name.size())]; c = char(std::toupper(c)); } break;
      case 3: name += s.pick<const char*>({"phase", "amplitude", "+delay", "+phase", "diagonal", " "}); break;
      case 4: name = name.substr(0, s.n(name.size() + 1)); break;
      default: name = s.pick<const char*>({"scalar", "diagonal", "tec", "leakage", "rotation"}) + name;
    }
  }
  s.note(name);
  const ModeRow* want = FindMode(name);
  if (want) {
    CHECK(dp3::base::StringToCalType(name) == want->type);
  } else {
    CHECK(vpt::Throws([&] { dp3::base::StringToCalType(name); }));
  }
  s.label(want ? "known" : "rejected");
  s.nontrivial(edits > 0);
}

VPT_MAIN
