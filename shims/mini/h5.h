// Stand-in for schaapcommon's H5Parm classes: files live in memory, values are
// looked up with nearest or linear interpolation in time and frequency.
#ifndef MINI_H5_H_
#define MINI_H5_H_
#include <array>
#include <cmath>
#include <complex>
#include <limits>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>

#include "casa_arrays.h"

#ifndef H5_HSIZE_T_
#define H5_HSIZE_T_
typedef unsigned long long hsize_t;
#endif
namespace H5 {
class Exception {
 public:
  Exception(std::string m = "") : m_(std::move(m)) {}
  virtual ~Exception() {}
  std::string getDetailMsg() const { return m_; }
  const char* getCDetailMsg() const { return m_.c_str(); }
 private:
  std::string m_;
};
class FileIException : public Exception { using Exception::Exception; };
}  // namespace H5

namespace schaapcommon {
namespace h5parm {
struct AxisInfo {
  std::string name;
  unsigned size;
};
class SolTab {
 public:
  SolTab() {}
  SolTab(std::string name, std::string type, std::vector<AxisInfo> axes) : name_(std::move(name)), type_(std::move(type)), axes_(std::move(axes)) {}
  std::string GetName() const { return name_; }
  std::string GetType() const { return type_; }
  const std::vector<AxisInfo>& GetAxes() const { return axes_; }
  size_t NumAxes() const { return axes_.size(); }
  bool HasAxis(const std::string& n) const {
    for (const AxisInfo& a : axes_) if (a.name == n) return true;
    return false;
  }
  size_t GetAxisIndex(const std::string& n) const {
    for (size_t i = 0; i < axes_.size(); ++i) if (axes_[i].name == n) return i;
    throw std::runtime_error("Axis " + n + " does not exist in " + name_);
  }
  AxisInfo GetAxis(const std::string& n) const { return axes_[GetAxisIndex(n)]; }
  AxisInfo GetAxis(unsigned i) const { return axes_.at(i); }
  size_t Size() const { size_t s = 1; for (const AxisInfo& a : axes_) s *= a.size; return s; }
  void SetValues(const std::vector<double>& v, const std::vector<double>& w, const std::string& history = "") {
    if (v.size() != Size()) throw std::runtime_error("Values for H5Parm do not have the expected size: they have size " + std::to_string(v.size()) + ", expected is " + std::to_string(Size()));
    if (!w.empty() && w.size() != Size()) throw std::runtime_error("Weights for H5Parm do not have the expected size");
    vals = v; weights = w; histories.push_back(history);
    for (size_t i = 0; w.empty() && i < v.size(); ++i) weights.push_back(std::isfinite(v[i]) ? 1.0 : 0.0);
  }
  void SetComplexValues(const std::vector<std::complex<double>>& v, const std::vector<double>& w, bool to_amplitudes, const std::string& history = "") {
    std::vector<double> r;
    for (const std::complex<double>& c : v) r.push_back(to_amplitudes ? std::abs(c) : std::arg(c));
    SetValues(r, w, history);
  }
  void SetAntennas(const std::vector<std::string>& n) { Check("ant", n.size()); ants = n; }
  void SetSources(const std::vector<std::string>& n) { Check("dir", n.size()); dirs = n; }
  void SetPolarizations(const std::vector<std::string>& n) { Check("pol", n.size()); pols = n; }
  void SetFreqs(const std::vector<double>& n) { Check("freq", n.size()); freqs = n; }
  void SetTimes(const std::vector<double>& n) { Check("time", n.size()); times = n; }
  hsize_t GetDirIndex(const std::string& n) const {
    for (size_t i = 0; i < dirs.size(); ++i) if (dirs[i] == n) return i;
    throw std::runtime_error("SolTab has no element " + n + " in dir");
  }
  std::vector<std::string> GetStringAxis(const std::string& n) const {
    return n == "ant" ? ants : n == "dir" ? dirs : n == "pol" ? pols : std::vector<std::string>();
  }
  std::vector<double> GetRealAxis(const std::string& n) const { return n == "time" ? times : n == "freq" ? freqs : std::vector<double>(); }
  // Position on an axis, and the fraction towards the next position.
  static std::pair<size_t, double> Locate(const std::vector<double>& grid, double x, bool nearest) {
    if (grid.size() < 2) return {0, 0.0};
    size_t i = 0;
    while (i + 2 < grid.size() && x >= grid[i + 1]) ++i;
    double f = (x - grid[i]) / (grid[i + 1] - grid[i]);
    f = std::min(1.0, std::max(0.0, f));
    if (nearest) return f > 0.5 ? std::make_pair(i + 1, 0.0) : std::make_pair(i, 0.0);
    return {i, f};
  }
  double At(size_t t, size_t f, size_t a, size_t d, size_t p) const {
    size_t o = 0;
    for (const AxisInfo& x : axes_) {
      const size_t k = x.name == "time" ? t : x.name == "freq" ? f : x.name == "ant" ? a : x.name == "dir" ? d : x.name == "pol" ? p : 0;
      o = o * x.size + std::min<size_t>(k, x.size - 1);
    }
    return weights.at(o) == 0.0 ? std::numeric_limits<double>::quiet_NaN() : vals.at(o);
  }
  double Value(double time, double freq, size_t ant, size_t dir, size_t pol, bool nearest) const {
    const auto [t, ft] = Locate(times, time, nearest);
    const auto [f, ff] = Locate(freqs, freq, nearest);
    double r = At(t, f, ant, dir, pol) * (1 - ft) * (1 - ff);
    if (ft) r += At(t + 1, f, ant, dir, pol) * ft * (1 - ff);
    if (ff) r += At(t, f + 1, ant, dir, pol) * (1 - ft) * ff;
    if (ft && ff) r += At(t + 1, f + 1, ant, dir, pol) * ft * ff;
    return r;
  }
  std::vector<double> vals, weights, times, freqs;
  std::vector<std::string> ants, dirs, pols, histories;
 private:
  void Check(const std::string& axis, size_t n) const {
    if (HasAxis(axis) && GetAxis(axis).size != n) throw std::runtime_error("Size of the meta data of axis " + axis + " is " + std::to_string(n) + ", expected " + std::to_string(GetAxis(axis).size));
  }
  std::string name_, type_;
  std::vector<AxisInfo> axes_;
};
struct MiniSolSet {
  std::map<std::string, SolTab> soltabs;
  std::vector<std::pair<std::string, std::array<double, 3>>> antennas;
  std::vector<std::pair<std::string, std::pair<double, double>>> sources;
};
struct MiniFile {
  std::map<std::string, MiniSolSet> solsets;
};
inline std::map<std::string, std::shared_ptr<MiniFile>>& MiniFiles() {
  static std::map<std::string, std::shared_ptr<MiniFile>> f;
  return f;
}
class H5Parm {
 public:
  explicit H5Parm(const std::string& filename, bool force_new = false, bool force_new_solset = false, const std::string& solset = "") {
    if (force_new) MiniFiles()[filename] = std::make_shared<MiniFile>();
    Open(filename, force_new || force_new_solset, solset);
  }
  H5Parm(const std::string& filename, const std::vector<std::string>& tables) { Open(filename, false, ""); (void)tables; }
  SolTab& GetSolTab(const std::string& n) {
    auto it = set_->soltabs.find(n);
    if (it == set_->soltabs.end()) throw std::runtime_error("SolTab " + n + " does not exist in solset");
    return it->second;
  }
  SolTab& CreateSolTab(const std::string& name, const std::string& type, const std::vector<AxisInfo>& axes) {
    return set_->soltabs[name] = SolTab(name, type, axes);
  }
  size_t NumSolTabs() const { return set_->soltabs.size(); }
  bool HasSolTab(const std::string& n) const { return set_->soltabs.count(n) > 0; }
  void AddSources(const std::vector<std::string>& names, const std::vector<std::pair<double, double>>& dirs) {
    for (size_t i = 0; i < dirs.size(); ++i) set_->sources.push_back({names.at(i), dirs[i]});
  }
  void AddAntennas(const std::vector<std::string>& names, const std::vector<std::array<double, 3>>& pos) {
    for (size_t i = 0; i < pos.size(); ++i) set_->antennas.push_back({names.at(i), pos[i]});
  }
  std::string GetNearestSource(double ra, double dec) const {
    double best = -2;
    std::string name;
    for (const auto& [n, d] : set_->sources) {
      const double c = std::sin(dec) * std::sin(d.second) + std::cos(dec) * std::cos(d.second) * std::cos(ra - d.first);
      if (c > best) { best = c; name = n; }
    }
    return name;
  }
  MiniSolSet& Set() { return *set_; }
 private:
  void Open(const std::string& filename, bool make, const std::string& solset) {
    auto it = MiniFiles().find(filename);
    if (it == MiniFiles().end()) throw H5::FileIException("no such file " + filename);
    file_ = it->second;
    std::string name = solset;
    if (name.empty() && make) name = "sol000";
    if (name.empty()) {
      if (file_->solsets.size() != 1) throw std::runtime_error("H5Parm has no or several solsets, and none is specified");
      name = file_->solsets.begin()->first;
    }
    if (!make && !file_->solsets.count(name)) throw std::runtime_error("Solset " + name + " does not exist");
    set_ = &file_->solsets[name];
  }
  std::shared_ptr<MiniFile> file_;
  MiniSolSet* set_ = nullptr;
};

enum class GainType { kDiagonalComplex, kFullJones, kTec, kDelay, kRotationAngle, kScalarPhase, kScalarAmplitude, kRotationMeasure, kDiagonalPhase, kDiagonalAmplitude, kFullJonesRealImaginary, kDiagonalRealImaginary };

class JonesParameters {
 public:
  enum class InterpolationType { NEAREST, LINEAR };
  enum class MissingAntennaBehavior { kError, kFlag, kUnit };
  typedef std::complex<double> dc;
  // From tables in a file.
  JonesParameters(const std::vector<double>& freqs, const std::vector<double>& times, const std::vector<std::string>& antennas, GainType type, InterpolationType interpolation, hsize_t dir, SolTab* tab, SolTab* tab2, bool invert = false, unsigned parm_size = 0u, MissingAntennaBehavior missing = MissingAntennaBehavior::kError) {
    const bool nearest = interpolation == InterpolationType::NEAREST;
    parms_.resize(NCorr(type), antennas.size(), times.size() * freqs.size());
    for (size_t a = 0; a < antennas.size(); ++a) {
      size_t ia = 0;
      while (ia < tab->ants.size() && tab->ants[ia] != antennas[a]) ++ia;
      const bool absent = ia == tab->ants.size();
      if (absent && missing == MissingAntennaBehavior::kError) throw std::runtime_error("SolTab has no element " + antennas[a] + " in ant");
      for (size_t t = 0; t < times.size(); ++t)
        for (size_t f = 0; f < freqs.size(); ++f) {
          std::vector<dc> g(NCorr(type));
          if (absent) {
            for (size_t c = 0; c < g.size(); ++c) g[c] = missing == MissingAntennaBehavior::kUnit ? dc(g.size() == 2 || c % 3 == 0) : dc(NAN, NAN);
          } else {
            g = TableGain(type, *tab, tab2, times[t], freqs[f], ia, dir, nearest, parm_size);
          }
          Store(a, t * freqs.size() + f, g, invert);
        }
    }
  }
  // From the values of parameters: [parm][antenna][time * freq].
  JonesParameters(const std::vector<double>& freqs, const std::vector<double>& times, const std::vector<std::string>& antennas, GainType type, InterpolationType, hsize_t, std::vector<std::vector<std::vector<double>>>&& p, bool invert = false, unsigned = 0u) {
    parms_.resize(NCorr(type), antennas.size(), times.size() * freqs.size());
    for (size_t a = 0; a < antennas.size(); ++a)
      for (size_t tf = 0; tf < times.size() * freqs.size(); ++tf) {
        std::vector<double> v;
        for (size_t i = 0; i < p.size(); ++i) v.push_back(p[i].at(a).at(tf));
        Store(a, tf, ParmGain(type, v, freqs[tf % freqs.size()]), invert);
      }
  }
  // From solutions: [channel][antenna * correlation].
  JonesParameters(const std::vector<double>& freqs, const std::vector<double>& times, const std::vector<std::string>& antennas, GainType type, const std::vector<std::vector<std::complex<double>>>& s, bool invert = false) {
    const size_t nc = s.at(0).size() / antennas.size();
    parms_.resize(nc, antennas.size(), times.size() * freqs.size());
    (void)type;
    for (size_t a = 0; a < antennas.size(); ++a)
      for (size_t t = 0; t < times.size(); ++t)
        for (size_t f = 0; f < freqs.size(); ++f)
          Store(a, t * freqs.size() + f, std::vector<dc>(s.at(f).begin() + a * nc, s.at(f).begin() + (a + 1) * nc), invert);
  }
  const casacore::Cube<casacore::Complex>& GetParms() const { return parms_; }

  static size_t NCorr(GainType t) {
    return t == GainType::kFullJones || t == GainType::kFullJonesRealImaginary || t == GainType::kRotationAngle || t == GainType::kRotationMeasure ? 4 : 2;
  }
  static std::vector<dc> Rotation(double x) { return {std::cos(x), -std::sin(x), std::sin(x), std::cos(x)}; }
  static std::vector<dc> TableGain(GainType type, const SolTab& tab, const SolTab* tab2, double t, double f, size_t ant, size_t dir, bool nearest, unsigned parm_size) {
    auto v = [&](size_t p) { return tab.Value(t, f, ant, dir, p, nearest); };
    switch (type) {
      case GainType::kFullJones: {
        std::vector<dc> r;
        for (size_t p = 0; p < 4; ++p) r.push_back(std::polar(1.0, tab2->Value(t, f, ant, dir, p, nearest)) * v(p));
        return r;
      }
      case GainType::kTec: case GainType::kDelay:
        if (parm_size < 1 || parm_size > 2) throw std::runtime_error("JonesParameters: wrong number of parameters");
        return parm_size == 1 ? ParmGain(type, {v(0)}, f) : ParmGain(type, {v(0), v(1)}, f);
      case GainType::kDiagonalPhase: case GainType::kDiagonalAmplitude: return ParmGain(type, {v(0), v(1)}, f);
      default: return ParmGain(type, {v(0)}, f);
    }
  }
  static std::vector<dc> ParmGain(GainType type, const std::vector<double>& v, double f) {
    auto ph = [](double x) { return std::isfinite(x) ? std::polar(1.0, x) : dc(NAN, NAN); };
    auto ap = [&](size_t i) { return v.at(i) * ph(v.at(i + 1)); };
    auto ri = [&](size_t i) { return dc(v.at(i), v.at(i + 1)); };
    switch (type) {
      case GainType::kDiagonalComplex: return {ap(0), ap(2)};
      case GainType::kFullJones: return {ap(0), ap(2), ap(4), ap(6)};
      case GainType::kDiagonalRealImaginary: return {ri(0), ri(2)};
      case GainType::kFullJonesRealImaginary: return {ri(0), ri(2), ri(4), ri(6)};
      case GainType::kTec: return {ph(v.at(0) * -8.44797245e9 / f), ph((v.size() == 1 ? v.at(0) : v.at(1)) * -8.44797245e9 / f)};
      case GainType::kDelay: return {ph(v.at(0) * 2 * M_PI * f), ph((v.size() == 1 ? v.at(0) : v.at(1)) * 2 * M_PI * f)};
      case GainType::kRotationAngle: return Rotation(v.at(0));
      case GainType::kRotationMeasure: { const double l = 2.99792458e8 / f; return Rotation(v.at(0) * l * l); }
      case GainType::kScalarPhase: return {ph(v.at(0)), ph(v.at(0))};
      case GainType::kScalarAmplitude: return {v.at(0), v.at(0)};
      case GainType::kDiagonalPhase: return {ph(v.at(0)), ph(v.at(1))};
      case GainType::kDiagonalAmplitude: return {v.at(0), v.at(1)};
    }
    throw std::runtime_error("unknown gain type");
  }
  static GainType H5ParmTypeStringToGainType(const std::string& s) {
    static const std::map<std::string, GainType> m = {{"gain", GainType::kDiagonalComplex}, {"fulljones", GainType::kFullJones}, {"tec", GainType::kTec}, {"clock", GainType::kDelay}, {"delay", GainType::kDelay},
        {"rotationangle", GainType::kRotationAngle}, {"commonrotationangle", GainType::kRotationAngle}, {"rotation", GainType::kRotationAngle}, {"scalarphase", GainType::kScalarPhase}, {"commonscalarphase", GainType::kScalarPhase},
        {"scalaramplitude", GainType::kScalarAmplitude}, {"commonscalaramplitude", GainType::kScalarAmplitude}, {"rotationmeasure", GainType::kRotationMeasure}, {"phase", GainType::kDiagonalPhase}, {"amplitude", GainType::kDiagonalAmplitude}};
    auto it = m.find(s);
    if (it == m.end()) throw std::runtime_error("Unknown correction type: " + s);
    return it->second;
  }
  static std::string GainTypeToHumanReadableString(GainType t) { return "gain type " + std::to_string(int(t)); }
  static MissingAntennaBehavior StringToMissingAntennaBehavior(const std::string& s) {
    if (s == "error") return MissingAntennaBehavior::kError;
    if (s == "flag") return MissingAntennaBehavior::kFlag;
    if (s == "unit") return MissingAntennaBehavior::kUnit;
    throw std::runtime_error("Unknown missing antenna behavior: " + s);
  }
  static std::string MissingAntennaBehaviorToString(MissingAntennaBehavior b) {
    return b == MissingAntennaBehavior::kError ? "error" : b == MissingAntennaBehavior::kFlag ? "flag" : "unit";
  }
 private:
  void Store(size_t a, size_t tf, std::vector<dc> g, bool invert) {
    if (invert && g.size() == 2) {
      for (dc& x : g) x = 1.0 / x;
    } else if (invert) {
      const dc d = g[0] * g[3] - g[1] * g[2];
      g = {g[3] / d, -g[1] / d, -g[2] / d, g[0] / d};
    }
    for (size_t c = 0; c < g.size(); ++c) parms_(c, a, tf) = casacore::Complex(float(g[c].real()), float(g[c].imag()));
  }
  casacore::Cube<casacore::Complex> parms_;
};
}  // namespace h5parm
}  // namespace schaapcommon
#endif
