// Helpers for harnesses that drive DP3 steps: generated metadata, buffers and a
// step that keeps what it is given.
#ifndef STEPS_UTIL_H_
#define STEPS_UTIL_H_
#include "vpt.h"

#include <array>
#include <complex>
#include <memory>
#include <vector>

#include "base/BdaBuffer.h"
#include "base/DPBuffer.h"
#include "base/DPInfo.h"
#include "common/ParameterSet.h"
#include "steps/Step.h"

namespace su {
using dp3::base::BdaBuffer;
using dp3::base::DPBuffer;
using dp3::base::DPInfo;
using dp3::common::ParameterSet;
using dp3::steps::Step;
using vpt::Src;
typedef std::complex<float> cf;

inline dp3::common::Fields AllFields() {
  return Step::kDataField | Step::kFlagsField | Step::kWeightsField | Step::kUvwField;
}

class Sink : public Step {
 public:
  dp3::common::Fields getRequiredFields() const override { return {}; }
  dp3::common::Fields getProvidedFields() const override { return {}; }
  bool process(std::unique_ptr<DPBuffer> b) override {
    CHECK(n_finish == 0, "buffer after finish");
    CHECK(b != nullptr, "null buffer given to the next step");
    bufs.push_back(std::move(b));
    return true;
  }
  bool process(std::unique_ptr<BdaBuffer> b) override {
    CHECK(n_finish == 0, "buffer after finish");
    CHECK(b != nullptr, "null buffer given to the next step");
    bdas.push_back(std::move(b));
    return true;
  }
  bool accepts(MsType) const override { return true; }
  void finish() override { ++n_finish; }
  void show(std::ostream&) const override {}
  std::vector<std::unique_ptr<DPBuffer>> bufs;
  std::vector<std::unique_ptr<BdaBuffer>> bdas;
  int n_finish = 0;
};

// Plain description of one regular observation.
struct Obs {
  size_t nant = 0, nbl = 0, nch = 0, ncorr = 4;
  std::vector<int> a1, a2;
  std::vector<std::string> names;
  std::vector<double> diam;
  std::vector<std::array<double, 3>> pos;
  std::vector<double> freq, width;
  double t0 = 0, dt = 1;
  size_t nt = 1;
  double ra = 0, dec = 0;
};

struct ObsOpt {
  size_t max_ant = 4, max_bl = 6, max_ch = 6, max_t = 6, min_t = 1, min_ch = 1, min_bl = 1;
  bool all_corr = true;      // 1, 2 or 4 correlations; otherwise always 4
  bool regular_freq = true;  // equal channel widths
  double big_time = 4.8e9;
};

inline Obs GenObs(Src& s, const ObsOpt& o = {}) {
  Obs b;
  b.nant = s.n(1, o.max_ant);
  static const char* kNames[] = {"CS001HBA0", "CS001HBA1", "CS002HBA0", "RS106HBA", "RS208HBA", "DE601HBA", "DE602LBA", "UK608HBA"};
  for (size_t i = 0; i < b.nant; ++i) {
    b.names.push_back(i < 8 ? kNames[i] : "A" + std::to_string(i));
    b.diam.push_back(s.i(1, 80));
    b.pos.push_back({3826000.0 + s.i(-2000, 2000), 461000.0 + s.i(-2000, 2000), 5064000.0 + s.i(-2000, 2000)});
  }
  b.nbl = s.n(o.min_bl, o.max_bl);
  if (s.chance(1, 2)) {  // standard order, without or with autocorrelations
    const bool au = s.b();
    b.nbl = 0;
    for (size_t i = 0; i < b.nant; ++i)
      for (size_t j = i + (au ? 0 : 1); j < b.nant && b.nbl < o.max_bl; ++j) {
        b.a1.push_back(i);
        b.a2.push_back(j);
        ++b.nbl;
      }
  }
  if (b.nbl < o.min_bl) b.nbl = o.min_bl;
  while (b.a1.size() < b.nbl) {
    b.a1.push_back(s.n(b.nant));
    b.a2.push_back(s.n(b.nant));
  }
  b.nbl = b.a1.size();
  b.nch = s.n(o.min_ch, o.max_ch);
  b.ncorr = o.all_corr ? s.pick(std::vector<size_t>{4, 1, 2, 4}) : 4;
  const double w = s.pick(std::vector<double>{1e5, 3051.7578125, 195312.5, 1e6});
  double f = s.pick(std::vector<double>{1.2e8, 3e7, 1.5e8, 1e6});
  for (size_t c = 0; c < b.nch; ++c) {
    const double wc = o.regular_freq ? w : w * s.i(1, 3);
    b.freq.push_back(f + wc / 2);
    b.width.push_back(wc);
    f += wc;
  }
  b.dt = s.pick(std::vector<double>{1, 0.5, 2, 5, 10, 1.00139});
  b.t0 = s.pick(std::vector<double>{0.5 * b.dt, 100, o.big_time});
  b.nt = s.n(o.min_t, o.max_t);
  b.ra = s.pick(std::vector<double>{0.0, 1.0, -2.0, 3.0});
  b.dec = s.pick(std::vector<double>{0.5, -0.4, 1.2, 0.92});
  return b;
}

inline std::string Note(const Obs& b) {
  std::string r = "nant=" + std::to_string(b.nant) + " bl=[";
  for (size_t i = 0; i < b.nbl; ++i) r += (i ? "," : "") + std::to_string(b.a1[i]) + "-" + std::to_string(b.a2[i]);
  return r + "] nch=" + std::to_string(b.nch) + " ncorr=" + std::to_string(b.ncorr) + " nt=" + std::to_string(b.nt) +
         " t0=" + std::to_string(b.t0) + " dt=" + std::to_string(b.dt);
}

inline DPInfo MakeInfo(const Obs& b, const std::string& antenna_set = "") {
  DPInfo info(b.ncorr, b.nch, antenna_set);
  info.setTimes(b.t0, b.t0 + (b.nt - 1) * b.dt, b.dt);
  auto f = b.freq;
  auto w = b.width;
  info.setChannels(std::move(f), std::move(w));
  std::vector<casacore::MPosition> p;
  for (auto& x : b.pos) p.push_back(casacore::MPosition(casacore::MVPosition(x[0], x[1], x[2]), casacore::MPosition::ITRF));
  info.setAntennas(b.names, b.diam, p, b.a1, b.a2);
  const casacore::MDirection dir(casacore::MVDirection(b.ra, b.dec), casacore::MDirection::J2000);
  info.setArrayInformation(p[0], dir, dir, dir);
  return info;
}

// One timeslot of plain data.
struct Slot {
  double time = 0, exposure = 0;
  std::vector<cf> data;         // [bl][ch][corr]
  std::vector<float> weight;
  std::vector<char> flag;
  std::vector<double> uvw;      // [bl][3]
};

// Small integers and halves: sums of a few of them are exact in float.
inline Slot GenSlot(Src& s, const Obs& b, size_t t, int flag_perc = -1) {
  Slot d;
  d.time = b.t0 + t * b.dt;
  d.exposure = b.dt;
  const size_t n = b.nbl * b.nch * b.ncorr;
  d.data.resize(n);
  d.weight.resize(n);
  d.flag.resize(n);
  d.uvw.resize(b.nbl * 3);
  for (auto& x : d.uvw) x = s.i(-4000, 4000) * 0.5;
  const int mode = flag_perc >= 0 ? 4 : s.n(4);  // none, some, all flagged per cell, all
  for (size_t i = 0; i < n; ++i) {
    d.data[i] = cf(s.i(-64, 64) * 0.25f, s.i(-64, 64) * 0.25f);
    d.weight[i] = s.chance(1, 8) ? 0.0f : s.i(1, 16) * 0.25f;
    bool f = false;
    if (mode == 4) f = s.n(100) < size_t(flag_perc);
    else if (mode == 1) f = s.chance(1, 4);
    else if (mode == 2) f = s.chance(3, 4);
    else if (mode == 3) f = s.chance(7, 8);
    d.flag[i] = f;
  }
  return d;
}

inline std::unique_ptr<DPBuffer> MakeBuffer(const Obs& b, const Slot& d) {
  auto r = std::make_unique<DPBuffer>(d.time, d.exposure);
  const std::array<size_t, 3> sh{b.nbl, b.nch, b.ncorr};
  r->GetData().resize(sh);
  r->GetWeights().resize(sh);
  r->GetFlags().resize(sh);
  r->GetUvw().resize(std::array<size_t, 2>{b.nbl, 3});
  size_t i = 0;
  for (auto& x : r->GetData()) x = d.data[i++];
  i = 0;
  for (auto& x : r->GetWeights()) x = d.weight[i++];
  i = 0;
  for (auto&& x : r->GetFlags()) x = d.flag[i++] != 0;
  i = 0;
  for (auto& x : r->GetUvw()) x = d.uvw[i++];
  return r;
}

inline bool Near(double a, double b, double tol) { return std::abs(a - b) <= tol; }
inline bool NearC(cf a, std::complex<double> b, double tol) { return std::abs(std::complex<double>(a) - b) <= tol; }

template <typename... A>
inline std::string Cat(const A&... a) {
  std::ostringstream o;
  o.precision(12);
  ((o << a), ...);
  return o.str();
}

inline void CheckShape(const DPBuffer& b, size_t nbl, size_t nch, size_t ncorr) {
  const std::array<size_t, 3> sh{nbl, nch, ncorr};
  CHECK(std::equal(sh.begin(), sh.end(), b.GetData().shape().begin()), "shape of the data");
  CHECK(std::equal(sh.begin(), sh.end(), b.GetWeights().shape().begin()), "shape of the weights");
  CHECK(std::equal(sh.begin(), sh.end(), b.GetFlags().shape().begin()), "shape of the flags");
}
}  // namespace su
#endif
