// Stand-ins for the steps that base/DP3.cc makes: they record how they were
// made and what was asked of them. Their properties are given in the parset.
#ifndef DP3_STANDIN_H
#define DP3_STANDIN_H
#include <memory>
#include <string>
#include <vector>

#include "base/BdaBuffer.h"
#include "base/DPBuffer.h"
#include "common/Fields.h"
#include "common/ParameterSet.h"
#include "steps/InputStep.h"
#include "steps/OutputStep.h"

namespace standin {
struct Event {
  std::string who, what;
  bool operator==(const Event& o) const { return who == o.who && what == o.what; }
};
inline std::vector<Event>& Log() {
  static std::vector<Event> log;
  return log;
}
inline dp3::common::Fields Decode(const std::string& s) {
  using dp3::steps::Step;
  dp3::common::Fields f;
  for (char c : s) {
    if (c == 'd') f |= Step::kDataField;
    if (c == 'w') f |= Step::kWeightsField;
    if (c == 'f') f |= Step::kFlagsField;
    if (c == 'u') f |= Step::kUvwField;
  }
  return f;
}

struct Info {
  std::string kind, prefix, out_name;
  int input_type = -1;  // when given
};

template <typename Base>
class Common : public Base, public Info {
 public:
  using MsType = dp3::steps::Step::MsType;
  bool process(std::unique_ptr<dp3::base::DPBuffer> b) override {
    Log().push_back({prefix, "process " + std::to_string(int(b->GetTime()))});
    return this->getNextStep()->process(std::move(b));
  }
  bool process(std::unique_ptr<dp3::base::BdaBuffer> b) override {
    Log().push_back({prefix, "bda"});
    return this->getNextStep()->process(std::move(b));
  }
  void finish() override {
    Log().push_back({prefix, "finish"});
    if (this->getNextStep()) this->getNextStep()->finish();
  }
  void updateInfo(const dp3::base::DPInfo& i) override {
    Log().push_back({prefix, "info"});
    Base::updateInfo(i);
  }
  void show(std::ostream&) const override { Log().push_back({prefix, "show"}); }
  void showCounts(std::ostream&) const override { Log().push_back({prefix, "counts"}); }
  void showTimings(std::ostream&, double) const override { Log().push_back({prefix, "timings"}); }
  MsType outputs() const override { return bda_out_ ? MsType::kBda : MsType::kRegular; }
  bool accepts(MsType t) const override { return accepts_[t == MsType::kBda]; }
  dp3::common::Fields getRequiredFields() const override { return req_; }

 protected:
  void Read(const dp3::common::ParameterSet& p) {
    req_ = Decode(p.getString(prefix + "req", ""));
    prov_ = Decode(p.getString(prefix + "prov", ""));
    const std::string a = p.getString(prefix + "accepts", "rb");
    accepts_[0] = a.find('r') != std::string::npos;
    accepts_[1] = a.find('b') != std::string::npos;
    bda_out_ = p.getString(prefix + "out", "r") == "b";
  }
  dp3::common::Fields req_, prov_;
  bool accepts_[2] = {true, true}, bda_out_ = false;
};

class Plain : public Common<dp3::steps::Step> {
 public:
  Plain(const char* k, const dp3::common::ParameterSet& p, const std::string& pre, int t = -1) {
    kind = k, prefix = pre, input_type = t;
    Read(p);
  }
  Plain(const char* k, const std::string& pre) { kind = k, prefix = pre; }
  dp3::common::Fields getProvidedFields() const override { return prov_; }
};

class Output : public Common<dp3::steps::OutputStep> {
 public:
  Output(const char* k, const std::string& name, const dp3::common::ParameterSet& p, const std::string& pre) {
    kind = k, prefix = pre, out_name = name;
    Read(p);
    bda_out_ = kind == "MSBDAWriter";
  }
};
}  // namespace standin

namespace dp3 {
namespace steps {
#define STANDIN(N)                                                                                   \
  class N : public standin::Plain {                                                                  \
   public:                                                                                           \
    N(const common::ParameterSet& p, const std::string& pre) : Plain(#N, p, pre) {}                  \
    N(const common::ParameterSet& p, const std::string& pre, MsType t) : Plain(#N, p, pre, int(t)) {} \
    explicit N(const std::string& pre) : Plain(#N, pre) {}                                           \
  };
STANDIN(AOFlaggerStep) STANDIN(AntennaFlagger) STANDIN(ApplyBeam) STANDIN(ApplyCal) STANDIN(Averager) STANDIN(BdaAverager)
STANDIN(BdaDdeCal) STANDIN(BdaExpander) STANDIN(BdaGroupPredict) STANDIN(Clipper) STANDIN(Combine) STANDIN(Counter) STANDIN(DDECal)
STANDIN(DynSpec) STANDIN(Demixer) STANDIN(Filter) STANDIN(GainCal) STANDIN(H5ParmPredict) STANDIN(IDGPredict) STANDIN(IDGImager)
STANDIN(Interpolate) STANDIN(MadFlagger) STANDIN(MsColumnReader) STANDIN(NullStokes) STANDIN(PhaseShift) STANDIN(Predict)
STANDIN(PreFlagger) STANDIN(ScaleData) STANDIN(SetBeam) STANDIN(StationAdder) STANDIN(UVWFlagger) STANDIN(Upsample)
STANDIN(WGridderPredict) STANDIN(FlagTransfer) STANDIN(Transfer)
#undef STANDIN

class Split : public standin::Output {
 public:
  Split(const common::ParameterSet& p, const std::string& pre) : Output("Split", "", p, pre) {}
  void setNextStep(std::shared_ptr<Step>) override { throw std::runtime_error("Split must be the last step"); }
  bool process(std::unique_ptr<base::DPBuffer> b) override {
    standin::Log().push_back({prefix, "process " + std::to_string(int(b->GetTime()))});
    return true;
  }
};
class WSCleanWriter : public standin::Output {
 public:
  WSCleanWriter(const common::ParameterSet& p, const std::string& pre) : Output("WSCleanWriter", "", p, pre) {}
};
class MSWriter : public standin::Output {
 public:
  MSWriter(const std::string& n, const common::ParameterSet& p, const std::string& pre) : Output("MSWriter", n, p, pre) {}
};
class MSUpdater : public standin::Output {
 public:
  MSUpdater(const std::string& n, const common::ParameterSet& p, const std::string& pre, bool = true) : Output("MSUpdater", n, p, pre) {}
};
class MSBDAWriter : public standin::Output {
 public:
  MSBDAWriter(const std::string& n, const common::ParameterSet& p, const std::string& pre) : Output("MSBDAWriter", n, p, pre) {}
};

// Input: msin is the name; msin.n the number of time slots.
class FakeInput : public InputStep, public standin::Info {
 public:
  FakeInput(const common::ParameterSet& p, const std::string& pre, const char* k) {
    kind = k, prefix = pre;
    name_ = p.isDefined(pre + "name") ? p.getString(pre + "name") : pre == "msin." ? p.getString("msin", "") : "stream";
    n_ = p.getInt(pre + "n", 3);
    if (pre == "stream.") p.getString("stream.socket");
    bda_ = p.getBool(pre + "bda", false);
  }
  std::string msName() const override { return name_; }
  MsType outputs() const override { return bda_ ? MsType::kBda : MsType::kRegular; }
  bool process(std::unique_ptr<base::DPBuffer> b) override {
    if (done_ == n_) {
      standin::Log().push_back({prefix, "end"});
      return false;
    }
    standin::Log().push_back({prefix, "process " + std::to_string(done_)});
    b->SetTime(done_++);
    getNextStep()->process(std::move(b));
    return true;
  }
  void finish() override {
    standin::Log().push_back({prefix, "finish"});
    getNextStep()->finish();
  }
  void updateInfo(const base::DPInfo& i) override;
  void show(std::ostream&) const override { standin::Log().push_back({prefix, "show"}); }
  void showCounts(std::ostream&) const override { standin::Log().push_back({prefix, "counts"}); }
  void showTimings(std::ostream&, double) const override { standin::Log().push_back({prefix, "timings"}); }

 private:
  std::string name_;
  int n_, done_ = 0;
  bool bda_;
};
struct AartfaacReader : FakeInput {
  AartfaacReader(const common::ParameterSet& p, const std::string& pre) : FakeInput(p, pre, "AartfaacReader") {}
};
struct SVPInput : FakeInput {
  SVPInput(const common::ParameterSet& p, const std::string& pre) : FakeInput(p, pre, "SVPInput") {}
};
}  // namespace steps

namespace pythondp3 {
struct PyStep : standin::Plain {
  PyStep(const common::ParameterSet& p, const std::string& pre) : Plain("PyStep", p, pre) {}
  static std::shared_ptr<PyStep> create_instance(const common::ParameterSet& p, const std::string& pre) { return std::make_shared<PyStep>(p, pre); }
};
}  // namespace pythondp3
}  // namespace dp3
#endif
