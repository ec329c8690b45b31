BUGS=[]
def B(**k): BUGS.append(k)
B(id="p01_reversed_baseline",prop="P01",srcs="base/Apply.cc",
 edits=[("base/Apply.cc","if (p != q) {","if (p < q) {")],
 needs="a baseline whose first station has the higher index",
 breaks="such baselines are left uncorrected",
 demo='''#include "base/Apply.h"
#include <vector>
#include <cstdio>
using namespace dp3::base; using C=std::complex<double>;
int main(){
  std::vector<double> g(16,0.0); for(int s=0;s<2;++s){g[s*8]=2;g[s*8+6]=3;}
  std::vector<Baseline> bl{{1,0}}; std::vector<C> d(4,C(1,1));
  size_t dstr[3]={1,4,4}, cstr[2]={1,8};
  apply(1,1,const_cursor<Baseline>(bl.data()),const_cursor<double>(g.data(),2,cstr),cursor<C>(d.data(),3,dstr));
  printf("%g %g\\n",d[0].real(),d[3].real());
  return d[0]==C(4,4)&&d[3]==C(9,9)?0:1; }''')
B(id="p02_power_after_nan",prop="P02",srcs="base/SubtractMixed.cc",
 edits=[("base/SubtractMixed.cc","""        res_abs = std::abs(*data);
        var_after += (!std::isnan(res_abs) ?""","""        res_abs = std::abs(*data);
        var_after += (!std::isnan(data_abs) ?""")],
 needs="a model or weight that is NaN in the last correlation while the data is finite",
 breaks="the reported power after subtraction becomes NaN",
 demo='''#include "base/SubtractMixed.h"
#include <vector>
#include <cmath>
#include <cstdio>
using namespace dp3::base; using C=std::complex<double>; using F=std::complex<float>;
int main(){
  std::vector<Baseline> bl{{0,1}}; std::vector<F> d(8,F(3,4)); std::vector<C> m(8,C(0,0)),w(8,C(1,0));
  m[3]=C(NAN,0);
  size_t st[3]={1,4,8}; float a,b;
  subtract(1,2,const_cursor<Baseline>(bl.data()),cursor<F>(d.data(),3,st),const_cursor<C>(m.data(),3,st),const_cursor<C>(w.data(),3,st),a,b);
  printf("%g %g\\n",a,b);
  return std::fabs(a-100)<1e-3&&std::fabs(b-75)<1e-3?0:1; }''')
B(id="p03_negative_after_blank",prop="P03",srcs="common/StringTools.cc",
 edits=[("common/StringTools.cc","""  unsigned long val;
  // For negative numbers, strtoul does not raise an error:
  // It uses unsigned integer wraparound rules.
  if (str[st] == '-') {""","""  unsigned long val;
  // For negative numbers, strtoul does not raise an error:
  // It uses unsigned integer wraparound rules.
  if (str[0] == '-') {""")],
 needs="a negative number with leading blanks read as unsigned",
 breaks="the value wraps around instead of being rejected",
 demo='''#include "common/StringTools.h"
#include <cstdio>
int main(){ try { unsigned long v=dp3::common::strToUlong(" -5"); printf("%lu\\n",v); return 1;} catch(std::exception&){return 0;} }''')
B(id="p04_semicolon_in_quotes",prop="P04",srcs="common/StringTools.cc",
 edits=[("common/StringTools.cc","""              if (val[stv] == '"' || val[stv] == '\\'') {
                stv = skipQuoted(val, stv);
              } else {""","""              if (val[stv] == '"') {
                stv = skipQuoted(val, stv);
              } else {""")],
 needs="a repeated parenthesised group with a single-quoted element that contains a semicolon",
 breaks="the quoted text is changed",
 demo='''#include "common/StringTools.h"
#include <iostream>
int main(){ auto r=dp3::common::expandArrayString("[2*('a;b';c)]"); std::cout<<r<<"\\n"; return r=="['a;b',c,'a;b',c]"?0:1; }''')
B(id="p05_balanced_beyond_end",prop="P05",srcs="common/StringTools.cc",
 edits=[("common/StringTools.cc","""  int nrp = 1;
  while (st < end) {""","""  int nrp = 1;
  while (st < str.size()) {""")],
 needs="a group that is closed only beyond the given end position",
 breaks="the imbalance inside the given part is not reported",
 demo='''#include "common/StringTools.h"
#include <cstdio>
int main(){ try { unsigned r=dp3::common::skipBalanced("[ab]",0,3,']'); printf("%u\\n",r); return 1;} catch(std::exception&){return 0;} }''')
PS="common/StringTools.cc common/ParameterSet.cc common/ParameterSetImpl.cc common/ParameterValue.cc common/ParameterRecord.cc"
LOG={"aocommon/logger.h":open('/verif/shims/aocommon/logger.h').read()}
B(id="p06_surplus_brace",prop="P06",srcs=PS,files=LOG,
 edits=[("common/ParameterValue.cc","if (nrpar < 0 || nrbracket < 0 || nrbrace < 0)","if (nrpar < 0 || nrbracket < 0)")],
 needs="a list with a closing brace before the matching opening one",
 breaks="the malformed list is accepted and split at a wrong place",
 demo='''#include "common/ParameterValue.h"
#include <cstdio>
int main(){ try { auto v=dp3::common::ParameterValue("[a},{b,c]").getVector(); printf("%zu\\n",v.size()); return 1;} catch(std::exception&){return 0;} }''')
B(id="p06_quoted_key_colon",prop="P06",srcs=PS,files=LOG,
 edits=[("common/ParameterValue.cc","std::string::size_type pos = str.find(':', st);","std::string::size_type pos = str.find(':', st > 0 ? 1 : 0);")],
 needs="a record whose quoted field name contains a colon",
 breaks="the field gets another name and value",
 demo='''#include "common/ParameterValue.h"
#include "common/ParameterRecord.h"
#include <iostream>
int main(){ try { auto r=dp3::common::ParameterValue("{'a:b':3}").getRecord(); return r.isDefined("a:b")&&r.getInt("a:b")==3?0:1;} catch(std::exception&e){std::cout<<e.what();return 1;} }''')
B(id="p07_nocase_subset",prop="P07",srcs=PS,files=LOG,
 edits=[("common/ParameterSetImpl.cc","? boost::to_lower_copy(it->first).compare(0, base.size(), base) == 0","? it->first.compare(0, base.size(), base) == 0")],
 needs="a case-insensitive set, a key with capitals in the prefix",
 breaks="the subset misses the key (and all keys after it)",
 demo='''#include "common/ParameterSet.h"
#include <iostream>
using namespace dp3::common;
int main(){ ParameterSet p(KeyCompare::NOCASE); p.add("Step.x","1"); p.add("step.y","2"); auto s=p.makeSubset("step."); std::cout<<s.size()<<"\\n"; return s.size()==2?0:1; }''')
B(id="p07_self_adopt",prop="P07",srcs=PS,files=LOG,
 edits=[("common/ParameterSetImpl.cc","    KVMap tmp(theCollection);","    KVMap tmp(theCollection.begin(), theCollection.end());")],
 needs="a case-insensitive set adopting itself under a prefix",
 breaks="",
 demo="") if False else None
B(id="p07_append_truncates",prop="P07",srcs=PS,files=LOG,
 edits=[("common/ParameterSetImpl.cc","(append ? std::ofstream::app : std::ofstream::trunc)","(append ? std::ofstream::ate : std::ofstream::trunc)")],
 needs="a file written in append mode that already has contents",
 breaks="the earlier contents are lost",
 demo='''#include "common/ParameterSet.h"
#include <iostream>
#include <cstdlib>
#include <unistd.h>
using namespace dp3::common;
int main(){ char d[]="/tmp/demoXXXXXX"; int fd=mkstemp(d); close(fd); ParameterSet a,b; a.add("x","1"); b.add("y","2"); a.writeFile(d); b.writeFile(d,true); ParameterSet c(d); unlink(d); return c.isDefined("x")&&c.isDefined("y")?0:1; }''')
B(id="p08_lookalike_mount",prop="P08",srcs=PS+" common/NodeDesc.cc",files=LOG,
 edits=[("common/NodeDesc.cc","      if (filePart == itsMounts[i]) {","      if (itsMounts[i].size() > 1 &&\n          filePart.compare(0, itsMounts[i].size(), itsMounts[i]) == 0) {")],
 needs="two mount points of which one name is the beginning of the other's, short one first",
 breaks="files are attributed to the wrong file system",
 demo='''#include "common/NodeDesc.h"
#include <iostream>
using namespace dp3::common;
int main(){ NodeDesc n; n.addFileSys("f1","/data"); n.addFileSys("f2","/data2"); auto r=n.findFileSys("/data2/x"); std::cout<<r<<"\\n"; return r=="f2"?0:1; }''')
B(id="p09_single_precision",prop="P09",
 edits=[("common/baseline_indices.h","const size_t antenna2 = (1 + std::sqrt(1 + 8 * baseline_index)) / 2;","const size_t antenna2 =\n        (1 + std::sqrt(static_cast<float>(1 + 8 * baseline_index))) / 2;")],
 needs="an array with some thousands of antennas",
 breaks="baseline numbers convert back to the wrong pair",
 demo='''#include "common/baseline_indices.h"
#include <cstdio>
using namespace dp3::common;
int main(){ const size_t n=9000; for(size_t a=8000;a<n;++a){ size_t i=ComputeBaselineIndex(a,a,n,BaselineOrder::kColumnMajor); if(ComputeBaseline(i,n,BaselineOrder::kColumnMajor)!=std::pair<size_t,size_t>(a,a)){printf("%zu\\n",a);return 1;} } return 0; }''')
B(id="p12_short_piece",prop="P12",srcs="common/DataConvert.cc",
 edits=[("common/DataConvert.cc","""    unsigned char& ch = bits[0];
    // Take care of correct number of bits in first byte.
    unsigned int nbits =
        (nvalues - index < 8 - startbit ? nvalues - index : 8 - startbit);
    for (j = 0; j < nbits; j++) {
      if (data[index++]) {""","""    unsigned char& ch = bits[0];
    if (startbit == 0) ch = 0;
    // Take care of correct number of bits in first byte.
    unsigned int nbits =
        (nvalues - index < 8 - startbit ? nvalues - index : 8 - startbit);
    // Bits before the start keep their values.
    ch &= (1 << (startbit + nbits - 1)) - 1;
    for (j = 0; j < nbits; j++) {
      if (data[index++]) {""")],
 needs="",breaks="",demo="") if False else None
B(id="p12_append_clears",prop="P12",srcs="common/DataConvert.cc",
 edits=[("common/DataConvert.cc","""    unsigned char& ch = bits[0];
    // Take care of correct number of bits in first byte.
    unsigned int nbits =
        (nvalues - index < 8 - startbit ? nvalues - index : 8 - startbit);
    for (j = 0; j < nbits; j++) {
      if (data[index++]) {""","""    unsigned char& ch = bits[0];
    // Take care of correct number of bits in first byte.
    unsigned int nbits =
        (nvalues - index < 8 - startbit ? nvalues - index : 8 - startbit);
    // Clear the bits that are not followed by others.
    if (nbytes > 1) ch = 0;
    for (j = 0; j < nbits; j++) {
      if (data[index++]) {""")],
 needs="packing that starts in the middle of a byte and spans more than that byte",
 breaks="bits packed earlier in the first byte are lost",
 demo='''#include "common/DataConvert.h"
#include <cstdio>
using namespace dp3::common;
int main(){ unsigned char b[3]={0,0,0}; bool t[9]; for(bool&x:t)x=true; boolToBit(b,t,3,0); boolToBit(b,t,9,3); bool o[12]; bitToBool(o,b,12,0); for(int i=0;i<12;++i) if(!o[i]){printf("bit %d\\n",i);return 1;} return 0; }''')
B(id="p13_rhs_reuse",prop="P13",srcs="ddecal/linear_solvers/LLSSolver.cc",libs="-llapack -lblas",
 edits=[("ddecal/linear_solvers/NormalEquationsSolver.h","""        adaggerb_[n + p * n_] = std::complex<float>(0.0, 0.0);""","""        if (p == 0) adaggerb_[n] = std::complex<float>(0.0, 0.0);""")],
 needs="normal equations with several right-hand sides, and a solver object used twice",
 breaks="later solves include the previous solution of the other right-hand sides",
 demo='''#include "ddecal/linear_solvers/LLSSolver.h"
#include <vector>
#include <cstdio>
using namespace dp3::ddecal; using C=std::complex<float>;
int main(){ auto s=LLSSolver::Make(LLSSolverType::NORMAL_EQUATIONS,2,1,2);
 for(int k=0;k<2;++k){ std::vector<C> a{1,1},b{2,2,4,4}; if(!s->Solve(a.data(),b.data()))return 1; printf("%g %g\\n",b[0].real(),b[1].real()); if(std::abs(b[0]-C(2))>1e-4||std::abs(b[1]-C(4))>1e-4) return 1; } return 0; }''')
B(id="p14_weights_offset",prop="P14",srcs="ddecal/SolutionResampler.cc",
 edits=[("ddecal/SolutionResampler.cc","""              std::copy_n(input_result.weights.begin() + in_index,
                          residual_dims,""","""              std::copy_n(input_result.weights.begin() + i * n_sub_solutions_ +
                              old_sub_index,
                          residual_dims,""")],
 needs="constraint results with a frequency axis of more than one channel",
 breaks="weights are taken from another sub-solution or antenna",
 demo='''#include "ddecal/SolutionResampler.h"
#include <cstdio>
using namespace dp3::ddecal;
int main(){ SolutionResampler r({1,2},1,2); ConstraintResult c; c.name="x"; c.axes="ant,dir,freq"; c.dims={1,3,2}; for(int i=0;i<6;++i){c.vals.push_back(i);c.weights.push_back(10+i);} 
 auto u=r.Upsample({{{c}}}); auto&w=u[1][0][0].weights; for(double x:w)printf("%g ",x); return w[0]==10&&w[1]==11&&w[2]==14&&w[3]==15?0:1; }''')
B(id="p15_window_reference",prop="P15",
 edits=[("ddecal/constraints/KernelSmoother.h","""        while (bandRight != n &&
               _frequencies[bandRight] < _frequencies[i] + localBandwidth * 0.5)""","""        while (bandRight != n &&
               _frequencies[bandRight] < _frequencies[i] + _bandwidth * 0.5)""")],
 needs="a truncated kernel whose width grows with frequency beyond the reference frequency",
 breaks="channels within the kernel at the high-frequency side are ignored",
 demo='''#include "ddecal/constraints/KernelSmoother.h"
#include <algorithm>
#include <cstdio>
using namespace dp3::ddecal;
int main(){ std::vector<double> f,d,w; for(int i=0;i<40;++i){f.push_back(1e8+i*1e6);d.push_back(i==30?100:0);w.push_back(1);} 
 KernelSmoother<double,double> k(f,KernelSmoother<double,double>::RectangularKernel,1e7,5e7,-1.0,true); k.Smooth(d.data(),w.data(),1.0);
 printf("%g\\n",d[20]); return d[20]>1?0:1; }''')
B(id="p16_offset_estimate",prop="P16",srcs="base/PhaseFitter.cc",
 edits=[("base/PhaseFitter.cc","""      sum += dist * _weights[i];
      weightSum += _weights[i];
    }
    if (weightSum != 0.0) betaEstimate""","""      sum += dist * _weights[i];
      weightSum += 1.0;
    }
    if (weightSum != 0.0) betaEstimate""")],
 needs="weights that are not one",
 breaks="the phase offset is not fitted to the data",
 demo='''#include "base/PhaseFitter.h"
#include <cstdio>
#include <cmath>
int main(){ std::vector<double> f; for(int i=0;i<30;++i)f.push_back(1.2e8+i*2e6); PhaseFitter p; p.Initialize(f); for(int i=0;i<30;++i){p.PhaseData()[i]=2.9;p.WeightData()[i]=0.01;} 
 double a,b; double c=p.FitDataToTEC2Model(a,b); printf("%g %g %g\\n",a,b,c); for(int i=0;i<30;++i) if(std::fabs(std::remainder(p.PhaseData()[i]-2.9,2*M_PI))>0.1) return 1; return 0; }''')
B(id="p17_gradient_weight",prop="P17",srcs="ddecal/constraints/TecOffsetDelayFitting.cc",libs="-lgsl -lgslcblas",
 edits=[("ddecal/constraints/TecOffsetDelayFitting.cc","""  if (wrap >= M_PI)
    wrap -= twopi;
  else if (wrap < -M_PI)
    wrap += twopi;""","""  if (wrap > M_PI) wrap -= twopi;""")],
 needs="a model phase below -pi (negative parameters)",
 breaks="evaluated phases are outside [-pi,pi)",
 demo='''#include "ddecal/constraints/TecOffsetDelayFitting.h"
#include <vector>
#include <cmath>
#include <cstdio>
int main(){ std::vector<double> x{1,2,3},o(3); EvaluateLinearTecOffsetValues({-5,0,0},x,o); printf("%g\\n",o[0]); return o[0]>=-M_PI&&o[0]<M_PI?0:1; }''')
B(id="p18_last_chunk",prop="P18",
 edits=[("ddecal/constraints/PieceWisePhaseFitter.h","""      PieceWisePhaseFitter::fitSlope(&data[n - chunkSize], &nu[n - chunkSize],
                                     &weights[n - chunkSize], chunkSize, a, b);""","""      PieceWisePhaseFitter::fitSlope(&data[n - chunkSize], &nu[n - chunkSize],
                                     &weights[0], chunkSize, a, b);""")],
 needs="a weighted sliding fit with a corrupted, zero-weighted channel near the high end",
 breaks="the flagged value influences the fit at the high end",
 demo='''#include <vector>
#include <algorithm>
#include "ddecal/constraints/PieceWisePhaseFitter.h"
#include <cstdio>
#include <cmath>
using namespace dp3::ddecal;
int main(){ const int n=40; std::vector<double> f,d,w,o(n); for(int i=0;i<n;++i){f.push_back(1.2e8+i*2e5);d.push_back(0.5);w.push_back(1);} d[37]=2.5;w[37]=0;
 PieceWisePhaseFitter p(8); p.SlidingFit(f.data(),d.data(),w.data(),o.data(),n); printf("%g\\n",o[39]); return std::fabs(o[39]-0.5)<1e-4?0:1; }''')
