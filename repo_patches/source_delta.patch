From 7c3dc92309943e31e0a225633ef1b567b12d8554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:22 +0000
Subject: [PATCH 01/77] fix: ParameterValue::getUint32 returns the unsigned
 value

---
 common/ParameterValue.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/ParameterValue.h b/common/ParameterValue.h
index 6c37057..97e9f47 100644
--- a/common/ParameterValue.h
+++ b/common/ParameterValue.h
@@ -56,7 +56,7 @@ class ParameterValue {
   int16_t getInt16() const { return strToInt16(itsValue); }
   uint16_t getUint16() const { return strToUint16(itsValue); }
   int32_t getInt32() const { return strToInt32(itsValue); }
-  int32_t getUint32() const { return strToUint32(itsValue); }
+  uint32_t getUint32() const { return strToUint32(itsValue); }
   int64_t getInt64() const { return strToInt64(itsValue); }
   uint64_t getUint64() const { return strToUint64(itsValue); }
   float getFloat() const { return strToFloat(itsValue); }
-- 
2.43.0


From a1bc5cd6eb2497ec9bffddcc1ccfcc5448b8b3a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:22 +0000
Subject: [PATCH 02/77] fix: bound the unit read by
 ParameterValue::StringToTime_t

---
 common/ParameterValue.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/ParameterValue.cc b/common/ParameterValue.cc
index 4839575..8d0cfa7 100644
--- a/common/ParameterValue.cc
+++ b/common/ParameterValue.cc
@@ -303,7 +303,7 @@ time_t ParameterValue::StringToTime_t(const std::string& aString) {
   time_t theTime;
   char unit[1024];
   unit[0] = '\0';
-  if (sscanf(aString.c_str(), "%ld%s", &theTime, unit) < 1) {
+  if (sscanf(aString.c_str(), "%ld%1023s", &theTime, unit) < 1) {
     throw ParException(aString + " is not a time value");
   }
   switch (unit[0]) {
-- 
2.43.0


From e34b25459c364b6c18339d7f21f8b8b478a02a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:22 +0000
Subject: [PATCH 03/77] fix: track key use under the stored key, also when
 ignoring case

---
 common/ParameterSetImpl.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/ParameterSetImpl.cc b/common/ParameterSetImpl.cc
index 44ddfd9..81ca720 100644
--- a/common/ParameterSetImpl.cc
+++ b/common/ParameterSetImpl.cc
@@ -327,7 +327,7 @@ ParameterSetImpl::const_iterator ParameterSetImpl::findKV(
       throw APSException("Key " + aKey + " unknown");
     }
   } else {
-    itsAskedParms.insert(aKey);
+    itsAskedParms.insert(iter->first);
   }
 
   return (iter);
-- 
2.43.0


From 5e5539338b97a61244c6e866f55a5721d6cc0f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:22 +0000
Subject: [PATCH 04/77] fix: reject a parset line with nothing before the
 =-sign

---
 common/ParameterSetImpl.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/common/ParameterSetImpl.cc b/common/ParameterSetImpl.cc
index 81ca720..b2a1506 100644
--- a/common/ParameterSetImpl.cc
+++ b/common/ParameterSetImpl.cc
@@ -259,6 +259,8 @@ void ParameterSetImpl::readStream(std::istream& inputStream,
                 addMerge(key, value, merge);
                 value.erase();
               }
+              if (lskipws(line, stval, st) == st)
+                throw APSException("Empty key given in line " + line);
               // Use ParameterValue to get the key without possible quotes.
               ParameterValue pvkey(line.substr(stval, nonbl - stval + 1),
                                    false);
-- 
2.43.0


From 5c9e36de4af965e14dd8bb73098bfaba71f0db9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:22 +0000
Subject: [PATCH 05/77] fix: VdsPartDesc::addParm replaces an existing
 parameter

---
 common/VdsPartDesc.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/VdsPartDesc.h b/common/VdsPartDesc.h
index ae41249..29aa659 100644
--- a/common/VdsPartDesc.h
+++ b/common/VdsPartDesc.h
@@ -69,7 +69,7 @@ class VdsPartDesc {
   /// Add an extra parameter. It is added to the subset 'Extra.'.
   /// If the parameter already exists, it is replaced.
   void addParm(const std::string& key, const std::string& value) {
-    return itsParms.add(key, value);
+    itsParms.replace(key, value);
   }
 
   /// Get access to the extra parameters.
-- 
2.43.0


From 30c01a1b6e418dc42191ad3e1d4444d4dad5dc75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:03 +0000
Subject: [PATCH 06/77] fix: Median keeps the upper middle element while
 selecting the lower one

---
 common/Median.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/Median.h b/common/Median.h
index 56ad3e6..d7dff53 100644
--- a/common/Median.h
+++ b/common/Median.h
@@ -24,7 +24,7 @@ T Median(std::vector<T>& v) {
     return *target;
   } else {
     auto before = target - 1;
-    std::nth_element(v.begin(), before, v.end());
+    std::nth_element(v.begin(), before, target);
     return (*target + *before) / static_cast<T>(2);
   }
 }
-- 
2.43.0


From de8a71f9af229ccfe5e9edb886f6b7bfeff25dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:41 +0000
Subject: [PATCH 07/77] fix: Epanechnikov kernel is 3/4 (1 - x^2), as
 documented

---
 ddecal/constraints/KernelSmoother.h | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/ddecal/constraints/KernelSmoother.h b/ddecal/constraints/KernelSmoother.h
index a76376e..4646431 100644
--- a/ddecal/constraints/KernelSmoother.h
+++ b/ddecal/constraints/KernelSmoother.h
@@ -93,13 +93,11 @@ class KernelSmoother {
         else
           return std::exp(-x * x * NumType(9.0));
       case EpanechnikovKernel:
-        /// 3/4 * (1-x)^2;
-        if (_truncate && (x < NumType(-1.0) || x > NumType(1.0))) {
-          return 0.0;
-        } else {
-          x = NumType(1.0) - x;
-          return (NumType(3.0) / NumType(4.0)) * x * x;
-        }
+        /// 3/4 * (1-x^2);
+        if (x < NumType(-1.0) || x > NumType(1.0))
+          return NumType(0.0);
+        else
+          return (NumType(3.0) / NumType(4.0)) * (NumType(1.0) - x * x);
     }
   }
 
-- 
2.43.0


From afc114e6ec4289e65eac6fef5c4ed438b29b0e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:41 +0000
Subject: [PATCH 08/77] fix: TEC2 fit does not use the (possibly uninitialised)
 input beta

---
 base/PhaseFitter.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/base/PhaseFitter.cc b/base/PhaseFitter.cc
index 6b1b9ef..453b14c 100644
--- a/base/PhaseFitter.cc
+++ b/base/PhaseFitter.cc
@@ -109,6 +109,7 @@ void PhaseFitter::fillDataWithTEC1Model(double alpha) {
 
 void PhaseFitter::FitTEC2ModelParameters(double& alpha, double& beta) const {
   double lowerAlpha = -40000.0e6, upperAlpha = 40000.0e6;
+  beta = 0.0;
   bruteForceSearchTEC2Model(lowerAlpha, upperAlpha, beta);
   alpha = (lowerAlpha + upperAlpha) * 0.5;
   // beta = fitBeta(alpha, beta);
-- 
2.43.0


From 2947e947a1bb0b4845e7fc9b4e4d53baeb9ffe73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:13 +0000
Subject: [PATCH 09/77] fix: centre residuals in the TEC/offset/delay grid
 search so it finds the optimum

---
 ddecal/constraints/TecOffsetDelayFitting.cc | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/ddecal/constraints/TecOffsetDelayFitting.cc b/ddecal/constraints/TecOffsetDelayFitting.cc
index b2bc9d0..9657313 100644
--- a/ddecal/constraints/TecOffsetDelayFitting.cc
+++ b/ddecal/constraints/TecOffsetDelayFitting.cc
@@ -2,6 +2,7 @@
 
 #include <cassert>
 #include <cmath>
+#include <complex>
 #include <fstream>
 #include <limits>
 #include <vector>
@@ -345,10 +346,20 @@ TecOffsetDelayValues TecOffsetDelayGridSearch(
       // The a and c values are used as starting guess by subtracting the
       // corresponding model from the data and wrapping them all to [-pi, pi].
       // The linear fit is then done on the residual to determine coefficient
-      // offsets. The b values are solved for so we don't need to unwrap for b.
+      // offsets. When b is solved for, the residuals are first centred on their
+      // circular mean, such that they do not straddle the wrapping boundary.
+      double offset = 0.0;
+      if (include_b) {
+        std::complex<double> sum = 0.0;
+        for (size_t i = 0; i != x_data.size(); ++i)
+          sum += weights[i] *
+                 std::polar(1.0, y_data[i] -
+                                     UnwrappedModel(x_data[i], a, 0.0, c));
+        offset = std::arg(sum);
+      }
       for (size_t i = 0; i != x_data.size(); ++i)
         residual_data[i] =
-            Wrap(y_data[i] - UnwrappedModel(x_data[i], a, 0.0, c));
+            Wrap(y_data[i] - UnwrappedModel(x_data[i], a, offset, c));
 
       std::optional<TecOffsetDelayValues> residual_fit;
       if (method == TecOffsetDelayFittingMethod::LeastSquares) {
@@ -360,7 +371,7 @@ TecOffsetDelayValues TecOffsetDelayGridSearch(
       }
       if (residual_fit) {
         const TecOffsetDelayValues fit = {.a = residual_fit->a + a,
-                                          .b = residual_fit->b,
+                                          .b = residual_fit->b + offset,
                                           .c = residual_fit->c + c};
         const double cost = TecOffsetDelayCost(x_data, y_data, weights, fit);
         if (cost < best_cost) {
-- 
2.43.0


From a43e6ada7fbf3df5403a21e0c03f6c882570a8db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:03 +0000
Subject: [PATCH 10/77] fix: name of the Faraday rotation mode is the one that
 is accepted

---
 base/CalType.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/CalType.cc b/base/CalType.cc
index 46694f9..0cc5a24 100644
--- a/base/CalType.cc
+++ b/base/CalType.cc
@@ -78,7 +78,7 @@ std::string ToString(CalType caltype) {
     case CalType::kRotationAndDiagonal:
       return "rotation+diagonal";
     case CalType::kFaradayRotation:
-      return "faraday";
+      return "faradayrotation";
     case CalType::kLeakage:
       return "leakage";
     case CalType::kLeakageAmplitude:
-- 
2.43.0


From 7f0e83b8eb7ed6bbf1c5d9bb301032a6676b5283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:03 +0000
Subject: [PATCH 11/77] fix: initialise the position angle type in all
 GaussianSource constructors

---
 base/GaussianSource.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/base/GaussianSource.cc b/base/GaussianSource.cc
index ec76e49..7a0b736 100644
--- a/base/GaussianSource.cc
+++ b/base/GaussianSource.cc
@@ -14,6 +14,7 @@ namespace base {
 GaussianSource::GaussianSource(const Direction &direction)
     : PointSource(direction),
       itsPositionAngle(0.0),
+      itsPositionAngleIsAbsolute(true),
       itsMajorAxis(0.0),
       itsMinorAxis(0.0) {}
 
-- 
2.43.0


From ad75572abe880e5af1b1095726b8d06f4e3d54dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:03 +0000
Subject: [PATCH 12/77] fix: ComponentInfo does not keep spectral terms of an
 earlier component

---
 base/ComponentInfo.cc | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/base/ComponentInfo.cc b/base/ComponentInfo.cc
index 138fbcb..479ecf6 100644
--- a/base/ComponentInfo.cc
+++ b/base/ComponentInfo.cc
@@ -37,10 +37,9 @@ void ComponentInfo::update(const PointSource& component) {
     throw std::runtime_error(
         "Cannot handle spectra with more than three components");
   }
-  const size_t spec_size = (spec.size() > 3 ? 3 : spec.size());
-  for (size_t index = 0; index < spec_size; index++) {
-    spectrum_[index] = spec[index];
-  }
+  // A ComponentInfo can be reused: do not keep terms of the previous component.
+  std::fill(spectrum_.begin(), spectrum_.end(), 0.0);
+  std::copy(spec.begin(), spec.end(), spectrum_.begin());
   f0_ = component.referenceFreq();
 }
 
-- 
2.43.0


From d75a93599f3372519b9e71604fa81fd00fbc8aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:03 +0000
Subject: [PATCH 13/77] fix: patch declination is that of the average direction

The average of unit vectors is shorter than 1, so asin(z) is not its
declination.
---
 sky_model/Patch.cc    | 2 +-
 sky_model/PatchInfo.h | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/sky_model/Patch.cc b/sky_model/Patch.cc
index ee0fa42..76906a3 100644
--- a/sky_model/Patch.cc
+++ b/sky_model/Patch.cc
@@ -26,7 +26,7 @@ void Patch::ComputeDirection() {
     y /= components_.size();
     z /= components_.size();
 
-    direction_ = base::Direction(std::atan2(y, x), std::asin(z));
+    direction_ = base::Direction(std::atan2(y, x), std::atan2(z, std::hypot(x, y)));
   }
 }
 
diff --git a/sky_model/PatchInfo.h b/sky_model/PatchInfo.h
index 1ca6d8e..2ce9792 100644
--- a/sky_model/PatchInfo.h
+++ b/sky_model/PatchInfo.h
@@ -84,7 +84,10 @@ class PatchSumInfo {
   double getRa() const {
     return std::atan2(itsSumY / itsSumFlux, itsSumX / itsSumFlux);
   }
-  double getDec() const { return std::asin(itsSumZ / itsSumFlux); }
+  double getDec() const {
+    return std::atan2(itsSumZ / itsSumFlux,
+                      std::hypot(itsSumX / itsSumFlux, itsSumY / itsSumFlux));
+  }
 
   /// Get the patchId.
   unsigned int getPatchId() const { return itsPatchId; }
-- 
2.43.0


From daddf1383cc1a0fdf47253c1ee1ddd48fcd8291e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:03 +0000
Subject: [PATCH 14/77] fix: check the magic number of AARTFAAC packet headers

---
 aartfaac/PacketHeader.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aartfaac/PacketHeader.h b/aartfaac/PacketHeader.h
index 5c198d3..d594414 100644
--- a/aartfaac/PacketHeader.h
+++ b/aartfaac/PacketHeader.h
@@ -115,7 +115,7 @@ struct PacketHeader {
   }
 
   void Check() {
-    if (magic != Magic()) {
+    if (magic != kHeaderMagicTag) {
       ThrowMagicError();
     }
     if (correlation_mode != 15) {
-- 
2.43.0


From 8ef317157aedc7f7b147aa173757e4e575caa39c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:03 +0000
Subject: [PATCH 15/77] fix: do not truncate the AARTFAAC number of samples per
 integration

---
 aartfaac/PacketHeader.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aartfaac/PacketHeader.h b/aartfaac/PacketHeader.h
index d594414..bdb03de 100644
--- a/aartfaac/PacketHeader.h
+++ b/aartfaac/PacketHeader.h
@@ -91,7 +91,7 @@ struct PacketHeader {
 
   uint32_t* Weights() { return weights; }
 
-  uint16_t NrSamplesPerIntegration() const {
+  uint32_t NrSamplesPerIntegration() const {
     return nr_samples_per_integration;
   }
 
-- 
2.43.0


From e1fbbd0f1d567c734f56de2f9d1af7c89ee82b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:03 +0000
Subject: [PATCH 16/77] fix: account for the packet headers in the number of
 AARTFAAC timesteps

---
 aartfaac/File.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/aartfaac/File.h b/aartfaac/File.h
index fff6aa6..e9ab128 100644
--- a/aartfaac/File.h
+++ b/aartfaac/File.h
@@ -95,9 +95,11 @@ class File {
     return Timestep{TimeToCasa(h.StartTime()), TimeToCasa(h.EndTime())};
   }
 
-  bool HasMore() const { return blockPosition_ < (filesize_ / blockSize_); }
+  bool HasMore() const { return blockPosition_ < NTimesteps(); }
 
-  size_t NTimesteps() const { return filesize_ / blockSize_; }
+  size_t NTimesteps() const {
+    return filesize_ / (sizeof(PacketHeader) + blockSize_);
+  }
 
   size_t VisPerTimestep() const { return header_.VisPerTimestep(); }
 
-- 
2.43.0


From 816631af2137b68faa01fd524b0b6c31c1be83c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:03 +0000
Subject: [PATCH 17/77] fix: open the AARTFAAC file when no RCU mode is given

---
 aartfaac/File.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aartfaac/File.h b/aartfaac/File.h
index e9ab128..638c42e 100644
--- a/aartfaac/File.h
+++ b/aartfaac/File.h
@@ -52,6 +52,8 @@ class File {
 
   explicit File(const char *filename)
       : filename_(filename), mode_(base::RcuMode::Unused) {
+    file_.open(filename);
+
     file_.seekg(0, std::ios::end);
     filesize_ = file_.tellg();
 
-- 
2.43.0


From 8f11f4dc9ef25c54627cd97070f149ea8af1978b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:03 +0000
Subject: [PATCH 18/77] fix: Grid::toDomains sizes the y bounds by the y axis

---
 parmdb/Grid.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parmdb/Grid.cc b/parmdb/Grid.cc
index b79a7ed..2b7e43d 100644
--- a/parmdb/Grid.cc
+++ b/parmdb/Grid.cc
@@ -240,7 +240,7 @@ void Grid::toDomains(std::vector<Box>& domains) const {
   unsigned int nry = ny();
   // Prefetch the lower and upper values for both axes.
   std::vector<double> sx(nrx), ex(nrx);
-  std::vector<double> sy(nrx), ey(nrx);
+  std::vector<double> sy(nry), ey(nry);
   for (unsigned int i = 0; i < nrx; ++i) {
     sx[i] = xaxis.lower(i);
     ex[i] = xaxis.upper(i);
-- 
2.43.0


From b75484c2b311a743ab1a8dfab28971831d84061a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:29 +0000
Subject: [PATCH 19/77] fix: report an array that is missing in the AARTFAAC
 antenna config file

---
 aartfaac/AntennaConfig.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/aartfaac/AntennaConfig.h b/aartfaac/AntennaConfig.h
index ae0d869..fb4bba2 100644
--- a/aartfaac/AntennaConfig.h
+++ b/aartfaac/AntennaConfig.h
@@ -134,7 +134,10 @@ class AntennaConfig {
     }
   }
   const std::vector<double> &GetArray(const std::string &name) const {
-    return values_.find(name)->second.data;
+    const auto iter = values_.find(name);
+    if (iter == values_.end())
+      throw std::runtime_error("The antenna config file has no array " + name);
+    return iter->second.data;
   }
   std::vector<casacore::MPosition> GetPositions(
       const std::string &arrayName) const {
-- 
2.43.0


From 6b094bcd58cce644eef8d0f9c2aac77101a563c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:49 +0000
Subject: [PATCH 20/77] fix: Axis::subset leaves out an interval behind a gap
 that contains the end

---
 parmdb/Axis.cc | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/parmdb/Axis.cc b/parmdb/Axis.cc
index 24c81ae..b7b0be2 100644
--- a/parmdb/Axis.cc
+++ b/parmdb/Axis.cc
@@ -338,10 +338,15 @@ Axis::ShPtr Axis::subset(double start, double end, size_t& index) const {
   if (end < rng.second) {
     std::pair<size_t, bool> res = find(end, false);
     einx = res.first;
-    if (einx == 0 && !res.second) {
-      // Entire interval before the range, so make sinx>einx to return
-      // a default axis.
-      sinx = 1;
+    if (!res.second) {
+      // The end is before this interval, so the previous one is the last.
+      if (einx > 0) {
+        --einx;
+      } else {
+        // Entire interval before the range, so make sinx>einx to return
+        // a default axis.
+        sinx = 1;
+      }
     }
   }
 
-- 
2.43.0


From 2c1f330dfdbb78536635a4d99a14daae928709b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:49 +0000
Subject: [PATCH 21/77] fix: Axis::makeAxis keeps the gaps between intervals of
 equal width

---
 parmdb/Axis.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/parmdb/Axis.cc b/parmdb/Axis.cc
index b7b0be2..9a074e0 100644
--- a/parmdb/Axis.cc
+++ b/parmdb/Axis.cc
@@ -318,10 +318,12 @@ Axis::ShPtr Axis::add(const Axis& that) const {
 Axis::ShPtr Axis::makeAxis(const std::vector<double>& low,
                            const std::vector<double>& upp) {
   assert(low.size() == upp.size() && low.size() > 0);
-  // Check if the width is constant, thus if the result is a regular axis.
+  // Check if the width is constant and the intervals are consecutive, thus if
+  // the result is a regular axis.
   double width = upp[0] - low[0];
   for (unsigned int i = 1; i < low.size(); ++i) {
-    if (!casacore::near(width, upp[i] - low[i])) {
+    if (!casacore::near(width, upp[i] - low[i]) ||
+        !casacore::near(upp[i - 1], low[i])) {
       return std::make_shared<OrderedAxis>(low, upp, true);
     }
   }
-- 
2.43.0


From 1f6f780ecf6fddb40cce418c8fc61d275cedb5c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:49 +0000
Subject: [PATCH 22/77] fix: Parm::setCoeff does not use the errors of a value
 without errors

---
 parmdb/Parm.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parmdb/Parm.cc b/parmdb/Parm.cc
index ddd5704..7a6f244 100644
--- a/parmdb/Parm.cc
+++ b/parmdb/Parm.cc
@@ -117,7 +117,6 @@ void Parm::setCoeff(const Grid::Location& where, const double* newValues,
     err = 0;
     pv.setErrors(err);
   }
-  Array<double>& errors(pv.getErrors());
   assert(values.contiguousStorage());
   if (pvset.getType() != ParmValue::Scalar) {
     if (!useMask || mask.size() == 0) {
@@ -125,6 +124,7 @@ void Parm::setCoeff(const Grid::Location& where, const double* newValues,
       assert(nvalues == values.size());
       copy(newValues, newValues + nvalues, values.cbegin());
       if (newErrors) {
+        Array<double>& errors(pv.getErrors());
         assert(nvalues == errors.size());
         copy(newErrors, newErrors + nvalues, errors.cbegin());
       }
@@ -134,7 +134,7 @@ void Parm::setCoeff(const Grid::Location& where, const double* newValues,
       double* valp = values.data();
       double* errp = nullptr;
       if (newErrors) {
-        errp = errors.data();
+        errp = pv.getErrors().data();
       }
       const bool* maskp = mask.data();
       unsigned int inx = 0;
@@ -156,7 +156,7 @@ void Parm::setCoeff(const Grid::Location& where, const double* newValues,
                                      itsSolveGrid, pv.getGrid());
     values.data()[cellId] = newValues[0];
     if (newErrors) {
-      errors.data()[cellId] = newErrors[0];
+      pv.getErrors().data()[cellId] = newErrors[0];
     }
 
     cell0changed = (cellId == 0);
-- 
2.43.0


From 29a992cc767df1c5f6b130a0b5e384012491b4ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:49 +0000
Subject: [PATCH 23/77] fix: ParmCache::flush keeps the databases locked while
 writing

---
 parmdb/ParmCache.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parmdb/ParmCache.cc b/parmdb/ParmCache.cc
index d1c7086..c07229a 100644
--- a/parmdb/ParmCache.cc
+++ b/parmdb/ParmCache.cc
@@ -41,7 +41,7 @@ void ParmCache::setSolveGrid(ParmId parmId, const Grid& solveGrid) {
 }
 
 void ParmCache::flush() {
-  ParmDBLocker(*itsParmSet, true);
+  ParmDBLocker locker(*itsParmSet, true);
   for (unsigned int i = 0; i < itsValueSets.size(); ++i) {
     ParmValueSet& pvset = itsValueSets[i];
     if (pvset.isDirty()) {
-- 
2.43.0


From d4be957187888e419ce1fad1cf7878b94a57ec8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:40 +0000
Subject: [PATCH 24/77] fix: rows of a BdaBuffer without fields get their own
 place in data that are added later

---
 base/BdaBuffer.cc | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/base/BdaBuffer.cc b/base/BdaBuffer.cc
index 26c2ecf..61f08c5 100644
--- a/base/BdaBuffer.cc
+++ b/base/BdaBuffer.cc
@@ -114,11 +114,11 @@ bool BdaBuffer::AddRow(double time, double interval, double exposure,
   if (remaining_capacity_ < n_elements) {
     return false;
   }
+  const std::size_t offset = GetNumberOfElements();
   remaining_capacity_ -= n_elements;
-  std::size_t offset = 0;
   for (auto data_it = data_.begin(); data_it != data_.end(); ++data_it) {
-    offset = data_it->second.size();
     aocommon::UVector<std::complex<float>>& data_vector = data_it->second;
+    assert(offset == data_vector.size());
     if (data_it->first == "" && data) {
       data_vector.insert(data_vector.end(), data, data + n_elements);
     } else {
@@ -126,11 +126,7 @@ bool BdaBuffer::AddRow(double time, double interval, double exposure,
     }
   }
   if (flags_.capacity() > 0) {
-    if (offset == 0) {
-      offset = flags_.size();
-    } else {
-      assert(offset == flags_.size());
-    }
+    assert(offset == flags_.size());
     if (flags) {
       flags_.insert(flags_.end(), flags, flags + n_elements);
     } else {
@@ -138,11 +134,7 @@ bool BdaBuffer::AddRow(double time, double interval, double exposure,
     }
   }
   if (weights_.capacity() > 0) {
-    if (offset == 0) {
-      offset = weights_.size();
-    } else {
-      assert(offset == weights_.size());
-    }
+    assert(offset == weights_.size());
     if (weights) {
       weights_.insert(weights_.end(), weights, weights + n_elements);
     } else {
-- 
2.43.0


From 223931d59fbf9b416fae9529ff9a6bb17ac69032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:40 +0000
Subject: [PATCH 25/77] fix: total bandwidth is that of the selected channels

---
 base/DPInfo.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/base/DPInfo.cc b/base/DPInfo.cc
index 0163300..37597c0 100644
--- a/base/DPInfo.cc
+++ b/base/DPInfo.cc
@@ -397,6 +397,9 @@ void DPInfo::SelectChannels(unsigned int start_channel,
   effective_bandwidth_.front() =
       std::vector<double>(effbw_begin, effbw_begin + n_channels);
 
+  total_bandwidth_ = std::accumulate(effective_bandwidth_.front().begin(),
+                                     effective_bandwidth_.front().end(), 0.0);
+
   // Add the new start channel to an existing start_channel, so MSUpdater can
   // still update the correct channel(s) in the original input MS.
   start_channel_ += start_channel;
-- 
2.43.0


From a537dbd4004b861d771ae936fed8506859e21c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:28 +0000
Subject: [PATCH 26/77] fix: forget cached baseline lengths and
 autocorrelations when antennas are set

---
 base/DPInfo.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/base/DPInfo.cc b/base/DPInfo.cc
index 37597c0..84d0352 100644
--- a/base/DPInfo.cc
+++ b/base/DPInfo.cc
@@ -266,6 +266,9 @@ void DPInfo::setAntennas(const std::vector<std::string>& antNames,
   antenna_positions_ = antPos;
   antenna1_ = ant1;
   antenna2_ = ant2;
+  // Clear; they'll be recalculated if needed.
+  baseline_lengths_.clear();
+  auto_correlation_indices_.clear();
   // Set which antennae are used.
   setAntUsed();
 }
-- 
2.43.0


From eab015a1ca610c3d9a47d3c83a15e0c5170d2395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:01 +0000
Subject: [PATCH 27/77] fix: moving data of a DPBuffer to its own name does not
 remove it

---
 base/DPBuffer.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/base/DPBuffer.cc b/base/DPBuffer.cc
index 7bbebda..aee7f9d 100644
--- a/base/DPBuffer.cc
+++ b/base/DPBuffer.cc
@@ -143,6 +143,8 @@ void DPBuffer::MoveData(DPBuffer& source, const std::string& source_name,
   assert(source.HasData(source_name));
   assert(!target_name.empty());
 
+  if (&source == this && source_name == target_name) return;
+
   if (source_name.empty()) {
     extra_data_[target_name] = std::move(source.data_);
   } else {
-- 
2.43.0


From 25324856e77e37376e0157a50bd2174e6fc4b74a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:10 +0000
Subject: [PATCH 28/77] fix: BdaAverager output has at least one and at most
 the input number of channels

---
 steps/BDAAverager.cc | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/steps/BDAAverager.cc b/steps/BDAAverager.cc
index 0427218..ac61276 100644
--- a/steps/BDAAverager.cc
+++ b/steps/BDAAverager.cc
@@ -155,11 +155,8 @@ void BdaAverager::updateInfo(const DPInfo& _info) {
       nchan = _info.nchan();
       if (bl_threshold_channel_ > 0.0) {
         nchan = std::ceil(lengths[i] / bl_threshold_channel_ * double(nchan));
-        if (nchan > _info.nchan()) {
-          nchan = _info.nchan();
-        } else if (nchan < min_channels_) {
-          nchan = min_channels_;
-        }
+        nchan = std::max({nchan, min_channels_, std::size_t{1}});
+        nchan = std::min(nchan, std::size_t{_info.nchan()});
       }
     } else {
       factor_time = baseline_factors_[i];
-- 
2.43.0


From 47731aad07959a34c6bd92a163a77a001d5251c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:10 +0000
Subject: [PATCH 29/77] fix: BdaAverager averages the uvw coordinates of fully
 flagged baselines too

---
 steps/BDAAverager.cc | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/steps/BDAAverager.cc b/steps/BDAAverager.cc
index ac61276..3a2da8c 100644
--- a/steps/BDAAverager.cc
+++ b/steps/BDAAverager.cc
@@ -334,7 +334,6 @@ void BdaAverager::AddBaseline(std::size_t baseline_nr) {
   const std::size_t n_channels = getInfoOut().chanFreqs(baseline_nr).size();
 
   // Divide data values by their total weight.
-  float total_weight = 0.0f;
   for (std::size_t index = 0; index < bb.weights.size(); ++index) {
     const float weight = bb.weights[index];
     if (weight > 0) {
@@ -342,15 +341,12 @@ void BdaAverager::AddBaseline(std::size_t baseline_nr) {
         data_name_vector.second[index] /= weight;
       }
     }
-    total_weight += weight;
   }
 
-  if (total_weight > 0) {
-    const double factor = 1.0 / bb.times_added;
-    bb.uvw[0] *= factor;
-    bb.uvw[1] *= factor;
-    bb.uvw[2] *= factor;
-  }
+  const double factor = 1.0 / bb.times_added;
+  bb.uvw[0] *= factor;
+  bb.uvw[1] *= factor;
+  bb.uvw[2] *= factor;
 
   if (bda_buffer_->GetRemainingCapacity() < n_channels * getInfoOut().ncorr()) {
     getNextStep()->process(std::move(bda_buffer_));
-- 
2.43.0


From 7cd968e3b6738255c7a7dff5a79c80af7ce9e450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:10 +0000
Subject: [PATCH 30/77] fix: Upsample adjusts the first and last time, and
 accepts input without time slots

---
 steps/Upsample.cc | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/steps/Upsample.cc b/steps/Upsample.cc
index 80e236c..eea03d6 100644
--- a/steps/Upsample.cc
+++ b/steps/Upsample.cc
@@ -51,9 +51,12 @@ Upsample::~Upsample() {}
 
 void Upsample::updateInfo(const DPInfo& info_in) {
   Step::updateInfo(info_in);
-  GetWritableInfoOut().setTimeIntervalAndSteps(
-      getInfoOut().timeInterval() / time_step_,
-      getInfoOut().ntime() * time_step_);
+  // The first and last output time slots start and end when the first and last
+  // input time slots do.
+  const double interval = info_in.timeInterval() / time_step_;
+  const double shift = 0.5 * (info_in.timeInterval() - interval);
+  GetWritableInfoOut().setTimes(info_in.firstTime() - shift,
+                                info_in.lastTime() + shift, interval);
   GetWritableInfoOut().setMetaChanged();
 
   if (update_uvw_) {
@@ -160,7 +163,7 @@ bool Upsample::process(std::unique_ptr<base::DPBuffer> buffer) {
 
 void Upsample::finish() {
   // Flush prev_buffers_
-  for (unsigned int i = first_to_flush_; i < time_step_; ++i) {
+  for (unsigned int i = first_to_flush_; i < prev_buffers_.size(); ++i) {
     getNextStep()->process(std::move(prev_buffers_[i]));
   }
 
-- 
2.43.0


From 41f2379a24ca21b9875d29f82ceb862f6fbd6c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:12 +0000
Subject: [PATCH 31/77] fix: UVW calculator must calculate the frame for time
 zero too

---
 base/UVWCalculator.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/base/UVWCalculator.cc b/base/UVWCalculator.cc
index cc84bd5..29bab3a 100644
--- a/base/UVWCalculator.cc
+++ b/base/UVWCalculator.cc
@@ -12,6 +12,7 @@
 #include <casacore/measures/Measures/Muvw.h>
 
 #include <array>
+#include <limits>
 
 using namespace casacore;
 
@@ -55,7 +56,8 @@ UVWCalculator::UVWCalculator(const MDirection& phaseDir,
   // Initialize the rest which is used to cache the UVW per antenna.
   // The cache is only useful if the MS is accessed in time order, but that
   // is normally the case.
-  itsLastTime = 0;
+  // No time can be equal to NaN, so the first time is always handled.
+  itsLastTime = std::numeric_limits<double>::quiet_NaN();
   itsAntUvw.resize(nrant);
   itsUvwFilled.resize(nrant);
   itsUvwFilled = false;
-- 
2.43.0


From 46a8aff6675ec47f477589e2b705260d9e30228d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:12 +0000
Subject: [PATCH 32/77] fix: PreFlagger channel selections matching no channel
 must select nothing

---
 steps/PreFlagger.cc | 10 +++++-----
 steps/PreFlagger.h  |  1 +
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/steps/PreFlagger.cc b/steps/PreFlagger.cc
index bf7b759..dfabdb2 100644
--- a/steps/PreFlagger.cc
+++ b/steps/PreFlagger.cc
@@ -217,6 +217,7 @@ PreFlagger::PSet::PSet(const common::ParameterSet& parset,
       itsFlagOnReal(false),
       itsFlagOnImag(false),
       itsFlagOnAzEl(false),
+      itsFlagOnChannels(false),
       itsSelBL(parset, prefix, true) {
   // Read all possible parameters.
   itsStrTime =
@@ -316,11 +317,10 @@ void PreFlagger::PSet::updateInfo(const DPInfo& info) {
   itsFlags.resize({nrbaselines, nrchan});
   itsMatchBL.resize({nrbaselines});
   // Determine the channels to be flagged.
-  if (!(itsStrChan.empty() && itsStrFreq.empty())) {
+  itsFlagOnChannels = !(itsStrChan.empty() && itsStrFreq.empty());
+  if (itsFlagOnChannels) {
     fillChannels(info);
-    if (!itsChannels.empty()) {
-      itsFlagOnTimeOnly = false;
-    }
+    itsFlagOnTimeOnly = false;
   }
   // Do the same for the child steps.
   for (unsigned int i = 0; i < itsPSets.size(); ++i) {
@@ -509,7 +509,7 @@ xt::xtensor<uint8_t, 2>* PreFlagger::PSet::process(
     flagPtr += n_channels;
   }
   // Flag on channel if necessary.
-  if (!itsChannels.empty()) {
+  if (itsFlagOnChannels) {
     flagChannels();
   }
   // Flag on amplitude, phase or real/imaginary if necessary.
diff --git a/steps/PreFlagger.h b/steps/PreFlagger.h
index 8f512fd..f83373a 100644
--- a/steps/PreFlagger.h
+++ b/steps/PreFlagger.h
@@ -234,6 +234,7 @@ class PreFlagger : public Step {
     bool itsFlagOnReal;      ///< true = do real based flagging
     bool itsFlagOnImag;      ///< true = do imag based flagging
     bool itsFlagOnAzEl;      ///< true = do Az/El based flagging
+    bool itsFlagOnChannels;  ///< true = do channel based flagging
     base::BaselineSelection itsSelBL;
     double itsMinUV;                   ///< minimum UV distance; <0 means ignore
     double itsMaxUV;                   ///< maximum UV distance; <0 means ignore
-- 
2.43.0


From f3ca365d02367c5f882a14adf69ff572eec4d040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:12 +0000
Subject: [PATCH 33/77] fix: ScaleData used the wrong channels of frequency
 averaged BDA data

---
 steps/ScaleData.cc | 70 ++++++++++++++++++++++++++++++++--------------
 steps/ScaleData.h  |  2 ++
 2 files changed, 51 insertions(+), 21 deletions(-)

diff --git a/steps/ScaleData.cc b/steps/ScaleData.cc
index 7d0a0b2..e50c73c 100644
--- a/steps/ScaleData.cc
+++ b/steps/ScaleData.cc
@@ -41,6 +41,18 @@ using casacore::Regex;
 namespace dp3 {
 namespace steps {
 
+namespace {
+// Evaluate the polynomial for a frequency giving the scale factor.
+double evaluatePolynomial(const std::vector<double>& coeff, double freq) {
+  double fact = coeff[coeff.size() - 1];
+  for (unsigned int k = coeff.size() - 1; k > 0; --k) {
+    fact *= freq / 1e6;  // use freq in MHz
+    fact += coeff[k - 1];
+  }
+  return fact;
+}
+}  // namespace
+
 ScaleData::ScaleData(const common::ParameterSet& parset,
                      const std::string& prefix, MsType inputType)
     : itsName(prefix),
@@ -89,25 +101,20 @@ void ScaleData::updateInfo(const DPInfo& infoIn) {
   const std::vector<double>& freqs = infoIn.chanFreqs();
   // Convert the coefficients to scale factors per freq per station regex.
   std::vector<std::vector<float>> scaleVec(itsStationExp.size());
+  std::vector<std::vector<double>> coeffVec(itsStationExp.size());
   std::vector<Regex> stationRegex(itsStationExp.size());
   for (unsigned int i = 0; i < scaleVec.size(); ++i) {
     // Convert the station string to a proper Regex object.
     stationRegex[i] = Regex(Regex::fromPattern(itsStationExp[i]));
     // Convert coefficients from string to double.
     common::ParameterValue coeffPar(itsCoeffStr[i]);
-    std::vector<double> coeff(coeffPar.getDoubleVector());
-    if (coeff.size() <= 0)
+    coeffVec[i] = coeffPar.getDoubleVector();
+    if (coeffVec[i].size() <= 0)
       throw std::runtime_error("A ScaleData coeffs vector is empty");
     std::vector<float>& scales = scaleVec[i];
     scales.reserve(freqs.size());
-    // Evaluate the polynomial for each frequency giving the scale factors.
     for (unsigned int j = 0; j < freqs.size(); ++j) {
-      double fact = coeff[coeff.size() - 1];
-      for (unsigned int k = coeff.size() - 1; k > 0; --k) {
-        fact *= freqs[j] / 1e6;  // use freq in MHz
-        fact += coeff[k - 1];
-      }
-      scales.push_back(fact);
+      scales.push_back(evaluatePolynomial(coeffVec[i], freqs[j]));
     }
   }
   // If needed, find the nr of tiles/dipoles used for each station and
@@ -125,14 +132,18 @@ void ScaleData::updateInfo(const DPInfo& infoIn) {
   // The first matching regex is used.
   // The nr of tiles in use gives an extra scale factor.
   itsStationFactors.reserve(nant);
+  std::vector<unsigned int> coeffIndex(nant, 0);
+  std::vector<float> sizeFactors(nant, 1.);
   for (unsigned int i = 0; i < nant; ++i) {
     for (unsigned int j = 0; j < stationRegex.size(); ++j) {
       if (casacore::String(infoIn.antennaNames()[i]).matches(stationRegex[j])) {
         itsStationFactors.push_back(scaleVec[j]);
+        coeffIndex[i] = j;
         // If needed, scale with the nr of dipoles/tiles actually used.
         // Do that if explicitly told so or if default coeffs are used.
         if (itsScaleSize ||
             (!itsScaleSizeGiven && j == stationRegex.size() - 1)) {
+          sizeFactors[i] = extraFactors[i];
           for (unsigned int k = 0; k < itsStationFactors[i].size(); ++k) {
             itsStationFactors[i][k] *= extraFactors[i];
           }
@@ -141,10 +152,28 @@ void ScaleData::updateInfo(const DPInfo& infoIn) {
       }
     }
   }
-  // Now calculate the factors per baseline,freq,pol.
   unsigned int nb = infoIn.nbaselines();
   unsigned int nf = freqs.size();
   unsigned int nc = infoIn.ncorr();
+  if (itsInputType == MsType::kBda) {
+    // Each baseline can have its own frequencies.
+    const bool hasBdaFreqs = infoIn.BdaChanFreqs().size() > 1;
+    itsBdaFactors.resize(nb);
+    for (unsigned int i = 0; i < nb; ++i) {
+      const int a1 = infoIn.getAnt1()[i];
+      const int a2 = infoIn.getAnt2()[i];
+      itsBdaFactors[i].clear();
+      for (double freq : infoIn.chanFreqs(hasBdaFreqs ? i : 0)) {
+        const float f1 = sizeFactors[a1] *
+                         evaluatePolynomial(coeffVec[coeffIndex[a1]], freq);
+        const float f2 = sizeFactors[a2] *
+                         evaluatePolynomial(coeffVec[coeffIndex[a2]], freq);
+        itsBdaFactors[i].push_back(sqrt(f1 * f2));
+      }
+    }
+    return;
+  }
+  // Now calculate the factors per baseline,freq,pol.
   itsFactors.resize({nb, nf, nc});
   float* factPtr = itsFactors.data();
   for (unsigned int i = 0; i < nb; ++i) {
@@ -195,17 +224,16 @@ bool ScaleData::process(std::unique_ptr<base::DPBuffer> buf) {
 
 bool ScaleData::process(std::unique_ptr<BdaBuffer> bda_buffer) {
   itsTimer.start();
-  std::vector<BdaBuffer::Row> rows = bda_buffer->GetRows();
-  for (std::size_t row_nr = 0; row_nr < rows.size(); ++row_nr) {
-    auto factors =
-        xt::view(itsFactors, rows[row_nr].baseline_nr, xt::all(), xt::all());
-    [[maybe_unused]] const std::size_t n_elements =
-        rows[row_nr].n_correlations * rows[row_nr].n_channels;
-    assert(factors.size() == n_elements);
-
-    auto data = xt::adapt(bda_buffer->GetData(row_nr),
-                          std::array{factors.shape()[0], factors.shape()[1]});
-    data *= factors;
+  for (const BdaBuffer::Row& row : bda_buffer->GetRows()) {
+    const std::vector<float>& factors = itsBdaFactors[row.baseline_nr];
+    assert(factors.size() == row.n_channels);
+    std::complex<float>* data = bda_buffer->GetData() + row.offset;
+    for (std::size_t channel = 0; channel < row.n_channels; ++channel) {
+      for (std::size_t correlation = 0; correlation < row.n_correlations;
+           ++correlation) {
+        *data++ *= factors[channel];
+      }
+    }
   }
 
   itsTimer.stop();
diff --git a/steps/ScaleData.h b/steps/ScaleData.h
index 652ddb5..40a5260 100644
--- a/steps/ScaleData.h
+++ b/steps/ScaleData.h
@@ -93,6 +93,8 @@ class ScaleData : public Step {
   std::vector<std::vector<float>>
       itsStationFactors;             ///< scale factor per station,freq
   xt::xtensor<float, 3> itsFactors;  ///< scale factor per baseline,freq,pol
+  std::vector<std::vector<float>>
+      itsBdaFactors;  ///< scale factor per baseline,freq for BDA data
   common::NSTimer itsTimer;
 };
 
-- 
2.43.0


From 1eabe0ed3718e9a8dde7b287e9b767428399d3d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:12 +0000
Subject: [PATCH 34/77] fix: UVWFlagger must not square negative bounds of uv
 ranges

---
 steps/UVWFlagger.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/steps/UVWFlagger.cc b/steps/UVWFlagger.cc
index 8c9702f..374a112 100644
--- a/steps/UVWFlagger.cc
+++ b/steps/UVWFlagger.cc
@@ -363,7 +363,8 @@ std::vector<double> UVWFlagger::fillUVW(const common::ParameterSet& parset,
   if (square) {
     for (std::vector<double>::iterator iter = vals.begin(); iter != vals.end();
          ++iter) {
-      if (*iter != -1e15) {
+      // A distance is never negative, so keep a negative bound as is.
+      if (*iter > 0) {
         *iter = *iter * *iter;
       }
     }
-- 
2.43.0


From 181e4b009d3d987df5535dbc77b49e83ea48d3a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:12 +0000
Subject: [PATCH 35/77] fix: UVWFlagger ignored the frame given with the phase
 center

---
 steps/UVWFlagger.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/steps/UVWFlagger.cc b/steps/UVWFlagger.cc
index 374a112..0ba02df 100644
--- a/steps/UVWFlagger.cc
+++ b/steps/UVWFlagger.cc
@@ -401,8 +401,7 @@ void UVWFlagger::handleCenter() {
     casacore::MDirection::Types type = casacore::MDirection::J2000;
     if (itsCenter.size() > 2) {
       std::string str = boost::to_upper_copy(itsCenter[2]);
-      casacore::MDirection::Types tp;
-      if (!casacore::MDirection::getType(tp, str))
+      if (!casacore::MDirection::getType(type, str))
         throw std::runtime_error(str +
                                  " is an invalid direction type in UVWFlagger"
                                  " in UVWFlagger phasecenter");
-- 
2.43.0


From 16626c7c980eebf1a6aacacfc46360657746ced9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:37 +0000
Subject: [PATCH 36/77] fix: non-finite gains are replaced by the average of
 their own polarization

---
 ddecal/gain_solvers/SolverBase.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ddecal/gain_solvers/SolverBase.cc b/ddecal/gain_solvers/SolverBase.cc
index 093754c..9166e67 100644
--- a/ddecal/gain_solvers/SolverBase.cc
+++ b/ddecal/gain_solvers/SolverBase.cc
@@ -351,7 +351,7 @@ void SolverBase::MakeSolutionsFinite2Pol(
     for (std::vector<DComplex>::iterator iter = solution_vector.begin();
          iter != solution_vector.end(); iter += 2) {
       if (IsFinite(*iter) && IsFinite(*(iter + 1))) {
-        for (size_t p = 0; p != 2; ++p) average[p] += std::abs(iter[0]);
+        for (size_t p = 0; p != 2; ++p) average[p] += std::abs(iter[p]);
         ++count;
       }
     }
@@ -382,7 +382,7 @@ void SolverBase::MakeSolutionsFinite4Pol(
     for (std::vector<DComplex>::iterator iter = solution_vector.begin();
          iter != solution_vector.end(); iter += 4) {
       if (aocommon::Matrix2x2::IsFinite(&*iter)) {
-        for (size_t p = 0; p != 4; ++p) average[p] += std::abs(iter[0]);
+        for (size_t p = 0; p != 4; ++p) average[p] += std::abs(iter[p]);
         ++count;
       }
     }
-- 
2.43.0


From 62e3fdb49c2cda0a7c62fd939e884ea7b87af2b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:37 +0000
Subject: [PATCH 37/77] fix: HybridSolver subtracts the iterations of each
 solver once

---
 ddecal/gain_solvers/HybridSolver.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ddecal/gain_solvers/HybridSolver.cc b/ddecal/gain_solvers/HybridSolver.cc
index d9ecd54..bcd39d9 100644
--- a/ddecal/gain_solvers/HybridSolver.cc
+++ b/ddecal/gain_solvers/HybridSolver.cc
@@ -53,7 +53,7 @@ bool HybridSolver::RunSolver(SolverBase& solver, size_t& available_iterations,
   result.results = std::move(nextResult.results);
   const bool is_converged = nextResult.iterations <= solver.GetMaxIterations();
   if (is_converged)
-    available_iterations -= result.iterations;
+    available_iterations -= nextResult.iterations;
   else  // If not converged, the solver has taken the maximum nr of
         // iterations.
     available_iterations -= solver.GetMaxIterations();
-- 
2.43.0


From 3fa77d803516d0a3bd7cb08c0f68eabfe0c0a392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:37 +0000
Subject: [PATCH 38/77] fix: DiagonalAntennaSolver reports convergence

---
 ddecal/gain_solvers/DiagonalAntennaSolver.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ddecal/gain_solvers/DiagonalAntennaSolver.cc b/ddecal/gain_solvers/DiagonalAntennaSolver.cc
index 82b083e..9378e0d 100644
--- a/ddecal/gain_solvers/DiagonalAntennaSolver.cc
+++ b/ddecal/gain_solvers/DiagonalAntennaSolver.cc
@@ -188,7 +188,7 @@ DiagonalAntennaSolver::SolveResult DiagonalAntennaSolver::Solve(
         iteration, time, has_previously_converged, next_solutions);
 
     double avg_squared_diff;
-    bool has_converged =
+    has_converged =
         AssignSolutions(solutions, next_solutions, !constraints_satisfied,
                         avg_squared_diff, step_magnitudes);
     iteration++;
-- 
2.43.0


From 02d9757a13093160a7f7f365afbed5452ea6b0fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:37 +0000
Subject: [PATCH 39/77] fix: DiagonalLowRankSolver reports convergence

---
 ddecal/gain_solvers/DiagonalLowRankSolver.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ddecal/gain_solvers/DiagonalLowRankSolver.cc b/ddecal/gain_solvers/DiagonalLowRankSolver.cc
index 41a8421..2e64710 100644
--- a/ddecal/gain_solvers/DiagonalLowRankSolver.cc
+++ b/ddecal/gain_solvers/DiagonalLowRankSolver.cc
@@ -119,11 +119,11 @@ DiagonalLowRankSolver::SolveResult DiagonalLowRankSolver::Solve(
 
     Step(solutions, next_solutions);
 
-    bool constraints_satisfied = ApplyConstraints(
+    constraints_satisfied = ApplyConstraints(
         iteration, time, has_previously_converged, next_solutions);
 
     double avg_squared_diff;
-    bool has_converged =
+    has_converged =
         AssignSolutions(solutions, next_solutions, !constraints_satisfied,
                         avg_squared_diff, step_magnitudes);
     iteration++;
-- 
2.43.0


From 3c22d887d40c0dc5cc274ecc5e10ae5b64473a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:37 +0000
Subject: [PATCH 40/77] fix: DiagonalLowRankSolver does not divide by the zero
 model of flagged data

---
 ddecal/gain_solvers/DiagonalLowRankSolver.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ddecal/gain_solvers/DiagonalLowRankSolver.cc b/ddecal/gain_solvers/DiagonalLowRankSolver.cc
index 2e64710..be69e80 100644
--- a/ddecal/gain_solvers/DiagonalLowRankSolver.cc
+++ b/ddecal/gain_solvers/DiagonalLowRankSolver.cc
@@ -19,11 +19,12 @@ void AddToCorrelation(std::complex<float>& correlation_element,
                       const std::complex<float>& data, float weight,
                       const std::complex<float>& model) {
   if (std::isfinite(data.real()) && std::isfinite(data.imag())) {
-    const std::complex<float> division = data / model;
-    // VAR(division) = VAR(data / model) = VAR(data) / model^2
+    // VAR(data / model) = VAR(data) / model^2
     const float inv_divisor_variance = std::norm(model);
-    // Perform inverse-variance weighting, hence multiply with 1/model^2
-    correlation_element += weight * inv_divisor_variance * division;
+    // Perform inverse-variance weighting, hence multiply data / model with
+    // model^2. Because (data / model) * norm(model) = data * conj(model), there
+    // is no need to divide: the model is zero for flagged visibilities.
+    correlation_element += weight * data * std::conj(model);
     // VAR(weight * division / model^2) = VAR(data) * weight^2 / norm(model)^2 *
     // norm(model)^2
     variance_element +=
-- 
2.43.0


From 1d8a168d46ea65025ec7ed790562b92c3691e4d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:03 +0000
Subject: [PATCH 41/77] fix: SolveData of BDA data wrote weights out of bounds

---
 ddecal/gain_solvers/SolveData.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ddecal/gain_solvers/SolveData.cc b/ddecal/gain_solvers/SolveData.cc
index 57e0c61..8ac2435 100644
--- a/ddecal/gain_solvers/SolveData.cc
+++ b/ddecal/gain_solvers/SolveData.cc
@@ -252,7 +252,7 @@ SolveData<MatrixType>::SolveData(
         }
         if (with_weights) {
           for (size_t i = 0; i != channel_block_size; ++i) {
-            for (size_t p = 0; p != cb_data.weights_.shape()[2]; ++p) {
+            for (size_t p = 0; p != cb_data.weights_.shape()[1]; ++p) {
               cb_data.weights_(vis_index + i, p) =
                   1.0;  // TODO use real vis weights
             }
-- 
2.43.0


From 6965ab905ca5b7bc20b88b83a7ab152f68dc1e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:24 +0000
Subject: [PATCH 42/77] fix: weights of RotationConstraint results follow the
 order of their axes

---
 ddecal/constraints/RotationConstraint.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ddecal/constraints/RotationConstraint.cc b/ddecal/constraints/RotationConstraint.cc
index 0d3e50e..68cd141 100644
--- a/ddecal/constraints/RotationConstraint.cc
+++ b/ddecal/constraints/RotationConstraint.cc
@@ -26,8 +26,12 @@ void RotationConstraint::Initialize(
 void RotationConstraint::SetWeights(const std::vector<double>& weights) {
   ConstraintResult& result = results_.front();
   result.weights.clear();
-  for (size_t i = 0; i != NSubSolutions(); ++i) {
-    result.weights.insert(result.weights.end(), weights.begin(), weights.end());
+  for (size_t antenna = 0; antenna != NAntennas(); ++antenna) {
+    const auto begin = weights.begin() + antenna * NChannelBlocks();
+    for (size_t i = 0; i != NSubSolutions(); ++i) {
+      result.weights.insert(result.weights.end(), begin,
+                            begin + NChannelBlocks());
+    }
   }
 }
 
-- 
2.43.0


From b7455198745e686b462ff671cc4f54724a6d65a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:24 +0000
Subject: [PATCH 43/77] fix: rotation weights of RotationAndDiagonalConstraint
 follow the order of their axes

---
 ddecal/constraints/RotationAndDiagonalConstraint.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ddecal/constraints/RotationAndDiagonalConstraint.cc b/ddecal/constraints/RotationAndDiagonalConstraint.cc
index ccf4b21..d3887fb 100644
--- a/ddecal/constraints/RotationAndDiagonalConstraint.cc
+++ b/ddecal/constraints/RotationAndDiagonalConstraint.cc
@@ -180,9 +180,12 @@ void RotationAndDiagonalConstraint::SetWeights(
   assert(weights.size() == NAntennas() * NChannelBlocks());
   // weights is n_antennas * n_channel_blocks, so it needs to be broadcasted
   // over n_sub_solutions.
-  for (size_t i = 0; i != NSubSolutions(); ++i) {
-    std::copy_n(weights.data(), weights.size(),
-                &results_[0].weights[NAntennas() * NChannelBlocks() * i]);
+  for (size_t antenna = 0; antenna != NAntennas(); ++antenna) {
+    for (size_t i = 0; i != NSubSolutions(); ++i) {
+      std::copy_n(&weights[antenna * NChannelBlocks()], NChannelBlocks(),
+                  &results_[0].weights[(antenna * NSubSolutions() + i) *
+                                       NChannelBlocks()]);
+    }
   }
 
   // Duplicate weights for one or two polarizations and broadcast these over the
-- 
2.43.0


From 6d9208364d746d8c7934db650a4490f0dce303a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:24 +0000
Subject: [PATCH 44/77] fix: diverged solutions are flagged for the
 sub-solution that diverged

---
 ddecal/constraints/RotationAndDiagonalConstraint.cc | 13 ++++++++-----
 ddecal/constraints/RotationAndDiagonalConstraint.h  |  4 ++--
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/ddecal/constraints/RotationAndDiagonalConstraint.cc b/ddecal/constraints/RotationAndDiagonalConstraint.cc
index d3887fb..5a70ce3 100644
--- a/ddecal/constraints/RotationAndDiagonalConstraint.cc
+++ b/ddecal/constraints/RotationAndDiagonalConstraint.cc
@@ -236,10 +236,13 @@ void RotationAndDiagonalConstraint::FitRotationAndDiagonal(
 
 template <size_t PolCount>
 void RotationAndDiagonalConstraint::SetChannelWeights(
-    std::vector<double>& values, size_t channel, double new_value) const {
+    std::vector<double>& values, size_t sub_solution, size_t channel,
+    double new_value) const {
   for (size_t antenna = 0; antenna != NAntennas(); ++antenna) {
+    const size_t index =
+        (antenna * NSubSolutions() + sub_solution) * NChannelBlocks() + channel;
     for (size_t p = 0; p != PolCount; ++p) {
-      values[(antenna * NChannelBlocks() + channel) * PolCount + p] = new_value;
+      values[index * PolCount + p] = new_value;
     }
   }
 }
@@ -344,12 +347,12 @@ void RotationAndDiagonalConstraint::Apply(SolutionSpan& solutions,
       // weights of all antennas to a negative value for flagging later if
       // desired
       if (diverged) {
-        SetChannelWeights<1>(results_[0].weights, ch, -1.0);
+        SetChannelWeights<1>(results_[0].weights, sub_solution, ch, -1.0);
         for (size_t i = 1; i != results_.size(); ++i) {
           if (GetNPolarizations(diagonal_solution_type_) == 1)
-            SetChannelWeights<1>(results_[i].weights, ch, -1.0);
+            SetChannelWeights<1>(results_[i].weights, sub_solution, ch, -1.0);
           else
-            SetChannelWeights<2>(results_[i].weights, ch, -1.0);
+            SetChannelWeights<2>(results_[i].weights, sub_solution, ch, -1.0);
         }
       }
     }
diff --git a/ddecal/constraints/RotationAndDiagonalConstraint.h b/ddecal/constraints/RotationAndDiagonalConstraint.h
index d42b49c..8a29824 100644
--- a/ddecal/constraints/RotationAndDiagonalConstraint.h
+++ b/ddecal/constraints/RotationAndDiagonalConstraint.h
@@ -37,8 +37,8 @@ class RotationAndDiagonalConstraint final : public Constraint {
       std::array<std::complex<double>, 2>& diagonal) const;
 
   template <size_t PolCount>
-  void SetChannelWeights(std::vector<double>& values, size_t channel,
-                         double new_value) const;
+  void SetChannelWeights(std::vector<double>& values, size_t sub_solution,
+                         size_t channel, double new_value) const;
 
   std::vector<ConstraintResult> results_;
   bool do_rotation_reference_;
-- 
2.43.0


From dd51c6668abf6373ce7c5515518f5a931a32fb11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:24 +0000
Subject: [PATCH 45/77] fix: RotationAndDiagonalConstraint limits the
 amplitudes, each to its own mean

---
 .../RotationAndDiagonalConstraint.cc          | 25 ++++++++-----------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/ddecal/constraints/RotationAndDiagonalConstraint.cc b/ddecal/constraints/RotationAndDiagonalConstraint.cc
index 5a70ce3..ea5af5d 100644
--- a/ddecal/constraints/RotationAndDiagonalConstraint.cc
+++ b/ddecal/constraints/RotationAndDiagonalConstraint.cc
@@ -20,22 +20,17 @@ bool dataIsValid(const std::complex<double>* const data,
 }
 
 /// Adjusts the magnitude of value to fall within a specified range from
-/// mean_abs. Returns true if the initial value was already within the range,
-/// false otherwise.
+/// mean_abs. Returns false if the initial value was already within the range,
+/// true otherwise.
 bool Limit(std::complex<double>& value, double mean_abs, double max_ratio) {
-  if (mean_abs > 0.0) {
-    if (std::abs(value) / mean_abs < 1.0 / max_ratio ||
-        std::abs(value) / mean_abs > max_ratio) {
-      return true;
-    }
-    do {
-      value *= 1.2;
-    } while (std::abs(value) / mean_abs < 1.0 / max_ratio);
-    do {
-      value /= 1.2;
-    } while (std::abs(value) / mean_abs > max_ratio);
+  const double ratio = std::abs(value) / mean_abs;
+  if (ratio >= 1.0 / max_ratio && ratio <= max_ratio) return false;
+  // Zero and infinite values cannot be brought into the range by scaling.
+  if (ratio > 0.0 && std::isfinite(ratio)) {
+    while (std::abs(value) / mean_abs < 1.0 / max_ratio) value *= 1.2;
+    while (std::abs(value) / mean_abs > max_ratio) value /= 1.2;
   }
-  return false;
+  return true;
 }
 
 }  // namespace
@@ -313,7 +308,7 @@ void RotationAndDiagonalConstraint::Apply(SolutionSpan& solutions,
         if (a_mean > 0.0 && Limit(diagonal[0], a_mean, maxratio)) {
           diverged = true;
         }
-        if (b_mean > 0.0 && Limit(diagonal[1], a_mean, maxratio)) {
+        if (b_mean > 0.0 && Limit(diagonal[1], b_mean, maxratio)) {
           diverged = true;
         }
 
-- 
2.43.0


From 627a3d40ba3b2a64c02c15624d84d79cb97dccf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:24 +0000
Subject: [PATCH 46/77] fix: FaradayConstraint multiplies diagonal and rotation
 in the order that was fitted

---
 ddecal/constraints/FaradayConstraint.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ddecal/constraints/FaradayConstraint.cc b/ddecal/constraints/FaradayConstraint.cc
index e5510dd..8837714 100644
--- a/ddecal/constraints/FaradayConstraint.cc
+++ b/ddecal/constraints/FaradayConstraint.cc
@@ -178,8 +178,8 @@ void FaradayConstraint::PerformFit(SolutionSpan& solutions, size_t sub_solution,
                     NChannelBlocks(), NSubSolutions(), diagonal_solution_type_);
     RotationConstraint::SetRotation(data, angle);
     data[0] *= diagonal[0];
-    data[1] *= diagonal[1];
-    data[2] *= diagonal[0];
+    data[1] *= diagonal[0];
+    data[2] *= diagonal[1];
     data[3] *= diagonal[1];
   }
 }
-- 
2.43.0


From 84efab2f9c9e986221461feb0ce93856a7c88687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:24 +0000
Subject: [PATCH 47/77] fix: the searched range of Faraday rotations is that of
 the given limit

---
 ddecal/constraints/FaradayConstraint.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ddecal/constraints/FaradayConstraint.cc b/ddecal/constraints/FaradayConstraint.cc
index 8837714..a9162ca 100644
--- a/ddecal/constraints/FaradayConstraint.cc
+++ b/ddecal/constraints/FaradayConstraint.cc
@@ -31,10 +31,11 @@ void FaradayConstraint::Initialize(
   fit_range_ = common::phase_fitting::GetRange(grid);
   if (max_rotation_value_) {
     assert(*max_rotation_value_ > 0.0);
-    if (fit_range_.wrap_step * fit_range_.max_wraps > *max_rotation_value_ &&
+    // The fitted slope is that of twice the rotation angle.
+    const double max_slope = 2.0 * *max_rotation_value_;
+    if (fit_range_.wrap_step * fit_range_.max_wraps > max_slope &&
         fit_range_.wrap_step != 0.0) {
-      fit_range_.max_wraps =
-          std::ceil(*max_rotation_value_ / fit_range_.wrap_step);
+      fit_range_.max_wraps = std::ceil(max_slope / fit_range_.wrap_step);
     }
   }
 
-- 
2.43.0


From fb18c195d6127237b01535be118edece336095ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:24 +0000
Subject: [PATCH 48/77] fix: weights of Faraday results have a value for each
 polarization

---
 ddecal/constraints/FaradayConstraint.cc | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/ddecal/constraints/FaradayConstraint.cc b/ddecal/constraints/FaradayConstraint.cc
index a9162ca..17d1f9f 100644
--- a/ddecal/constraints/FaradayConstraint.cc
+++ b/ddecal/constraints/FaradayConstraint.cc
@@ -89,6 +89,7 @@ void FaradayConstraint::SetSubSolutionWeights(
   sub_solution_weights_ = sub_solution_weights;
   for (ConstraintResult& result : results_) result.weights.clear();
   ConstraintResult& rm_result = results_.front();
+  const size_t n_polarizations = GetNPolarizations(diagonal_solution_type_);
   for (size_t antenna = 0; antenna != NAntennas(); ++antenna) {
     for (const std::vector<double>& weights : sub_solution_weights) {
       const double* antenna_weights = &weights[antenna * NChannelBlocks()];
@@ -96,8 +97,12 @@ void FaradayConstraint::SetSubSolutionWeights(
       for (size_t channel = 0; channel != NChannelBlocks(); ++channel) {
         weight_sum += antenna_weights[channel];
         for (size_t result_index = 1; result_index < results_.size();
-             ++result_index)
-          results_[result_index].weights.emplace_back(antenna_weights[channel]);
+             ++result_index) {
+          for (size_t p = 0; p != n_polarizations; ++p) {
+            results_[result_index].weights.emplace_back(
+                antenna_weights[channel]);
+          }
+        }
       }
       rm_result.weights.emplace_back(weight_sum);
     }
@@ -107,7 +112,7 @@ void FaradayConstraint::SetSubSolutionWeights(
 void FaradayConstraint::Apply(SolutionSpan& solutions, double time) {
   assert(solutions.shape(0) == NChannelBlocks());
   assert(solutions.shape(1) == NAntennas());
-  assert(solutions.shape(2) == NDirections());
+  assert(solutions.shape(2) == NSubSolutions());
   assert(solutions.shape(3) == 4);  // 2x2 full jones solutions
   assert(sub_solution_weights_.size() == NSubSolutions());
   const size_t n_fits = NAntennas() * NSubSolutions();
-- 
2.43.0


From ec45c62fc37ef58f509c18bcab2daa33bb148a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:35 +0000
Subject: [PATCH 49/77] fix: apply time smearing to full-Stokes point sources
 without frequency smearing

---
 base/Simulator.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/Simulator.cc b/base/Simulator.cc
index 52f2ae6..0342e4d 100644
--- a/base/Simulator.cc
+++ b/base/Simulator.cc
@@ -255,7 +255,7 @@ void Simulator::visit(const PointSource& component) {
           ++y_q;
         }  // Channels.
 
-        if (itsCorrectFreqSmearing) {
+        if (itsCorrectTimeSmearing || itsCorrectFreqSmearing) {
 #pragma GCC ivdep
           for (size_t ch = 0; ch < itsNChannel; ++ch) {
             *buffer++ += dcomplex(smear_terms[ch] * temp_prod_real_I[ch],
-- 
2.43.0


From e9d42a7c19d21f919ae5adce9d861e92eaec386b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:49 +0000
Subject: [PATCH 50/77] fix: an empty sky model format string selects the
 default format

---
 sky_model/ReadSkyModel.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sky_model/ReadSkyModel.cc b/sky_model/ReadSkyModel.cc
index c8cab68..2c124b0 100644
--- a/sky_model/ReadSkyModel.cc
+++ b/sky_model/ReadSkyModel.cc
@@ -231,9 +231,9 @@ SdbFormat getFormat(const std::string& format) {
     sdbf.fieldNrs[i] = -1;
   }
   // Use default if the string is empty.
-  if (st >= end - 1) {
+  if (st + 1 >= end) {
     char sep = ',';
-    if (st == end - 1) sep = format[st];
+    if (st + 1 == end) sep = format[st];
     for (unsigned int i = 0; i < NrKnownFields; ++i) {
       sdbf.fieldNrs[i] = i;
       sdbf.sep.push_back(sep);
-- 
2.43.0


From 201f0b2b1942413ade7b17ee433ad8fa1ba96ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:49 +0000
Subject: [PATCH 51/77] fix: keep the sign of sky model positions with -0
 degrees or hours

---
 sky_model/ReadSkyModel.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sky_model/ReadSkyModel.cc b/sky_model/ReadSkyModel.cc
index 2c124b0..d39fed1 100644
--- a/sky_model/ReadSkyModel.cc
+++ b/sky_model/ReadSkyModel.cc
@@ -504,7 +504,8 @@ double string2pos(const std::vector<std::string>& values, int pnr, int hnr,
         fnd = true;
       }
     }
-    if (deg < 0) {
+    // Also handles a negative zero, as in "-0" degrees and 30 minutes.
+    if (std::signbit(deg)) {
       deg -= ms / 60;
     } else {
       deg += ms / 60;
-- 
2.43.0


From 9531ecacdfc1baf0611bd753b5d4a213073162a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:49 +0000
Subject: [PATCH 52/77] fix: accept quoted positions in sky models, like other
 quoted values

---
 sky_model/ReadSkyModel.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/sky_model/ReadSkyModel.cc b/sky_model/ReadSkyModel.cc
index d39fed1..a252fa0 100644
--- a/sky_model/ReadSkyModel.cc
+++ b/sky_model/ReadSkyModel.cc
@@ -470,8 +470,8 @@ double string2pos(const std::vector<std::string>& values, int pnr, int hnr,
               "Colons cannot be used in declination value " + value);
       }
       casacore::Quantity q;
-      if (!casacore::MVAngle::read(q, values[pnr]))
-        throw std::runtime_error("Error in reading position " + values[pnr]);
+      if (!casacore::MVAngle::read(q, value))
+        throw std::runtime_error("Error in reading position " + value);
       deg = q.getValue("deg");
       fnd = true;
     }
@@ -479,13 +479,13 @@ double string2pos(const std::vector<std::string>& values, int pnr, int hnr,
     if (hnr >= 0) {
       std::string value = getValue(values, hnr);
       if (!value.empty()) {
-        deg = string2real(values[hnr], 0);
+        deg = string2real(value, 0);
         fnd = true;
       }
     } else if (dnr >= 0) {
       std::string value = getValue(values, dnr);
       if (!value.empty()) {
-        deg = string2real(values[dnr], 0);
+        deg = string2real(value, 0);
         fnd = true;
       }
     }
@@ -493,14 +493,14 @@ double string2pos(const std::vector<std::string>& values, int pnr, int hnr,
     if (mnr >= 0) {
       std::string value = getValue(values, mnr);
       if (!value.empty()) {
-        ms = string2real(values[mnr], 0);
+        ms = string2real(value, 0);
         fnd = true;
       }
     }
     if (snr >= 0) {
       std::string value = getValue(values, snr);
       if (!value.empty()) {
-        ms += string2real(values[snr], 0) / 60;
+        ms += string2real(value, 0) / 60;
         fnd = true;
       }
     }
-- 
2.43.0


From 5c5187a8cc1ea322ea5107de6c45e47eb67f5e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:49 +0000
Subject: [PATCH 53/77] fix: polarized fraction of sources with a polynomial
 spectrum

---
 sky_model/ReadSkyModel.cc | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/sky_model/ReadSkyModel.cc b/sky_model/ReadSkyModel.cc
index a252fa0..03514d8 100644
--- a/sky_model/ReadSkyModel.cc
+++ b/sky_model/ReadSkyModel.cc
@@ -636,28 +636,35 @@ void fillShapelet(SourceInfo& srcInfo, const std::string& shpI,
 // A spectral index can be used to calculate Stokes I.
 void calcRMParam(double& polfrac, double& polang, double fluxi0, double fluxq,
                  double fluxu, const std::vector<double>& spectralIndices,
-                 double rm, double refFreq, double rmRefWavel) {
+                 bool useLogSI, double rm, double refFreq,
+                 double rmRefWavel) {
   // polfrac = sqrt(q^2 + u^2) / i
-  // where i = i(0) * spectral_index
-  // Compute spectral index for the RM reference wavelength as:
+  // where i is Stokes I at the RM reference wavelength.
+  // For a logarithmic spectral index, i = i(0) * spectral_index. Compute spectral index for the RM reference wavelength as:
   // (v / v0) ^ (c0 + c1 * log10(v / v0) + c2 * log10(v / v0)^2 + ...)
   // Where v is the RM frequency and v0 is the spectral index reference
-  // frequency.
-  double si = 1;
+  // frequency. Otherwise, i = i(0) + c0 * (v/v0 - 1) + c1 * (v/v0 - 1)^2 + ...
+  double fluxi = fluxi0;
   if (spectralIndices.size() > 0) {
     if (rmRefWavel <= 0)
       throw std::runtime_error("No RM reference wavelength given");
     double rmFreq = casacore::C::c / rmRefWavel;
     double vv0 = rmFreq / refFreq;
     double factor = 1;
-    double sum = 0;
-    for (unsigned int i = 0; i < spectralIndices.size(); ++i) {
-      sum += factor * spectralIndices[i];
-      factor *= log10(vv0);
+    if (useLogSI) {
+      double sum = 0;
+      for (unsigned int i = 0; i < spectralIndices.size(); ++i) {
+        sum += factor * spectralIndices[i];
+        factor *= log10(vv0);
+      }
+      fluxi *= std::pow(vv0, sum);
+    } else {
+      for (unsigned int i = 0; i < spectralIndices.size(); ++i) {
+        factor *= vv0 - 1.0;
+        fluxi += factor * spectralIndices[i];
+      }
     }
-    si = std::pow(vv0, sum);
   }
-  double fluxi = fluxi0 * si;
   polfrac = sqrt(fluxq * fluxq + fluxu * fluxu) / fluxi;
   // Calculate polang(0) from Q and U given for the reference lambda.
   // polang = atan2(u,q) / 2
@@ -792,8 +799,8 @@ void process(const std::string& line, dp3::sky_model::SkyModel& pdb,
     double pfrac = string2real(polFrac, 0.);
     double pang = string2real(polAng, 0.);
     if (!fluxQ.empty()) {
-      calcRMParam(pfrac, pang, fluxI, fq, fu, spectralIndices, rmval, refFreq,
-                  rmRefWavel);
+      calcRMParam(pfrac, pang, fluxI, fq, fu, spectralIndices, useLogSI, rmval,
+                  refFreq, rmRefWavel);
     }
     add(fieldValues, PolFracNr, pfrac);
     add(fieldValues, PolAngNr, pang);
-- 
2.43.0


From 32c86925454505b0908b49c2261ab55cac9e8938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:38 +0000
Subject: [PATCH 54/77] fix: direction of clustered sources across the origin
 of right ascension or near a pole

---
 sky_model/SkyModelFunctions.cc | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/sky_model/SkyModelFunctions.cc b/sky_model/SkyModelFunctions.cc
index a679830..0c127eb 100644
--- a/sky_model/SkyModelFunctions.cc
+++ b/sky_model/SkyModelFunctions.cc
@@ -195,15 +195,11 @@ std::vector<std::shared_ptr<Patch>> clusterProximateSources(
   std::vector<std::shared_ptr<Patch>> clusteredPatchList;
   for (const auto& groups : clusters) {
     std::vector<std::shared_ptr<ModelComponent>> componentsInPatch;
-    double alpha = 0.0;
-    double delta = 0.0;
     for (const auto& component : groups) {
       auto lookupIndices = lookup_table[component];
       const auto& patch = patch_list[lookupIndices.first];
       const std::shared_ptr<ModelComponent>& comp =
           *(patch->begin() + lookupIndices.second);
-      alpha += comp->direction().ra;
-      delta += comp->direction().dec;
       componentsInPatch.emplace_back(comp);
     }
     const std::shared_ptr<Patch>& firstPatch =
@@ -211,8 +207,6 @@ std::vector<std::shared_ptr<Patch>> clusterProximateSources(
     std::shared_ptr<Patch> ppatch = std::make_shared<Patch>(
         firstPatch->Name() + "_" + std::to_string(clusteredPatchList.size()),
         componentsInPatch.begin(), componentsInPatch.end());
-    ppatch->SetDirection(
-        Direction(alpha / groups.size(), delta / groups.size()));
     clusteredPatchList.push_back(std::move(ppatch));
   }
 
-- 
2.43.0


From f52b7963d6fbca2b70ca0881271fe11963495081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:29 +0000
Subject: [PATCH 55/77] fix: the MADFlagger needs the existing flags

Without the flags as required field, the flags in the measurement set (and
those for NaNs) were not read, and replaced by the new ones.
---
 steps/MadFlagger.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/steps/MadFlagger.h b/steps/MadFlagger.h
index adb0aed..a47b219 100644
--- a/steps/MadFlagger.h
+++ b/steps/MadFlagger.h
@@ -65,7 +65,9 @@ class MadFlagger : public Step {
 
   ~MadFlagger() override;
 
-  common::Fields getRequiredFields() const override { return kDataField; }
+  common::Fields getRequiredFields() const override {
+    return kDataField | kFlagsField;
+  }
 
   common::Fields getProvidedFields() const override { return kFlagsField; }
 
-- 
2.43.0


From 2b14f07282f44a1dde5793ac0a9286686fcf28f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:29 +0000
Subject: [PATCH 56/77] fix: check the correlations given to the MADFlagger

The given values were used as index in the list of values.
---
 steps/MadFlagger.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/steps/MadFlagger.cc b/steps/MadFlagger.cc
index 5504ed3..3ff6ba0 100644
--- a/steps/MadFlagger.cc
+++ b/steps/MadFlagger.cc
@@ -137,8 +137,8 @@ void MadFlagger::updateInfo(const DPInfo& infoIn) {
   } else {
     for (const unsigned int ip : itsFlagCorr) {
       // Only take valid corrrelations.
-      if (itsFlagCorr[ip] < ncorr) {
-        flagCorr.push_back(itsFlagCorr[ip]);
+      if (ip < ncorr) {
+        flagCorr.push_back(ip);
       }
     }
     // If no valid left, use first one.
-- 
2.43.0


From 659ed8816ccf89f27c3d26fda261f176f367126a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:30 +0000
Subject: [PATCH 57/77] fix: MADFlagger medians use only the unflagged values
 in the window

The medians were taken over the whole buffer, including values of earlier
calls (other baselines and correlations) when there is flagged data or the
window of a baseline is smaller than that of others.
---
 steps/MadFlagger.cc | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/steps/MadFlagger.cc b/steps/MadFlagger.cc
index 3ff6ba0..ce4c313 100644
--- a/steps/MadFlagger.cc
+++ b/steps/MadFlagger.cc
@@ -329,7 +329,7 @@ void MadFlagger::flag(unsigned int index,
 
   // Create thread-private counter.
   for (ThreadData& data : threadData) {
-    data.tempBuffer.resize(itsFreqWindow * timeEntries.size());
+    data.tempBuffer.reserve(itsFreqWindow * timeEntries.size());
     data.counter.init(getInfoOut());
   }
 
@@ -403,7 +403,8 @@ void MadFlagger::computeFactors(const std::vector<unsigned int>& timeEntries,
   moveTimer.start();
   // Collect all non-flagged data points for given baseline, channel,
   // and correlation in the window around the channel.
-  unsigned int np = 0;
+  // The buffer may have a larger size, and values of previous calls.
+  tempBuffer.clear();
   // At the beginning or end of the window the values are wrapped.
   // So we might need to move in two parts.
   // This little piece of code is tested in tMirror.cc.
@@ -433,26 +434,26 @@ void MadFlagger::computeFactors(const std::vector<unsigned int>& timeEntries,
     // Now move data from the two channel parts.
     for (int i = s1 * ncorr; i < e1 * ncorr; i += ncorr) {
       if (!flagPtr[i]) {
-        tempBuffer[np++] = dataPtr[i];
+        tempBuffer.push_back(dataPtr[i]);
       }
     }
     for (int i = s2 * ncorr; i < e2 * ncorr; i += ncorr) {
       if (!flagPtr[i]) {
-        tempBuffer[np++] = dataPtr[i];
+        tempBuffer.push_back(dataPtr[i]);
       }
     }
   }
   moveTimer.stop();
   // If only flagged data, don't do anything.
-  if (np == 0) {
+  if (tempBuffer.empty()) {
     Z1 = -1.0;
     Z2 = 0.0;
   } else {
     medianTimer.start();
     // Get median of data and get median of absolute difference.
     Z1 = dp3::common::Median(tempBuffer);
-    for (unsigned int i = 0; i < np; ++i) {
-      tempBuffer[i] = std::abs(tempBuffer[i] - Z1);
+    for (float& value : tempBuffer) {
+      value = std::abs(value - Z1);
     }
     Z2 = dp3::common::Median(tempBuffer);
     medianTimer.stop();
-- 
2.43.0


From 3e4412803f47b814375f7455d51727d10b469ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:45 +0000
Subject: [PATCH 58/77] fix: MADFlagger time windows when fewer time slots
 arrive than expected

Keep the entries at their place in the circular buffer, limit the window of
each baseline, and handle having no time slots at all.
---
 steps/MadFlagger.cc | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/steps/MadFlagger.cc b/steps/MadFlagger.cc
index ce4c313..877ec47 100644
--- a/steps/MadFlagger.cc
+++ b/steps/MadFlagger.cc
@@ -200,40 +200,41 @@ void MadFlagger::finish() {
   itsTimer.start();
   // Adjust window size if there are fewer time entries.
   if (itsNTimes < itsTimeWindow) {
-    itsTimeWindow = 1 + ((itsNTimes - 1) / 2) * 2;  // make sure it is odd
+    // Make sure it is odd.
+    itsTimeWindow = 1 + ((std::max(itsNTimes, 1u) - 1) / 2) * 2;
   }
+  // The entries stay at their place in itsBuffers.
+  const unsigned int nBuffers = itsBuffers.size();
   unsigned int halfWindow = itsTimeWindow / 2;
   std::vector<unsigned int> timeEntries(itsTimeWindow);
   // Process possible leading entries.
   // This can happen if the window was larger than number of times.
-  while (itsNTimesDone < itsNTimes - halfWindow) {
+  while (itsNTimesDone + halfWindow < itsNTimes) {
     // Process in the same way as in process.
     unsigned int inx = 0;
-    timeEntries[inx++] = itsNTimesDone % itsTimeWindow;  // center
+    timeEntries[inx++] = itsNTimesDone % nBuffers;  // center
     for (unsigned int i = 1; i <= halfWindow; ++i) {
-      timeEntries[inx++] =
-          std::abs(int(itsNTimesDone) - int(i)) % itsTimeWindow;
-      timeEntries[inx++] = (itsNTimesDone + i) % itsTimeWindow;
+      timeEntries[inx++] = std::abs(int(itsNTimesDone) - int(i)) % nBuffers;
+      timeEntries[inx++] = (itsNTimesDone + i) % nBuffers;
     }
-    flag(itsNTimesDone, timeEntries);
+    flag(itsNTimesDone % nBuffers, timeEntries);
     itsNTimesDone++;
   }
   assert(itsNTimes - itsNTimesDone == halfWindow);
   // Process the remaining time entries.
   while (itsNTimesDone < itsNTimes) {
     unsigned int inx = 0;
-    timeEntries[inx++] = itsNTimesDone % itsTimeWindow;  // center
+    timeEntries[inx++] = itsNTimesDone % nBuffers;  // center
     for (unsigned int i = 1; i <= halfWindow; ++i) {
-      timeEntries[inx++] =
-          std::abs(int(itsNTimesDone) - int(i)) % itsTimeWindow;
+      timeEntries[inx++] = std::abs(int(itsNTimesDone) - int(i)) % nBuffers;
       // Time entries might need to be mirrored at the end.
       unsigned int ri = itsNTimesDone + i;
       if (ri >= itsNTimes) {
         ri = 2 * (itsNTimes - 1) - ri;
       }
-      timeEntries[inx++] = ri % itsTimeWindow;
+      timeEntries[inx++] = ri % nBuffers;
     }
-    flag(itsNTimesDone % itsTimeWindow, timeEntries);
+    flag(itsNTimesDone % nBuffers, timeEntries);
     itsNTimesDone++;
   }
   itsTimer.stop();
@@ -423,7 +424,8 @@ void MadFlagger::computeFactors(const std::vector<unsigned int>& timeEntries,
   }
   // Iterate over all time entries.
   const unsigned int* iter = &(timeEntries[0]);
-  const unsigned int* endIter = iter + itsTimeWindowArr[bl];
+  const unsigned int* endIter =
+      iter + std::min<size_t>(itsTimeWindowArr[bl], timeEntries.size());
   for (; iter != endIter; ++iter) {
     const base::DPBuffer& inbuf = *itsBuffers[*iter];
     const xt::xtensor<float, 3>& ampl = itsAmplitudes[*iter];
-- 
2.43.0


From bda9ea3bd761d170444260f05a45e6ff62d5e2c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:21 +0000
Subject: [PATCH 59/77] fix: read the data that autoweight needs, also when no
 step needs them

AutoWeight() uses the data of the autocorrelations. When only the weights
had to be read, the data were not read and it read outside the buffer.
---
 steps/MsReader.cc | 6 ++++++
 steps/MsReader.h  | 4 ++++
 2 files changed, 10 insertions(+)

diff --git a/steps/MsReader.cc b/steps/MsReader.cc
index a006e4e..f95db44 100644
--- a/steps/MsReader.cc
+++ b/steps/MsReader.cc
@@ -166,6 +166,12 @@ MsReader::MsReader(const casacore::MeasurementSet& ms,
 
 std::string MsReader::msName() const { return ms_.tableName(); }
 
+void MsReader::setFieldsToRead(const common::Fields& fields) {
+  common::Fields fields_to_read = fields;
+  if (auto_weight_ && fields.Weights()) fields_to_read |= kDataField;
+  InputStep::setFieldsToRead(fields_to_read);
+}
+
 bool MsReader::process(std::unique_ptr<DPBuffer> buffer) {
   const std::array<std::size_t, 3> shape{
       getInfoOut().nbaselines(), getInfoOut().nchan(), getInfoOut().ncorr()};
diff --git a/steps/MsReader.h b/steps/MsReader.h
index 214b241..50c42d2 100644
--- a/steps/MsReader.h
+++ b/steps/MsReader.h
@@ -114,6 +114,10 @@ class MsReader : public InputStep {
   /// Finish the processing of this step and subsequent steps.
   void finish() override;
 
+  /// Set the fields that must be read.
+  /// When autoweight is on, the weights depend on the (autocorrelation) data.
+  void setFieldsToRead(const dp3::common::Fields& fields) override;
+
   /// Do nothing, since MsReader sets its info in the constructor.
   void updateInfo(const base::DPInfo&) override {}
 
-- 
2.43.0


From 21fa640ab31ba11ae5bf0956b51fc1e20b5293d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:21 +0000
Subject: [PATCH 60/77] fix: keep the last time slot when msin.endtime is its
 center

Parsing a date/time gives a rounding error of about a microsecond, so that
rounding down to a multiple of the interval dropped the time slot whose
center was given as the end time in about half of the cases.
---
 steps/MsReader.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/steps/MsReader.cc b/steps/MsReader.cc
index f95db44..9e2ba29 100644
--- a/steps/MsReader.cc
+++ b/steps/MsReader.cc
@@ -529,9 +529,13 @@ void MsReader::ParseTimeSelection(const common::ParameterSet& parset,
           "Specified end time " + endTimeStr +
           " is before the first timestep in the measurement set");
     }
-    // Round specified last time to a multiple of 'interval'.
-    last_time =
-        first_time + std::floor((last_time - first_time) / interval) * interval;
+    // Round specified last time down to a multiple of 'interval'. The tolerance
+    // keeps the last time slot if the specified time is the center of that slot,
+    // since parsing a date/time gives rounding errors.
+    constexpr double kTolerance = 1.0e-3;
+    last_time = first_time +
+                std::floor((last_time - first_time) / interval + kTolerance) *
+                    interval;
   } else if (nTimes > 0) {
     last_time = first_time + (nTimes - 1) * interval;
   }
-- 
2.43.0


From 9be05b270f36a43d094da00d70cbcd9d8cbc1135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:56 +0000
Subject: [PATCH 61/77] fix: accept the center of the last time slot as
 msin.starttime

Parsing a date/time gives a rounding error of about a microsecond, so that
the center of the last time slot could be refused for being past the end.
---
 steps/MsReader.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/steps/MsReader.cc b/steps/MsReader.cc
index 9e2ba29..28cc847 100644
--- a/steps/MsReader.cc
+++ b/steps/MsReader.cc
@@ -484,7 +484,7 @@ void MsReader::ParseTimeSelection(const common::ParameterSet& parset,
     first_time = qtime.getValue("s");
     // the parset specified start time is allowed to be before the msstarttime.
     // In that case, flagged samples are injected.
-    if (first_time > last_time)
+    if (first_time > last_time && !casacore::near(first_time, last_time))
       throw std::runtime_error("Specified starttime is past end of time axis");
 
     // If needed, skip the first times in the MS.
-- 
2.43.0


From 6d3443bbc47643326d99dae5b037e7ea6692f0c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:37 +0000
Subject: [PATCH 62/77] fix: read the flags that MSUpdater needs for
 compressing with dysco

---
 steps/MSUpdater.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/steps/MSUpdater.cc b/steps/MSUpdater.cc
index 25a4ab2..6d63cbf 100644
--- a/steps/MSUpdater.cc
+++ b/steps/MSUpdater.cc
@@ -242,6 +242,11 @@ common::Fields MSUpdater::getRequiredFields() const {
   if (GetFieldsToWrite().Data()) fields |= kDataField;
   if (GetFieldsToWrite().Flags()) fields |= kFlagsField;
   if (GetFieldsToWrite().Weights()) fields |= kWeightsField;
+  // Compressing the data or weights needs the flags, see process().
+  if (itsStManKeys.storage_manager_name == "dysco" &&
+      (GetFieldsToWrite().Data() || GetFieldsToWrite().Weights())) {
+    fields |= kFlagsField;
+  }
   return fields;
 }
 
-- 
2.43.0


From 25a647c59eecee5e3e3e0f6f1177c656bef98711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:37 +0000
Subject: [PATCH 63/77] fix: do not write fields that were not read when the
 weights come from WEIGHT

---
 steps/MSUpdater.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/steps/MSUpdater.cc b/steps/MSUpdater.cc
index 6d63cbf..7894a36 100644
--- a/steps/MSUpdater.cc
+++ b/steps/MSUpdater.cc
@@ -256,6 +256,12 @@ void MSUpdater::SetFieldsToWrite(const common::Fields& base_fields) {
   if (!itsDataColName.empty()) fields |= kDataField;
   if (!itsFlagColName.empty()) fields |= kFlagsField;
   if (!itsWeightColName.empty()) fields |= kWeightsField;
+  // Weights that are read from the WEIGHT column, which has no channels, are
+  // always written, to WEIGHT_SPECTRUM.
+  if (itsWeightColName.empty() &&
+      itsParset.getString("msin.weightcolumn", "") == "WEIGHT") {
+    fields |= kWeightsField;
+  }
   OutputStep::SetFieldsToWrite(fields);
 }
 
@@ -287,7 +293,6 @@ Specify a name in the parset for "msout".)");
   if (itsWeightColName.empty()) {
     if (infoIn.weightColumnName() == "WEIGHT") {
       itsWeightColName = "WEIGHT_SPECTRUM";
-      SetFieldsToWrite(GetFieldsToWrite() | kWeightsField);
     } else {
       itsWeightColName = infoIn.weightColumnName();
     }
-- 
2.43.0


From edf4f32c0119c9c3fca713c1b671bd791e9acab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:12 +0000
Subject: [PATCH 64/77] fix: MsColumnReader gives BDA data for BDA input

---
 steps/MsColumnReader.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/steps/MsColumnReader.h b/steps/MsColumnReader.h
index 848db7d..701d3f5 100644
--- a/steps/MsColumnReader.h
+++ b/steps/MsColumnReader.h
@@ -50,6 +50,8 @@ class MsColumnReader final : public ModelDataStep {
 
   bool accepts(MsType dt) const override { return dt == input_ms_type_; }
 
+  MsType outputs() const override { return input_ms_type_; }
+
  private:
   casacore::Table table_;  ///< Input table to read the column from
   casacore::ArrayColumn<std::complex<float>> model_column_;
-- 
2.43.0


From d90fdbd15e46816f23b696ba492415cbc34d9cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:24 +0000
Subject: [PATCH 65/77] fix: keep the frequency frame and band name when
 writing BDA data

---
 steps/MSBDAWriter.cc | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/steps/MSBDAWriter.cc b/steps/MSBDAWriter.cc
index 51586c8..81b8769 100644
--- a/steps/MSBDAWriter.cc
+++ b/steps/MSBDAWriter.cc
@@ -8,6 +8,7 @@
 #include "base/BdaBuffer.h"
 #include "base/MS.h"
 
+#include <casacore/measures/Measures/MFrequency.h>
 #include <casacore/ms/MeasurementSets/MeasurementSet.h>
 #include <casacore/tables/DataMan/IncrementalStMan.h>
 #include <casacore/tables/DataMan/StandardStMan.h>
@@ -385,8 +386,19 @@ void MSBDAWriter::OverwriteSubTables(const Int bda_set_id) {
   using MS_DD = casacore::MSDataDescription;
   using MS_SPW = casacore::MSSpectralWindow;
 
+  // The subtables with the bands are not copied from the input.
   std::string name;
-  int measFreqRef;
+  int measFreqRef = casacore::MFrequency::TOPO;
+  if (!getInfoOut().msName().empty()) {
+    const Table in_spw = Table(getInfoOut().msName())
+                             .keywordSet()
+                             .asTable(base::DP3MS::kSpectralWindowTable);
+    const int band = getInfoOut().spectralWindow();
+    measFreqRef = ScalarColumn<Int>(
+        in_spw, MS_SPW::columnName(MS_SPW::MEAS_FREQ_REF))(band);
+    name = ScalarColumn<casacore::String>(
+        in_spw, MS_SPW::columnName(MS_SPW::NAME))(band);
+  }
 
   Table outDD(out_name_ + '/' + base::DP3MS::kDataDescTable, Table::Update);
   Table outSPW(out_name_ + '/' + base::DP3MS::kSpectralWindowTable,
@@ -397,14 +409,8 @@ void MSBDAWriter::OverwriteSubTables(const Int bda_set_id) {
         "nrow in SPECTRAL_WINDOW table is not the same as nrow in "
         "DATA_DESCRIPTION table");
 
-  // Remove all rows before and after the selected band.
-  // Do it from the end, otherwise row numbers change.
+  // Remove all rows. Do it from the end, otherwise row numbers change.
   for (int i = int(outSPW.nrow()) - 1; i >= 0; --i) {
-    if (i == getInfoOut().spectralWindow()) {
-      measFreqRef =
-          outSPW.col(MS_SPW::columnName(MS_SPW::MEAS_FREQ_REF)).getInt(i);
-      name = outSPW.col(MS_SPW::columnName(MS_SPW::NAME)).getString(i);
-    }
     outSPW.removeRow(i);
     outDD.removeRow(i);
   }
-- 
2.43.0


From da84e15783930c2c40bbec3e9d5c3ac1f2179763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:24 +0000
Subject: [PATCH 66/77] fix: use msin.datacolumn for BDA measurement sets

---
 steps/MSBDAReader.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/steps/MSBDAReader.cc b/steps/MSBDAReader.cc
index b45fcee..089cb61 100644
--- a/steps/MSBDAReader.cc
+++ b/steps/MSBDAReader.cc
@@ -57,8 +57,9 @@ MSBDAReader::MSBDAReader(const casacore::MeasurementSet& ms,
                          const common::ParameterSet& parset,
                          const std::string& prefix)
     : ms_(ms),
-      data_column_name_(
-          parset.getString(prefix + "data_column", MS::columnName(MS::DATA))),
+      data_column_name_(parset.getString(
+          prefix + "datacolumn", parset.getString(prefix + "data_column",
+                                                  MS::columnName(MS::DATA)))),
       weight_column_name_(parset.getString(
           prefix + "weightcolumn", MS::columnName(MS::WEIGHT_SPECTRUM))),
       last_ms_time_(0),
-- 
2.43.0


From af1186f7fd2484e74f7bea42d55b5430738bca84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:27 +0000
Subject: [PATCH 67/77] fix: ApplyCal substeps take interpolation, soltab and
 usemodeldata from the main step

---
 steps/OneApplyCal.cc | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/steps/OneApplyCal.cc b/steps/OneApplyCal.cc
index b9cfbf8..3e92b68 100644
--- a/steps/OneApplyCal.cc
+++ b/steps/OneApplyCal.cc
@@ -61,7 +61,10 @@ OneApplyCal::OneApplyCal(const common::ParameterSet& parset,
           parset.isDefined(prefix + "updateweights")
               ? parset.getBool(prefix + "updateweights")
               : parset.getBool(defaultPrefix + "updateweights", false)),
-      itsUseModelData(parset.getBool(prefix + "usemodeldata", false)),
+      itsUseModelData(
+          parset.isDefined(prefix + "usemodeldata")
+              ? parset.getBool(prefix + "usemodeldata")
+              : parset.getBool(defaultPrefix + "usemodeldata", false)),
       itsCount(0),
       itsTimeStep(0),
       itsNCorr(0),
@@ -104,7 +107,7 @@ OneApplyCal::OneApplyCal(const common::ParameterSet& parset,
     const std::string interpolationStr =
         (parset.isDefined(prefix + "interpolation")
              ? parset.getString(prefix + "interpolation")
-             : parset.getString(prefix + "interpolation", "nearest"));
+             : parset.getString(defaultPrefix + "interpolation", "nearest"));
     if (interpolationStr == "nearest") {
       itsInterpolationType = JonesParameters::InterpolationType::NEAREST;
     } else if (interpolationStr == "linear") {
@@ -133,8 +136,12 @@ OneApplyCal::OneApplyCal(const common::ParameterSet& parset,
           (specified_correction_ == "fulljones")
               ? std::vector<std::string>{"amplitude000", "phase000"}
               : std::vector<std::string>{"amplitude000"};
-      solution_table_names_ =
-          parset.getStringVector(prefix + "soltab", default_tables);
+      // Only full Jones corrections use the soltab of the main step.
+      const bool use_default_prefix = specified_correction_ == "fulljones" &&
+                                      !parset.isDefined(prefix + "soltab");
+      solution_table_names_ = parset.getStringVector(
+          (use_default_prefix ? defaultPrefix : prefix) + "soltab",
+          default_tables);
 
       schaapcommon::h5parm::H5Parm h5parm(itsParmDBName, false, false,
                                           itsSolSetName);
-- 
2.43.0


From c80ec9f96205b1eee1d0e466db43fafa20cb495c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:10 +0000
Subject: [PATCH 68/77] fix: direction-dependent solution intervals keep the
 results of all constraints

---
 ddecal/SolutionResampler.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ddecal/SolutionResampler.cc b/ddecal/SolutionResampler.cc
index 48970d7..5a6391a 100644
--- a/ddecal/SolutionResampler.cc
+++ b/ddecal/SolutionResampler.cc
@@ -88,8 +88,6 @@ SolutionResampler::Upsample(
     const {
   const size_t n_intervals = solutions.size();
   const size_t n_constraints = n_intervals == 0 ? 0 : solutions.front().size();
-  const size_t n_constraint_sub_types =
-      n_constraints == 0 ? 0 : solutions.front().front().size();
   std::vector<std::vector<std::vector<ConstraintResult>>> upsampled;
   upsampled.resize(n_intervals * n_substeps_);
 
@@ -102,6 +100,9 @@ SolutionResampler::Upsample(
       upsampled[new_interval_index].resize(n_constraints);
       for (size_t constraint_index = 0; constraint_index != n_constraints;
            ++constraint_index) {
+        // Each constraint has its own number of results, possibly zero.
+        const size_t n_constraint_sub_types =
+            solutions[interval_index][constraint_index].size();
         upsampled[new_interval_index][constraint_index].resize(
             n_constraint_sub_types);
         for (size_t sub_type_index = 0;
@@ -130,6 +131,8 @@ SolutionResampler::Upsample(
   // Do the upsampling
   for (size_t constraint_index = 0; constraint_index != n_constraints;
        ++constraint_index) {
+    const size_t n_constraint_sub_types =
+        solutions.front()[constraint_index].size();
     for (size_t sub_type_index = 0; sub_type_index != n_constraint_sub_types;
          ++sub_type_index) {
       for (size_t interval_index = 0; interval_index != n_intervals;
-- 
2.43.0


From 2f9cab7363a2726c93c0acb41b83659837f1246f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:58 +0000
Subject: [PATCH 69/77] fix: constraint solutions past the end of the data are
 trimmed like solver solutions

---
 ddecal/SolutionWriter.cc | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/ddecal/SolutionWriter.cc b/ddecal/SolutionWriter.cc
index 75419dc..050ec3c 100644
--- a/ddecal/SolutionWriter.cc
+++ b/ddecal/SolutionWriter.cc
@@ -292,7 +292,7 @@ void SolutionWriter::WriteConstraintResults(
 
       std::vector<hsize_t> dims(first_result.dims.size() +
                                 1);           // Add time dimension at beginning
-      dims[0] = constraint_solutions.size();  // Number of times
+      dims[0] = n_times;
       size_t n_solutions = dims[0];
       for (size_t i = 1; i < dims.size(); ++i) {
         dims[i] = first_result.dims[i - 1];
@@ -303,8 +303,7 @@ void SolutionWriter::WriteConstraintResults(
           common::stringtools::tokenize(first_result.axes, ",");
 
       std::vector<schaapcommon::h5parm::AxisInfo> axes;
-      axes.push_back(
-          {"time", static_cast<unsigned>(constraint_solutions.size())});
+      axes.push_back({"time", static_cast<unsigned>(n_times)});
       for (size_t axis_index = 0; axis_index < first_axes_names.size();
            ++axis_index) {
         axes.push_back({first_axes_names[axis_index],
@@ -335,8 +334,7 @@ void SolutionWriter::WriteConstraintResults(
       if (!constraint_solutions.front()[constraint_index][name_index]
                .weights.empty()) {
         weights.reserve(n_solutions);
-        for (unsigned int time = 0; time < constraint_solutions.size();
-             ++time) {
+        for (size_t time = 0; time < n_times; ++time) {
           const std::vector<double>& cs_weights =
               constraint_solutions[time][constraint_index][name_index].weights;
           weights.insert(weights.end(), cs_weights.begin(), cs_weights.end());
-- 
2.43.0


From 53d2d22a2a1238883902fc4c54856d3ae2851d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:46 +0000
Subject: [PATCH 70/77] fix: DDECal applies solutions by used-antenna index
 when subtracting or keeping models

---
 steps/DDECal.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/steps/DDECal.cc b/steps/DDECal.cc
index 3a19ce6..00460bc 100644
--- a/steps/DDECal.cc
+++ b/steps/DDECal.cc
@@ -1031,8 +1031,9 @@ aocommon::MC2x2 ApplyScalarSolution(
 void DDECal::ApplySolutionAndSubtract(
     DPBuffer& buffer, size_t baseline, size_t channel,
     const std::vector<std::complex<double>>& solutions) const {
-  const size_t antenna1 = getInfoOut().getAnt1()[baseline];
-  const size_t antenna2 = getInfoOut().getAnt2()[baseline];
+  // The solutions only contain the used antennas.
+  const size_t antenna1 = antennas1_[baseline];
+  const size_t antenna2 = antennas2_[baseline];
   const size_t n_directions = direction_names_.size();
 
   aocommon::MC2x2 sum_over_directions = aocommon::MC2x2::Zero();
-- 
2.43.0


From 1e5c0f308d867fd78497fcb57cca417ac23b619d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:46 +0000
Subject: [PATCH 71/77] fix: DDECal uses the mean time of a solution interval,
 also for initial solutions

---
 steps/DDECal.cc | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/steps/DDECal.cc b/steps/DDECal.cc
index 00460bc..8d29f08 100644
--- a/steps/DDECal.cc
+++ b/steps/DDECal.cc
@@ -599,6 +599,12 @@ void DDECal::doSolve() {
     // padded with empty buffers.
     const size_t original_size = input_buffers_[i].size();
 
+    // The average time of the interval, without padding.
+    average_time_ = 0.0;
+    for (const std::unique_ptr<DPBuffer>& buffer : input_buffers_[i]) {
+      average_time_ += buffer->GetTime() / original_size;
+    }
+
     // To learn how this condition could be met see AST-1589.
     if (solution_index >= solutions_.size()) {
       throw std::runtime_error(
@@ -664,7 +670,7 @@ void DDECal::doSolve() {
 
           solveResult =
               solver_->Solve(solve_data, solutions_[solution_index],
-                             average_time_ / requested_solution_interval_);
+                             average_time_);
         } break;
         case ddecal::SolverDataUse::kDual: {
           const ddecal::DuoSolveData solve_data(
@@ -680,7 +686,7 @@ void DDECal::doSolve() {
 
           solveResult =
               solver_->Solve(solve_data, solutions_[solution_index],
-                             average_time_ / requested_solution_interval_);
+                             average_time_);
         } break;
         case ddecal::SolverDataUse::kFull: {
           const ddecal::FullSolveData solve_data(
@@ -696,7 +702,7 @@ void DDECal::doSolve() {
 
           solveResult =
               solver_->Solve(solve_data, solutions_[solution_index],
-                             average_time_ / requested_solution_interval_);
+                             average_time_);
         } break;
       }
 
@@ -820,7 +826,6 @@ bool DDECal::process(std::unique_ptr<DPBuffer> bufin) {
 
     // Clean up, prepare for next iteration
     first_solution_index_ += input_buffers_.size();
-    average_time_ = 0;
     visibilities_in_interval_.assign(visibilities_in_interval_.size(),
                                      std::pair<size_t, size_t>(0, 0));
     weights_per_antenna_.assign(weights_per_antenna_.size(), 0.0);
@@ -963,8 +968,6 @@ void DDECal::doPrepare() {
   }
 
   predict_timer_.stop();
-
-  average_time_ += average_time_ + input_buffer->GetTime();
 }
 
 void DDECal::WriteSolutions() {
-- 
2.43.0


From f0688642231eb3ad7f4b2295a72bb4feafa51655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:46 +0000
Subject: [PATCH 72/77] fix: all time slots of a DDECal solution interval count
 equally in the antenna weights

---
 steps/DDECal.cc | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/steps/DDECal.cc b/steps/DDECal.cc
index 8d29f08..1c9143a 100644
--- a/steps/DDECal.cc
+++ b/steps/DDECal.cc
@@ -938,6 +938,10 @@ void DDECal::doPrepare() {
 
   size_t nchanblocks = channel_block_frequencies_.size();
 
+  const double weightFactor =
+      1. / (nCh * (getInfoOut().antennaUsed().size() - 1) * nCr *
+            requested_solution_interval_);
+
   for (size_t bl = 0; bl < nBl; ++bl) {
     size_t chanblock = 0;
     size_t ant1 = getInfoOut().antennaMap()[getInfoOut().getAnt1()[bl]];
@@ -950,8 +954,10 @@ void DDECal::doPrepare() {
         // Add this weight to both involved antennas
         const double weight = input_buffer->GetWeights()(bl, ch, cr) *
                               !input_buffer->GetFlags()(bl, ch, cr);
-        weights_per_antenna_[ant1 * nchanblocks + chanblock] += weight;
-        weights_per_antenna_[ant2 * nchanblocks + chanblock] += weight;
+        weights_per_antenna_[ant1 * nchanblocks + chanblock] +=
+            weight * weightFactor;
+        weights_per_antenna_[ant2 * nchanblocks + chanblock] +=
+            weight * weightFactor;
 
         visibilities_in_interval_[chanblock].first +=
             (weight > 0);                               // unflagged nr of vis
@@ -960,13 +966,6 @@ void DDECal::doPrepare() {
     }
   }
 
-  const double weightFactor =
-      1. / (nCh * (getInfoOut().antennaUsed().size() - 1) * nCr *
-            requested_solution_interval_);
-  for (double& weight : weights_per_antenna_) {
-    weight *= weightFactor;
-  }
-
   predict_timer_.stop();
 }
 
-- 
2.43.0


From 84389ed4d96f770f54cf9d5b289cabd5fa9a575e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:46 +0000
Subject: [PATCH 73/77] fix: DDECal keeps a last solution that covers only the
 last time slot

---
 steps/DDECal.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/steps/DDECal.cc b/steps/DDECal.cc
index 1c9143a..dec6b6b 100644
--- a/steps/DDECal.cc
+++ b/steps/DDECal.cc
@@ -978,7 +978,8 @@ void DDECal::WriteSolutions() {
 
   solution_writer_->Write(
       solutions_, constraint_solutions_, getInfoOut().startTime(),
-      getInfoOut().lastTime(), getInfoOut().timeInterval(),
+      getInfoOut().lastTime() + 0.5 * getInfoOut().timeInterval(),
+      getInfoOut().timeInterval(),
       requested_solution_interval_, settings_.sub_solutions_per_direction,
       settings_.mode, getInfoOut().GetUsedAntennaNames(), source_directions_,
       patches_per_direction_, getInfoOut().chanFreqs(),
-- 
2.43.0


From 15ace3919a80d2fdd51c367bdb2db57ca1b024ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:46 +0000
Subject: [PATCH 74/77] fix: antenna averaging factors of DDECal follow the
 used antennas

---
 steps/DDECal.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/steps/DDECal.cc b/steps/DDECal.cc
index dec6b6b..f3aa125 100644
--- a/steps/DDECal.cc
+++ b/steps/DDECal.cc
@@ -190,7 +190,7 @@ void DDECal::setModelNextSteps(Step& step, const std::string& direction,
 void DDECal::updateInfo(const DPInfo& infoIn) {
   Step::updateInfo(infoIn);
 
-  solver_ = ddecal::CreateSolver(settings_, infoIn.antennaNames());
+  solver_ = ddecal::CreateSolver(settings_, infoIn.GetUsedAntennaNames());
 
   initializeModelReuse();
 
-- 
2.43.0


From b58be1abfd1018c8b453b33180af50d86498a13b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:26 +0000
Subject: [PATCH 75/77] fix: Transfer and FlagTransfer do not read past the
 last target channel

---
 steps/FlagTransfer.cc | 7 ++-----
 steps/Transfer.cc     | 4 ++--
 2 files changed, 4 insertions(+), 7 deletions(-)

diff --git a/steps/FlagTransfer.cc b/steps/FlagTransfer.cc
index b7ab603..30b9c77 100644
--- a/steps/FlagTransfer.cc
+++ b/steps/FlagTransfer.cc
@@ -172,11 +172,8 @@ bool FlagTransfer::process(std::unique_ptr<DPBuffer> buffer) {
          ++channel_block) {
       const double source_channel_edge =
           source_channel_upper_edges_[channel_block];
-      while (target_frequencies[target_channel] < source_channel_edge) {
-        if (target_channel >= getInfoOut().nchan()) {
-          break;
-        }
-
+      while (target_channel < getInfoOut().nchan() &&
+             target_frequencies[target_channel] < source_channel_edge) {
         for (std::size_t source_row = 0; source_row < n_source_baselines;
              ++source_row) {
           common::rownr_t target_row = filtered_row_numbers[source_row];
diff --git a/steps/Transfer.cc b/steps/Transfer.cc
index 9a3cb87..0904e05 100644
--- a/steps/Transfer.cc
+++ b/steps/Transfer.cc
@@ -145,8 +145,8 @@ void Transfer::TransferSingleTimeSlot(
          ++channel_block) {
       const double source_channel_edge =
           source_channel_upper_edges_[channel_block];
-      while (target_frequencies[target_channel] < source_channel_edge &&
-             target_channel < n_target_channels) {
+      while (target_channel < n_target_channels &&
+             target_frequencies[target_channel] < source_channel_edge) {
         for (std::size_t source_row = 0; source_row < n_source_baselines;
              ++source_row) {
           const common::rownr_t target_row = target_row_numbers[source_row];
-- 
2.43.0


From 206179c94e933d739ecd80225cc0e91e1389248e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:39 +0000
Subject: [PATCH 76/77] fix: Transfer and FlagTransfer find the baselines of
 inserted and filtered time slots

---
 steps/FlagTransfer.cc | 21 +++++++++------------
 steps/FlagTransfer.h  |  2 +-
 steps/Transfer.cc     | 21 +++++++++------------
 steps/Transfer.h      |  2 +-
 4 files changed, 20 insertions(+), 26 deletions(-)

diff --git a/steps/FlagTransfer.cc b/steps/FlagTransfer.cc
index 30b9c77..9346f75 100644
--- a/steps/FlagTransfer.cc
+++ b/steps/FlagTransfer.cc
@@ -6,6 +6,8 @@
 
 #include "FlagTransfer.h"
 
+#include <numeric>
+
 #include <xtensor/views/xview.hpp>
 
 #include <casacore/tables/Tables/TableRecord.h>
@@ -124,18 +126,13 @@ bool FlagTransfer::process(std::unique_ptr<DPBuffer> buffer) {
     }
   }
 
-  common::Fields filter_fields = filter_step_->getRequiredFields();
-  std::unique_ptr<DPBuffer> substep_buffer =
-      std::make_unique<DPBuffer>(*buffer, filter_fields);
-  filter_step_->process(std::move(substep_buffer));
-  std::unique_ptr<DPBuffer> result_buffer = result_step_->take();
-
-  std::vector<common::rownr_t> filtered_row_numbers =
-      result_buffer->GetRowNumbers().tovector();
-
-  const common::rownr_t first_row_number = buffer->GetRowNumbers()[0];
-  for (auto& row_number : filtered_row_numbers) {
-    row_number -= first_row_number;
+  // Indices of the selected baselines. Row numbers cannot be used here: They are
+  // absent for inserted time slots and have gaps if an earlier step filters.
+  std::vector<common::rownr_t> filtered_row_numbers(
+      filter_step_->getIndicesBL().begin(), filter_step_->getIndicesBL().end());
+  if (filtered_row_numbers.empty()) {
+    filtered_row_numbers.resize(getInfoOut().nbaselines());
+    std::iota(filtered_row_numbers.begin(), filtered_row_numbers.end(), 0);
   }
 
   if (filtered_row_numbers.size() != flags_.shape()[0]) {
diff --git a/steps/FlagTransfer.h b/steps/FlagTransfer.h
index 8e4e16a..92a2d29 100644
--- a/steps/FlagTransfer.h
+++ b/steps/FlagTransfer.h
@@ -87,7 +87,7 @@ class FlagTransfer final : public Step {
   /// Upper edges of source MS frequency bins
   std::vector<double> source_channel_upper_edges_;
 
-  std::shared_ptr<Step> filter_step_;
+  std::shared_ptr<Filter> filter_step_;
   std::shared_ptr<ResultStep> result_step_;
 };
 
diff --git a/steps/Transfer.cc b/steps/Transfer.cc
index 0904e05..444ef59 100644
--- a/steps/Transfer.cc
+++ b/steps/Transfer.cc
@@ -5,6 +5,8 @@
 
 #include "Transfer.h"
 
+#include <numeric>
+
 #include <xtensor/views/xview.hpp>
 
 #include <casacore/tables/Tables/TableRecord.h>
@@ -193,18 +195,13 @@ bool Transfer::process(std::unique_ptr<DPBuffer> buffer) {
     }
   }
 
-  common::Fields filter_fields = filter_step_->getRequiredFields();
-  std::unique_ptr<DPBuffer> substep_buffer =
-      std::make_unique<DPBuffer>(*buffer, filter_fields);
-  filter_step_->process(std::move(substep_buffer));
-  std::unique_ptr<DPBuffer> result_buffer = result_step_->take();
-
-  std::vector<common::rownr_t> filtered_row_numbers =
-      result_buffer->GetRowNumbers().tovector();
-
-  const common::rownr_t first_row_number = buffer->GetRowNumbers()[0];
-  for (auto& row_number : filtered_row_numbers) {
-    row_number -= first_row_number;
+  // Indices of the selected baselines. Row numbers cannot be used here: They are
+  // absent for inserted time slots and have gaps if an earlier step filters.
+  std::vector<common::rownr_t> filtered_row_numbers(
+      filter_step_->getIndicesBL().begin(), filter_step_->getIndicesBL().end());
+  if (filtered_row_numbers.empty()) {
+    filtered_row_numbers.resize(getInfoOut().nbaselines());
+    std::iota(filtered_row_numbers.begin(), filtered_row_numbers.end(), 0);
   }
 
   if (filtered_row_numbers.size() != data_.shape()[0]) {
diff --git a/steps/Transfer.h b/steps/Transfer.h
index 914da89..ef76583 100644
--- a/steps/Transfer.h
+++ b/steps/Transfer.h
@@ -110,7 +110,7 @@ class Transfer final : public Step {
   /// Upper edges of source MS frequency bins
   std::vector<double> source_channel_upper_edges_;
 
-  std::shared_ptr<Step> filter_step_;
+  std::shared_ptr<Filter> filter_step_;
   std::shared_ptr<ResultStep> result_step_;
 };
 
-- 
2.43.0


From a4dc4203de58f36f70354335df54f3344bc76138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:39 +0000
Subject: [PATCH 77/77] fix: Clipper clips in time slots that were inserted by
 the reader

---
 steps/Clipper.cc | 29 ++++++++++++-----------------
 steps/Clipper.h  |  2 +-
 2 files changed, 13 insertions(+), 18 deletions(-)

diff --git a/steps/Clipper.cc b/steps/Clipper.cc
index 6b018c2..bd7483f 100644
--- a/steps/Clipper.cc
+++ b/steps/Clipper.cc
@@ -5,6 +5,8 @@
 #include "NullStep.h"
 #include "MsColumnReader.h"
 
+#include <numeric>
+
 #include <xtensor/misc/xcomplex.hpp>
 #include <xtensor/views/xview.hpp>
 
@@ -113,23 +115,16 @@ bool Clipper::process(std::unique_ptr<DPBuffer> buffer) {
     filter_step_->process(std::move(substep_buffer));
     std::unique_ptr<DPBuffer> result_buffer = result_step_->take();
 
-    // Calculate the indices corresponding to the filtered baselines, and only
-    // set the corresponding flags when the amplitude exceeds max_amplitude_.
-    const casacore::Vector<common::rownr_t>& filtered_row_numbers =
-        result_buffer->GetRowNumbers();
-    const casacore::Vector<common::rownr_t>& buffer_row_numbers =
-        buffer->GetRowNumbers();
-
-    std::vector<size_t> filtered_to_original_row_indices;
-    filtered_to_original_row_indices.reserve(filtered_row_numbers.size());
-
-    size_t buffer_index = 0;
-    for (const common::rownr_t& filter_row : filtered_row_numbers) {
-      while (buffer_row_numbers[buffer_index] < filter_row) {
-        ++buffer_index;
-      }
-
-      filtered_to_original_row_indices.push_back(buffer_index++);
+    // Get the indices of the filtered baselines, and only set the corresponding
+    // flags when the amplitude exceeds max_amplitude_. Row numbers cannot be
+    // used here, since inserted time slots do not have them.
+    std::vector<size_t> filtered_to_original_row_indices(
+        filter_step_->getIndicesBL().begin(),
+        filter_step_->getIndicesBL().end());
+    if (filtered_to_original_row_indices.empty()) {
+      filtered_to_original_row_indices.resize(getInfoOut().nbaselines());
+      std::iota(filtered_to_original_row_indices.begin(),
+                filtered_to_original_row_indices.end(), 0);
     }
 
     // After the prediction, flag the predicted values that exceed
diff --git a/steps/Clipper.h b/steps/Clipper.h
index 38af05f..438d4bf 100644
--- a/steps/Clipper.h
+++ b/steps/Clipper.h
@@ -60,7 +60,7 @@ class Clipper : public Step {
   size_t frequency_step_;
   bool flag_all_correlations_;
   float max_amplitude_;
-  std::shared_ptr<Step> filter_step_;
+  std::shared_ptr<Filter> filter_step_;
   std::shared_ptr<Step> predict_step_;
   std::shared_ptr<ResultStep> result_step_;
   std::unique_ptr<dp3::base::DPBuffer> predict_buffer_;
-- 
2.43.0

