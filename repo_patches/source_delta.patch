From fc52a5a7f0e0aaa6c4aab50f83cf94af316616fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:37 +0000
Subject: [PATCH 1/8] fix: avoid signed overflow when squaring differences in
 integer L2sqrdist

---
 modules/utils/include/litiv/utils/math.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/modules/utils/include/litiv/utils/math.hpp b/modules/utils/include/litiv/utils/math.hpp
index 8b75d39..af9afe3 100644
--- a/modules/utils/include/litiv/utils/math.hpp
+++ b/modules/utils/include/litiv/utils/math.hpp
@@ -301,9 +301,9 @@ namespace lv {
     /// computes the squared L2 distance between two integer values (i.e. == squared L1dist); returns an unsigned type of twice the size of the input type
     template<typename T, typename=std::enable_if_t<std::is_integral<T>::value>>
     inline auto L2sqrdist(T a, T b) {
-        typedef std::make_signed_t<typename lv::get_bigger_integer<T>::type> Tintern;
-        const Tintern tResult = Tintern(a)-Tintern(b);
-        return std::make_unsigned_t<Tintern>(tResult*tResult);
+        typedef std::make_unsigned_t<typename lv::get_bigger_integer<T>::type> Tintern;
+        const Tintern tResult = Tintern(L1dist(a,b));
+        return Tintern(tResult*tResult);
     }
 
     /// computes the squared L2 distance between two floating point values (i.e. == squared L1dist)
-- 
2.43.0


From f5cb79570cf3bbae9d83d9505e1ffb14d7b98da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:37 +0000
Subject: [PATCH 2/8] fix: accumulate integer L2dist channels in a type wide
 enough for their sum

---
 modules/utils/include/litiv/utils/math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/utils/include/litiv/utils/math.hpp b/modules/utils/include/litiv/utils/math.hpp
index af9afe3..ed68a49 100644
--- a/modules/utils/include/litiv/utils/math.hpp
+++ b/modules/utils/include/litiv/utils/math.hpp
@@ -390,7 +390,7 @@ namespace lv {
     /// computes the L2 distance between two integer arrays
     template<size_t nChannels, typename Tin, typename Tout=float, typename=std::enable_if_t<std::is_integral<Tin>::value>>
     inline Tout L2dist(const Tin* a, const Tin* b) {
-        decltype(L2sqrdist(Tin(),Tin())) tResult = 0;
+        size_t tResult = 0;
         for(size_t c=0; c<nChannels; ++c)
             tResult += L2sqrdist(a[c],b[c]);
         return (Tout)std::sqrt(tResult);
-- 
2.43.0


From d60120440f6e2b4c28bd85e429868ffce733bb67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:09 +0000
Subject: [PATCH 3/8] fix: test the ROI's own continuity in
 BinClassif::accumulate

---
 modules/datasets/src/metrics.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/datasets/src/metrics.cpp b/modules/datasets/src/metrics.cpp
index e8a8c51..156e1e6 100644
--- a/modules/datasets/src/metrics.cpp
+++ b/modules/datasets/src/metrics.cpp
@@ -21,7 +21,7 @@
 void lv::BinClassif::accumulate(const cv::Mat& oClassif, const cv::Mat& oGT, const cv::Mat& oROI) {
     lvAssert_(!oClassif.empty() && oClassif.dims==2 && oClassif.isContinuous() && oClassif.type()==CV_8UC1,"binary classifier results must be non-empty and of type 8UC1");
     lvAssert_(oGT.empty() || (oGT.type()==CV_8UC1 && oGT.isContinuous()),"gt mat must be empty, or of type 8UC1");
-    lvAssert_(oROI.empty() || (oROI.type()==CV_8UC1 && oGT.isContinuous()),"ROI mat must be empty, or of type 8UC1");
+    lvAssert_(oROI.empty() || (oROI.type()==CV_8UC1 && oROI.isContinuous()),"ROI mat must be empty, or of type 8UC1");
     lvAssert_((oGT.empty() || oClassif.size()==oGT.size()) && (oROI.empty() || oClassif.size()==oROI.size()),"all input mat sizes must match");
     if(oGT.empty()) {
         nDC += oClassif.size().area();
-- 
2.43.0


From ba2c73db66b475b4371b91dd9a196fd45ab82061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:34 +0000
Subject: [PATCH 4/8] fix: expand_bits shifted an int, losing the upper words
 of 64-bit fields

---
 modules/utils/include/litiv/utils/math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/utils/include/litiv/utils/math.hpp b/modules/utils/include/litiv/utils/math.hpp
index ed68a49..3013f61 100644
--- a/modules/utils/include/litiv/utils/math.hpp
+++ b/modules/utils/include/litiv/utils/math.hpp
@@ -988,7 +988,7 @@ namespace lv {
     constexpr std::enable_if_t<(nWordBitSize>1),T> expand_bits(const T& nBits, size_t n=((sizeof(T)*8)/nWordBitSize)-1) {
         static_assert(std::is_integral<T>::value,"input value type must be integer");
         // only the first [(sizeof(T)*8)/nWordBitSize] bits are kept (otherwise overflow/ignored)
-        return (T)(bool((nBits&(1<<n))!=0)<<(n*nWordBitSize)) + ((n>=1)?expand_bits<nWordBitSize,T>(nBits,n-1):(T)0);
+        return (T)(T(bool((nBits&(T(1)<<n))!=0))<<(n*nWordBitSize)) + ((n>=1)?expand_bits<nWordBitSize,T>(nBits,n-1):(T)0);
     }
 
     /// performs LU decomposition of a MxM matrix A (function signature is the same as OpenCV's LU32f/LU64f) --- only efficient for small matrices
-- 
2.43.0


From 83c2109b8c1689eb89363d991054f8a43358aec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:34 +0000
Subject: [PATCH 5/8] fix: advance the fastrand seed in unsigned arithmetic
 (signed overflow)

---
 modules/utils/include/litiv/utils/math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/utils/include/litiv/utils/math.hpp b/modules/utils/include/litiv/utils/math.hpp
index 3013f61..8bf8673 100644
--- a/modules/utils/include/litiv/utils/math.hpp
+++ b/modules/utils/include/litiv/utils/math.hpp
@@ -58,7 +58,7 @@ namespace lv {
     /// returns a (cheap) random number based on Intel's fastrand LCG algorithm (16-bit, like std::rand)
     inline int fastrand(int& nSeed) {
         // see https://software.intel.com/en-us/articles/fast-random-number-generator-on-the-intel-pentiumr-4-processor/
-        nSeed = (214013*nSeed+2531011);
+        nSeed = int(214013u*uint32_t(nSeed)+2531011u);
         return (nSeed>>16)&0x7FFF;
     }
 
-- 
2.43.0


From fd106fca89847163359e6323ee2f31e4eb394460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:48 +0000
Subject: [PATCH 6/8] fix: LBSP::reshapeDesc rounded single-channel keypoint
 coordinates while the descriptors are computed at the truncated ones

---
 modules/features2d/src/LBSP.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/features2d/src/LBSP.cpp b/modules/features2d/src/LBSP.cpp
index 18b586b..92c09fe 100644
--- a/modules/features2d/src/LBSP.cpp
+++ b/modules/features2d/src/LBSP.cpp
@@ -299,7 +299,7 @@ void LBSP::reshapeDesc(cv::Size oSize, const std::vector<cv::KeyPoint>& voKeypoi
         oOutput.create(oSize,CV_16UC1);
         oOutput = cv::Scalar_<ushort>(0);
         for(size_t k=0; k<nKeyPoints; ++k)
-            oOutput.at<ushort>(voKeypoints[k].pt) = oDescriptors.at<ushort>((int)k);
+            oOutput.at<ushort>((int)voKeypoints[k].pt.y,(int)voKeypoints[k].pt.x) = oDescriptors.at<ushort>((int)k);
     }
     else { //nChannels==3
         oOutput.create(oSize,CV_16UC3);
-- 
2.43.0


From ba51a78a3b467382c89c61c9337cafa03b7b6a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:12 +0000
Subject: [PATCH 7/8] fix: Matthews correlation coefficient multiplied FP by FN
 in 64-bit integers, which wraps for large counts

---
 modules/datasets/include/litiv/datasets/metrics.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/datasets/include/litiv/datasets/metrics.hpp b/modules/datasets/include/litiv/datasets/metrics.hpp
index 24296f8..e2a8f93 100644
--- a/modules/datasets/include/litiv/datasets/metrics.hpp
+++ b/modules/datasets/include/litiv/datasets/metrics.hpp
@@ -251,7 +251,7 @@ namespace lv {
         }
         /// computes Matthew's Correlation Coefficient based on 'BinClassif' counters
         static inline double CalcMatthewsCorrCoeff(const BinClassif& m) {
-            return ((m.nTP+m.nFP)>0)&&((m.nTP+m.nFN)>0)&&((m.nTN+m.nFP)>0)&&((m.nTN+m.nFN)>0)?((((double)m.nTP*m.nTN)-(m.nFP*m.nFN))/sqrt(((double)m.nTP+m.nFP)*(m.nTP+m.nFN)*(m.nTN+m.nFP)*(m.nTN+m.nFN))):0;
+            return ((m.nTP+m.nFP)>0)&&((m.nTP+m.nFN)>0)&&((m.nTN+m.nFP)>0)&&((m.nTN+m.nFN)>0)?((((double)m.nTP*m.nTN)-((double)m.nFP*m.nFN))/sqrt(((double)m.nTP+m.nFP)*(m.nTP+m.nFN)*(m.nTN+m.nFP)*(m.nTN+m.nFN))):0;
         }
         /// default contructor requires a base metrics counters, as otherwise, we would obtain NaN's
         inline BinClassifMetrics(const BinClassif& m) : dRecall(CalcRecall(m)),dSpecificity(CalcSpecificity(m)),dFPR(CalcFalsePositiveRate(m)),dFNR(CalcFalseNegativeRate(m)),dPBC(CalcPercentBadClassifs(m)),dPrecision(CalcPrecision(m)),dFMeasure(CalcFMeasure(m)),dMCC(CalcMatthewsCorrCoeff(m)) {}
-- 
2.43.0


From 53ac8f070b677dc62e256119d1e2634e15f11470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:15 +0000
Subject: [PATCH 8/8] fix: calcMedianValue must not read past the histogram
 when the mask selects no pixel

---
 modules/imgproc/src/imgproc.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modules/imgproc/src/imgproc.cpp b/modules/imgproc/src/imgproc.cpp
index 95fd95d..3e5ab5a 100644
--- a/modules/imgproc/src/imgproc.cpp
+++ b/modules/imgproc/src/imgproc.cpp
@@ -207,6 +207,7 @@ int lv::calcMedianValue(const cv::Mat& oInput, const cv::Mat_<uchar>& oMask, std
     int nTotCount;
     const std::vector<int> vCounts = lv::calcHistCounts(oInput,oMask,&nTotCount);
     lvDbgAssert(!vCounts.empty());
+    lvAssert_(nTotCount>0,"cannot compute the median of an empty pixel set");
     if(pHistCounts)
         *pHistCounts = vCounts;
     int nBinVal=0,nCurrElemCount=vCounts[0],nHalfCount=nTotCount/2;
-- 
2.43.0

