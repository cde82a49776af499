From 8c63d24d2fbef091eb4ad90530c547fc1f7119a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:33 +0000
Subject: [PATCH 01/65] fix: Minkowski distance of order other than 1 kept the
 coordinate differences in a vector and always threw

---
 include/gwmodelpp/spatialweight/MinkwoskiDistance.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gwmodelpp/spatialweight/MinkwoskiDistance.h b/include/gwmodelpp/spatialweight/MinkwoskiDistance.h
index 2395476..4c49561 100644
--- a/include/gwmodelpp/spatialweight/MinkwoskiDistance.h
+++ b/include/gwmodelpp/spatialweight/MinkwoskiDistance.h
@@ -125,7 +125,7 @@ inline arma::vec MinkwoskiDistance::ManhattonDist(const arma::rowvec& out_loc, c
 
 inline arma::vec MinkwoskiDistance::MinkwoskiDist(const arma::rowvec& out_loc, const arma::mat& in_locs, double p)
 {
-    arma::vec temp = abs(in_locs.each_row() - out_loc);
+    arma::mat temp = abs(in_locs.each_row() - out_loc);
     return pow(sum(pow(temp, p), 1), 1.0 / p);
 }
 
-- 
2.43.0


From e6b7ca2771ddcee08082038b7283b0b5ddf17518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:33 +0000
Subject: [PATCH 02/65] fix: Minkowski order 1 is the Manhattan distance, the
 chessboard distance is the other special case

---
 src/gwmodelpp/spatialweight/MinkwoskiDistance.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gwmodelpp/spatialweight/MinkwoskiDistance.cpp b/src/gwmodelpp/spatialweight/MinkwoskiDistance.cpp
index 377777a..69bd934 100644
--- a/src/gwmodelpp/spatialweight/MinkwoskiDistance.cpp
+++ b/src/gwmodelpp/spatialweight/MinkwoskiDistance.cpp
@@ -42,8 +42,8 @@ vec MinkwoskiDistance::distance(uword focus)
                 dp = CoordinateRotate(mParameter->dataPoints, mTheta);
                 rp = CoordinateRotate(mParameter->focusPoints.row(focus), mTheta);
             }
-            if (mPoly == 1.0) return ChessDistance(rp, dp);
-            else if (mPoly == -1.0) return ManhattonDist(rp, dp);
+            if (mPoly == 1.0) return ManhattonDist(rp, dp);
+            else if (mPoly == -1.0) return ChessDistance(rp, dp);
             else return MinkwoskiDist(rp, dp, mPoly);
         }
         else throw std::runtime_error("Target is out of bounds of data points.");
-- 
2.43.0


From 87cf6ff4505fd87aee3aee2473fc9cf3a3a979f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:33 +0000
Subject: [PATCH 03/65] fix: the extreme Minkowski distances are those of the
 Minkowski metric, not of the Euclidean one

---
 src/gwmodelpp/spatialweight/CRSDistance.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gwmodelpp/spatialweight/CRSDistance.cpp b/src/gwmodelpp/spatialweight/CRSDistance.cpp
index 0c00116..93e109a 100644
--- a/src/gwmodelpp/spatialweight/CRSDistance.cpp
+++ b/src/gwmodelpp/spatialweight/CRSDistance.cpp
@@ -137,7 +137,7 @@ double CRSDistance::maxDistance()
     double maxD = 0.0;
     for (uword i = 0; i < mParameter->total; i++)
     {
-        double d = max(mCalculator(mParameter->focusPoints.row(i), mParameter->dataPoints));
+        double d = max(distance(i));
         maxD = d > maxD ? d : maxD;
     }
     return maxD;
@@ -149,7 +149,7 @@ double CRSDistance::minDistance()
     double minD = DBL_MAX;
     for (uword i = 0; i < mParameter->total; i++)
     {
-        double d = min(mCalculator(mParameter->focusPoints.row(i), mParameter->dataPoints));
+        double d = min(distance(i));
         minD = d < minD ? d : minD;
     }
     return minD;
-- 
2.43.0


From 424111e957fe97bd7e1906b447590596d6033ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:33 +0000
Subject: [PATCH 04/65] fix: copies of one-dimensional, space-time and matrix
 distances lost the points they were configured with

---
 src/gwmodelpp/spatialweight/CRSSTDistance.cpp  | 5 +++--
 src/gwmodelpp/spatialweight/DMatDistance.cpp   | 1 +
 src/gwmodelpp/spatialweight/OneDimDistance.cpp | 2 +-
 3 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/gwmodelpp/spatialweight/CRSSTDistance.cpp b/src/gwmodelpp/spatialweight/CRSSTDistance.cpp
index 2d69970..dd377e7 100644
--- a/src/gwmodelpp/spatialweight/CRSSTDistance.cpp
+++ b/src/gwmodelpp/spatialweight/CRSSTDistance.cpp
@@ -83,9 +83,10 @@ CRSSTDistance::CRSSTDistance(const CRSSTDistance &distance)
     }
     else throw std::runtime_error("The lambda must be in [0,1].");
     // mLambda = distance.mLambda;
-    mSpatialDistance = distance.mSpatialDistance->clone();
+    if (distance.mSpatialDistance) mSpatialDistance = distance.mSpatialDistance->clone();
     //mSpatialDistance = static_cast<gwm::CRSDistance*>(distance.mSpatialDistance->clone());
-    mTemporalDistance = static_cast<gwm::OneDimDistance*>(distance.mTemporalDistance->clone());
+    if (distance.mTemporalDistance) mTemporalDistance = static_cast<gwm::OneDimDistance*>(distance.mTemporalDistance->clone());
+    if (distance.mParameter) mParameter = make_unique<Parameter>(*distance.mParameter);
     mCalculator=distance.mCalculator;
 }
 
diff --git a/src/gwmodelpp/spatialweight/DMatDistance.cpp b/src/gwmodelpp/spatialweight/DMatDistance.cpp
index 046d007..f24eb2b 100644
--- a/src/gwmodelpp/spatialweight/DMatDistance.cpp
+++ b/src/gwmodelpp/spatialweight/DMatDistance.cpp
@@ -13,6 +13,7 @@ DMatDistance::DMatDistance(string dmatFile)
 DMatDistance::DMatDistance(const DMatDistance &distance)
 {
     mDMatFile = distance.mDMatFile;
+    if (distance.mParameter) mParameter = make_unique<Parameter>(*distance.mParameter);
 }
 
 void DMatDistance::makeParameter(initializer_list<DistParamVariant> plist)
diff --git a/src/gwmodelpp/spatialweight/OneDimDistance.cpp b/src/gwmodelpp/spatialweight/OneDimDistance.cpp
index 9e5cbd7..ad255dd 100644
--- a/src/gwmodelpp/spatialweight/OneDimDistance.cpp
+++ b/src/gwmodelpp/spatialweight/OneDimDistance.cpp
@@ -15,7 +15,7 @@ OneDimDistance::OneDimDistance() : Distance()
 
 OneDimDistance::OneDimDistance(const OneDimDistance &distance) : Distance(distance)
 {
-    
+    if (distance.mParameter) mParameter = make_unique<Parameter>(*distance.mParameter);
 }
 
 void OneDimDistance::makeParameter(initializer_list<DistParamVariant> plist)
-- 
2.43.0


From f7bcea734856fb1b7d4966ac1456877851325681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:33 +0000
Subject: [PATCH 05/65] fix: copying a spatial weight that has no weight or
 distance dereferenced a null pointer

---
 include/gwmodelpp/spatialweight/SpatialWeight.h | 4 ++--
 src/gwmodelpp/spatialweight/SpatialWeight.cpp   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/gwmodelpp/spatialweight/SpatialWeight.h b/include/gwmodelpp/spatialweight/SpatialWeight.h
index 5a35e69..24dcaa3 100644
--- a/include/gwmodelpp/spatialweight/SpatialWeight.h
+++ b/include/gwmodelpp/spatialweight/SpatialWeight.h
@@ -106,8 +106,8 @@ public:
      */
     SpatialWeight(const SpatialWeight& spatialWeight)
     {
-        mWeight = spatialWeight.mWeight->clone();
-        mDistance = spatialWeight.mDistance->clone();
+        mWeight = spatialWeight.mWeight ? spatialWeight.mWeight->clone() : nullptr;
+        mDistance = spatialWeight.mDistance ? spatialWeight.mDistance->clone() : nullptr;
     }
 
     /**
diff --git a/src/gwmodelpp/spatialweight/SpatialWeight.cpp b/src/gwmodelpp/spatialweight/SpatialWeight.cpp
index 256f548..de21b3e 100644
--- a/src/gwmodelpp/spatialweight/SpatialWeight.cpp
+++ b/src/gwmodelpp/spatialweight/SpatialWeight.cpp
@@ -28,8 +28,8 @@ SpatialWeight &SpatialWeight::operator=(const SpatialWeight &spatialWeight)
     if (this == &spatialWeight) return *this;
     if (mWeight) delete mWeight;
     if (mDistance) delete mDistance;
-    mWeight = spatialWeight.mWeight->clone();
-    mDistance = spatialWeight.mDistance->clone();
+    mWeight = spatialWeight.mWeight ? spatialWeight.mWeight->clone() : nullptr;
+    mDistance = spatialWeight.mDistance ? spatialWeight.mDistance->clone() : nullptr;
     return *this;
 }
 
-- 
2.43.0


From 00c23295ae87c5a61a0a3620300faa42c08c6415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:33 +0000
Subject: [PATCH 06/65] fix: setting a spatial weight's own weight or distance
 again read the object after deleting it

---
 include/gwmodelpp/spatialweight/SpatialWeight.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/gwmodelpp/spatialweight/SpatialWeight.h b/include/gwmodelpp/spatialweight/SpatialWeight.h
index 24dcaa3..b836c86 100644
--- a/include/gwmodelpp/spatialweight/SpatialWeight.h
+++ b/include/gwmodelpp/spatialweight/SpatialWeight.h
@@ -191,8 +191,9 @@ public:
      */
     void setWeight(Weight& weight)
     {
+        Weight* cloned = weight.clone();
         if (mWeight) delete mWeight;
-        mWeight = weight.clone();
+        mWeight = cloned;
     }
 
     /**
@@ -210,8 +211,9 @@ public:
      */
     void setWeight(Weight&& weight)
     {
+        Weight* cloned = weight.clone();
         if (mWeight) delete mWeight;
-        mWeight = weight.clone();
+        mWeight = cloned;
     }
 
     /**
@@ -283,8 +285,9 @@ public:
      */
     void setDistance(Distance& distance)
     {
+        Distance* cloned = distance.clone();
         if (mDistance) delete mDistance;
-        mDistance = distance.clone();
+        mDistance = cloned;
     }
 
     /**
@@ -302,8 +305,9 @@ public:
      */
     void setDistance(Distance&& distance)
     {
+        Distance* cloned = distance.clone();
         if (mDistance) delete mDistance;
-        mDistance = distance.clone();
+        mDistance = cloned;
     }
 
     /**
-- 
2.43.0


From 24c09d922e2e138c44ac0d1328e50ac1048e4527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:33 +0000
Subject: [PATCH 07/65] fix: variable selection read before the first candidate
 model when no step reached the threshold

---
 src/gwmodelpp/VariableForwardSelector.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gwmodelpp/VariableForwardSelector.cpp b/src/gwmodelpp/VariableForwardSelector.cpp
index 039acbb..290259f 100644
--- a/src/gwmodelpp/VariableForwardSelector.cpp
+++ b/src/gwmodelpp/VariableForwardSelector.cpp
@@ -65,7 +65,7 @@ vector<pair<vector<size_t>, double> > VariableForwardSelector::sort(vector<pair<
 
 pair<vector<size_t>, double> VariableForwardSelector::select(vector<pair<vector<size_t>, double> > models)
 {
-    for (size_t i = models.size() - 1; i >= 0; i--)
+    for (size_t i = models.size() - 1; i > 0; i--)
     {
         if (models[i - 1].second - models[i].second >= mThreshold)
         {
-- 
2.43.0


From b01300ee84384b3d49e3f4fe92b853e3e022185e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:39 +0000
Subject: [PATCH 08/65] fix: OpenMP bandwidth and variable criteria scored a
 model with a singular local regression instead of rejecting it

---
 src/gwmodelpp/GWRBasic.cpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/gwmodelpp/GWRBasic.cpp b/src/gwmodelpp/GWRBasic.cpp
index 12720c7..b854032 100644
--- a/src/gwmodelpp/GWRBasic.cpp
+++ b/src/gwmodelpp/GWRBasic.cpp
@@ -518,6 +518,7 @@ arma::mat GWRBasic::fitCoreCVOmp(const arma::mat& x, const arma::vec& y, const S
     uword nDp = mCoords.n_rows, nVar = x.n_cols;
     mat betas(nVar, nDp, fill::zeros);
     bool flag = true;
+    std::exception except;
     std::pair<uword, uword> workRange = mWorkRange.value_or(make_pair(0, nDp));
 #pragma omp parallel for num_threads(mOmpThreadNum)
     for (uword i = workRange.first; i < workRange.second; i++)
@@ -527,9 +528,9 @@ arma::mat GWRBasic::fitCoreCVOmp(const arma::mat& x, const arma::vec& y, const S
         {
             vec w = sw.weightVector(i);
             w(i) = 0.0;
-            mat xtw = trans(mX.each_col() % w);
-            mat xtwx = xtw * mX;
-            mat xtwy = xtw * mY;
+            mat xtw = trans(x.each_col() % w);
+            mat xtwx = xtw * x;
+            mat xtwy = xtw * y;
             try
             {
                 mat xtwx_inv = inv_sympd(xtwx);
@@ -538,10 +539,15 @@ arma::mat GWRBasic::fitCoreCVOmp(const arma::mat& x, const arma::vec& y, const S
             catch (const exception& e)
             {
                 GWM_LOG_ERROR(e.what());
+                except = e;
                 flag = false;
             }
         }
     }
+    if (!flag)
+    {
+        throw except;
+    }
     return betas.t();
 }
 
@@ -551,6 +557,7 @@ arma::mat GWRBasic::fitCoreSHatOmp(const arma::mat& x, const arma::vec& y, const
     mat betas(nVar, nDp, fill::zeros);
     mat shat_all(2, mOmpThreadNum, fill::zeros);
     int flag = true;
+    std::exception except;
     std::pair<uword, uword> workRange = mWorkRange.value_or(make_pair(0, nDp));
 #pragma omp parallel for num_threads(mOmpThreadNum)
     for (uword i = workRange.first; i < workRange.second; i++)
@@ -575,10 +582,15 @@ arma::mat GWRBasic::fitCoreSHatOmp(const arma::mat& x, const arma::vec& y, const
             catch (const exception& e)
             {
                 GWM_LOG_ERROR(e.what());
+                except = e;
                 flag = false;
             }
         }
     }
+    if (!flag)
+    {
+        throw except;
+    }
     shat = sum(shat_all, 1);
     return betas.t();
 }
-- 
2.43.0


From 4ba191c1a090ae83eee3ac9938efd74346db485d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:39 +0000
Subject: [PATCH 09/65] fix: the default bandwidth criterion of GWRBasic and
 GTWR is the AIC they report, not CV

---
 include/gwmodelpp/GTWR.h     | 2 +-
 include/gwmodelpp/GWRBasic.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/gwmodelpp/GTWR.h b/include/gwmodelpp/GTWR.h
index 519013c..4ecc0c4 100644
--- a/include/gwmodelpp/GTWR.h
+++ b/include/gwmodelpp/GTWR.h
@@ -621,7 +621,7 @@ protected:
     bool mIsAutoselectLambda = false;//!< \~english Whether need lambda autoselect. \~chinese 是否需要自动优选lambda。
 
     BandwidthSelectionCriterionType mBandwidthSelectionCriterion = BandwidthSelectionCriterionType::AIC;//!< \~english Bandwidth Selection Criterion Type. \~chinese 默认的带宽优选方式。
-    BandwidthSelectionCriterionCalculator mBandwidthSelectionCriterionFunction = &GTWR::bandwidthSizeCriterionCVSerial;//!< \~english Bandwidth Selection Criterion Function. \~chinese 默认的带宽优选函数。
+    BandwidthSelectionCriterionCalculator mBandwidthSelectionCriterionFunction = &GTWR::bandwidthSizeCriterionAICSerial;//!< \~english Bandwidth Selection Criterion Function. \~chinese 默认的带宽优选函数。
     BandwidthCriterionList mBandwidthSelectionCriterionList;//!< \~english Bandwidth Selection Criterion List. \~chinese 默认的带宽优选参数列表。
     double mBandwidthLastCriterion = DBL_MAX;   //!< \~english Last criterion for bandwidth selection. \~chinese 上一次带宽优选的有效指标值。
 
diff --git a/include/gwmodelpp/GWRBasic.h b/include/gwmodelpp/GWRBasic.h
index 30665d2..01c768a 100644
--- a/include/gwmodelpp/GWRBasic.h
+++ b/include/gwmodelpp/GWRBasic.h
@@ -744,7 +744,7 @@ protected:
 
     bool mIsAutoselectBandwidth = false;    //!< \~english Whether to auto select bandwidth. \~chinese 是否自动优选带宽。
     BandwidthSelectionCriterionType mBandwidthSelectionCriterion = BandwidthSelectionCriterionType::AIC;    //!< \~english Type criterion for bandwidth selection. \~chinese 带宽优选的指标值类型。
-    BandwidthSelectionCriterionCalculator mBandwidthSelectionCriterionFunction = &GWRBasic::bandwidthSizeCriterionCV; //!< \~english Criterion calculator for bandwidth selection. \~chinese 带宽优选的指标计算函数。
+    BandwidthSelectionCriterionCalculator mBandwidthSelectionCriterionFunction = &GWRBasic::bandwidthSizeCriterionAIC; //!< \~english Criterion calculator for bandwidth selection. \~chinese 带宽优选的指标计算函数。
     BandwidthCriterionList mBandwidthSelectionCriterionList;    //!< \~english Criterion list of each bandwidth. \~chinese 每种带宽组合对应的指标值。
     double mBandwidthLastCriterion = DBL_MAX;   //!< \~english Last criterion for bandwidth selection. \~chinese 上一次带宽优选的有效指标值。
     std::optional<double> mGoldenUpperBounds;
-- 
2.43.0


From ac7f684841b911924534696918a44814034b00c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:43 +0000
Subject: [PATCH 10/65] fix: with MPI a singular local regression in one
 process left the others waiting forever

---
 src/gwmodelpp/GWRBasic.cpp | 59 +++++++++++++++++++++++++++++++++++---
 1 file changed, 55 insertions(+), 4 deletions(-)

diff --git a/src/gwmodelpp/GWRBasic.cpp b/src/gwmodelpp/GWRBasic.cpp
index b854032..2a6a4d9 100644
--- a/src/gwmodelpp/GWRBasic.cpp
+++ b/src/gwmodelpp/GWRBasic.cpp
@@ -848,7 +848,19 @@ double GWRBasic::indepVarsSelectionCriterionMpi(const vector<size_t>& indepVars)
     sw.weight<BandwidthWeight>()->setBandwidth(DBL_MAX);
     vec shat;
     double aic;
-    mat betas = (this->*mFitCoreSHatFunction)(x, y, sw, shat);
+    int failed = 0;
+    mat betas;
+    try
+    {
+        betas = (this->*mFitCoreSHatFunction)(x, y, sw, shat);
+    }
+    catch (const exception& e)
+    {
+        failed = 1;
+    }
+    // a failure in any process rejects the model in all of them
+    MPI_Allreduce(MPI_IN_PLACE, &failed, 1, MPI_INT, MPI_MAX, MPI_COMM_WORLD);
+    if (failed) return DBL_MAX;
 GWM_MPI_MASTER_BEGIN
     umat received(mWorkerNum, 2, arma::fill::zeros);
     received.row(0).fill(1);
@@ -886,7 +898,19 @@ double GWRBasic::bandwidthSizeCriterionCVMpi(BandwidthWeight* bandwidthWeight)
     uword nDp = mX.n_rows, nVar = mX.n_cols;
     SpatialWeight sw(bandwidthWeight, mSpatialWeight.distance());
     double cv;
-    mat betas = (this->*mFitCoreCVFunction)(mX, mY, sw).t();
+    int failed = 0;
+    mat betas;
+    try
+    {
+        betas = (this->*mFitCoreCVFunction)(mX, mY, sw).t();
+    }
+    catch (const exception& e)
+    {
+        failed = 1;
+    }
+    // a failure in any process rejects the model in all of them
+    MPI_Allreduce(MPI_IN_PLACE, &failed, 1, MPI_INT, MPI_MAX, MPI_COMM_WORLD);
+    if (failed) return DBL_MAX;
 GWM_MPI_MASTER_BEGIN
     uvec received(mWorkerNum, arma::fill::zeros);
     received.row(0).fill(1);
@@ -900,6 +924,7 @@ GWM_MPI_MASTER_BEGIN
     }
     vec residual = mY - sum(mX % betas.t(), 1);
     cv = sum(residual % residual);
+    if (!isfinite(cv)) cv = DBL_MAX;
 GWM_MPI_MASTER_END
 GWM_MPI_WORKER_BEGIN
     MPI_Send(betas.memptr(), betas.n_elem, MPI_DOUBLE, 0, int(GWRBasicCVMpiTags::Betas), MPI_COMM_WORLD);
@@ -913,7 +938,19 @@ double GWRBasic::bandwidthSizeCriterionAICMpi(BandwidthWeight* bandwidthWeight)
     SpatialWeight sw(bandwidthWeight, mSpatialWeight.distance());
     double aic;
     vec shat(2, fill::zeros);
-    mat betas = (this->*mFitCoreSHatFunction)(mX, mY, sw, shat);
+    int failed = 0;
+    mat betas;
+    try
+    {
+        betas = (this->*mFitCoreSHatFunction)(mX, mY, sw, shat);
+    }
+    catch (const exception& e)
+    {
+        failed = 1;
+    }
+    // a failure in any process rejects the model in all of them
+    MPI_Allreduce(MPI_IN_PLACE, &failed, 1, MPI_INT, MPI_MAX, MPI_COMM_WORLD);
+    if (failed) return DBL_MAX;
 GWM_MPI_MASTER_BEGIN
     umat received(mWorkerNum, 2, arma::fill::zeros);
     received.row(0).fill(1);
@@ -937,6 +974,7 @@ GWM_MPI_MASTER_BEGIN
         }
     }
     aic = GWRBasic::AICc(mX, mY, betas, shat);
+    if (!isfinite(aic)) aic = DBL_MAX;
 GWM_MPI_MASTER_END
 GWM_MPI_WORKER_BEGIN
     MPI_Send(shat.memptr(), shat.n_elem, MPI_DOUBLE, 0, int(GWRBasicAICMpiTags::SHat), MPI_COMM_WORLD);
@@ -950,7 +988,20 @@ arma::mat gwm::GWRBasic::fitMpi()
 {
     // fit GWR on each process
     uword nDp = mCoords.n_rows, nVar = mX.n_cols;
-    mBetas = (this->*mFitCoreFunction)(mX, mY, mSpatialWeight).t();
+    int failed = 0;
+    std::exception except;
+    try
+    {
+        mBetas = (this->*mFitCoreFunction)(mX, mY, mSpatialWeight).t();
+    }
+    catch (const exception& e)
+    {
+        except = e;
+        failed = 1;
+    }
+    // a failure in any process is reported by all of them
+    MPI_Allreduce(MPI_IN_PLACE, &failed, 1, MPI_INT, MPI_MAX, MPI_COMM_WORLD);
+    if (failed) throw except;
     mBetasSE = mBetasSE.t();
     mS = mS.t();
     // gather results to master process
-- 
2.43.0


From 9150de1555e61c9e21b7f56e8508128f182cc610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:43 +0000
Subject: [PATCH 11/65] fix: MPI processes left without any point by the
 partition of GWRBasic underflowed their range

---
 src/gwmodelpp/GWRBasic.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/gwmodelpp/GWRBasic.cpp b/src/gwmodelpp/GWRBasic.cpp
index 2a6a4d9..117c6d1 100644
--- a/src/gwmodelpp/GWRBasic.cpp
+++ b/src/gwmodelpp/GWRBasic.cpp
@@ -93,7 +93,7 @@ mat GWRBasic::fit()
         MPI_Bcast(mX.memptr(), mX.n_elem, MPI_DOUBLE, 0, MPI_COMM_WORLD);
         MPI_Bcast(mY.memptr(), mY.n_elem, MPI_DOUBLE, 0, MPI_COMM_WORLD);
         MPI_Bcast(mCoords.memptr(), mCoords.n_elem, MPI_DOUBLE, 0, MPI_COMM_WORLD);
-        uword workRangeFrom = uword(mWorkerId) * mWorkRangeSize;
+        uword workRangeFrom = min(uword(mWorkerId) * mWorkRangeSize, nDp);
         // cout << mWorkerId << " process work range: [" << workRangeFrom << "," << min(workRangeFrom + mWorkRangeSize, nDp) << "]\n";
         mWorkRange = make_pair(workRangeFrom, min(workRangeFrom + mWorkRangeSize, nDp));
         // cout << mWorkerId << " process work range: [" << mWorkRange.value().first << "," << mWorkRange.value().second << "]\n";
@@ -1021,14 +1021,14 @@ arma::mat gwm::GWRBasic::fitMpi()
         MPI_Recv(buf.get(), bufSize, MPI_DOUBLE, MPI_ANY_SOURCE, MPI_ANY_TAG, MPI_COMM_WORLD, &status);
         // printf("0 process received message with %d from %d\n", status.MPI_TAG, status.MPI_SOURCE);
         received(status.MPI_SOURCE, status.MPI_TAG - int(GWRBasicFitMpiTags::Betas)) = 1;
-        uword rangeFrom = status.MPI_SOURCE * mWorkRangeSize, rangeTo = min(rangeFrom + mWorkRangeSize, nDp), rangeSize = rangeTo - rangeFrom;
+        uword rangeFrom = min(status.MPI_SOURCE * mWorkRangeSize, nDp), rangeTo = min(rangeFrom + mWorkRangeSize, nDp), rangeSize = rangeTo - rangeFrom;
         switch (GWRBasicFitMpiTags(status.MPI_TAG))
         {
         case GWRBasicFitMpiTags::Betas:
-            mBetas.cols(rangeFrom, rangeTo - 1) = mat(buf.get(), nVar, rangeSize);
+            if (rangeSize > 0) mBetas.cols(rangeFrom, rangeTo - 1) = mat(buf.get(), nVar, rangeSize);
             break;
         case GWRBasicFitMpiTags::BetasSE:
-            mBetasSE.cols(rangeFrom, rangeTo - 1) = mat(buf.get(), nVar, rangeSize);
+            if (rangeSize > 0) mBetasSE.cols(rangeFrom, rangeTo - 1) = mat(buf.get(), nVar, rangeSize);
             break;
         case GWRBasicFitMpiTags::SHat:
             shat_all.col(status.MPI_SOURCE) = vec(buf.get(), 2);
@@ -1057,8 +1057,10 @@ arma::mat gwm::GWRBasic::fitMpi()
     std::pair<uword, uword> workRange = mWorkRange.value_or(make_pair(0, nDp));
     // printf("%d process work range: [%lld, %lld]\n", mWorkerId, workRange.first, workRange.second);
     // cout << mWorkerId << " process work range: [" << workRange.first << "," << workRange.second << "]\n";
-    mat betas = mBetas.cols(workRange.first, workRange.second - 1);
-    mat betasSE = mBetasSE.cols(workRange.first, workRange.second - 1);
+    // more processes than points leaves some without any point
+    bool hasWork = workRange.second > workRange.first;
+    mat betas = hasWork ? mat(mBetas.cols(workRange.first, workRange.second - 1)) : mat(nVar, 0);
+    mat betasSE = hasWork ? mat(mBetasSE.cols(workRange.first, workRange.second - 1)) : mat(nVar, 0);
     MPI_Send(betas.memptr(), betas.n_elem, MPI_DOUBLE, 0, int(GWRBasicFitMpiTags::Betas), MPI_COMM_WORLD);
     MPI_Send(betasSE.memptr(), betasSE.n_elem, MPI_DOUBLE, 0, int(GWRBasicFitMpiTags::BetasSE), MPI_COMM_WORLD);
     MPI_Send(mSHat.memptr(), mSHat.n_elem, MPI_DOUBLE, 0, int(GWRBasicFitMpiTags::SHat), MPI_COMM_WORLD);
-- 
2.43.0


From 539a18e044e65d4606bd0cf994fa6eaacd3f6118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:37 +0000
Subject: [PATCH 12/65] fix: OpenMP criteria of multiscale GWR scored a
 bandwidth with a singular local regression instead of rejecting it

---
 src/gwmodelpp/GWRMultiscale.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/gwmodelpp/GWRMultiscale.cpp b/src/gwmodelpp/GWRMultiscale.cpp
index 3e03f4a..ebcde25 100644
--- a/src/gwmodelpp/GWRMultiscale.cpp
+++ b/src/gwmodelpp/GWRMultiscale.cpp
@@ -684,6 +684,7 @@ vec GWRMultiscale::fitVarCoreCVOmp(const vec &x, const vec &y, const SpatialWeig
     uword nDp = mCoords.n_rows;
     vec beta(nDp, fill::zeros);
     bool flag = true;
+    std::exception except;
     std::pair<uword, uword> workRange = mWorkRange.value_or(make_pair(0, nDp));
 #pragma omp parallel for num_threads(mOmpThreadNum)
     for (uword i = workRange.first; i < workRange.second; i++)
@@ -704,10 +705,15 @@ vec GWRMultiscale::fitVarCoreCVOmp(const vec &x, const vec &y, const SpatialWeig
             catch (const exception& e)
             {
                 GWM_LOG_ERROR(e.what());
+                except = e;
                 flag = false;
             }
         }
     }
+    if (!flag)
+    {
+        throw except;
+    }
     return beta;
 }
 
@@ -717,6 +723,7 @@ vec GWRMultiscale::fitVarCoreSHatOmp(const vec &x, const vec &y, const SpatialWe
     vec betas(nDp, fill::zeros);
     mat shat_all(2, mOmpThreadNum, fill::zeros);
     bool flag = true;
+    std::exception except;
     std::pair<uword, uword> workRange = mWorkRange.value_or(make_pair(0, nDp));
 #pragma omp parallel for num_threads(mOmpThreadNum)
     for (uword i = workRange.first; i < workRange.second; i++)
@@ -741,10 +748,15 @@ vec GWRMultiscale::fitVarCoreSHatOmp(const vec &x, const vec &y, const SpatialWe
             catch (const exception& e)
             {
                 GWM_LOG_ERROR(e.what());
+                except = e;
                 flag = false;
             }
         }
     }
+    if (!flag)
+    {
+        throw except;
+    }
     shat = sum(shat_all, 1);
     return betas;
 }
-- 
2.43.0


From ffa30d1f5eb02027168c4967858f8383fee25dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:37 +0000
Subject: [PATCH 13/65] fix: multiscale GWR with MPI dropped every negative
 coefficient when combining the processes' parts

---
 src/gwmodelpp/GWRMultiscale.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/gwmodelpp/GWRMultiscale.cpp b/src/gwmodelpp/GWRMultiscale.cpp
index ebcde25..eace887 100644
--- a/src/gwmodelpp/GWRMultiscale.cpp
+++ b/src/gwmodelpp/GWRMultiscale.cpp
@@ -962,7 +962,7 @@ vec GWRMultiscale::fitVarMpi(const size_t var)
     mat S;
     vec beta_p = (this->*mFitVarCore)(mXi, mYi, mSpatialWeights[var], S);
     vec beta(nDp);
-    MPI_Allreduce(beta_p.memptr(), beta.memptr(), nDp, MPI_DOUBLE, MPI_MAX, MPI_COMM_WORLD);
+    MPI_Allreduce(beta_p.memptr(), beta.memptr(), nDp, MPI_DOUBLE, MPI_SUM, MPI_COMM_WORLD);
     if (mHasHatMatrix)
     {
         mat SArrayi = mSArray.slice(var) - mS0;
@@ -997,7 +997,7 @@ double GWRMultiscale::bandwidthSizeCriterionVarCVMpi(BandwidthWeight* bandwidthW
     GWM_MPI_MASTER_BEGIN
     betas_all = vec(size(betas));
     GWM_MPI_MASTER_END
-    MPI_Reduce(betas.memptr(), betas_all.memptr(), betas.n_elem, MPI_DOUBLE, MPI_MAX, 0, MPI_COMM_WORLD);
+    MPI_Reduce(betas.memptr(), betas_all.memptr(), betas.n_elem, MPI_DOUBLE, MPI_SUM, 0, MPI_COMM_WORLD);
     GWM_MPI_MASTER_BEGIN
     vec residual = mYi - mXi % betas_all;
     cv = sum(residual % residual);
@@ -1038,7 +1038,7 @@ double GWRMultiscale::bandwidthSizeCriterionVarAICMpi(BandwidthWeight* bandwidth
     betas_all = vec(size(betas));
     shat_all = vec(size(shat));
     GWM_MPI_MASTER_END
-    MPI_Reduce(betas.memptr(), betas_all.memptr(), betas.n_elem, MPI_DOUBLE, MPI_MAX, 0, MPI_COMM_WORLD);
+    MPI_Reduce(betas.memptr(), betas_all.memptr(), betas.n_elem, MPI_DOUBLE, MPI_SUM, 0, MPI_COMM_WORLD);
     MPI_Reduce(shat.memptr(), shat_all.memptr(), shat.n_elem, MPI_DOUBLE, MPI_SUM, 0, MPI_COMM_WORLD);
     GWM_MPI_MASTER_BEGIN
     aic = GWRBasic::AICc(mXi, mYi, betas_all, shat_all);
-- 
2.43.0


From 75106249be89a59d60fa7cebf386174c6e7e6fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:38 +0000
Subject: [PATCH 14/65] fix: MPI processes left without any point by the
 partition of multiscale GWR underflowed their range

---
 src/gwmodelpp/GWRMultiscale.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gwmodelpp/GWRMultiscale.cpp b/src/gwmodelpp/GWRMultiscale.cpp
index eace887..e072eff 100644
--- a/src/gwmodelpp/GWRMultiscale.cpp
+++ b/src/gwmodelpp/GWRMultiscale.cpp
@@ -173,7 +173,7 @@ mat GWRMultiscale::fit()
         MPI_Bcast(mX.memptr(), mX.n_elem, MPI_DOUBLE, 0, MPI_COMM_WORLD);
         MPI_Bcast(mY.memptr(), mY.n_elem, MPI_DOUBLE, 0, MPI_COMM_WORLD);
         MPI_Bcast(mCoords.memptr(), mCoords.n_elem, MPI_DOUBLE, 0, MPI_COMM_WORLD);
-        uword workRangeFrom = uword(mWorkerId) * mWorkRangeSize;
+        uword workRangeFrom = min(uword(mWorkerId) * mWorkRangeSize, nDp);
         mWorkRange = make_pair(workRangeFrom, min(workRangeFrom + mWorkRangeSize, nDp));
     }
 #endif // ENABLE_MPI
@@ -258,7 +258,7 @@ mat GWRMultiscale::fit()
         if (mParallelType & ParallelType::MPI)
         {
             vec shati(2);
-            shati(0) = trace(mS0.cols(workRange.first, workRange.second - 1));
+            shati(0) = workRange.second > workRange.first ? trace(mS0.cols(workRange.first, workRange.second - 1)) : 0.0;
             shati(1) = trace(mS0 * mS0.t());
             MPI_Reduce(shati.memptr(), shat.memptr(), 2, MPI_DOUBLE, MPI_SUM, 0, MPI_COMM_WORLD);
             MPI_Bcast(shat.memptr(), 2, MPI_DOUBLE, 0, MPI_COMM_WORLD);
-- 
2.43.0


From 4dd2b7072380de4c81ce21d1678987bfce7cfed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:38 +0000
Subject: [PATCH 15/65] fix: variables of multiscale GWR given an initial fixed
 bandwidth were searched in an empty interval

---
 src/gwmodelpp/GWRMultiscale.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gwmodelpp/GWRMultiscale.cpp b/src/gwmodelpp/GWRMultiscale.cpp
index e072eff..caa27e3 100644
--- a/src/gwmodelpp/GWRMultiscale.cpp
+++ b/src/gwmodelpp/GWRMultiscale.cpp
@@ -197,6 +197,8 @@ mat GWRMultiscale::fit()
     for (uword i = 0; i < nVar ; i++)
     {
         GWM_LOG_STOP_BREAK(mStatus);
+        mMaxDistances[i] = mSpatialWeights[i].distance()->maxDistance();
+        mMinDistances[i] = mSpatialWeights[i].distance()->minDistance();
         if (mBandwidthInitilize[i] == BandwidthInitilizeType::Null)
         {
             mBandwidthSizeCriterion = bandwidthSizeCriterionVar(mBandwidthSelectionApproach[i]);
@@ -204,8 +206,6 @@ mat GWRMultiscale::fit()
             mXi = mX.col(i);
             BandwidthWeight* bw0 = bandwidth(i);
             bool adaptive = bw0->adaptive();
-            mMaxDistances[i] = mSpatialWeights[i].distance()->maxDistance();
-            mMinDistances[i] = mSpatialWeights[i].distance()->minDistance();
 
             GWM_LOG_INFO(string(GWM_LOG_TAG_MGWR_INITIAL_BW) + to_string(i));
             BandwidthSelector selector;
-- 
2.43.0


From ad25a3c5a207550444114e627296f427240e7eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:44 +0000
Subject: [PATCH 16/65] fix: the AIC reported by multiscale GWR was never
 computed

---
 src/gwmodelpp/GWRMultiscale.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/gwmodelpp/GWRMultiscale.cpp b/src/gwmodelpp/GWRMultiscale.cpp
index caa27e3..16ee666 100644
--- a/src/gwmodelpp/GWRMultiscale.cpp
+++ b/src/gwmodelpp/GWRMultiscale.cpp
@@ -63,12 +63,14 @@ RegressionDiagnostic GWRMultiscale::CalcDiagnostic(const mat &x, const vec &y, c
     double trStS = shat(1);
     double enp = 2 * trS - trStS;
     double edf = nDp - 2 * trS + trStS;
+    double AIC = nDp * log(sigmaHat21) + nDp * log(2 * M_PI) + nDp + trS;
     double AICc = nDp * log(sigmaHat21) + nDp * log(2 * M_PI) + nDp * ((nDp + trS) / (nDp - 2 - trS));
     double adjustRsquare = 1 - (1 - Rsquare) * (nDp - 1) / (edf - 1);
 
     // 保存结果
     RegressionDiagnostic diagnostic;
     diagnostic.RSS = RSSg;
+    diagnostic.AIC = AIC;
     diagnostic.AICc = AICc;
     diagnostic.ENP = enp;
     diagnostic.EDF = edf;
-- 
2.43.0


From f754f09e0bf346dca74779ad99466be48fa9bd10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:11 +0000
Subject: [PATCH 17/65] fix: GWDR with OpenMP returned zero coefficients where
 a local regression is singular instead of failing

---
 src/gwmodelpp/GWDR.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gwmodelpp/GWDR.cpp b/src/gwmodelpp/GWDR.cpp
index e845b65..b297832 100644
--- a/src/gwmodelpp/GWDR.cpp
+++ b/src/gwmodelpp/GWDR.cpp
@@ -304,6 +304,7 @@ mat GWDR::fitOmp(const mat& x, const vec& y, mat& betasSE, vec& shat, vec& qdiag
             {
                 GWM_LOG_ERROR(e.what());
                 except = e;
+                success = false;
             }
         }
         GWM_LOG_PROGRESS(i + 1, nDp);
-- 
2.43.0


From c8f9d4b77fcebab86d10f08de22747e0e176b9b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:12 +0000
Subject: [PATCH 18/65] fix: GWDR bandwidth optimization multiplied fixed
 bandwidths by the number of points and rounded them

---
 src/gwmodelpp/GWDR.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gwmodelpp/GWDR.cpp b/src/gwmodelpp/GWDR.cpp
index b297832..39256db 100644
--- a/src/gwmodelpp/GWDR.cpp
+++ b/src/gwmodelpp/GWDR.cpp
@@ -772,7 +772,7 @@ double GWDRBandwidthOptimizer::criterion_function(const gsl_vector* bws, void* p
     for (size_t m = 0; m < bandwidths.size(); m++)
     {
         double pbw = abs(gsl_vector_get(bws, m));
-        bandwidths[m]->setBandwidth(pbw * nFeature);
+        bandwidths[m]->setBandwidth(bandwidths[m]->adaptive() ? pbw * nFeature : pbw);
     }
     return instance->bandwidthCriterion(bandwidths);
 }
@@ -830,7 +830,7 @@ const int GWDRBandwidthOptimizer::optimize(GWDR* instance, uword featureCount, s
         {
             double pbw = abs(gsl_vector_get(minimizer->x, m));
             // pbw = (pbw > 1.0 ? 1.0 : pbw);
-            mBandwidths[m]->setBandwidth(round(pbw * featureCount));
+            mBandwidths[m]->setBandwidth(mBandwidths[m]->adaptive() ? round(pbw * featureCount) : pbw);
         }
     }
     gsl_multimin_fminimizer_free(minimizer);
-- 
2.43.0


From d85f7e8b90b5aeb8317fb0b18a3f328ca2ba502b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:48 +0000
Subject: [PATCH 19/65] fix: local quantiles read out of range when the
 smallest value alone outweighs the quantile

---
 src/gwmodelpp/GWSS.cpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/gwmodelpp/GWSS.cpp b/src/gwmodelpp/GWSS.cpp
index f1acf85..22b350d 100644
--- a/src/gwmodelpp/GWSS.cpp
+++ b/src/gwmodelpp/GWSS.cpp
@@ -34,14 +34,10 @@ vec GWSS::findq(const mat &x, const vec &w)
         double k = 0.25 * (j + 1);
         for(uword i = 0; i < lw; i++){
             if(Cum(i) > k){
-                cond = i - 1;
+                cond = i > 0 ? i - 1 : 0;
                 break;
             }
         }
-        if(cond < 0)
-        {
-            cond = 0;
-        }
         q.row(j) = xo[cond];
         cond = lw - 1;
     }
-- 
2.43.0


From 4a2acab1247bac4f6c755d4b86cc156972405668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:48 +0000
Subject: [PATCH 20/65] fix: local standard deviations of GWPCA were all scaled
 by the weights of the last location

---
 src/gwmodelpp/GWPCA.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/gwmodelpp/GWPCA.cpp b/src/gwmodelpp/GWPCA.cpp
index a2a954a..7c9a83c 100644
--- a/src/gwmodelpp/GWPCA.cpp
+++ b/src/gwmodelpp/GWPCA.cpp
@@ -20,7 +20,7 @@ mat GWPCA::solveSerial(const mat& x, cube& loadings, mat& sdev)
 {
     uword nDp = mCoords.n_rows, nVar = mX.n_cols;
     mat d_all(nVar, nDp, arma::fill::zeros);
-    vec w0;
+    vec sumW(nDp, arma::fill::ones);
     loadings = cube(nDp, nVar, mK, arma::fill::zeros);
     for (uword i = 0; i < nDp; i++)
     {
@@ -29,7 +29,7 @@ mat GWPCA::solveSerial(const mat& x, cube& loadings, mat& sdev)
         mat V;
         vec d;
         wpca(x, w, V, d);
-        w0 = w;
+        sumW(i) = sum(w);
         d_all.col(i) = d;
         for (int j = 0; j < mK; j++)
         {
@@ -38,7 +38,8 @@ mat GWPCA::solveSerial(const mat& x, cube& loadings, mat& sdev)
         GWM_LOG_PROGRESS(i + 1, nDp);
     }
     d_all = trans(d_all);
-    mat variance = (d_all / sqrt(sum(w0))) % (d_all / sqrt(sum(w0)));
+    mat variance = d_all % d_all;
+    variance.each_col() /= sumW;
     sdev = sqrt(variance);
     mat pv = variance.cols(0, mK - 1).each_col() % (1.0 / sum(variance, 1)) * 100.0;
     return pv;
-- 
2.43.0


From 6ee209c492b00915f9bc008bcea0372f6764f628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:07 +0000
Subject: [PATCH 21/65] fix: discriminant analysis with OpenMP let every point
 vote for its own group

---
 src/gwmodelpp/GWDA.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gwmodelpp/GWDA.cpp b/src/gwmodelpp/GWDA.cpp
index 1dfe708..aedbd1c 100644
--- a/src/gwmodelpp/GWDA.cpp
+++ b/src/gwmodelpp/GWDA.cpp
@@ -126,6 +126,7 @@ void GWDA::discriminantAnalysisOmp()
     {
         wt.col(i) = mSpatialWeight.weightVector(i);
     }
+    if (!mHasPredict) wt.diag().zeros();
     if (mIsWqda)
     {
         mRes = wqda(mX, mY, wt, mprX, mHascov, mHasmean, mHasprior);
-- 
2.43.0


From 6eedd5e245115c450b1b279703569d7269248c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:07 +0000
Subject: [PATCH 22/65] fix: quadratic discriminant analysis threw when a
 global mean, covariance or prior was requested

---
 src/gwmodelpp/GWDA.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gwmodelpp/GWDA.cpp b/src/gwmodelpp/GWDA.cpp
index aedbd1c..0507a67 100644
--- a/src/gwmodelpp/GWDA.cpp
+++ b/src/gwmodelpp/GWDA.cpp
@@ -222,10 +222,10 @@ mat GWDA::wqda(arma::mat &x, std::vector<std::string> &y, arma::mat &wt, arma::m
 {
     vector<string> lev = levels(y);
     uword m = lev.size();
-    // uword nDp = x.n_rows;
+    uword nDp = x.n_rows;
     uword nPr = xpr.n_rows;
     mat wtOnes;
-    // wtOnes.ones(nDp, nPr);
+    wtOnes.ones(nDp, nPr);
     vector<mat> xg = splitX(x, y);
     vector<vec> prior;
     mat wti; //(nDp, nPr, fill::zeros);
-- 
2.43.0


From 66714127f01bcd777e5e0364683a18d2f997bfa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:07 +0000
Subject: [PATCH 23/65] fix: group probabilities of discriminant analysis
 favoured the least likely group and skipped the last one

---
 src/gwmodelpp/GWDA.cpp | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/gwmodelpp/GWDA.cpp b/src/gwmodelpp/GWDA.cpp
index 0507a67..e8bf759 100644
--- a/src/gwmodelpp/GWDA.cpp
+++ b/src/gwmodelpp/GWDA.cpp
@@ -55,16 +55,12 @@ void GWDA::run()
     }
     uvec correctCount = find(correct == 1);
     mCorrectRate = (double)correctCount.n_rows / nRp;
-    mat tmp = mRes.cols(0, NV - 1);
-    for (uword i = 0; i < NV - 1; i++)
-    {
-        vec tempi = tmp.col(i);
-        tmp.col(i) = exp(tempi);
-    }
-    mat probs = tmp.each_col() / sum(tmp, 1); // / sum(tmp, 1);
+    // mRes holds negative log-likelihoods; the smallest of each row is subtracted to keep exp() in range.
+    mat tmp = exp(-(mRes.each_col() - min(mRes, 1)));
+    mat probs = tmp.each_col() / sum(tmp, 1);
     vec pmax = max(probs, 1);
     // double pnorm=0;
-    vec p = vec(NV - 1, fill::ones) / (NV - 1.0);
+    vec p = vec(NV, fill::ones) / (double)NV;
     double entMax = shannonEntropy(p);
     vec entropy(nRp, fill::zeros);
     for (uword i = 0; i < nRp; i++)
-- 
2.43.0


From 2ad199b0af1410d8393c6b63c777e686f582f160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:07 +0000
Subject: [PATCH 24/65] fix: running a discriminant analysis again took the
 first training data as data to be predicted

---
 src/gwmodelpp/GWDA.cpp | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/src/gwmodelpp/GWDA.cpp b/src/gwmodelpp/GWDA.cpp
index e8bf759..24f1344 100644
--- a/src/gwmodelpp/GWDA.cpp
+++ b/src/gwmodelpp/GWDA.cpp
@@ -35,14 +35,6 @@ void GWDA::run()
     }
     // vec lev = levels(mY);
     mHasPredict = !(mprX.is_empty() && mprY.empty());
-    if (mprX.is_empty())
-    {
-        mprX = mX;
-    }
-    if (mprY.empty())
-    {
-        mprY = mY;
-    }
     (this->*mDiscriminantAnalysisFunction)();
     uword NV = mRes.n_cols;
     vec correct(mY.size(), fill::zeros);
@@ -101,11 +93,11 @@ void GWDA::discriminantAnalysisSerial()
     if (!mHasPredict) wt.diag().zeros();
     if (mIsWqda)
     {
-        mRes = wqda(mX, mY, wt, mprX, mHascov, mHasmean, mHasprior);
+        mRes = wqda(mX, mY, wt, mHasPredict ? mprX : mX, mHascov, mHasmean, mHasprior);
     }
     else
     {
-        mRes = wlda(mX, mY, wt, mprX, mHascov, mHasmean, mHasprior);
+        mRes = wlda(mX, mY, wt, mHasPredict ? mprX : mX, mHascov, mHasmean, mHasprior);
     }
 }
 
@@ -125,11 +117,11 @@ void GWDA::discriminantAnalysisOmp()
     if (!mHasPredict) wt.diag().zeros();
     if (mIsWqda)
     {
-        mRes = wqda(mX, mY, wt, mprX, mHascov, mHasmean, mHasprior);
+        mRes = wqda(mX, mY, wt, mHasPredict ? mprX : mX, mHascov, mHasmean, mHasprior);
     }
     else
     {
-        mRes = wlda(mX, mY, wt, mprX, mHascov, mHasmean, mHasprior);
+        mRes = wlda(mX, mY, wt, mHasPredict ? mprX : mX, mHascov, mHasmean, mHasprior);
     }
 }
 #endif
-- 
2.43.0


From 7daaa2a87de5dfbc275a686fdc1f286f06bd04e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:07 +0000
Subject: [PATCH 25/65] fix: integer division dropped half of the covariance
 term of discriminant scores with an odd number of groups

---
 src/gwmodelpp/GWDA.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gwmodelpp/GWDA.cpp b/src/gwmodelpp/GWDA.cpp
index 24f1344..1df487c 100644
--- a/src/gwmodelpp/GWDA.cpp
+++ b/src/gwmodelpp/GWDA.cpp
@@ -275,7 +275,7 @@ mat GWDA::wqda(arma::mat &x, std::vector<std::string> &y, arma::mat &wt, arma::m
             vec meani = localMean[i].row(j).t();
             mat covmatj = sigmagw[i].row(j);
             vec x1 = 0.5 * (xprj - meani).t() * solve(covmatj, (xprj - meani)); // inv(covmatj) * (xprj - meani);
-            logPf(j, i) = (m / 2) * log(norm(covmatj)) + x1(0) - log(prior[i].at(j));
+            logPf(j, i) = (m / 2.0) * log(norm(covmatj)) + x1(0) - log(prior[i].at(j));
         }
     }
     vector<string> groupPr;
@@ -371,7 +371,7 @@ mat GWDA::wlda(arma::mat &x, std::vector<std::string> &y, arma::mat &wt, arma::m
             vec meani = localMean[i].row(j).t();
             mat covmatj = sigma1gw.row(j);
             vec x1 = 0.5 * (xprj - meani).t() * solve(covmatj, (xprj - meani));
-            logPf(j, i) = (m / 2) * log(norm(covmatj)) + x1(0) - log(prior[i].at(j));
+            logPf(j, i) = (m / 2.0) * log(norm(covmatj)) + x1(0) - log(prior[i].at(j));
         }
     }
     vector<string> groupPr;
-- 
2.43.0


From fabdf764f0638551bc797c1e9339a79b5af2a074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:47 +0000
Subject: [PATCH 26/65] fix: the OpenMP bandwidth criterion of generalized GWR
 counted the trace of one thread only

---
 src/gwmodelpp/GWRGeneralized.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gwmodelpp/GWRGeneralized.cpp b/src/gwmodelpp/GWRGeneralized.cpp
index 1b95a86..383a3f6 100644
--- a/src/gwmodelpp/GWRGeneralized.cpp
+++ b/src/gwmodelpp/GWRGeneralized.cpp
@@ -750,7 +750,7 @@ double GWRGeneralized::bandwidthSizeGGWRCriterionAICOmp(BandwidthWeight *bandwid
 
     if (mStatus == Status::Success && S.is_finite())
     {
-        double trs = double(trS(0));
+        double trs = sum(trS);
         double AICc = -2 * mLLik + 2 * trs + 2 * trs * (trs + 1) / (n - trs - 1);
         GWM_LOG_PROGRESS_PERCENT(exp(- abs(mBandwidthLastCriterion - AICc)));
         mBandwidthLastCriterion = AICc;
-- 
2.43.0


From b41dfe9dec7f14015e4a63d9c5f79f45f1a0cdb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:47 +0000
Subject: [PATCH 27/65] fix: generalized GWR without a hat matrix always threw

---
 src/gwmodelpp/GWRGeneralized.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/gwmodelpp/GWRGeneralized.cpp b/src/gwmodelpp/GWRGeneralized.cpp
index 383a3f6..5cc52ab 100644
--- a/src/gwmodelpp/GWRGeneralized.cpp
+++ b/src/gwmodelpp/GWRGeneralized.cpp
@@ -274,7 +274,7 @@ mat GWRGeneralized::fitPoissonSerial(const mat &x, const vec &y)
             try
             {
                 vec wi = mWtMat2.col(i);
-                vec gwsi = gwPredict(x, myAdj, wi * mWt2);
+                vec gwsi = gwPredict(x, myAdj, wi % mWt2);
                 betas.col(i) = gwsi;
             }
             catch (const exception& e)
@@ -377,7 +377,7 @@ mat GWRGeneralized::fitPoissonOmp(const mat &x, const vec &y)
                 try
                 {
                     vec wi = mWtMat2.col(i);
-                    vec gwsi = gwPredict(x, myAdj, wi * mWt2);
+                    vec gwsi = gwPredict(x, myAdj, wi % mWt2);
                     betas.col(i) = gwsi;
                     // emit tick(current++, nRp);
                 }
@@ -469,8 +469,8 @@ mat GWRGeneralized::fitBinomialOmp(const mat &x, const vec &y)
                 try
                 {
                     vec wi = mWtMat2.col(i);
-                    vec gwsi = gwPredict(x, myAdj, wi * mWt2);
-                    mBetas.col(i) = gwsi;
+                    vec gwsi = gwPredict(x, myAdj, wi % mWt2);
+                    betas.col(i) = gwsi;
                     // emit tick(current++, nRp);
                 }
                 catch (const exception& e)
@@ -545,8 +545,8 @@ mat GWRGeneralized::fitBinomialSerial(const mat &x, const vec &y)
             try
             {
                 vec wi = mWtMat2.col(i);
-                vec gwsi = gwPredict(x, myAdj, wi * mWt2);
-                mBetas.col(i) = gwsi;
+                vec gwsi = gwPredict(x, myAdj, wi % mWt2);
+                betas.col(i) = gwsi;
                 // emit tick(i, nRp);
             }
             catch (const exception& e)
-- 
2.43.0


From 2c36794416362aebe8edfd3ecff46c6cc916b39e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:47 +0000
Subject: [PATCH 28/65] fix: generalized GWR reported AIC as its default
 bandwidth criterion while using CV

---
 include/gwmodelpp/GWRGeneralized.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gwmodelpp/GWRGeneralized.h b/include/gwmodelpp/GWRGeneralized.h
index f73cf09..397bbba 100644
--- a/include/gwmodelpp/GWRGeneralized.h
+++ b/include/gwmodelpp/GWRGeneralized.h
@@ -443,7 +443,7 @@ protected:
     CalWtFunction mCalWtFunction = &GWRGeneralized::PoissonWtSerial;        //!< \~english Calculator for weighting \~chinese 加权函数
 
     bool mIsAutoselectBandwidth = false;    //!< \~english Whether bandwidth optimization is enabled \~chinese 是否进行带宽优选
-    BandwidthSelectionCriterionType mBandwidthSelectionCriterionType = BandwidthSelectionCriterionType::AIC;    //!< \~english Type of criterion for bandwidth optimization \~chinese 带宽优选指标类型
+    BandwidthSelectionCriterionType mBandwidthSelectionCriterionType = BandwidthSelectionCriterionType::CV;    //!< \~english Type of criterion for bandwidth optimization \~chinese 带宽优选指标类型
     BandwidthSelectCriterionFunction mBandwidthSelectCriterionFunction = &GWRGeneralized::bandwidthSizeGGWRCriterionCVSerial;   //!< \~english Calculator to get criterion for given bandwidth value \~chinese 用于根据给定带宽值计算指标值的函数
     BandwidthSelector mBandwidthSizeSelector;   //!< \~english Bandwidth size selector \~chinese 带宽选择器
     double mBandwidthLastCriterion = DBL_MAX;   //!< \~english Last criterion for bandwidth selection. \~chinese 上一次带宽优选的有效指标值。
-- 
2.43.0


From 3cfb90b98bf8bee2a81bcecf69d22261f3475efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:47 +0000
Subject: [PATCH 29/65] fix: the AICc of the global generalized model used
 integer division

---
 src/gwmodelpp/GWRGeneralized.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gwmodelpp/GWRGeneralized.cpp b/src/gwmodelpp/GWRGeneralized.cpp
index 5cc52ab..03eb944 100644
--- a/src/gwmodelpp/GWRGeneralized.cpp
+++ b/src/gwmodelpp/GWRGeneralized.cpp
@@ -194,7 +194,7 @@ void GWRGeneralized::CalGLMModel(const mat &x, const vec &y)
     double dev = mGlm.dev();
     double pseudor2 = 1 - dev / nulldev;
     double aic = dev + 2 * nVar;
-    double aicc = aic + 2 * nVar * (nVar + 1) / (nDp - nVar - 1);
+    double aicc = aic + 2.0 * nVar * (nVar + 1.0) / ((double)nDp - nVar - 1.0);
     vec vGLMDiags(5);
     vGLMDiags(0) = aic;
     vGLMDiags(1) = aicc;
-- 
2.43.0


From 00b9cc38e5add0d9e5c654443f0ec8f8a8dc2391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:47 +0000
Subject: [PATCH 30/65] fix: the bandwidth criterion list of generalized GWR
 was always empty

---
 include/gwmodelpp/GWRGeneralized.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gwmodelpp/GWRGeneralized.h b/include/gwmodelpp/GWRGeneralized.h
index 397bbba..e1ee4a1 100644
--- a/include/gwmodelpp/GWRGeneralized.h
+++ b/include/gwmodelpp/GWRGeneralized.h
@@ -499,7 +499,7 @@ inline void GWRGeneralized::setMaxiter(size_t maxiter)
 
 inline BandwidthCriterionList GWRGeneralized::bandwidthSelectorCriterions() const
 {
-    return mBandwidthSizeSelector.bandwidthCriterion();
+    return mBandwidthSelectionCriterionList;
 }
 
 inline bool GWRGeneralized::hasHatMatrix() const
-- 
2.43.0


From d247ae9af905588aebe78a6db33f70b24c71768c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:47 +0000
Subject: [PATCH 31/65] fix: the family of generalized GWR was uninitialized
 until set

---
 include/gwmodelpp/GWRGeneralized.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gwmodelpp/GWRGeneralized.h b/include/gwmodelpp/GWRGeneralized.h
index e1ee4a1..96c7522 100644
--- a/include/gwmodelpp/GWRGeneralized.h
+++ b/include/gwmodelpp/GWRGeneralized.h
@@ -414,7 +414,7 @@ private:
     void createPredictionDistanceParameter(const arma::mat& locations);
 
 protected:
-    Family mFamily;             //!< \~english Family of the model \~chinese 模型的族
+    Family mFamily = Family::Poisson;             //!< \~english Family of the model \~chinese 模型的族
     double mTol=1e-5;           //!< \~english Tolerance \~chinese 容忍值
     std::size_t mMaxiter=20;    //!< \~english Maximum of iteration \~chinese 最大迭代次数
 
-- 
2.43.0


From 209055edcb8f0058a85b01159aee914b83f899db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:47 +0000
Subject: [PATCH 32/65] fix: the AIC of the generalized linear model counted
 observations as parameters

---
 src/gwmodelpp/GeneralizedLinearModel.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gwmodelpp/GeneralizedLinearModel.cpp b/src/gwmodelpp/GeneralizedLinearModel.cpp
index e49492d..48fce78 100644
--- a/src/gwmodelpp/GeneralizedLinearModel.cpp
+++ b/src/gwmodelpp/GeneralizedLinearModel.cpp
@@ -102,7 +102,7 @@ void GeneralizedLinearModel::fit(){
     }
     vec nulldevtemp = mModel->devResids(mY,wtdmu1,mWeight);
     mNullDev = sum(nulldevtemp);
-    uword rank = empty? 0 : mX.n_rows;
+    uword rank = empty? 0 : mX.n_cols;
     mAIC = mModel->aic(mY,n,mu,mWeight) + 2.0 * rank;
 }
 
-- 
2.43.0


From 82006e3082cf0f5e8f69d1419b40ca859b22226c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:47 +0000
Subject: [PATCH 33/65] fix: a bandwidth with a singular local regression
 aborted the bandwidth selection of generalized GWR

---
 include/gwmodelpp/GWRGeneralized.h | 10 +++++++++-
 src/gwmodelpp/GWRGeneralized.cpp   | 14 ++++++++++++--
 2 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/include/gwmodelpp/GWRGeneralized.h b/include/gwmodelpp/GWRGeneralized.h
index 96c7522..68f9a8e 100644
--- a/include/gwmodelpp/GWRGeneralized.h
+++ b/include/gwmodelpp/GWRGeneralized.h
@@ -128,7 +128,15 @@ public:
 public: // IBandwidthSizeSelectable interface
     Status getCriterion(BandwidthWeight *bandwidthWeight, double& criterion) override
     {
-        criterion = (this->*mBandwidthSelectCriterionFunction)(bandwidthWeight);
+        try
+        {
+            criterion = (this->*mBandwidthSelectCriterionFunction)(bandwidthWeight);
+        }
+        catch (const std::exception& e)
+        {
+            GWM_LOG_ERROR(e.what());
+            criterion = DBL_MAX;
+        }
         return mStatus;
     }
 
diff --git a/src/gwmodelpp/GWRGeneralized.cpp b/src/gwmodelpp/GWRGeneralized.cpp
index 03eb944..ca2679b 100644
--- a/src/gwmodelpp/GWRGeneralized.cpp
+++ b/src/gwmodelpp/GWRGeneralized.cpp
@@ -639,7 +639,7 @@ double GWRGeneralized::bandwidthSizeGGWRCriterionCVOmp(BandwidthWeight *bandwidt
     for (int i = 0; i < (int)n; i++)
     {
         GWM_LOG_STOP_CONTINUE(mStatus);
-        if (true)
+        try
         {
             mat wi = wt.col(i) % mWt2;
             vec gwsi = gwPredict(mX, myAdj, wi);
@@ -653,6 +653,11 @@ double GWRGeneralized::bandwidthSizeGGWRCriterionCVOmp(BandwidthWeight *bandwidt
                 cv.row(i) = mY.row(i) - exp(yhatnoi) / (1 + exp(yhatnoi));
             }
         }
+        catch (const exception& e)
+        {
+            GWM_LOG_ERROR(e.what());
+            cv(i) = datum::inf;
+        }
     }
     GWM_LOG_STOP_RETURN(mStatus, DBL_MAX);
 
@@ -737,7 +742,7 @@ double GWRGeneralized::bandwidthSizeGGWRCriterionAICOmp(BandwidthWeight *bandwid
     for (int i = 0; i < (int)n; i++)
     {
         GWM_LOG_STOP_CONTINUE(mStatus);
-        if (true)
+        try
         {
             int thread = omp_get_thread_num();
             vec wi = wt.col(i) % mWt2;
@@ -745,6 +750,11 @@ double GWRGeneralized::bandwidthSizeGGWRCriterionAICOmp(BandwidthWeight *bandwid
             S.row(i) = mX.row(i) * Ci;
             trS(thread) += S(i, i);
         }
+        catch (const exception& e)
+        {
+            GWM_LOG_ERROR(e.what());
+            S.row(i).fill(datum::inf);
+        }
     }
     GWM_LOG_STOP_RETURN(mStatus, DBL_MAX);
 
-- 
2.43.0


From 2c8bac9f0d8375519ab139de73981f243a018643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:42 +0000
Subject: [PATCH 34/65] fix: prediction of generalized GWR ignored the given
 locations and always threw

---
 src/gwmodelpp/GWRGeneralized.cpp | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/gwmodelpp/GWRGeneralized.cpp b/src/gwmodelpp/GWRGeneralized.cpp
index ca2679b..288cd21 100644
--- a/src/gwmodelpp/GWRGeneralized.cpp
+++ b/src/gwmodelpp/GWRGeneralized.cpp
@@ -171,14 +171,28 @@ void GWRGeneralized::createPredictionDistanceParameter(const arma::mat &location
 }
 mat GWRGeneralized::predict(const mat& locations)
 {
-    uword nDp = mCoords.n_rows, nVars = mX.n_cols;
-    mHasHatMatrix = false;
-    createPredictionDistanceParameter(locations);
-    GWM_LOG_STOP_RETURN(mStatus, mat(nDp, nVars, arma::fill::zeros));
+    uword nDp = mCoords.n_rows, nRp = locations.n_rows, nVars = mX.n_cols;
+    // Working responses and weights are those of the samples.
+    createDistanceParameter();
+    mat wt(nDp, nDp, fill::zeros);
+    for (uword i = 0; i < nDp; i++)
+    {
+        wt.col(i) = mSpatialWeight.weightVector(i);
+    }
+    GWM_LOG_STOP_RETURN(mStatus, mat(nRp, nVars, arma::fill::zeros));
+    (this->*mCalWtFunction)(mX, mY, wt);
 
-    mBetas = (this->*mGGWRfitFunction)(mX, mY);
-    GWM_LOG_STOP_RETURN(mStatus, mat(nDp, nVars, arma::fill::zeros));
+    createPredictionDistanceParameter(locations);
+    mat betas(nVars, nRp, fill::zeros);
+    for (uword i = 0; i < nRp; i++)
+    {
+        GWM_LOG_STOP_BREAK(mStatus);
+        betas.col(i) = gwPredict(mX, myAdj, mSpatialWeight.weightVector(i) % mWt2);
+        GWM_LOG_PROGRESS(i + 1, nRp);
+    }
+    GWM_LOG_STOP_RETURN(mStatus, mat(nRp, nVars, arma::fill::zeros));
 
+    mBetas = betas.t();
     return mBetas;
 }
 
-- 
2.43.0


From 488d6e0b9868c97249e5e0b6f6f9b3eeeeea930d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:42 +0000
Subject: [PATCH 35/65] fix: fitting a local-collinearity GWR again added to
 the trace of the previous fit

---
 src/gwmodelpp/GWRLocalCollinearity.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/gwmodelpp/GWRLocalCollinearity.cpp b/src/gwmodelpp/GWRLocalCollinearity.cpp
index 785dc24..741c606 100644
--- a/src/gwmodelpp/GWRLocalCollinearity.cpp
+++ b/src/gwmodelpp/GWRLocalCollinearity.cpp
@@ -334,6 +334,8 @@ mat GWRLocalCollinearity::fitSerial(const mat& x, const vec& y)
     vec localcn(nDp, fill::zeros);
     vec locallambda(nDp, fill::zeros);
     vec hatrow(nDp, fill::zeros);
+    this->mTrS = 0;
+    this->mTrStS = 0;
     for(uword i=0;i<nDp ;i++)
     {
         GWM_LOG_STOP_BREAK(mStatus);
-- 
2.43.0


From ef56a57c921f077445e947855b9c2c4e69916b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:42 +0000
Subject: [PATCH 36/65] fix: threads of a local-collinearity GWR raced on the
 trace of the hat matrix

---
 src/gwmodelpp/GWRLocalCollinearity.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/gwmodelpp/GWRLocalCollinearity.cpp b/src/gwmodelpp/GWRLocalCollinearity.cpp
index 741c606..e1b54fb 100644
--- a/src/gwmodelpp/GWRLocalCollinearity.cpp
+++ b/src/gwmodelpp/GWRLocalCollinearity.cpp
@@ -465,8 +465,6 @@ mat GWRLocalCollinearity::fitOmp(const mat& x, const vec& y)
         rowvec hatrow = x1w.row(i) * xtwxinv * trans(x1w);
         shat_all(0, thread) += hatrow(i);
         shat_all(1, thread) += sum(hatrow % hatrow);
-        this->mTrS += hatrow(i);
-        this->mTrStS += sum(hatrow % hatrow);
         GWM_LOG_PROGRESS(i + 1, nDp);
     }
     vec shat = sum(shat_all,1);
-- 
2.43.0


From 3d184b49f7528b4f3e7aa4b86ec141a47fa8cfd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:42 +0000
Subject: [PATCH 37/65] fix: prediction of local-collinearity GWR with OpenMP
 had a column for every element of the data

---
 src/gwmodelpp/GWRLocalCollinearity.cpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/gwmodelpp/GWRLocalCollinearity.cpp b/src/gwmodelpp/GWRLocalCollinearity.cpp
index e1b54fb..7eecf93 100644
--- a/src/gwmodelpp/GWRLocalCollinearity.cpp
+++ b/src/gwmodelpp/GWRLocalCollinearity.cpp
@@ -475,13 +475,12 @@ mat GWRLocalCollinearity::fitOmp(const mat& x, const vec& y)
 
 mat GWRLocalCollinearity::predictOmp(const arma::mat &locations, const mat& x, const vec& y)
 {
-    uword nRp = locations.n_rows, nVar = mX.size() + 1;
+    uword nRp = locations.n_rows, nVar = mX.n_cols;
     mat betas(nRp, nVar, fill::zeros);
     vec localcn(nRp, fill::zeros);
     vec locallambda(nRp, fill::zeros);
     vec hatrow(nRp, fill::zeros);
 
-    mat shat_all(2, mOmpThreadNum, fill::zeros);
     //int current = 0;
 #pragma omp parallel for num_threads(mOmpThreadNum)
     for(int i=0;i <(int)nRp;i++)
@@ -514,9 +513,6 @@ mat GWRLocalCollinearity::predictOmp(const arma::mat &locations, const mat& x, c
         betas.row(i) = trans( ridgelm(wi,locallambda(i)) );
         GWM_LOG_PROGRESS(i + 1, nRp);
     }
-    vec shat = sum(shat_all,1);
-    this->mTrS = sum(shat.row(0));
-    this->mTrStS = sum(shat.row(1));
     return betas;
 }
 #endif
-- 
2.43.0


From 85c492138e476500f031cc5adca97f6aaf0a9217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:11 +0000
Subject: [PATCH 38/65] fix: a singular local regression of local-collinearity
 GWR terminated the process with OpenMP

---
 src/gwmodelpp/GWRLocalCollinearity.cpp | 81 ++++++++++++++++++++++----
 1 file changed, 69 insertions(+), 12 deletions(-)

diff --git a/src/gwmodelpp/GWRLocalCollinearity.cpp b/src/gwmodelpp/GWRLocalCollinearity.cpp
index 7eecf93..8fe431e 100644
--- a/src/gwmodelpp/GWRLocalCollinearity.cpp
+++ b/src/gwmodelpp/GWRLocalCollinearity.cpp
@@ -241,7 +241,15 @@ double GWRLocalCollinearity::bandwidthSizeCriterionCVSerial(BandwidthWeight* ban
                 locallambda(i) = (S(0) - mCnThresh*S(m-1)) / (mCnThresh - 1);
             }
         }
-        betas.row(i) = trans( ridgelm(wgt,locallambda(i)) );
+        try
+        {
+            betas.row(i) = trans( ridgelm(wgt,locallambda(i)) );
+        }
+        catch (const exception& e)
+        {
+            GWM_LOG_ERROR(e.what());
+            return DBL_MAX;
+        }
     }
     //yhat赋值
     //vec mYHat = fitted(mX,betas);
@@ -297,6 +305,11 @@ double GWRLocalCollinearity::bandwidthSizeCriterionCVOmp(BandwidthWeight* bandwi
         mat U,V;
         colvec S;
         svd(U,S,V,x1w.each_row() / sqrt(sum(x1w % x1w, 0)));
+        if (S.n_elem < m)
+        {
+            betas.row(i).fill(datum::inf);
+            continue;
+        }
         //赋值操作
         //S.print();
         //qDebug() << S(m);
@@ -307,7 +320,15 @@ double GWRLocalCollinearity::bandwidthSizeCriterionCVOmp(BandwidthWeight* bandwi
                 locallambda(i) = (S(0) - mCnThresh*S(m-1)) / (mCnThresh - 1);
             }
         }
-        betas.row(i) = trans( ridgelm(wgt,locallambda(i)) );
+        try
+        {
+            betas.row(i) = trans( ridgelm(wgt,locallambda(i)) );
+        }
+        catch (const exception& e)
+        {
+            GWM_LOG_ERROR(e.what());
+            betas.row(i).fill(datum::inf);
+        }
         current++;
     }
     //yhat赋值
@@ -426,6 +447,7 @@ mat GWRLocalCollinearity::fitOmp(const mat& x, const vec& y)
     vec locallambda(nDp, fill::zeros);
     vec hatrow(nDp, fill::zeros);
     mat shat_all(2, mOmpThreadNum, fill::zeros);
+    bool success = true;
     //int current = 0;
 #pragma omp parallel for num_threads(mOmpThreadNum)
     for(int i=0;i <(int)nDp;i++)
@@ -447,6 +469,11 @@ mat GWRLocalCollinearity::fitOmp(const mat& x, const vec& y)
         mat U,V;
         colvec S;
         svd(U,S,V,x1w.each_row() / sqrt(sum(x1w % x1w, 0)));
+        if (S.n_elem < x.n_cols)
+        {
+            success = false;
+            continue;
+        }
         //qDebug() << mX.n_cols;
         //赋值操作
         localcn(i)=S(0)/S(x.n_cols-1);
@@ -456,17 +483,29 @@ mat GWRLocalCollinearity::fitOmp(const mat& x, const vec& y)
                 locallambda(i) = (S(0) - mCnThresh*S(x.n_cols-1)) / (mCnThresh - 1);
             }
         }
-        betas.row(i) = trans( ridgelm(wi,locallambda(i)) );
-        //如果没有给regressionpoint
-        mat xm = x;
-        mat xtw = trans(x % (wi * wispan1));
-        mat xtwx = xtw * x;
-        mat xtwxinv = inv(xtwx);
-        rowvec hatrow = x1w.row(i) * xtwxinv * trans(x1w);
-        shat_all(0, thread) += hatrow(i);
-        shat_all(1, thread) += sum(hatrow % hatrow);
+        try
+        {
+            betas.row(i) = trans( ridgelm(wi,locallambda(i)) );
+            //如果没有给regressionpoint
+            mat xm = x;
+            mat xtw = trans(x % (wi * wispan1));
+            mat xtwx = xtw * x;
+            mat xtwxinv = inv(xtwx);
+            rowvec hatrow = x1w.row(i) * xtwxinv * trans(x1w);
+            shat_all(0, thread) += hatrow(i);
+            shat_all(1, thread) += sum(hatrow % hatrow);
+        }
+        catch (const exception& e)
+        {
+            GWM_LOG_ERROR(e.what());
+            success = false;
+        }
         GWM_LOG_PROGRESS(i + 1, nDp);
     }
+    if (!success)
+    {
+        throw std::runtime_error("A local regression could not be solved.");
+    }
     vec shat = sum(shat_all,1);
     this->mTrS = sum(shat.row(0));
     this->mTrStS = sum(shat.row(1));
@@ -481,6 +520,7 @@ mat GWRLocalCollinearity::predictOmp(const arma::mat &locations, const mat& x, c
     vec locallambda(nRp, fill::zeros);
     vec hatrow(nRp, fill::zeros);
 
+    bool success = true;
     //int current = 0;
 #pragma omp parallel for num_threads(mOmpThreadNum)
     for(int i=0;i <(int)nRp;i++)
@@ -501,6 +541,11 @@ mat GWRLocalCollinearity::predictOmp(const arma::mat &locations, const mat& x, c
         mat U,V;
         colvec S;
         svd(U,S,V,x1w.each_row() / sqrt(sum(x1w % x1w, 0)));
+        if (S.n_elem < x.n_cols)
+        {
+            success = false;
+            continue;
+        }
         //qDebug() << mX.n_cols;
         //赋值操作
         localcn(i)=S(0)/S(x.n_cols-1);
@@ -510,9 +555,21 @@ mat GWRLocalCollinearity::predictOmp(const arma::mat &locations, const mat& x, c
                 locallambda(i) = (S(0) - mCnThresh*S(x.n_cols-1)) / (mCnThresh - 1);
             }
         }
-        betas.row(i) = trans( ridgelm(wi,locallambda(i)) );
+        try
+        {
+            betas.row(i) = trans( ridgelm(wi,locallambda(i)) );
+        }
+        catch (const exception& e)
+        {
+            GWM_LOG_ERROR(e.what());
+            success = false;
+        }
         GWM_LOG_PROGRESS(i + 1, nRp);
     }
+    if (!success)
+    {
+        throw std::runtime_error("A local regression could not be solved.");
+    }
     return betas;
 }
 #endif
-- 
2.43.0


From e3ccbf7e8a86f899e554bdf6798696d2cb10d33c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:11 +0000
Subject: [PATCH 39/65] fix: whether robust GWR filters outliers was
 uninitialized until set

---
 include/gwmodelpp/GWRRobust.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gwmodelpp/GWRRobust.h b/include/gwmodelpp/GWRRobust.h
index e22256c..d976aaa 100644
--- a/include/gwmodelpp/GWRRobust.h
+++ b/include/gwmodelpp/GWRRobust.h
@@ -128,7 +128,7 @@ protected:
     void createPredictionDistanceParameter(const arma::mat& locations);
 
 private:
-    bool mFiltered; //!< \~english Whether to use filtered algorithm \~chinese 是否使用 Filtered 算法
+    bool mFiltered = false; //!< \~english Whether to use filtered algorithm \~chinese 是否使用 Filtered 算法
 
     arma::mat mS;           //!< \~english Hat matrix \f$S\f$ \~chinese 帽子矩阵 \f$S\f$
     arma::vec mWeightMask;  //!< \~english Second-level weights \~chinese 二次加权权重
-- 
2.43.0


From e3a2aaf8631a55cf55e4a036dce42848b0a1d2bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:11 +0000
Subject: [PATCH 40/65] fix: the hat matrix of robust GWR was stored where it
 could not be read

---
 include/gwmodelpp/GWRRobust.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/gwmodelpp/GWRRobust.h b/include/gwmodelpp/GWRRobust.h
index d976aaa..fbaf360 100644
--- a/include/gwmodelpp/GWRRobust.h
+++ b/include/gwmodelpp/GWRRobust.h
@@ -130,7 +130,6 @@ protected:
 private:
     bool mFiltered = false; //!< \~english Whether to use filtered algorithm \~chinese 是否使用 Filtered 算法
 
-    arma::mat mS;           //!< \~english Hat matrix \f$S\f$ \~chinese 帽子矩阵 \f$S\f$
     arma::vec mWeightMask;  //!< \~english Second-level weights \~chinese 二次加权权重
     
     RegressionHatmatrix mfitFunction = &GWRRobust::fitSerial;   //!< \~english Calculator for fitting \~chinese 拟合函数
-- 
2.43.0


From addbbd2123d7bc8be20b3f861a6588fda7558638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:12 +0000
Subject: [PATCH 41/65] fix: scalable GWR optimized by CV threw for every
 bandwidth of at most 50 neighbours

---
 src/gwmodelpp/GWRScalable.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/gwmodelpp/GWRScalable.cpp b/src/gwmodelpp/GWRScalable.cpp
index 00d1325..433bc62 100644
--- a/src/gwmodelpp/GWRScalable.cpp
+++ b/src/gwmodelpp/GWRScalable.cpp
@@ -313,11 +313,11 @@ mat GWRScalable::predict(const mat& locations)
     switch (bandwidth->kernel())
     {
     case BandwidthWeight::KernelFunctionType::Gaussian:
-        band0 = median(mDpNNDists.col(min<uword>(50, nBw) - 1)) / sqrt(3);
+        band0 = median(mDpNNDists.col(min<uword>({ 50, nBw, mDpNNDists.n_cols }) - 1)) / sqrt(3);
         mG0 = exp(-pow(mDpNNDists / band0, 2));
         break;
     case BandwidthWeight::KernelFunctionType::Exponential:
-        band0 = median(mDpNNDists.col(min<uword>(50, nBw) - 1)) / 3;
+        band0 = median(mDpNNDists.col(min<uword>({ 50, nBw, mDpNNDists.n_cols }) - 1)) / 3;
         mG0 = exp(-pow(mDpNNDists / band0, 2));
         break;
     default:
@@ -477,11 +477,11 @@ mat GWRScalable::fit()
     switch (bandwidth->kernel())
     {
     case BandwidthWeight::KernelFunctionType::Gaussian:
-        band0 = median(mDpNNDists.col(min<uword>(50, nBw) - 1)) / sqrt(3);
+        band0 = median(mDpNNDists.col(min<uword>({ 50, nBw, mDpNNDists.n_cols }) - 1)) / sqrt(3);
         mG0 = exp(-pow(mDpNNDists / band0, 2));
         break;
     case BandwidthWeight::KernelFunctionType::Exponential:
-        band0 = median(mDpNNDists.col(min<uword>(50, nBw) - 1)) / 3;
+        band0 = median(mDpNNDists.col(min<uword>({ 50, nBw, mDpNNDists.n_cols }) - 1)) / 3;
         mG0 = exp(-pow(mDpNNDists / band0, 2));
         break;
     default:
-- 
2.43.0


From 7d53ab1bf0307004b5c12e7590aec75b69b11785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:12 +0000
Subject: [PATCH 42/65] fix: scalable GWR used the Gaussian kernel when the
 exponential one was requested

---
 src/gwmodelpp/GWRScalable.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/gwmodelpp/GWRScalable.cpp b/src/gwmodelpp/GWRScalable.cpp
index 433bc62..f1c8f29 100644
--- a/src/gwmodelpp/GWRScalable.cpp
+++ b/src/gwmodelpp/GWRScalable.cpp
@@ -318,7 +318,7 @@ mat GWRScalable::predict(const mat& locations)
         break;
     case BandwidthWeight::KernelFunctionType::Exponential:
         band0 = median(mDpNNDists.col(min<uword>({ 50, nBw, mDpNNDists.n_cols }) - 1)) / 3;
-        mG0 = exp(-pow(mDpNNDists / band0, 2));
+        mG0 = exp(-mDpNNDists / band0);
         break;
     default:
         return mBetas;
@@ -364,7 +364,7 @@ mat GWRScalable::predictSerial(const mat& locations, const arma::mat &x, const a
         break;
     case BandwidthWeight::KernelFunctionType::Exponential:
         band0 = median(rpNNDists.col(min<uword>(50, nBw) - 1)) / 3;
-        G0 = exp(-pow(rpNNDists / band0, 2));
+        G0 = exp(-rpNNDists / band0);
         break;
     default:
         return mat(nRp, nVar, fill::zeros);
@@ -482,7 +482,7 @@ mat GWRScalable::fit()
         break;
     case BandwidthWeight::KernelFunctionType::Exponential:
         band0 = median(mDpNNDists.col(min<uword>({ 50, nBw, mDpNNDists.n_cols }) - 1)) / 3;
-        mG0 = exp(-pow(mDpNNDists / band0, 2));
+        mG0 = exp(-mDpNNDists / band0);
         break;
     default:
         return mBetas;
@@ -542,7 +542,7 @@ arma::mat GWRScalable::fitSerial(const arma::mat &x, const arma::vec &y)
         break;
     case BandwidthWeight::KernelFunctionType::Exponential:
         band0 = median(dpNNDists.col(min<uword>(50, bw) - 1)) / 3;
-        mG0 = exp(-pow(dpNNDists / band0, 2));
+        mG0 = exp(-dpNNDists / band0);
         break;
     default:
         return betas.t();
-- 
2.43.0


From d40b4fc8ae5f4c9b981b22fe601511cf7d212a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:12 +0000
Subject: [PATCH 43/65] fix: a cancelled prediction of scalable GWR had a
 column for every observation

---
 src/gwmodelpp/GWRScalable.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gwmodelpp/GWRScalable.cpp b/src/gwmodelpp/GWRScalable.cpp
index f1c8f29..aa1c32f 100644
--- a/src/gwmodelpp/GWRScalable.cpp
+++ b/src/gwmodelpp/GWRScalable.cpp
@@ -303,7 +303,7 @@ mat GWRScalable::predict(const mat& locations)
     mDpSpatialWeight = mSpatialWeight;
     findDataPointNeighbours();
     BandwidthWeight* bandwidth = mSpatialWeight.weight<BandwidthWeight>();
-    arma::uword nDp = mX.n_rows, nRp = locations.n_rows, nVar = mX.n_rows, nBw = (uword)bandwidth->bandwidth();
+    arma::uword nDp = mX.n_rows, nRp = locations.n_rows, nVar = mX.n_cols, nBw = (uword)bandwidth->bandwidth();
     if (nBw >= nDp) 
     {
         nBw = nDp - 1;
-- 
2.43.0


From a7009ef40991cfb8860134e38ad34fe5b41598ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:42 +0000
Subject: [PATCH 44/65] fix: great-circle distance was zero for points of one
 latitude whose longitudes sum to 360

---
 src/gwmodelpp/spatialweight/CRSDistance.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gwmodelpp/spatialweight/CRSDistance.cpp b/src/gwmodelpp/spatialweight/CRSDistance.cpp
index 93e109a..79e9e45 100644
--- a/src/gwmodelpp/spatialweight/CRSDistance.cpp
+++ b/src/gwmodelpp/spatialweight/CRSDistance.cpp
@@ -30,7 +30,7 @@ double CRSDistance::SpGcdist(double lon1, double lon2, double lat1, double lat2)
             return 0.0;
             /* Wouter Buytaert bug caught 100211 */
         }
-        else if (fabs((fabs(lon1) + fabs(lon2)) - 360.0) < DOUBLE_EPS)
+        else if (fabs(fabs(lon1 - lon2) - 360.0) < DOUBLE_EPS)
         {
             return 0.0;
         }
-- 
2.43.0


From 87777f9a0f89928514ae73d34d4173f9bc6399d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:22 +0000
Subject: [PATCH 45/65] fix: a run that follows a cancelled one still reported
 itself as terminated and rejected every criterion

---
 src/gwmodelpp/GTWR.cpp                 | 2 ++
 src/gwmodelpp/GWDA.cpp                 | 1 +
 src/gwmodelpp/GWDR.cpp                 | 1 +
 src/gwmodelpp/GWPCA.cpp                | 1 +
 src/gwmodelpp/GWRBasic.cpp             | 2 ++
 src/gwmodelpp/GWRGeneralized.cpp       | 2 ++
 src/gwmodelpp/GWRLocalCollinearity.cpp | 2 ++
 src/gwmodelpp/GWRMultiscale.cpp        | 1 +
 src/gwmodelpp/GWRRobust.cpp            | 2 ++
 src/gwmodelpp/GWRScalable.cpp          | 2 ++
 src/gwmodelpp/GWSS.cpp                 | 1 +
 11 files changed, 17 insertions(+)

diff --git a/src/gwmodelpp/GTWR.cpp b/src/gwmodelpp/GTWR.cpp
index 6de7ba3..b33cac6 100644
--- a/src/gwmodelpp/GTWR.cpp
+++ b/src/gwmodelpp/GTWR.cpp
@@ -28,6 +28,7 @@ RegressionDiagnostic GTWR::CalcDiagnostic(const mat& x, const vec& y, const mat&
 
 mat GTWR::fit()
 {
+    mStatus = Status::Success;
     GWM_LOG_STAGE("Initializing")
     createDistanceParameter();
     uword nDp = mCoords.n_rows, nVars = mX.n_cols;
@@ -91,6 +92,7 @@ mat GTWR::fit()
 
 mat GTWR::predict(const mat& locations)
 {
+    mStatus = Status::Success;
     createPredictionDistanceParameter(locations);
     mBetas = (this->*mPredictFunction)(locations, mX, mY);
     return mBetas;
diff --git a/src/gwmodelpp/GWDA.cpp b/src/gwmodelpp/GWDA.cpp
index 1df487c..e37c5a3 100644
--- a/src/gwmodelpp/GWDA.cpp
+++ b/src/gwmodelpp/GWDA.cpp
@@ -28,6 +28,7 @@ bool GWDA::isValid()
 // template<class T>
 void GWDA::run()
 {
+    mStatus = Status::Success;
     createDistanceParameter();
     uword nRp = mCoords.n_rows;
     if(mX.n_cols<2){
diff --git a/src/gwmodelpp/GWDR.cpp b/src/gwmodelpp/GWDR.cpp
index 39256db..e18d827 100644
--- a/src/gwmodelpp/GWDR.cpp
+++ b/src/gwmodelpp/GWDR.cpp
@@ -31,6 +31,7 @@ RegressionDiagnostic GWDR::CalcDiagnostic(const mat& x, const vec& y, const mat&
 
 mat GWDR::fit()
 {
+    mStatus = Status::Success;
     GWM_LOG_STAGE("Initialization");
     uword nDims = mCoords.n_cols, nDp = mCoords.n_rows, nVars = mX.n_cols;
     GWM_LOG_STOP_RETURN(mStatus, mat(nDp, nVars, arma::fill::zeros));
diff --git a/src/gwmodelpp/GWPCA.cpp b/src/gwmodelpp/GWPCA.cpp
index 7c9a83c..1e19cea 100644
--- a/src/gwmodelpp/GWPCA.cpp
+++ b/src/gwmodelpp/GWPCA.cpp
@@ -5,6 +5,7 @@ using namespace gwm;
 
 void GWPCA::run()
 {
+    mStatus = Status::Success;
     GWM_LOG_STAGE("Initialization");
     createDistanceParameter();
     GWM_LOG_STOP_RETURN(mStatus, void());
diff --git a/src/gwmodelpp/GWRBasic.cpp b/src/gwmodelpp/GWRBasic.cpp
index 117c6d1..e2e0187 100644
--- a/src/gwmodelpp/GWRBasic.cpp
+++ b/src/gwmodelpp/GWRBasic.cpp
@@ -61,6 +61,7 @@ RegressionDiagnostic GWRBasic::CalcDiagnostic(const mat& x, const vec& y, const
 
 mat GWRBasic::fit()
 {
+    mStatus = Status::Success;
     GWM_LOG_STAGE("Initializing");
     uword nDp = mCoords.n_rows, nVars = mX.n_cols;
 #ifdef ENABLE_MPI
@@ -171,6 +172,7 @@ mat GWRBasic::fit()
 
 mat GWRBasic::predict(const mat& locations)
 {
+    mStatus = Status::Success;
     GWM_LOG_STAGE("Initialization");
     uword nDp = mCoords.n_rows, nVars = mX.n_cols;
     createPredictionDistanceParameter(locations);
diff --git a/src/gwmodelpp/GWRGeneralized.cpp b/src/gwmodelpp/GWRGeneralized.cpp
index 288cd21..fb5814b 100644
--- a/src/gwmodelpp/GWRGeneralized.cpp
+++ b/src/gwmodelpp/GWRGeneralized.cpp
@@ -19,6 +19,7 @@ using namespace gwm;
 
 mat GWRGeneralized::fit()
 {
+    mStatus = Status::Success;
     GWM_LOG_STAGE("Initializing");
     // 初始化
     // setXY(mX, mY, mSourceLayer, mDepVar, mIndepVars);
@@ -171,6 +172,7 @@ void GWRGeneralized::createPredictionDistanceParameter(const arma::mat &location
 }
 mat GWRGeneralized::predict(const mat& locations)
 {
+    mStatus = Status::Success;
     uword nDp = mCoords.n_rows, nRp = locations.n_rows, nVars = mX.n_cols;
     // Working responses and weights are those of the samples.
     createDistanceParameter();
diff --git a/src/gwmodelpp/GWRLocalCollinearity.cpp b/src/gwmodelpp/GWRLocalCollinearity.cpp
index 8fe431e..26187d8 100644
--- a/src/gwmodelpp/GWRLocalCollinearity.cpp
+++ b/src/gwmodelpp/GWRLocalCollinearity.cpp
@@ -38,6 +38,7 @@ GWRLocalCollinearity::~GWRLocalCollinearity()
 
 mat GWRLocalCollinearity::fit()
 {
+    mStatus = Status::Success;
     GWM_LOG_STAGE("Initializing");
     uword nDp = mCoords.n_rows, nVar = mX.n_cols;
     createDistanceParameter();
@@ -99,6 +100,7 @@ void GWRLocalCollinearity::createPredictionDistanceParameter(const arma::mat& lo
 
 mat GWRLocalCollinearity::predict(const mat& locations)
 {
+    mStatus = Status::Success;
     uword nDp = mCoords.n_rows, nVar = mX.n_cols;
     createPredictionDistanceParameter(locations);
     GWM_LOG_STOP_RETURN(mStatus, mat(nDp, nVar, arma::fill::zeros));
diff --git a/src/gwmodelpp/GWRMultiscale.cpp b/src/gwmodelpp/GWRMultiscale.cpp
index 16ee666..e2b274c 100644
--- a/src/gwmodelpp/GWRMultiscale.cpp
+++ b/src/gwmodelpp/GWRMultiscale.cpp
@@ -81,6 +81,7 @@ RegressionDiagnostic GWRMultiscale::CalcDiagnostic(const mat &x, const vec &y, c
 
 mat GWRMultiscale::fit()
 {
+    mStatus = Status::Success;
     uword nDp = mX.n_rows, nVar = mX.n_cols;
     // ********************************
     // Centering and scaling predictors
diff --git a/src/gwmodelpp/GWRRobust.cpp b/src/gwmodelpp/GWRRobust.cpp
index 2dfb292..48c6f8b 100644
--- a/src/gwmodelpp/GWRRobust.cpp
+++ b/src/gwmodelpp/GWRRobust.cpp
@@ -29,6 +29,7 @@ RegressionDiagnostic GWRRobust::CalcDiagnostic(const mat &x, const vec &y, const
 
 mat GWRRobust::fit()
 {
+    mStatus = Status::Success;
     GWM_LOG_STAGE("Initializing");
     uword nDp = mCoords.n_rows, nVar = mX.n_cols;
     createDistanceParameter();
@@ -106,6 +107,7 @@ mat GWRRobust::fit()
 
 mat GWRRobust::predict(const mat& locations)
 {
+    mStatus = Status::Success;
     size_t nDp = locations.n_rows, nVar = mX.n_cols;
 
     createPredictionDistanceParameter(locations);
diff --git a/src/gwmodelpp/GWRScalable.cpp b/src/gwmodelpp/GWRScalable.cpp
index aa1c32f..c82d683 100644
--- a/src/gwmodelpp/GWRScalable.cpp
+++ b/src/gwmodelpp/GWRScalable.cpp
@@ -299,6 +299,7 @@ void GWRScalable::prepare()
 
 mat GWRScalable::predict(const mat& locations)
 {
+    mStatus = Status::Success;
     createDistanceParameter();
     mDpSpatialWeight = mSpatialWeight;
     findDataPointNeighbours();
@@ -462,6 +463,7 @@ mat GWRScalable::predictSerial(const mat& locations, const arma::mat &x, const a
 
 mat GWRScalable::fit()
 {
+    mStatus = Status::Success;
     GWM_LOG_STAGE("Initializing");
     createDistanceParameter();
     mDpSpatialWeight = mSpatialWeight;
diff --git a/src/gwmodelpp/GWSS.cpp b/src/gwmodelpp/GWSS.cpp
index 22b350d..464a65e 100644
--- a/src/gwmodelpp/GWSS.cpp
+++ b/src/gwmodelpp/GWSS.cpp
@@ -58,6 +58,7 @@ bool GWSS::isValid()
 
 void GWSS::run()
 {
+    mStatus = Status::Success;
     GWM_LOG_STAGE("Initializing");
     uword nRp = mCoords.n_rows, nVar = mX.n_cols;
     createDistanceParameter();
-- 
2.43.0


From 64a9b84b539bb6791e8f853d9172d0bfb004f689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:11 +0000
Subject: [PATCH 46/65] fix: the bandwidth search evaluated numbers of
 neighbours outside its bounds after rounding

---
 src/gwmodelpp/BandwidthSelector.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gwmodelpp/BandwidthSelector.cpp b/src/gwmodelpp/BandwidthSelector.cpp
index fbd4767..b486cc6 100644
--- a/src/gwmodelpp/BandwidthSelector.cpp
+++ b/src/gwmodelpp/BandwidthSelector.cpp
@@ -42,7 +42,7 @@ BandwidthWeight* BandwidthSelector::optimize(IBandwidthSelectable* instance)
         {
             xL = x2;
             x2 = x1;
-            x1 = adaptBw ? round(xL + d) : (xL + d);
+            x1 = adaptBw ? min(round(xL + d), mUpper) : (xL + d);
             f2 = f1;
             w1->setBandwidth(x1);
             s1 = instance->getCriterion(w1, f1);
@@ -53,7 +53,7 @@ BandwidthWeight* BandwidthSelector::optimize(IBandwidthSelectable* instance)
         {
             xU = x1;
             x1 = x2;
-            x2 = adaptBw ? floor(xU - d) : (xU - d);
+            x2 = adaptBw ? max(floor(xU - d), mLower) : (xU - d);
             f1 = f2;
             w2->setBandwidth(x2);
             s2 = instance->getCriterion(w2, f2);
-- 
2.43.0


From cd3333869128b33516c52b315468c5385842bcd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:39 +0000
Subject: [PATCH 47/65] fix: a bandwidth that leaves a location without
 neighbours aborted the bandwidth selection of local-collinearity GWR

---
 src/gwmodelpp/GWRLocalCollinearity.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gwmodelpp/GWRLocalCollinearity.cpp b/src/gwmodelpp/GWRLocalCollinearity.cpp
index 26187d8..07e4602 100644
--- a/src/gwmodelpp/GWRLocalCollinearity.cpp
+++ b/src/gwmodelpp/GWRLocalCollinearity.cpp
@@ -233,6 +233,7 @@ double GWRLocalCollinearity::bandwidthSizeCriterionCVSerial(BandwidthWeight* ban
         mat U,V;
         colvec S;
         svd(U,S,V,x1w.each_row() / sqrt(sum(x1w % x1w, 0)));
+        if (S.n_elem < m) return DBL_MAX;
         //赋值操作
         //S.print();
         //qDebug() << S(m);
-- 
2.43.0


From 67df7c0d08b8648ac286662a96c7e4d84d21aa4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:39 +0000
Subject: [PATCH 48/65] fix: a step of the GWDR bandwidth optimizer below one
 neighbour aborted the optimization

---
 src/gwmodelpp/GWDR.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gwmodelpp/GWDR.cpp b/src/gwmodelpp/GWDR.cpp
index e18d827..b6309ae 100644
--- a/src/gwmodelpp/GWDR.cpp
+++ b/src/gwmodelpp/GWDR.cpp
@@ -773,6 +773,7 @@ double GWDRBandwidthOptimizer::criterion_function(const gsl_vector* bws, void* p
     for (size_t m = 0; m < bandwidths.size(); m++)
     {
         double pbw = abs(gsl_vector_get(bws, m));
+        if (bandwidths[m]->adaptive() && pbw * nFeature < 1.0) return DBL_MAX;
         bandwidths[m]->setBandwidth(bandwidths[m]->adaptive() ? pbw * nFeature : pbw);
     }
     return instance->bandwidthCriterion(bandwidths);
-- 
2.43.0


From 64498ff1ec62726ea97933a231fb852a8f88abb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:08 +0000
Subject: [PATCH 49/65] fix: fitting scalable GWR again with a bandwidth of all
 observations used one neighbour less than the first time

---
 src/gwmodelpp/GWRScalable.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/gwmodelpp/GWRScalable.cpp b/src/gwmodelpp/GWRScalable.cpp
index c82d683..faa81f0 100644
--- a/src/gwmodelpp/GWRScalable.cpp
+++ b/src/gwmodelpp/GWRScalable.cpp
@@ -301,8 +301,6 @@ mat GWRScalable::predict(const mat& locations)
 {
     mStatus = Status::Success;
     createDistanceParameter();
-    mDpSpatialWeight = mSpatialWeight;
-    findDataPointNeighbours();
     BandwidthWeight* bandwidth = mSpatialWeight.weight<BandwidthWeight>();
     arma::uword nDp = mX.n_rows, nRp = locations.n_rows, nVar = mX.n_cols, nBw = (uword)bandwidth->bandwidth();
     if (nBw >= nDp) 
@@ -310,6 +308,8 @@ mat GWRScalable::predict(const mat& locations)
         nBw = nDp - 1;
         bandwidth->setBandwidth((double)nBw);
     }
+    mDpSpatialWeight = mSpatialWeight;
+    findDataPointNeighbours();
     double band0 = 0.0;
     switch (bandwidth->kernel())
     {
@@ -466,8 +466,6 @@ mat GWRScalable::fit()
     mStatus = Status::Success;
     GWM_LOG_STAGE("Initializing");
     createDistanceParameter();
-    mDpSpatialWeight = mSpatialWeight;
-    findDataPointNeighbours();
     BandwidthWeight* bandwidth = mSpatialWeight.weight<BandwidthWeight>();
     arma::uword nDp = mX.n_rows, nVar = mX.n_cols, nBw = (uword)bandwidth->bandwidth();
     if (nBw >= nDp) 
@@ -475,6 +473,8 @@ mat GWRScalable::fit()
         nBw = nDp - 1;
         bandwidth->setBandwidth((double)nBw);
     }
+    mDpSpatialWeight = mSpatialWeight;
+    findDataPointNeighbours();
     double band0 = 0.0;
     switch (bandwidth->kernel())
     {
-- 
2.43.0


From 70e04b313fb3ad848a7f590b3cb8eb5d9a1b0ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:00 +0000
Subject: [PATCH 50/65] fix: stop the GWDR bandwidth search when the run is
 cancelled

The search went on through all its iterations, polling the telegram in each,
after the telegram had asked to stop.
---
 src/gwmodelpp/GWDR.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gwmodelpp/GWDR.cpp b/src/gwmodelpp/GWDR.cpp
index b6309ae..0456c69 100644
--- a/src/gwmodelpp/GWDR.cpp
+++ b/src/gwmodelpp/GWDR.cpp
@@ -802,7 +802,7 @@ const int GWDRBandwidthOptimizer::optimize(GWDR* instance, uword featureCount, s
         {
             iter++;
             status = gsl_multimin_fminimizer_iterate(minimizer);
-            if (status && instance->status() != Status::Success)
+            if (instance->status() != Status::Success)
                 break;
             size = gsl_multimin_fminimizer_size(minimizer);
             status = gsl_multimin_test_size(size, eps);
-- 
2.43.0


From 876272581abbe53611a30845230f34e634648826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:48 +0000
Subject: [PATCH 51/65] fix: scalable GWR returned the results of an earlier
 fit, or none, when no scale and penalty could be found

Fitting or predicting with data for which no model can be solved now fails
with an error, as it does in the other algorithms.
---
 src/gwmodelpp/GWRScalable.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/gwmodelpp/GWRScalable.cpp b/src/gwmodelpp/GWRScalable.cpp
index faa81f0..8494c80 100644
--- a/src/gwmodelpp/GWRScalable.cpp
+++ b/src/gwmodelpp/GWRScalable.cpp
@@ -2,6 +2,7 @@
 #include "BandwidthSelector.h"
 #include "VariableForwardSelector.h"
 #include <assert.h>
+#include <stdexcept>
 #include "Logger.h"
 
 #ifdef ENABLE_OPENMP
@@ -338,6 +339,12 @@ mat GWRScalable::predict(const mat& locations)
         mBetas = predictSerial(locations, mX, mY);
         GWM_LOG_STOP_RETURN(mStatus, mat(nRp, nVar, fill::zeros));
     }
+    else
+    {
+        const char* message = "Scale and penalty parameters cannot be optimized because no model could be solved.";
+        GWM_LOG_ERROR(message);
+        throw std::runtime_error(message);
+    }
     return mBetas;
 }
 
@@ -516,6 +523,12 @@ mat GWRScalable::fit()
         mBetasSE = sqrt(sigmaHat * mBetasSE);
         mat betasTV = mBetas / mBetasSE;
     }
+    else
+    {
+        const char* message = "Scale and penalty parameters cannot be optimized because no model could be solved.";
+        GWM_LOG_ERROR(message);
+        throw std::runtime_error(message);
+    }
     return mBetas;
 }
 
-- 
2.43.0


From 6ef6701de3f7e960201456599216fb3e8c26d391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:35 +0000
Subject: [PATCH 52/65] fix: checking the validity of an algorithm without
 weights crashed or reported it valid

---
 include/gwmodelpp/SpatialMonoscaleAlgorithm.h | 3 +++
 src/gwmodelpp/GWDA.cpp                        | 2 +-
 src/gwmodelpp/GWDR.cpp                        | 6 ++++++
 src/gwmodelpp/GWPCA.cpp                       | 2 +-
 src/gwmodelpp/GWRMultiscale.cpp               | 3 +++
 src/gwmodelpp/SpatialMonoscaleAlgorithm.cpp   | 5 +++++
 6 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/include/gwmodelpp/SpatialMonoscaleAlgorithm.h b/include/gwmodelpp/SpatialMonoscaleAlgorithm.h
index d95851b..b4d3d27 100644
--- a/include/gwmodelpp/SpatialMonoscaleAlgorithm.h
+++ b/include/gwmodelpp/SpatialMonoscaleAlgorithm.h
@@ -105,6 +105,9 @@ public:
      */
     void createDistanceParameter();
 
+public:     // Algorithm interface
+    virtual bool isValid() override;
+
 protected:
     SpatialWeight mSpatialWeight;   //!< Spatial weight configuration.    
 };
diff --git a/src/gwmodelpp/GWDA.cpp b/src/gwmodelpp/GWDA.cpp
index e37c5a3..18be798 100644
--- a/src/gwmodelpp/GWDA.cpp
+++ b/src/gwmodelpp/GWDA.cpp
@@ -14,7 +14,7 @@ using namespace std;
 // template<class T>
 bool GWDA::isValid()
 {
-    if (SpatialAlgorithm::isValid())
+    if (SpatialMonoscaleAlgorithm::isValid())
     {
         if (!(mX.n_cols > 0))
             return false;
diff --git a/src/gwmodelpp/GWDR.cpp b/src/gwmodelpp/GWDR.cpp
index 0456c69..7f0eabe 100644
--- a/src/gwmodelpp/GWDR.cpp
+++ b/src/gwmodelpp/GWDR.cpp
@@ -759,6 +759,12 @@ bool GWDR::isValid()
             return false;
         }
 
+        for (auto&& sw : mSpatialWeights)
+        {
+            if (!sw.isValid())
+                return false;
+        }
+
         return true;
     }
     else return false;
diff --git a/src/gwmodelpp/GWPCA.cpp b/src/gwmodelpp/GWPCA.cpp
index 1e19cea..d1a70fa 100644
--- a/src/gwmodelpp/GWPCA.cpp
+++ b/src/gwmodelpp/GWPCA.cpp
@@ -55,7 +55,7 @@ void GWPCA::wpca(const mat& x, const vec& w, mat& V, vec & d)
 
 bool GWPCA::isValid()
 {
-    if (SpatialAlgorithm::isValid())
+    if (SpatialMonoscaleAlgorithm::isValid())
     {
         if (mK > 0)
         {
diff --git a/src/gwmodelpp/GWRMultiscale.cpp b/src/gwmodelpp/GWRMultiscale.cpp
index e2b274c..836a91b 100644
--- a/src/gwmodelpp/GWRMultiscale.cpp
+++ b/src/gwmodelpp/GWRMultiscale.cpp
@@ -470,6 +470,9 @@ bool GWRMultiscale::isValid()
 
     for (size_t i = 0; i < nVar; i++)
     {
+        if (!mSpatialWeights[i].isValid())
+            return false;
+
         BandwidthWeight* bw = mSpatialWeights[i].weight<BandwidthWeight>();
         if (mBandwidthInitilize[i] == GWRMultiscale::Specified || mBandwidthInitilize[i] == GWRMultiscale::Initial)
         {
diff --git a/src/gwmodelpp/SpatialMonoscaleAlgorithm.cpp b/src/gwmodelpp/SpatialMonoscaleAlgorithm.cpp
index cba6884..e34d3eb 100644
--- a/src/gwmodelpp/SpatialMonoscaleAlgorithm.cpp
+++ b/src/gwmodelpp/SpatialMonoscaleAlgorithm.cpp
@@ -2,6 +2,11 @@
 
 using namespace gwm;
 
+bool SpatialMonoscaleAlgorithm::isValid()
+{
+    return SpatialAlgorithm::isValid() && mSpatialWeight.isValid();
+}
+
 void SpatialMonoscaleAlgorithm::createDistanceParameter()
 {
     if (mSpatialWeight.distance()->type() == Distance::DistanceType::CRSDistance || 
-- 
2.43.0


From a0ade309d60f0d2c3990e61ec90cc6a3839c8ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:50 +0000
Subject: [PATCH 53/65] fix: data of different sizes were reported valid and
 aborted the process when run with threads

---
 src/gwmodelpp/GWDA.cpp          | 3 +++
 src/gwmodelpp/GWDR.cpp          | 5 +++++
 src/gwmodelpp/GWPCA.cpp         | 2 +-
 src/gwmodelpp/GWRMultiscale.cpp | 6 ++++++
 src/gwmodelpp/GWSS.cpp          | 3 +++
 5 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/gwmodelpp/GWDA.cpp b/src/gwmodelpp/GWDA.cpp
index 18be798..859ef07 100644
--- a/src/gwmodelpp/GWDA.cpp
+++ b/src/gwmodelpp/GWDA.cpp
@@ -19,6 +19,9 @@ bool GWDA::isValid()
         if (!(mX.n_cols > 0))
             return false;
 
+        if (!(mX.n_rows == mY.size() && mX.n_rows == mCoords.n_rows))
+            return false;
+
         return true;
     }
     else
diff --git a/src/gwmodelpp/GWDR.cpp b/src/gwmodelpp/GWDR.cpp
index 7f0eabe..7a9e69d 100644
--- a/src/gwmodelpp/GWDR.cpp
+++ b/src/gwmodelpp/GWDR.cpp
@@ -759,6 +759,11 @@ bool GWDR::isValid()
             return false;
         }
 
+        if (!(mX.n_rows == mY.n_rows && mX.n_rows == mCoords.n_rows))
+        {
+            return false;
+        }
+
         for (auto&& sw : mSpatialWeights)
         {
             if (!sw.isValid())
diff --git a/src/gwmodelpp/GWPCA.cpp b/src/gwmodelpp/GWPCA.cpp
index d1a70fa..40d4f08 100644
--- a/src/gwmodelpp/GWPCA.cpp
+++ b/src/gwmodelpp/GWPCA.cpp
@@ -57,7 +57,7 @@ bool GWPCA::isValid()
 {
     if (SpatialMonoscaleAlgorithm::isValid())
     {
-        if (mK > 0)
+        if (mK > 0 && mX.n_rows == mCoords.n_rows)
         {
             return true;
         }
diff --git a/src/gwmodelpp/GWRMultiscale.cpp b/src/gwmodelpp/GWRMultiscale.cpp
index 836a91b..5b7715a 100644
--- a/src/gwmodelpp/GWRMultiscale.cpp
+++ b/src/gwmodelpp/GWRMultiscale.cpp
@@ -448,9 +448,15 @@ double gwm::GWRMultiscale::bandwidthSizeCriterionVarAICBase(BandwidthWeight* ban
 
 bool GWRMultiscale::isValid()
 {
+    if (!SpatialAlgorithm::isValid())
+        return false;
+
     if (!(mX.n_cols > 0))
         return false;
 
+    if (!(mX.n_rows == mY.n_rows && mX.n_rows == mCoords.n_rows))
+        return false;
+
     size_t nVar = mX.n_cols;
 
     if (mSpatialWeights.size() != nVar)
diff --git a/src/gwmodelpp/GWSS.cpp b/src/gwmodelpp/GWSS.cpp
index 464a65e..78b9a60 100644
--- a/src/gwmodelpp/GWSS.cpp
+++ b/src/gwmodelpp/GWSS.cpp
@@ -51,6 +51,9 @@ bool GWSS::isValid()
         if (!(mX.n_cols > 0))
             return false;
 
+        if (!(mX.n_rows == mCoords.n_rows))
+            return false;
+
         return true;
     }
     else return false;
-- 
2.43.0


From 37ed3d19d856f0ab68a317bfffd79cf6c221475e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:27 +0000
Subject: [PATCH 54/65] fix: scalable GWR reported success with zero
 coefficients where a local regression could not be solved

---
 src/gwmodelpp/GWRScalable.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gwmodelpp/GWRScalable.cpp b/src/gwmodelpp/GWRScalable.cpp
index 8494c80..00cbf04 100644
--- a/src/gwmodelpp/GWRScalable.cpp
+++ b/src/gwmodelpp/GWRScalable.cpp
@@ -669,6 +669,7 @@ arma::mat GWRScalable::fitSerial(const arma::mat &x, const arma::vec &y)
         catch (const exception& e) 
         {
             GWM_LOG_ERROR(e.what());
+            throw;
         }
         GWM_LOG_PROGRESS((n + i + 1) / 2, n);
     }
-- 
2.43.0


From d81ae66f1af1d9b98970a817636aad4ca2ad1c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:10 +0000
Subject: [PATCH 55/65] fix: an adaptive bandwidth below one neighbour aborted
 the process when used with threads

The weights threw inside parallel regions. Such a bandwidth now means that
fraction of the distance to the nearest neighbour, continuing the way
fractional bandwidths above one are interpolated.
---
 src/gwmodelpp/spatialweight/BandwidthWeight.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gwmodelpp/spatialweight/BandwidthWeight.cpp b/src/gwmodelpp/spatialweight/BandwidthWeight.cpp
index d2ba1e4..28f766d 100644
--- a/src/gwmodelpp/spatialweight/BandwidthWeight.cpp
+++ b/src/gwmodelpp/spatialweight/BandwidthWeight.cpp
@@ -44,7 +44,7 @@ vec BandwidthWeight::weight(vec dist)
         {
             vec vdist = sort(dist);
             double b0 = floor(mBandwidth), bx = mBandwidth - b0;
-            double d0 = vdist(int(b0) - 1), d1 = vdist(int(b0));
+            double d0 = b0 < 1 ? 0.0 : vdist(int(b0) - 1), d1 = vdist(int(b0));
             fixbw = d0 + (d1 - d0) * bx;
         }
         else
-- 
2.43.0


From 584ec24b9c459b7ad641d3585bb12ba3d9a03c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:35 +0000
Subject: [PATCH 56/65] fix: coordinates or times that are not finite were
 reported valid and aborted the process when run with threads

---
 src/gwmodelpp/GTWR.cpp             | 2 +-
 src/gwmodelpp/SpatialAlgorithm.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gwmodelpp/GTWR.cpp b/src/gwmodelpp/GTWR.cpp
index b33cac6..5cc9435 100644
--- a/src/gwmodelpp/GTWR.cpp
+++ b/src/gwmodelpp/GTWR.cpp
@@ -276,7 +276,7 @@ bool GTWR::isValid()
             return false;
         }
 
-        return true;
+        return vTimes.is_finite();
     }
     else return false;
 }
diff --git a/src/gwmodelpp/SpatialAlgorithm.cpp b/src/gwmodelpp/SpatialAlgorithm.cpp
index eb58a86..2048b92 100644
--- a/src/gwmodelpp/SpatialAlgorithm.cpp
+++ b/src/gwmodelpp/SpatialAlgorithm.cpp
@@ -4,5 +4,5 @@ using namespace gwm;
 
 bool SpatialAlgorithm::isValid()
 {
-    return !mCoords.is_empty();
+    return !mCoords.is_empty() && mCoords.is_finite();
 }
\ No newline at end of file
-- 
2.43.0


From 35daaf12caaec22025b6795f5e0e7d2d60bc1b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:47 +0000
Subject: [PATCH 57/65] fix: local-collinearity GWR crashed with a single
 independent variable

---
 src/gwmodelpp/GWRLocalCollinearity.cpp | 42 +-------------------------
 1 file changed, 1 insertion(+), 41 deletions(-)

diff --git a/src/gwmodelpp/GWRLocalCollinearity.cpp b/src/gwmodelpp/GWRLocalCollinearity.cpp
index 07e4602..4427db9 100644
--- a/src/gwmodelpp/GWRLocalCollinearity.cpp
+++ b/src/gwmodelpp/GWRLocalCollinearity.cpp
@@ -149,11 +149,9 @@ vec GWRLocalCollinearity::ridgelm(const vec& w,double lambda)
     mat Xw = mX % (sqrt(w) * wspan);
     mat yw = mY % (sqrt(w));
     //求标准差
-    //取mX不含第一列的部分
-    mat mXnot1 = mX.cols(1, mX.n_cols - 1);
     //标准差结果矩阵
     mat Xsd(1, mX.n_cols, fill::ones);
-    Xsd.cols(1, mX.n_cols - 1) = stddev(mX.cols(1, mX.n_cols - 1),0);
+    if (mX.n_cols > 1) Xsd.cols(1, mX.n_cols - 1) = stddev(mX.cols(1, mX.n_cols - 1),0);
     //Xsd = trans(Xsd);
     //计算Xws
     mat Xws = Xw.each_row() / Xsd;
@@ -207,12 +205,6 @@ double GWRLocalCollinearity::bandwidthSizeCriterionCVSerial(BandwidthWeight* ban
     mat betas = mat(n,m,fill::zeros);
     vec localcn(n,fill::zeros);
     vec locallambda(n,fill::zeros);
-    //取mX不含第一列的部分
-    mat mXnot1 = mat(mX.n_rows,mX.n_cols-1,fill::zeros);
-    for(uword i=0;i<mX.n_cols-1;i++)
-    {
-        mXnot1.col(i) = mX.col(i+1);
-    }
     //主循环
     for (uword i = 0; i < n ; i++)
     {
@@ -221,10 +213,7 @@ double GWRLocalCollinearity::bandwidthSizeCriterionCVSerial(BandwidthWeight* ban
         vec wgt = bandwidthWeight->weight(distvi);
         //vec wgt = mSpatialWeight.spatialWeight(mDataPoints.row(i),mDataPoints);
         wgt(i) = 0;
-        mat wgtspan(1,mXnot1.n_cols,fill::ones);
         mat wgtspan1(1,mX.n_cols,fill::ones);
-        //计算xw
-        mat xw = mXnot1 % (wgt * wgtspan);
         //计算x1w
         mat x1w = mX % (wgt * wgtspan1);
         //计算用于SVD分解的矩阵
@@ -283,8 +272,6 @@ double GWRLocalCollinearity::bandwidthSizeCriterionCVOmp(BandwidthWeight* bandwi
     mat betas = mat(n,m,fill::zeros);
     vec localcn(n,fill::zeros);
     vec locallambda(n,fill::zeros);
-    //取mX不含第一列的部分
-    mat mXnot1 = mX.cols(1, mX.n_cols - 1);
     //主循环
     uword current = 0;
 #pragma omp parallel for num_threads(mOmpThreadNum)
@@ -296,10 +283,7 @@ double GWRLocalCollinearity::bandwidthSizeCriterionCVOmp(BandwidthWeight* bandwi
         vec wgt = bandwidthWeight->weight(distvi);
         //vec wgt = mSpatialWeight.spatialWeight(mDataPoints.row(i),mDataPoints);
         wgt(i) = 0;
-        mat wgtspan(1,mXnot1.n_cols,fill::ones);
         mat wgtspan1(1,mX.n_cols,fill::ones);
-        //计算xw
-        mat xw = mXnot1 % (wgt * wgtspan);
         //计算x1w
         mat x1w = mX % (wgt * wgtspan1);
         //计算用于SVD分解的矩阵
@@ -364,13 +348,7 @@ mat GWRLocalCollinearity::fitSerial(const mat& x, const vec& y)
     {
         GWM_LOG_STOP_BREAK(mStatus);
         vec wi =mSpatialWeight.weightVector(i);
-        //计算xw
-        //取mX不含第一列的部分
-        mat mXnot1 = x.cols(1, x.n_cols - 1);
-        mat wispan(1,mXnot1.n_cols,fill::ones);
         mat wispan1(1,x.n_cols,fill::ones);
-        //计算xw
-        mat xw = mXnot1 % (wi * wispan);
         //计算x1w
         mat x1w = x % (wi * wispan1);
         //计算svd.x
@@ -412,13 +390,7 @@ mat GWRLocalCollinearity::predictSerial(const arma::mat &locations, const mat& x
     {
         GWM_LOG_STOP_BREAK(mStatus);
         vec wi =mSpatialWeight.weightVector(i);
-        //计算xw
-        //取mX不含第一列的部分
-        mat mXnot1 = x.cols(1, x.n_cols - 1);
-        mat wispan(1,mXnot1.n_cols,fill::ones);
         mat wispan1(1,x.n_cols,fill::ones);
-        //计算xw
-        mat xw = mXnot1 % (wi * wispan);
         //计算x1w
         mat x1w = x % (wi * wispan1);
         //计算svd.x
@@ -458,13 +430,7 @@ mat GWRLocalCollinearity::fitOmp(const mat& x, const vec& y)
         GWM_LOG_STOP_CONTINUE(mStatus);
         int thread = omp_get_thread_num();
         vec wi = mSpatialWeight.weightVector(i);
-        //计算xw
-        //取mX不含第一列的部分
-        mat mXnot1 = x.cols(1, x.n_cols - 1);
-        mat wispan(1,mXnot1.n_cols,fill::ones);
         mat wispan1(1,x.n_cols,fill::ones);
-        //计算xw
-        mat xw = mXnot1 % (wi * wispan);
         //计算x1w
         mat x1w = x % (wi * wispan1);
         //计算svd.x
@@ -530,13 +496,7 @@ mat GWRLocalCollinearity::predictOmp(const arma::mat &locations, const mat& x, c
     {
         GWM_LOG_STOP_CONTINUE(mStatus);
         vec wi = mSpatialWeight.weightVector(i);
-        //计算xw
-        //取mX不含第一列的部分
-        mat mXnot1 = x.cols(1, x.n_cols - 1);
-        mat wispan(1,mXnot1.n_cols,fill::ones);
         mat wispan1(1,x.n_cols,fill::ones);
-        //计算xw
-        mat xw = mXnot1 % (wi * wispan);
         //计算x1w
         mat x1w = x % (wi * wispan1);
         //计算svd.x
-- 
2.43.0


From aece91214634a8dcf06b8c96b8146274f307ee7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:47 +0000
Subject: [PATCH 58/65] fix: variable selection without candidates read outside
 its list of models

---
 src/gwmodelpp/VariableForwardSelector.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gwmodelpp/VariableForwardSelector.cpp b/src/gwmodelpp/VariableForwardSelector.cpp
index 290259f..3f1bb76 100644
--- a/src/gwmodelpp/VariableForwardSelector.cpp
+++ b/src/gwmodelpp/VariableForwardSelector.cpp
@@ -8,6 +8,7 @@ using namespace gwm;
 
 vector<size_t> VariableForwardSelector::optimize(IVarialbeSelectable *instance)
 {
+    if (mVariables.empty()) return mVariables;
     vector<size_t> curIndex, restIndex;
     for (size_t i = 0; i < mVariables.size(); i++)
     {
-- 
2.43.0


From b65531c393e73a32ed3a1fbe2be979ee0f84b0ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:01 +0000
Subject: [PATCH 59/65] fix: scalable GWR aborted the process when the
 criterion of a trial scale and penalty overflowed

---
 src/gwmodelpp/GWRScalable.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/gwmodelpp/GWRScalable.cpp b/src/gwmodelpp/GWRScalable.cpp
index 00cbf04..4689878 100644
--- a/src/gwmodelpp/GWRScalable.cpp
+++ b/src/gwmodelpp/GWRScalable.cpp
@@ -199,7 +199,8 @@ double scagwr_loocv_multimin_function(const gsl_vector* vars, void* params)
     const mat *x = p->x, *y = p->y;
     uword polynomial = p->polynomial;
     const mat *Mx0 = p->Mx0, *My0 = p->My0;
-    return GWRScalable::Loocv(target, *x, *y, polynomial, *Mx0, *My0);
+    double value = GWRScalable::Loocv(target, *x, *y, polynomial, *Mx0, *My0);
+    return isfinite(value) ? value : DBL_MAX;
 }
 
 double scagwr_aic_multimin_function(const gsl_vector* vars, void* params)
@@ -210,7 +211,8 @@ double scagwr_aic_multimin_function(const gsl_vector* vars, void* params)
     const mat *x = p->x, *y = p->y;
     uword polynomial = p->polynomial;
     const mat *Mx0 = p->Mx0, *My0 = p->My0;
-    return GWRScalable::AICvalue(target, *x, *y, polynomial, *Mx0, *My0);
+    double value = GWRScalable::AICvalue(target, *x, *y, polynomial, *Mx0, *My0);
+    return isfinite(value) ? value : DBL_MAX;
 }
 
 double GWRScalable::optimize(const mat &Mx0, const mat &My0, double& b_tilde, double& alpha)
-- 
2.43.0


From 1d04c64f1e37ecd5978b1cb4e48d008e980cfb23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:26 +0000
Subject: [PATCH 60/65] fix: a kind of parallelism that generalized GWR offers
 only in part crashed the fit

---
 src/gwmodelpp/GWRGeneralized.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/gwmodelpp/GWRGeneralized.cpp b/src/gwmodelpp/GWRGeneralized.cpp
index fb5814b..890f216 100644
--- a/src/gwmodelpp/GWRGeneralized.cpp
+++ b/src/gwmodelpp/GWRGeneralized.cpp
@@ -969,7 +969,9 @@ void GWRGeneralized::setBandwidthSelectionCriterionType(const BandwidthSelection
         std::make_pair(make_pair(BandwidthSelectionCriterionType::AIC, ParallelType::OpenMP), &GWRGeneralized::bandwidthSizeGGWRCriterionAICOmp),
 #endif
        };
-    mBandwidthSelectCriterionFunction = mapper[make_pair(bandwidthSelectionCriterionType, mParallelType)];
+    // Types offered only in part (like MPI ones) are carried out in serial.
+    ParallelType type = mParallelType == ParallelType::OpenMP ? ParallelType::OpenMP : ParallelType::SerialOnly;
+    mBandwidthSelectCriterionFunction = mapper[make_pair(bandwidthSelectionCriterionType, type)];
 }
 
 void GWRGeneralized::setParallelType(const ParallelType &type)
@@ -1082,6 +1084,8 @@ mat GWRGeneralized::CiMat(const mat &x, const vec &w)
 bool GWRGeneralized::setFamily(Family family)
 {
     mFamily = family;
+    // Types offered only in part (like MPI ones) are carried out in serial.
+    ParallelType type = mParallelType == ParallelType::OpenMP ? ParallelType::OpenMP : ParallelType::SerialOnly;
     map<pair<Family, ParallelType>, GGWRfitFunction> mapper = {
         std::make_pair(make_pair(Family::Poisson, ParallelType::SerialOnly), &GWRGeneralized::fitPoissonSerial),
 #ifdef ENABLE_OPENMP
@@ -1094,7 +1098,7 @@ bool GWRGeneralized::setFamily(Family family)
         std::make_pair(make_pair(Family::Binomial, ParallelType::OpenMP), &GWRGeneralized::fitBinomialOmp),
 #endif
     };
-    mGGWRfitFunction = mapper[make_pair(family, mParallelType)];
+    mGGWRfitFunction = mapper[make_pair(family, type)];
     map<pair<Family, ParallelType>, CalWtFunction> mapper1 = {
         std::make_pair(make_pair(Family::Poisson, ParallelType::SerialOnly), &GWRGeneralized::PoissonWtSerial),
 #ifdef ENABLE_OPENMP
@@ -1105,6 +1109,6 @@ bool GWRGeneralized::setFamily(Family family)
         std::make_pair(make_pair(Family::Binomial, ParallelType::OpenMP), &GWRGeneralized::BinomialWtOmp),
 #endif
     };
-    mCalWtFunction = mapper1[make_pair(family, mParallelType)];
+    mCalWtFunction = mapper1[make_pair(family, type)];
     return true;
 }
-- 
2.43.0


From 473f92dd9f365498d8daba0254e7268b0e179502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:26 +0000
Subject: [PATCH 61/65] fix: robust GWR ignored the bounds set for its
 bandwidth search

---
 src/gwmodelpp/GWRRobust.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gwmodelpp/GWRRobust.cpp b/src/gwmodelpp/GWRRobust.cpp
index 48c6f8b..cd052f5 100644
--- a/src/gwmodelpp/GWRRobust.cpp
+++ b/src/gwmodelpp/GWRRobust.cpp
@@ -63,8 +63,8 @@ mat GWRRobust::fit()
     {
         GWM_LOG_STAGE("Bandwidth selection");
         BandwidthWeight* bw0 = mSpatialWeight.weight<BandwidthWeight>();
-        double lower = bw0->adaptive() ? 20 : 0.0;
-        double upper = bw0->adaptive() ? nDp : mSpatialWeight.distance()->maxDistance();
+        double lower = mGoldenLowerBounds.value_or(bw0->adaptive() ? 20 : 0.0);
+        double upper = mGoldenUpperBounds.value_or(bw0->adaptive() ? nDp : mSpatialWeight.distance()->maxDistance());
         
         GWM_LOG_INFO(IBandwidthSelectable::infoBandwidthCriterion(bw0));
         BandwidthSelector selector(bw0, lower, upper);
-- 
2.43.0


From e6aa2129d9dcb0a5767ace7af392bdda2c3e8bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:21 +0000
Subject: [PATCH 62/65] fix: threads of a run wrote the same row or counter
 without synchronisation when the hat matrix is not kept

---
 src/gwmodelpp/GTWR.cpp                 | 2 +-
 src/gwmodelpp/GWDR.cpp                 | 2 +-
 src/gwmodelpp/GWRBasic.cpp             | 4 ++--
 src/gwmodelpp/GWRLocalCollinearity.cpp | 2 --
 src/gwmodelpp/GWRRobust.cpp            | 2 +-
 5 files changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/gwmodelpp/GTWR.cpp b/src/gwmodelpp/GTWR.cpp
index 5cc9435..e24768d 100644
--- a/src/gwmodelpp/GTWR.cpp
+++ b/src/gwmodelpp/GTWR.cpp
@@ -352,7 +352,7 @@ mat GTWR::fitOmp(const mat& x, const vec& y, mat& betasSE, vec& shat, vec& qDiag
                 vec p = - si.t();
                 p(i) += 1.0;
                 qDiag_all.col(thread) += p % p;
-                S.row(isStoreS() ? i : 0) = si;
+                if (isStoreS()) S.row(i) = si;
             }
             catch (const exception& e)
             {
diff --git a/src/gwmodelpp/GWDR.cpp b/src/gwmodelpp/GWDR.cpp
index 7a9e69d..1aff004 100644
--- a/src/gwmodelpp/GWDR.cpp
+++ b/src/gwmodelpp/GWDR.cpp
@@ -299,7 +299,7 @@ mat GWDR::fitOmp(const mat& x, const vec& y, mat& betasSE, vec& shat, vec& qdiag
                 onei(i) = 1;
                 mat p = (onei - si).t();
                 qdiag_all.col(thread) += p % p;
-                S.row(isStoreS() ? i : 0) = si;
+                if (isStoreS()) S.row(i) = si;
             }
             catch(const std::exception& e)
             {
diff --git a/src/gwmodelpp/GWRBasic.cpp b/src/gwmodelpp/GWRBasic.cpp
index e2e0187..3e296ee 100644
--- a/src/gwmodelpp/GWRBasic.cpp
+++ b/src/gwmodelpp/GWRBasic.cpp
@@ -493,8 +493,8 @@ mat GWRBasic::fitCoreOmp(const mat& x, const vec& y, const SpatialWeight& sw)
                 vec p = - si.t();
                 p(i) += 1.0;
                 qDiag_all.col(thread) += p % p;
-                mS.row(isStoreS() ? (i - workRange.first) : 0) = si;
-                mC.slice(isStoreC() ? (i - workRange.first) : 0) = ci;
+                if (isStoreS()) mS.row(i - workRange.first) = si;
+                if (isStoreC()) mC.slice(i - workRange.first) = ci;
             }
             catch (const exception& e)
             {
diff --git a/src/gwmodelpp/GWRLocalCollinearity.cpp b/src/gwmodelpp/GWRLocalCollinearity.cpp
index 4427db9..bdc517a 100644
--- a/src/gwmodelpp/GWRLocalCollinearity.cpp
+++ b/src/gwmodelpp/GWRLocalCollinearity.cpp
@@ -273,7 +273,6 @@ double GWRLocalCollinearity::bandwidthSizeCriterionCVOmp(BandwidthWeight* bandwi
     vec localcn(n,fill::zeros);
     vec locallambda(n,fill::zeros);
     //主循环
-    uword current = 0;
 #pragma omp parallel for num_threads(mOmpThreadNum)
     for (int i = 0; i <(int) n; i++)
     {
@@ -316,7 +315,6 @@ double GWRLocalCollinearity::bandwidthSizeCriterionCVOmp(BandwidthWeight* bandwi
             GWM_LOG_ERROR(e.what());
             betas.row(i).fill(datum::inf);
         }
-        current++;
     }
     //yhat赋值
     //vec mYHat = fitted(mX,betas);
diff --git a/src/gwmodelpp/GWRRobust.cpp b/src/gwmodelpp/GWRRobust.cpp
index cd052f5..65cb9c0 100644
--- a/src/gwmodelpp/GWRRobust.cpp
+++ b/src/gwmodelpp/GWRRobust.cpp
@@ -202,7 +202,7 @@ mat GWRRobust::fitOmp(const mat& x, const vec& y, mat& betasSE, vec& shat, vec&
                 vec p = - si.t();
                 p(i) += 1.0;
                 qDiag_all.col(thread) += p % p;
-                S.row(isStoreS() ? i : 0) = si;
+                if (isStoreS()) S.row(i) = si;
             }
             catch (const exception& e)
             {
-- 
2.43.0


From ca7bace64161b33e9364f02d04dcd409464f2797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:06 +0000
Subject: [PATCH 63/65] fix: a multiscale regression did not notice being told
 to stop during its initial regression

---
 src/gwmodelpp/GWRMultiscale.cpp | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/gwmodelpp/GWRMultiscale.cpp b/src/gwmodelpp/GWRMultiscale.cpp
index 5b7715a..0de1799 100644
--- a/src/gwmodelpp/GWRMultiscale.cpp
+++ b/src/gwmodelpp/GWRMultiscale.cpp
@@ -28,6 +28,19 @@ using namespace gwm;
 
 int GWRMultiscale::treeChildCount = 0;
 
+/**
+ * @brief \~english Telegram of the initial model. It only passes on the question whether to stop. \~chinese 初始模型的 Telegram，仅转发是否停止的询问。
+ */
+class InitialFitTelegram : public Logger
+{
+public:
+    explicit InitialFitTelegram(ITelegram* parent) : mParent(parent) {}
+    bool stop() override { return mParent->stop(); }
+
+private:
+    ITelegram* mParent;
+};
+
 enum class GWRMultiscaleFitMPITags
 {
     Betas = 1 << 0,
@@ -141,8 +154,14 @@ mat GWRMultiscale::fit()
     gwr.setStoreC(mHasHatMatrix);
     if (mGoldenLowerBounds.has_value()) gwr.setGoldenLowerBounds(mGoldenLowerBounds.value());
     if (mGoldenUpperBounds.has_value()) gwr.setGoldenUpperBounds(mGoldenUpperBounds.value());
+    gwr.setTelegram(make_unique<InitialFitTelegram>(mTelegram.get()));
     mat betas = gwr.fit();
     mBetasSE = gwr.betasSE();
+    if (gwr.status() != Status::Success)
+    {
+        mStatus = gwr.status();
+        return mat(nDp, nVar, arma::fill::zeros);
+    }
     GWM_LOG_STOP_RETURN(mStatus, mat(nDp, nVar, arma::fill::zeros));
 
     GWM_LOG_STAGE("Initializing");
-- 
2.43.0


From 6721c8cb7a5347038d8a07e5298760f98ed1942f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:06 +0000
Subject: [PATCH 64/65] fix: generalized regression did not notice being told
 to stop during its likelihood iterations

---
 src/gwmodelpp/GWRGeneralized.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/gwmodelpp/GWRGeneralized.cpp b/src/gwmodelpp/GWRGeneralized.cpp
index 890f216..245e658 100644
--- a/src/gwmodelpp/GWRGeneralized.cpp
+++ b/src/gwmodelpp/GWRGeneralized.cpp
@@ -805,10 +805,12 @@ vec GWRGeneralized::PoissonWtSerial(const mat &x, const vec &y, mat wt)
         myAdj = nu + (y - mu) / mu;
         for (uword i = 0; i < dpn; i++)
         {
+            GWM_LOG_STOP_BREAK(mStatus);
             vec wi = wt.col(i);
             vec gwsi = gwPredict(x, myAdj, wi % mWt2);
             betas.col(i) = gwsi;
         }
+        GWM_LOG_STOP_BREAK(mStatus);
         mat betas1 = trans(betas);
         nu = Fitted(x, betas1);
         mu = exp(nu);
@@ -846,10 +848,12 @@ vec GWRGeneralized::PoissonWtOmp(const mat &x, const vec &y, mat wt)
         myAdj = nu + (y - mu) / mu;
         for (uword i = 0; i < dpn; i++)
         {
+            GWM_LOG_STOP_BREAK(mStatus);
             vec wi = wt.col(i);
             vec gwsi = gwPredict(x, myAdj, wi % mWt2);
             betas.col(i) = gwsi;
         }
+        GWM_LOG_STOP_BREAK(mStatus);
         mat betas1 = trans(betas);
         nu = Fitted(x, betas1);
         mu = exp(nu);
@@ -891,10 +895,12 @@ vec GWRGeneralized::BinomialWtSerial(const mat &x, const vec &y, mat wt)
         myAdj = nu + (y - mu) / (mu % (1 - mu));
         for (uword i = 0; i < dpn; i++)
         {
+            GWM_LOG_STOP_BREAK(mStatus);
             vec wi = wt.col(i);
             vec gwsi = gwPredict(x, myAdj, wi % mWt2);
             betas.col(i) = gwsi;
         }
+        GWM_LOG_STOP_BREAK(mStatus);
         mat betas1 = trans(betas);
         nu = Fitted(x, betas1);
         mu = exp(nu) / (1 + exp(nu));
@@ -934,10 +940,12 @@ vec GWRGeneralized::BinomialWtOmp(const mat &x, const vec &y, mat wt)
         myAdj = nu + (y - mu) / (mu % (1 - mu));
         for (uword i = 0; i < dpn ; i++)
         {
+            GWM_LOG_STOP_BREAK(mStatus);
             vec wi = wt.col(i);
             vec gwsi = gwPredict(x, myAdj, wi % mWt2);
             betas.col(i) = gwsi;
         }
+        GWM_LOG_STOP_BREAK(mStatus);
         mat betas1 = trans(betas);
         nu = Fitted(x, betas1);
         mu = exp(nu) / (1 + exp(nu));
-- 
2.43.0


From ab5b2a8b234d5b03b4e140da6af7fa33f0de1252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:52 +0000
Subject: [PATCH 65/65] fix: a model used in a distributed (MPI) run covered
 only its share of the data when used alone afterwards

---
 src/gwmodelpp/GWRBasic.cpp      | 1 +
 src/gwmodelpp/GWRMultiscale.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/gwmodelpp/GWRBasic.cpp b/src/gwmodelpp/GWRBasic.cpp
index 3e296ee..8dc49c4 100644
--- a/src/gwmodelpp/GWRBasic.cpp
+++ b/src/gwmodelpp/GWRBasic.cpp
@@ -1190,6 +1190,7 @@ void GWRBasic::setParallelType(const ParallelType& type)
         {
             mFitFunction = &GWRBasic::fitBase;
             mIndepVarsSelectionCriterionFunction = &GWRBasic::indepVarsSelectionCriterion;
+            mWorkRange.reset();
         }
 #endif
         setBandwidthSelectionCriterion(mBandwidthSelectionCriterion);
diff --git a/src/gwmodelpp/GWRMultiscale.cpp b/src/gwmodelpp/GWRMultiscale.cpp
index 0de1799..13b395c 100644
--- a/src/gwmodelpp/GWRMultiscale.cpp
+++ b/src/gwmodelpp/GWRMultiscale.cpp
@@ -1143,6 +1143,7 @@ void GWRMultiscale::setParallelType(const ParallelType &type)
         else
         {
             mFitVar = &GWRMultiscale::fitVarBase;
+            mWorkRange.reset();
         }
 #endif // ENABLE_MPI
     }
-- 
2.43.0

