From 325ab59b2276e52e6d2adb4304e226b4cdcf05bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:08 +0000
Subject: [PATCH 01/13] fix: shifting a spectral axis drops its cached
 log-sampling answer

---
 RedshiftLibrary/src/lib/spectrum/spectralaxis.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/RedshiftLibrary/src/lib/spectrum/spectralaxis.cpp b/RedshiftLibrary/src/lib/spectrum/spectralaxis.cpp
index 73ad893..bbb43b2 100644
--- a/RedshiftLibrary/src/lib/spectrum/spectralaxis.cpp
+++ b/RedshiftLibrary/src/lib/spectrum/spectralaxis.cpp
@@ -169,8 +169,8 @@ void CSpectrumSpectralAxis::ApplyOffset(Float64 wavelengthOffset) {
   for (Int32 i = 0; i < nSamples; i++) {
     m_Samples[i] += wavelengthOffset;
   }
-  if (!wavelengthOffset)
-    m_isLogSampled = false;
+  if (wavelengthOffset)
+    m_isLogSampled = indeterminate;
 }
 
 /**
-- 
2.43.0


From 4a1ccdf249fd22dc057d74f5cae7bb3b74eb8734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:51 +0000
Subject: [PATCH 02/13] fix: removing samples from a spectral axis does not
 keep a cached 'not sorted' answer

---
 RedshiftLibrary/src/lib/spectrum/spectralaxis.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/RedshiftLibrary/src/lib/spectrum/spectralaxis.cpp b/RedshiftLibrary/src/lib/spectrum/spectralaxis.cpp
index bbb43b2..1afd00e 100644
--- a/RedshiftLibrary/src/lib/spectrum/spectralaxis.cpp
+++ b/RedshiftLibrary/src/lib/spectrum/spectralaxis.cpp
@@ -116,8 +116,7 @@ CSpectrumSpectralAxis &CSpectrumSpectralAxis::operator/=(const Float64 op) {
 CSpectrumSpectralAxis
 CSpectrumSpectralAxis::MaskAxis(const TFloat64List &mask) const {
   CSpectrumSpectralAxis spc_axis = CSpectrumAxis::MaskAxis(mask);
-  spc_axis.m_isSorted = m_isSorted;
-  if (spc_axis.GetSamplesCount() < 2)
+  if (m_isSorted || spc_axis.GetSamplesCount() < 2)
     spc_axis.m_isSorted = true;
   spc_axis.m_isLogSampled = indeterminate;
   return spc_axis;
@@ -131,6 +130,13 @@ void CSpectrumSpectralAxis::SetSize(Int32 s) {
   else {
     if (sample_size < s)
       resetAxisProperties();
+    else if (s < sample_size) {
+      // removing samples can only turn a negative answer into a positive one
+      if (!m_isSorted)
+        m_isSorted = indeterminate;
+      if (!m_isLogSampled)
+        m_isLogSampled = indeterminate;
+    }
   }
 }
 /**
-- 
2.43.0


From 486a26205a623c58af8df80ca3e03cd9d10476fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:38 +0000
Subject: [PATCH 03/13] fix: redshifts above the prior range use the last prior
 bin, not one past it

---
 RedshiftLibrary/src/lib/statistics/priorhelper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/RedshiftLibrary/src/lib/statistics/priorhelper.cpp b/RedshiftLibrary/src/lib/statistics/priorhelper.cpp
index 45644b6..6365e9a 100644
--- a/RedshiftLibrary/src/lib/statistics/priorhelper.cpp
+++ b/RedshiftLibrary/src/lib/statistics/priorhelper.cpp
@@ -414,7 +414,7 @@ Int32 CPriorHelper::getRedshiftIndex(Float64 redshift,
   }
   if (outsideZRangeExtensionMode == 0) {
     idz = std::max(idz, 0);
-    idz = std::min(idz, m_nZ);
+    idz = std::min(idz, m_nZ - 1);
   }
   return idz;
 }
-- 
2.43.0


From d7e37b1dd60e376cc959107c15316b956722eb80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:49 +0000
Subject: [PATCH 04/13] fix: iterate the air to vacuum conversion until the
 requested precision

---
 RedshiftLibrary/src/lib/line/airvacuum.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/RedshiftLibrary/src/lib/line/airvacuum.cpp b/RedshiftLibrary/src/lib/line/airvacuum.cpp
index 8bd8b4e..a408240 100644
--- a/RedshiftLibrary/src/lib/line/airvacuum.cpp
+++ b/RedshiftLibrary/src/lib/line/airvacuum.cpp
@@ -98,7 +98,11 @@ TFloat64List CAirVacuum::AirToVac(const TFloat64List &waveAir) const {
 
   do {
     // delta = VacToAir(waveVac) - waveAir;
-    delta = VacToAir(waveVac);
+    // (without range check: iterates can exceed slightly the air range)
+    const TFloat64List n = AirRefractiveIndex(waveVac);
+    delta.resize(waveAir.size());
+    std::transform(waveVac.begin(), waveVac.end(), n.begin(), delta.begin(),
+                   std::divides<Float64>());
     std::transform(delta.begin(), delta.end(), waveAir.begin(), delta.begin(),
                    std::minus<Float64>());
 
@@ -106,10 +110,10 @@ TFloat64List CAirVacuum::AirToVac(const TFloat64List &waveAir) const {
     std::transform(waveVac.begin(), waveVac.end(), delta.begin(),
                    waveVac.begin(), std::minus<Float64>());
 
-    precision =
+    precision = std::abs(
         *std::max_element(delta.begin(), delta.end(), [](Float64 x, Float64 y) {
-          return (abs(x) < abs(y));
-        });
+          return (std::abs(x) < std::abs(y));
+        }));
     if (precision <= minprecision)
       break;
 
-- 
2.43.0


From 37d8b885bee3a3916cd77393cdc07afa4e9c5f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:16 +0000
Subject: [PATCH 05/13] fix: CLineProfileASYM::GetLineProfileDerivX0 halved the
 derivative of the skewing term

d/dx0 of (1 + erf(alpha xsurc / sqrt(2))) is -alpha sqrt(2/pi)/sigma exp(..);
the factor was alpha/sqrt(2 pi), half of it.
---
 RedshiftLibrary/src/lib/line/lineprofileASYM.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/RedshiftLibrary/src/lib/line/lineprofileASYM.cpp b/RedshiftLibrary/src/lib/line/lineprofileASYM.cpp
index 2f180fa..24667e6 100644
--- a/RedshiftLibrary/src/lib/line/lineprofileASYM.cpp
+++ b/RedshiftLibrary/src/lib/line/lineprofileASYM.cpp
@@ -140,7 +140,7 @@ Float64 CLineProfileASYM::GetLineProfileDerivX0(Float64 x, Float64 x0,
   Float64 val =
       xsurc / sigma * exp(-0.5 * xsurc2) *
           (1.0 + erf(m_asym_alpha / sqrt(2.0) * xsurc)) -
-      m_asym_alpha / sqrt(2 * M_PI) / sigma * exp(-(1 + alpha2) / 2 * xsurc2);
+      m_asym_alpha * sqrt(2 / M_PI) / sigma * exp(-(1 + alpha2) / 2 * xsurc2);
   return val;
 }
 
-- 
2.43.0


From 09c631ba67497149e629e1dfe2eea40bcd80b5b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:04 +0000
Subject: [PATCH 06/13] fix: CLineProfileASYM::isValid checked alpha twice and
 never delta

---
 RedshiftLibrary/src/lib/line/lineprofileASYM.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/RedshiftLibrary/src/lib/line/lineprofileASYM.cpp b/RedshiftLibrary/src/lib/line/lineprofileASYM.cpp
index 24667e6..ae33c29 100644
--- a/RedshiftLibrary/src/lib/line/lineprofileASYM.cpp
+++ b/RedshiftLibrary/src/lib/line/lineprofileASYM.cpp
@@ -180,7 +180,7 @@ TAsymParams CLineProfileASYM::GetAsymParams() const {
 
 bool CLineProfileASYM::isValid() const {
   if (std::isnan(m_asym_sigma_coeff) || std::isnan(m_asym_alpha) ||
-      std::isnan(m_asym_alpha)) {
+      std::isnan(m_asym_delta)) {
     return 0;
   }
   return 1;
-- 
2.43.0


From 5e3687de3a5c7a3d583598d0b7d49b3366ac176b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:06 +0000
Subject: [PATCH 07/13] fix: scaling a single-sample spectral axis by a
 negative factor keeps it sorted

---
 RedshiftLibrary/src/lib/spectrum/spectralaxis.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/RedshiftLibrary/src/lib/spectrum/spectralaxis.cpp b/RedshiftLibrary/src/lib/spectrum/spectralaxis.cpp
index 1afd00e..0a0e3d7 100644
--- a/RedshiftLibrary/src/lib/spectrum/spectralaxis.cpp
+++ b/RedshiftLibrary/src/lib/spectrum/spectralaxis.cpp
@@ -99,7 +99,7 @@ CSpectrumSpectralAxis::CSpectrumSpectralAxis(Int32 n, Float64 value)
 
 CSpectrumSpectralAxis &CSpectrumSpectralAxis::operator*=(const Float64 op) {
   CSpectrumAxis::operator*=(op);
-  if (op < 0 && !indeterminate(m_isSorted))
+  if (op < 0 && GetSamplesCount() > 1 && !indeterminate(m_isSorted))
     m_isSorted = m_isSorted ? static_cast<tribool>(false) : indeterminate;
   if (!op)
     m_isSorted = (GetSamplesCount() < 2);
@@ -107,7 +107,7 @@ CSpectrumSpectralAxis &CSpectrumSpectralAxis::operator*=(const Float64 op) {
 }
 CSpectrumSpectralAxis &CSpectrumSpectralAxis::operator/=(const Float64 op) {
   CSpectrumAxis::operator/=(op);
-  if (op < 0 && !indeterminate(m_isSorted))
+  if (op < 0 && GetSamplesCount() > 1 && !indeterminate(m_isSorted))
     m_isSorted = m_isSorted ? static_cast<tribool>(false) : indeterminate;
   if (!op)
     m_isSorted = (GetSamplesCount() < 2);
-- 
2.43.0


From 000ce30eecc4fcc6bcd8c56757315e31bff7509e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:33 +0000
Subject: [PATCH 08/13] fix: sort the peaks again after the threshold cut,
 their indexes have changed

---
 RedshiftLibrary/src/lib/extremum/extremum.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/RedshiftLibrary/src/lib/extremum/extremum.cpp b/RedshiftLibrary/src/lib/extremum/extremum.cpp
index b2d69b3..0b9eed9 100644
--- a/RedshiftLibrary/src/lib/extremum/extremum.cpp
+++ b/RedshiftLibrary/src/lib/extremum/extremum.cpp
@@ -120,6 +120,7 @@ TPointList CExtremum::Find(const TFloat64List &xAxis, const TFloat64List &yAxis,
   Int32 keepMinN = 1;
   if (m_meritCut > 0.0 && maxX.size() > keepMinN) {
     Cut_Threshold(maxX, maxY, keepMinN);
+    SortIndexes(maxY); // the indexes of the peaks have changed
   }
 
   // refine: eliminate very close candidates when possible.
-- 
2.43.0


From c0840ae2b71058ae76b45ea70c8b476d28608986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:33 +0000
Subject: [PATCH 09/13] fix: low planks do not shift the position of the next
 peak nor make a peak of the last sample

---
 RedshiftLibrary/src/lib/extremum/extremum.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/RedshiftLibrary/src/lib/extremum/extremum.cpp b/RedshiftLibrary/src/lib/extremum/extremum.cpp
index 0b9eed9..ccf9b76 100644
--- a/RedshiftLibrary/src/lib/extremum/extremum.cpp
+++ b/RedshiftLibrary/src/lib/extremum/extremum.cpp
@@ -363,7 +363,8 @@ CExtremum::FindAllPeaks(const TFloat64List &xAxis, const TFloat64List &yAxis,
       continue;
     }
     // Plank is getting larger
-    cnt_plk++;
+    if (plank)
+      cnt_plk++;
   }
 
   if (!m_allow_extrema_at_border)
@@ -371,6 +372,9 @@ CExtremum::FindAllPeaks(const TFloat64List &xAxis, const TFloat64List &yAxis,
   // last element: check if plank is extended
   if (godown(EndIndex - 1))
     return result;
+  // low plank at the end: no peak here
+  if (goflat(EndIndex - 1) && !plank)
+    return result;
 
   cnt_plk += Int32(plank); // if no plank, cnt_plk+=0
   Int32 idx = EndIndex - round(cnt_plk / 2);
-- 
2.43.0


From cce16c827fbdf672507d644b0ea5f4c159871af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:20 +0000
Subject: [PATCH 10/13] fix: continuum estimation averaged an empty window for
 narrow median windows

---
 RedshiftLibrary/src/lib/continuum/irregularsamplingmedian.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/RedshiftLibrary/src/lib/continuum/irregularsamplingmedian.cpp b/RedshiftLibrary/src/lib/continuum/irregularsamplingmedian.cpp
index e95f33e..44ec0e1 100644
--- a/RedshiftLibrary/src/lib/continuum/irregularsamplingmedian.cpp
+++ b/RedshiftLibrary/src/lib/continuum/irregularsamplingmedian.cpp
@@ -351,8 +351,8 @@ bool CContinuumIrregularSamplingMedian::ProcessRemoveContinuum(
 
   {
     // mean smoothing
-    // mean smooth size=meanSmoothAmplitude/4
-    ysmoobig = MeanSmooth(ysmoobig, (Int32)meanSmoothAmplitude / 4);
+    // mean smooth size=meanSmoothAmplitude/4 (never an empty window)
+    ysmoobig = MeanSmooth(ysmoobig, max(1, meanSmoothAmplitude / 4));
   }
 
   // Copy spectrum before k0
-- 
2.43.0


From 4ddd94ff8a0e2eeb832d0d84b15c693c8b2d321a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:52 +0000
Subject: [PATCH 11/13] fix: odd reflection of the continuum estimation
 re-entered the estimation for spectra not of raw type

---
 RedshiftLibrary/RedshiftLibrary/spectrum/spectrum.h    |  3 +++
 .../src/lib/continuum/irregularsamplingmedian.cpp      |  2 +-
 RedshiftLibrary/src/lib/spectrum/spectrum.cpp          | 10 ++++++++--
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/RedshiftLibrary/RedshiftLibrary/spectrum/spectrum.h b/RedshiftLibrary/RedshiftLibrary/spectrum/spectrum.h
index ee5410d..6b09e1d 100644
--- a/RedshiftLibrary/RedshiftLibrary/spectrum/spectrum.h
+++ b/RedshiftLibrary/RedshiftLibrary/spectrum/spectrum.h
@@ -138,6 +138,9 @@ public:
   bool GetMeanAndStdFluxInRange(TFloat64Range wlRange, Float64 &mean,
                                 Float64 &std) const;
   bool GetLinearRegInRange(TFloat64Range wlRange, Float64 &a, Float64 &b) const;
+  bool GetLinearRegInRange(const TFloat64Range &wlRange,
+                           const CSpectrumFluxAxis &flux, Float64 &a,
+                           Float64 &b) const;
 
   bool RemoveContinuum(CContinuum &remover) const;
   void ValidateFlux(Float64 LambdaMin, Float64 LambdaMax) const;
diff --git a/RedshiftLibrary/src/lib/continuum/irregularsamplingmedian.cpp b/RedshiftLibrary/src/lib/continuum/irregularsamplingmedian.cpp
index 44ec0e1..55a65c5 100644
--- a/RedshiftLibrary/src/lib/continuum/irregularsamplingmedian.cpp
+++ b/RedshiftLibrary/src/lib/continuum/irregularsamplingmedian.cpp
@@ -193,7 +193,7 @@ Float64 CContinuumIrregularSamplingMedian::FitBorder(const CSpectrum &s,
 
   Float64 a;
   Float64 b;
-  bool ret = s.GetLinearRegInRange(range, a, b);
+  bool ret = s.GetLinearRegInRange(range, fluxAxis, a, b);
   Int32 k = isRightBorder ? kend : kstart;
   Float64 fitValue = ret ? spectralAxis[k] * a + b : fluxAxis[k];
 
diff --git a/RedshiftLibrary/src/lib/spectrum/spectrum.cpp b/RedshiftLibrary/src/lib/spectrum/spectrum.cpp
index 09197c3..2239ee2 100644
--- a/RedshiftLibrary/src/lib/spectrum/spectrum.cpp
+++ b/RedshiftLibrary/src/lib/spectrum/spectrum.cpp
@@ -390,13 +390,19 @@ bool CSpectrum::GetMeanAndStdFluxInRange(TFloat64Range wlRange, Float64 &mean,
 
 bool CSpectrum::GetLinearRegInRange(TFloat64Range wlRange, Float64 &a,
                                     Float64 &b) const {
+  return GetLinearRegInRange(wlRange, GetFluxAxis(), a, b);
+}
+
+// same with a given flux axis, without triggering the continuum estimation
+bool CSpectrum::GetLinearRegInRange(const TFloat64Range &wlRange,
+                                    const CSpectrumFluxAxis &flux, Float64 &a,
+                                    Float64 &b) const {
   // wlrange should be totally included in the spectrum lambdarange
   if (wlRange.GetBegin() < m_SpectralAxis.GetLambdaRange().GetBegin() ||
       wlRange.GetEnd() > m_SpectralAxis.GetLambdaRange().GetEnd())
     return false;
 
-  const CSpectrumNoiseAxis &error = GetErrorAxis();
-  const CSpectrumFluxAxis &flux = GetFluxAxis();
+  const CSpectrumNoiseAxis &error = flux.GetError();
 
   TInt32Range iRange = m_SpectralAxis.GetIndexesAtWaveLengthRange(wlRange);
   Int32 n = iRange.GetLength() + 1;
-- 
2.43.0


From d2522f4f3db24f2d426e4322deeaee377532c457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:18 +0000
Subject: [PATCH 12/13] fix: spectrum validation and correction never looked at
 the last sample of the lambda range

---
 .../RedshiftLibrary/spectrum/spectrum.h            |  1 +
 RedshiftLibrary/src/lib/spectrum/spectrum.cpp      | 14 +++++++++++---
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/RedshiftLibrary/RedshiftLibrary/spectrum/spectrum.h b/RedshiftLibrary/RedshiftLibrary/spectrum/spectrum.h
index 6b09e1d..fc15639 100644
--- a/RedshiftLibrary/RedshiftLibrary/spectrum/spectrum.h
+++ b/RedshiftLibrary/RedshiftLibrary/spectrum/spectrum.h
@@ -195,6 +195,7 @@ protected:
 
   void EstimateContinuum() const;
   void ResetContinuum() const;
+  Int32 endIndexOfRange(Int32 iMax, Float64 LambdaMax) const;
 
   std::string m_Name;
   std::string m_obsId = "";
diff --git a/RedshiftLibrary/src/lib/spectrum/spectrum.cpp b/RedshiftLibrary/src/lib/spectrum/spectrum.cpp
index 2239ee2..370178e 100644
--- a/RedshiftLibrary/src/lib/spectrum/spectrum.cpp
+++ b/RedshiftLibrary/src/lib/spectrum/spectrum.cpp
@@ -443,6 +443,11 @@ void CSpectrum::SetType(const CSpectrum::EType type) const {
   }
 }
 
+// past-the-end index of the samples up to LambdaMax, itself included
+Int32 CSpectrum::endIndexOfRange(Int32 iMax, Float64 LambdaMax) const {
+  return m_SpectralAxis[iMax] <= LambdaMax ? iMax + 1 : iMax;
+}
+
 void CSpectrum::ValidateFlux(Float64 LambdaMin, Float64 LambdaMax) const {
   if (IsFluxEmpty())
     THROWG(ErrorCode::INVALID_SPECTRUM_FLUX, "Invalid spectrum: empty flux");
@@ -466,7 +471,8 @@ void CSpectrum::ValidateFlux(Float64 LambdaMin, Float64 LambdaMax) const {
 
   // check flux
   TBoolList validSamples = flux.checkFlux();
-  for (Int32 i = iMin; i < iMax; i++) {
+  const Int32 iEnd = endIndexOfRange(iMax, LambdaMax);
+  for (Int32 i = iMin; i < iEnd; i++) {
     // collect invalid values
     if (!validSamples[i]) {
       ++nInvalid;
@@ -515,7 +521,8 @@ void CSpectrum::ValidateNoise(Float64 LambdaMin, Float64 LambdaMax) const {
 
   // check noise
   TBoolList validSamples = GetFluxAxis().GetError().checkNoise();
-  for (Int32 i = iMin; i < iMax; i++) {
+  const Int32 iEnd = endIndexOfRange(iMax, LambdaMax);
+  for (Int32 i = iMin; i < iEnd; i++) {
     if (!validSamples[i]) {
       ++nInvalid;
       invalidElements[to_string(error[i])]++;
@@ -544,7 +551,8 @@ bool CSpectrum::correctSpectrum(Float64 LambdaMin, Float64 LambdaMax,
   Int32 iMax = m_SpectralAxis.GetIndexAtWaveLength(LambdaMax);
 
   bool corrected =
-      GetFluxAxis_().correctFluxAndNoiseAxis(iMin, iMax, coeffCorr);
+      GetFluxAxis_().correctFluxAndNoiseAxis(
+          iMin, endIndexOfRange(iMax, LambdaMax), coeffCorr);
 
   if (corrected)
     ResetContinuum();
-- 
2.43.0


From 99b234bf85f8665b53bb9b4a7890191fe684cc2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:39:14 +0000
Subject: [PATCH 13/13] fix: spectrum assignment dropped the photometric data
 and the observation id

---
 RedshiftLibrary/src/lib/spectrum/spectrum.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/RedshiftLibrary/src/lib/spectrum/spectrum.cpp b/RedshiftLibrary/src/lib/spectrum/spectrum.cpp
index 370178e..31c2d1d 100644
--- a/RedshiftLibrary/src/lib/spectrum/spectrum.cpp
+++ b/RedshiftLibrary/src/lib/spectrum/spectrum.cpp
@@ -175,6 +175,8 @@ CSpectrum &CSpectrum::operator=(const CSpectrum &other) {
   m_Name = other.m_Name;
   alreadyRemoved = other.alreadyRemoved;
   m_rebin = CRebin::create(other.m_rebin->getType(), *this);
+  m_photData = other.m_photData;
+  m_obsId = other.m_obsId;
   return *this;
 }
 
@@ -194,6 +196,8 @@ CSpectrum &CSpectrum::operator=(CSpectrum &&other) {
   m_Name = std::move(other.m_Name);
   alreadyRemoved = other.alreadyRemoved;
   m_rebin = CRebin::create(other.m_rebin->getType(), *this);
+  m_photData = std::move(other.m_photData);
+  m_obsId = std::move(other.m_obsId);
 
   return *this;
 }
-- 
2.43.0

