From 3fe8d3c19525628f47b1ecc7edf9682c5d8232ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:11 +0000
Subject: [PATCH 01/39] fix: FlatBar: scale central intensity with the image's
 intensity scale, not its pixel scale

---
 function_objects/func_flatbar.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/function_objects/func_flatbar.cpp b/function_objects/func_flatbar.cpp
index 1166cb4..5a041fd 100644
--- a/function_objects/func_flatbar.cpp
+++ b/function_objects/func_flatbar.cpp
@@ -114,7 +114,7 @@ void FlatBar::Setup( double params[], int offsetIndex, double xc, double yc )
   PA = params[0 + offsetIndex] - imageRotation;
   ell = params[1 + offsetIndex];
   deltaPA_max = params[2 + offsetIndex];
-  I_0 = params[3 + offsetIndex ] * pixelScaling;
+  I_0 = params[3 + offsetIndex ] * intensityScale;
   h1 = params[4 + offsetIndex ] * pixelScaling;
   h2 = params[5 + offsetIndex ] * pixelScaling;
   r_b = params[6 + offsetIndex ] * pixelScaling;
-- 
2.43.0


From 5f27c8718ceec5d1c9e4c3d3e5a3b946d3bf2ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:11 +0000
Subject: [PATCH 02/39] fix: 3D functions: do not share integrand parameters
 between threads

GetValue() stored the address of its local integrand-parameter array in the
object's gsl_function member; concurrent calls from the parallel pixel loop
could then integrate another pixel's (or a dead) parameter array.
---
 function_objects/func_bpbar3d.cpp          | 6 ++++--
 function_objects/func_brokenexpdisk3d.cpp  | 6 ++++--
 function_objects/func_expdisk3d.cpp        | 6 ++++--
 function_objects/func_ferrersbar3d.cpp     | 6 ++++--
 function_objects/func_gaussianring3d.cpp   | 6 ++++--
 function_objects/func_peanut_dattathri.cpp | 6 ++++--
 function_objects/func_triaxbar3d.cpp       | 6 ++++--
 7 files changed, 28 insertions(+), 14 deletions(-)

diff --git a/function_objects/func_bpbar3d.cpp b/function_objects/func_bpbar3d.cpp
index 2cd148c..bf49ea6 100644
--- a/function_objects/func_bpbar3d.cpp
+++ b/function_objects/func_bpbar3d.cpp
@@ -244,11 +244,13 @@ double BPBar3D::GetValue( double x, double y )
   xyParameters[17] = z_bp_max;
   xyParameters[18] = h_bp;
   xyParameters[19] = twosigma_squared;
-  F.params = xyParameters;
+  // use a local copy, since GetValue can be called by multiple threads simultaneously
+  gsl_function  F_local = F;
+  F_local.params = xyParameters;
 
   // printf("Calling Integrate...\n");
   // integrate out to +/- integLimit
-  totalIntensity = Integrate(F, -integrationLimit, integrationLimit);
+  totalIntensity = Integrate(F_local, -integrationLimit, integrationLimit);
   // printf("Done.\n");
 
   return totalIntensity;
diff --git a/function_objects/func_brokenexpdisk3d.cpp b/function_objects/func_brokenexpdisk3d.cpp
index 7a99cbf..066bc87 100644
--- a/function_objects/func_brokenexpdisk3d.cpp
+++ b/function_objects/func_brokenexpdisk3d.cpp
@@ -201,7 +201,9 @@ double BrokenExponentialDisk3D::GetValue( double x, double y )
   xyParameters[13] = scaledZ0;
   xyParameters[14] = two_to_alpha;
   xyParameters[15] = alphaVert;
-  F.params = xyParameters;
+  // use a local copy, since GetValue can be called by multiple threads simultaneously
+  gsl_function  F_local = F;
+  F_local.params = xyParameters;
 
   // integrate out to +/- integLimit, which is larger of (multiple of break radius)
   // and (multiple of h2)
@@ -209,7 +211,7 @@ double BrokenExponentialDisk3D::GetValue( double x, double y )
   // Setup() call above; for some reason doing it that way makes the whole thing
   // take ~ 4 times longer!)
   integLimit = fmax(INTEGRATION_MULTIPLIER * r_b, INTEGRATION_MULTIPLIER * h2);
-  totalIntensity = Integrate(F, -integLimit, integLimit);
+  totalIntensity = Integrate(F_local, -integLimit, integLimit);
 
   return totalIntensity;
 }
diff --git a/function_objects/func_expdisk3d.cpp b/function_objects/func_expdisk3d.cpp
index 8cf2254..c0b0d5c 100644
--- a/function_objects/func_expdisk3d.cpp
+++ b/function_objects/func_expdisk3d.cpp
@@ -206,14 +206,16 @@ double ExponentialDisk3D::GetValue( double x, double y )
   xyParameters[8] = scaledZ0;
   xyParameters[9] = two_to_alpha;
   xyParameters[10] = alpha;
-  F.params = xyParameters;
+  // use a local copy, since GetValue can be called by multiple threads simultaneously
+  gsl_function  F_local = F;
+  F_local.params = xyParameters;
 
   // integrate out to +/- integLimit, which is multiple of exp. scale length
   // (NOTE: it seems like it would be faster to precalculate integLimit in the
   // Setup() call above; for some reason doing it that way makes the whole thing
   // take ~ 4 times longer!)
   integLimit = INTEGRATION_MULTIPLIER * h;
-  totalIntensity = Integrate(F, -integLimit, integLimit);
+  totalIntensity = Integrate(F_local, -integLimit, integLimit);
 
   return totalIntensity;
 }
diff --git a/function_objects/func_ferrersbar3d.cpp b/function_objects/func_ferrersbar3d.cpp
index a08dd69..55b4378 100644
--- a/function_objects/func_ferrersbar3d.cpp
+++ b/function_objects/func_ferrersbar3d.cpp
@@ -201,14 +201,16 @@ double FerrersBar3D::GetValue( double x, double y )
   xyParameters[9] = b2;
   xyParameters[10] = c2;
   xyParameters[11] = n;
-  F.params = xyParameters;
+  // use a local copy, since GetValue can be called by multiple threads simultaneously
+  gsl_function  F_local = F;
+  F_local.params = xyParameters;
 
   // [] NOTE: ideally, we should compute the integration limits directly, given
   // the known orientation of the ellipsoid, as the inner and outer boundaries of
   // the ellipsoid along the current line of sight; this would be superior to our current
   // -number,+number integration...
   // integrate out to +/- integLimit
-  totalIntensity = Integrate(F, -integrationLimit, integrationLimit);
+  totalIntensity = Integrate(F_local, -integrationLimit, integrationLimit);
 
   return totalIntensity;
 }
diff --git a/function_objects/func_gaussianring3d.cpp b/function_objects/func_gaussianring3d.cpp
index 4385054..81d9ffb 100644
--- a/function_objects/func_gaussianring3d.cpp
+++ b/function_objects/func_gaussianring3d.cpp
@@ -199,11 +199,13 @@ double GaussianRing3D::GetValue( double x, double y )
   xyParameters[9] = a_ring;
   xyParameters[10] = h_z;
   xyParameters[11] = twosigma_squared;
-  F.params = xyParameters;
+  // use a local copy, since GetValue can be called by multiple threads simultaneously
+  gsl_function  F_local = F;
+  F_local.params = xyParameters;
 
   // integrate out to +/- integLimit, which is multiple of ring radius
   integLimit = INTEGRATION_MULTIPLIER * a_ring;
-  totalIntensity = Integrate(F, -integLimit, integLimit);
+  totalIntensity = Integrate(F_local, -integLimit, integLimit);
 
   return totalIntensity;
 }
diff --git a/function_objects/func_peanut_dattathri.cpp b/function_objects/func_peanut_dattathri.cpp
index dfbf22e..0999b7b 100644
--- a/function_objects/func_peanut_dattathri.cpp
+++ b/function_objects/func_peanut_dattathri.cpp
@@ -196,14 +196,16 @@ double DattathriPeanut3D::GetValue( double x, double y )
   xyParameters[13] = sinInc;
   xyParameters[14] = cosPsi;
   xyParameters[15] = sinPsi;
-  F.params = xyParameters;
+  // use a local copy, since GetValue can be called by multiple threads simultaneously
+  gsl_function  F_local = F;
+  F_local.params = xyParameters;
 
   // integrate out to +/- integLimit, which is multiple of exp. scale length
   // (NOTE: it seems like it would be faster to precalculate integLimit in the
   // Setup() call above; for some reason doing it that way makes the whole thing
   // take ~ 4 times longer!)
   integLimit = INTEGRATION_MULTIPLIER * R_bar_x;
-  totalIntensity = Integrate(F, -integLimit, integLimit);
+  totalIntensity = Integrate(F_local, -integLimit, integLimit);
 
   return totalIntensity;
 }
diff --git a/function_objects/func_triaxbar3d.cpp b/function_objects/func_triaxbar3d.cpp
index 3f06d1d..402b390 100644
--- a/function_objects/func_triaxbar3d.cpp
+++ b/function_objects/func_triaxbar3d.cpp
@@ -164,7 +164,9 @@ double TriaxBar3D::GetValue( double x, double y )
   xyParameters[8] = q;
   xyParameters[9] = q_z;
   xyParameters[10] = twosigma_squared;
-  F.params = xyParameters;
+  // use a local copy, since GetValue can be called by multiple threads simultaneously
+  gsl_function  F_local = F;
+  F_local.params = xyParameters;
 
   // [] NOTE: ideally, we should compute the integration limits directly, given
   // the known orientation of the ellipsoid, as the inner and outer boundaries of
@@ -173,7 +175,7 @@ double TriaxBar3D::GetValue( double x, double y )
 
   // integrate out to +/- integLimit, which is multiple of Gaussian sigma^2
   integLimit = INTEGRATION_MULTIPLIER * twosigma_squared;
-  totalIntensity = Integrate(F, -integLimit, integLimit);
+  totalIntensity = Integrate(F_local, -integLimit, integLimit);
 
   return totalIntensity;
 }
-- 
2.43.0


From 89303e421b0306c9c53e335be3732726e13e00a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:11 +0000
Subject: [PATCH 03/39] fix: bicubic PSF interpolation: do not share GSL
 accelerators between threads

GetValue() is called concurrently from the parallel pixel loop, and the
shared accelerator caches were modified by every call.
---
 function_objects/psf_interpolators.cpp | 7 ++-----
 function_objects/psf_interpolators.h   | 2 --
 2 files changed, 2 insertions(+), 7 deletions(-)

diff --git a/function_objects/psf_interpolators.cpp b/function_objects/psf_interpolators.cpp
index ff60889..6e781a6 100644
--- a/function_objects/psf_interpolators.cpp
+++ b/function_objects/psf_interpolators.cpp
@@ -60,8 +60,6 @@ PsfInterpolator_bicubic::PsfInterpolator_bicubic( double *inputImage, int nCols_
   deltaYMin = -yBound;
   deltaYMax = yBound;
   
-  xacc = gsl_interp_accel_alloc();
-  yacc = gsl_interp_accel_alloc();
   splineInterp = gsl_spline2d_alloc(gsl_interp2d_bicubic, nColumns, nRows);
   int result = gsl_spline2d_init(splineInterp, xArray, yArray, inputImage, nColumns, nRows);
   
@@ -74,8 +72,6 @@ PsfInterpolator_bicubic::PsfInterpolator_bicubic( double *inputImage, int nCols_
 PsfInterpolator_bicubic::~PsfInterpolator_bicubic( )
 {
   gsl_spline2d_free(splineInterp);
-  gsl_interp_accel_free(xacc);
-  gsl_interp_accel_free(yacc);
   free(xArray);
   free(yArray);
 }
@@ -97,7 +93,8 @@ double PsfInterpolator_bicubic::GetValue( double x, double y )
   if ((x < deltaXMin) || (x > deltaXMax) || (y < deltaYMin) || (y > deltaYMax))
     newVal = 0.0;
   else
-    newVal = gsl_spline2d_eval(splineInterp, x, y, xacc, yacc);
+    // no gsl_interp_accel objects: they would be modified by concurrent calls
+    newVal = gsl_spline2d_eval(splineInterp, x, y, NULL, NULL);
   return newVal;
 }
 
diff --git a/function_objects/psf_interpolators.h b/function_objects/psf_interpolators.h
index 055f6bd..06539db 100644
--- a/function_objects/psf_interpolators.h
+++ b/function_objects/psf_interpolators.h
@@ -57,8 +57,6 @@ class PsfInterpolator_bicubic : public PsfInterpolator
   private:
     // new data members
     gsl_spline2d *splineInterp;
-    gsl_interp_accel *xacc;
-    gsl_interp_accel *yacc;
     double *xArray;
     double *yArray;
 };
-- 
2.43.0


From 4ff8312d3901fc3b73893d286c47628e9822241f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:19 +0000
Subject: [PATCH 04/39] fix: Lanczos PSF interpolation: index PSF image as
 row*nColumns + column

x and y were interchanged, giving a transposed PSF (and out-of-bounds
reads for non-square PSF images).
---
 function_objects/psf_interpolators.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/function_objects/psf_interpolators.cpp b/function_objects/psf_interpolators.cpp
index 6e781a6..8270efc 100644
--- a/function_objects/psf_interpolators.cpp
+++ b/function_objects/psf_interpolators.cpp
@@ -179,7 +179,7 @@ double PsfInterpolator_lanczos2::GetValue( double x, double y )
           else {
             y_dat = yArray[i_data_y];  // current y-value for PSF pixels
             lanczosScaling = Lanczos(x - x_dat, 2) * Lanczos(y - y_dat, 2);
-            newVal += lanczosScaling * psfDataArray[i_data_x*nColumns + i_data_y];
+            newVal += lanczosScaling * psfDataArray[i_data_y*nColumns + i_data_x];
           }
         }
       }
@@ -269,7 +269,7 @@ double PsfInterpolator_lanczos3::GetValue( double x, double y )
           else {
             y_dat = yArray[i_data_y];  // current y-value for PSF pixels
             lanczosScaling = Lanczos(x - x_dat, 3) * Lanczos(y - y_dat, 3);
-            newVal += lanczosScaling * psfDataArray[i_data_x*nColumns + i_data_y];
+            newVal += lanczosScaling * psfDataArray[i_data_y*nColumns + i_data_x];
           }
         }
       }
-- 
2.43.0


From 5f0cc3617556508da06eb6f0c2d12f25400f2586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:30 +0000
Subject: [PATCH 05/39] fix: reset point sources to the main image's pixel
 scale before each model image

Computing an oversampled region leaves its oversampling scale in every
PointSource, so from the second model image on, point sources in the main
image were evaluated at coordinates stretched by that scale.
---
 core/model_object.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/core/model_object.cpp b/core/model_object.cpp
index 3c022eb..1ce092a 100644
--- a/core/model_object.cpp
+++ b/core/model_object.cpp
@@ -1188,8 +1188,10 @@ void ModelObject::CreateModelImage( double params[] )
     // getting assigned alternate psfInterpolators), so we have to reset PointSource 
     // objects to use the standard-resolution psfInterpolator object held by ModelObject
     for (FunctionObject *funcObj : functionObjects)
-      if (funcObj->IsPointSource())
+      if (funcObj->IsPointSource()) {
         funcObj->AddPsfInterpolator(psfInterpolator);
+        funcObj->SetOversamplingScale(1);
+      }
     
 #pragma omp parallel private(i,j,n,x,y,newValSum,tempSum,adjVal,storedError)
     {
@@ -1277,8 +1279,10 @@ double * ModelObject::GetSingleFunctionImage( double params[], int functionIndex
   
   // If requested function is PointSource, re-assign the PsfInterpolator object
   // (see comments in CreateModelImage for why we need to do this)
-  if (functionObjects[functionIndex]->IsPointSource())
+  if (functionObjects[functionIndex]->IsPointSource()) {
     functionObjects[functionIndex]->AddPsfInterpolator(psfInterpolator);
+    functionObjects[functionIndex]->SetOversamplingScale(1);
+  }
 
   // 1. OK, populate modelVector with the model image -- standard pixel scaling
   // OpenMP Parallel section; see CreateModelImage() for general notes on this
-- 
2.43.0


From bfbd78afffd7f581259677f19ad967863fbb97a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:30 +0000
Subject: [PATCH 06/39] fix: compute Poisson-MLR data terms after masked
 non-finite data are zeroed

A masked NaN data pixel left NaN in the extra terms; multiplied by its zero
weight that made the whole fit statistic NaN.
---
 core/model_object.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/core/model_object.cpp b/core/model_object.cpp
index 1ce092a..2ab9942 100644
--- a/core/model_object.cpp
+++ b/core/model_object.cpp
@@ -1013,10 +1013,6 @@ int ModelObject::FinalSetupForFitting( )
       return -1;
   }
   
-  // Generate extra terms vector from data for modified Cash statistic, if using latter
-  if ((useCashStatistic) && (poissonMLR))
-    GenerateExtraCashTerms();
-
   // If an external error map was supplied, identify currently unmasked *error* pixels 
   // which have non-finite values and add those pixels to the mask
   //   Possible sources of bad pixel values:
@@ -1063,6 +1059,11 @@ int ModelObject::FinalSetupForFitting( )
       returnStatus = -2;
     }
   }
+
+  // Generate extra terms vector from data for modified Cash statistic, if using latter
+  // (after masked non-finite data values have been zeroed, so that no term is NaN)
+  if ((useCashStatistic) && (poissonMLR))
+    GenerateExtraCashTerms();
   
 #ifdef DEBUG
   PrintInputImage();
-- 
2.43.0


From 638e8c072fbd650988caa7bbd1c388fc07cc5f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:30 +0000
Subject: [PATCH 07/39] fix: number of rows of a downsampled region comes from
 its rows

---
 core/downsample.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/downsample.cpp b/core/downsample.cpp
index b8c5fc5..b622f03 100644
--- a/core/downsample.cpp
+++ b/core/downsample.cpp
@@ -76,7 +76,7 @@ void DownsampleAndReplace( const double *oversampledImage, int nOversampCols,
   i1 = startY - 1 + nMainPSFRows;
   // get number of columns and rows in sub-region of main image
   nCols_subregion = (int)((nOversampCols - 2*nOversampPSFCols)/oversampleScale);
-  nRows_subregion = (int)((nOversampCols - 2*nOversampPSFRows)/oversampleScale);
+  nRows_subregion = (int)((nOversampRows - 2*nOversampPSFRows)/oversampleScale);
   oversampleArea = oversampleScale*oversampleScale;
 
   // iterate over sub-region within main image [i,j = indices for main image]
-- 
2.43.0


From f7de4f415f8d9dbe335fae6fd5635f35af949180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:05 +0000
Subject: [PATCH 08/39] fix: initialize PSF dimensions of an oversampled region

---
 core/oversampled_region.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/oversampled_region.cpp b/core/oversampled_region.cpp
index 40e96a7..a123209 100644
--- a/core/oversampled_region.cpp
+++ b/core/oversampled_region.cpp
@@ -105,6 +105,7 @@ OversampledRegion::OversampledRegion( )
   psfInterpolator = nullptr;
   psfInterpolator_allocated = false;
   ompChunkSize = DEFAULT_OPENMP_CHUNK_SIZE;
+  nPSFColumns = nPSFRows = 0;   // no PSF padding unless a PSF is supplied
   
   debugImageName = "oversampled_region_testoutput";
 #ifdef USE_LOGGING
-- 
2.43.0


From 30abb1d3f94734b0fbba642068770d12b31630e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:28 +0000
Subject: [PATCH 09/39] fix: initialize ModelObject's per-image function
 counts, valid-pixel count and zero point

---
 core/model_object.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/core/model_object.cpp b/core/model_object.cpp
index 2ab9942..d64d83b 100644
--- a/core/model_object.cpp
+++ b/core/model_object.cpp
@@ -158,6 +158,9 @@ ModelObject::ModelObject( )
   nFunctionSets = 0;
   nFunctionParams = 0;
   nParamsTot = 0;
+  nGlobalFunctions = 0;
+  nPerImageFunctionSets = 0;
+  nPerImageParams = 0;
   nOversampledRegions = 0;
   debugLevel = 0;
   verboseLevel = 0;
@@ -173,7 +176,8 @@ ModelObject::ModelObject( )
   maxRequestedThreads = 0;   // default value --> use all available processors/cores
   ompChunkSize = DEFAULT_OPENMP_CHUNK_SIZE;
   
-  nDataVals = nDataColumns = nDataRows = 0;
+  nDataVals = nValidDataVals = nDataColumns = nDataRows = 0;
+  zeroPoint = 0.0;
   nModelVals = nModelColumns = nModelRows = 0;
   nPSFColumns = nPSFRows = 0;
 }
-- 
2.43.0


From 357cbb6b544eff96e081a4abc962319feedd901f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:43 +0000
Subject: [PATCH 10/39] fix: use a proper logarithm for non-positive model
 values in Cash and Poisson-MLR terms

LOG_SMALL_VALUE replaces log(model) where the model is not positive, but
was defined as 1e-25 itself (a logarithm of ~0, i.e. a model value of 1),
so that models excluding observed counts were not penalised.
---
 core/model_object.cpp           | 5 +++--
 core/model_object_multimage.cpp | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/core/model_object.cpp b/core/model_object.cpp
index d64d83b..7626236 100644
--- a/core/model_object.cpp
+++ b/core/model_object.cpp
@@ -81,9 +81,10 @@ static string  UNDEFINED = "<undefined>";
 const int  FFTW_SIZE = 16;
 const int  DOUBLE_SIZE = 8;
 
-// very small value for Cash statistic calculations (replaces log(m) if m <= 0)
+// logarithm of a very small value, for Cash statistic calculations (replaces log(m)
+// if m <= 0; = log(1.0e-25))
 // Based on http://cxc.harvard.edu/sherpa/ahelp/cstat.html
-#define LOG_SMALL_VALUE 1.0e-25
+#define LOG_SMALL_VALUE -57.564627324851145
 
 // current best size for OpenMP processing (works well with Intel Core 2 Duo and
 // Core i7 in MacBook Pro, under Mac OS X 10.6 and 10.7)
diff --git a/core/model_object_multimage.cpp b/core/model_object_multimage.cpp
index ea0147e..bfbcc57 100644
--- a/core/model_object_multimage.cpp
+++ b/core/model_object_multimage.cpp
@@ -70,9 +70,10 @@ static string  UNDEFINED = "<undefined>";
 const int  FFTW_SIZE = 16;
 const int  DOUBLE_SIZE = 8;
 
-// very small value for Cash statistic calculations (replaces log(m) if m <= 0)
+// logarithm of a very small value, for Cash statistic calculations (replaces log(m)
+// if m <= 0; = log(1.0e-25))
 // Based on http://cxc.harvard.edu/sherpa/ahelp/cstat.html
-#define LOG_SMALL_VALUE 1.0e-25
+#define LOG_SMALL_VALUE -57.564627324851145
 
 // current best size for OpenMP processing (works well with Intel Core 2 Duo and
 // Core i7 in MacBook Pro, under Mac OS X 10.6 and 10.7)
-- 
2.43.0


From 143054fc62fa893821c5e1697a3a7472b0234384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:56 +0000
Subject: [PATCH 11/39] fix: print X0,Y0 limits in the same (full-image)
 coordinates as the values

---
 core/model_object.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/core/model_object.cpp b/core/model_object.cpp
index 7626236..36d98fc 100644
--- a/core/model_object.cpp
+++ b/core/model_object.cpp
@@ -1861,13 +1861,15 @@ int ModelObject::PrintModelParamsToStrings( vector<string> &stringVector, double
           newLine = PrintToString(XY_FORMAT_WITH_FIXED, prefix, "X0", x0);
         else
           newLine = PrintToString(XY_FORMAT_WITH_LIMITS, prefix, "X0", x0, 
-        				parameterInfoVect[k].limits[0], parameterInfoVect[k].limits[1]);
+        				parameterInfoVect[k].limits[0] + imageOffset_X0, 
+        				parameterInfoVect[k].limits[1] + imageOffset_X0);
         stringVector.push_back(newLine);
         if (parameterInfoVect[k + 1].fixed == 1)
           newLine = PrintToString(XY_FORMAT_WITH_FIXED, prefix, "Y0", y0);
         else
           newLine = PrintToString(XY_FORMAT_WITH_LIMITS, prefix, "Y0", y0, 
-        				parameterInfoVect[k + 1].limits[0], parameterInfoVect[k + 1].limits[1]);
+        				parameterInfoVect[k + 1].limits[0] + imageOffset_Y0, 
+        				parameterInfoVect[k + 1].limits[1] + imageOffset_Y0);
         stringVector.push_back(newLine);
       } else {
         if (errs != nullptr) {
-- 
2.43.0


From b56f2ce7153252c88d4277eadd40c81ea40c6b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:56 +0000
Subject: [PATCH 12/39] fix: multimfit parameter lines with a single image: do
 not print the first parameter twice

---
 core/model_object_multimage.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/core/model_object_multimage.cpp b/core/model_object_multimage.cpp
index bfbcc57..d7a95e8 100644
--- a/core/model_object_multimage.cpp
+++ b/core/model_object_multimage.cpp
@@ -657,11 +657,13 @@ string ModelObjectMultImage::PrintModelParamsHorizontalString( const double para
   // number of image-description parameters
   nImageParams = (nModelObjects - 1)*N_IMAGE_PARAMS;
   
-  // Line should start with parameter value (no initial separator)
-  outputString = PrintToString("%#.10g", params[0]);
-  // now we precede each subsequent parameter value with separator
-  for (int i = 1; i < nImageParams; i++)
-    outputString += PrintToString("%s%#.10g", separator.c_str(), params[i]);
+  // Line should start with parameter value (no initial separator); we precede each 
+  // subsequent parameter value with separator
+  for (int i = 0; i < nImageParams; i++) {
+    if (i > 0)
+      outputString += separator;
+    outputString += PrintToString("%#.10g", params[i]);
+  }
 
   indexOffset = nImageParams;
   for (int n = 0; n < nFunctions; n++) {
@@ -670,7 +672,9 @@ string ModelObjectMultImage::PrintModelParamsHorizontalString( const double para
       k = indexOffset;
       x0 = params[k] + image1Offset_x0;
       y0 = params[k + 1] + image1Offset_y0;
-      outputString += PrintToString("%s%#.10g%s%#.10g", separator.c_str(), x0, separator.c_str(), y0);
+      if (k > 0)   // not the very first value on the line
+        outputString += separator;
+      outputString += PrintToString("%#.10g%s%#.10g", x0, separator.c_str(), y0);
       indexOffset += 2;
     }
 
-- 
2.43.0


From db7a7edb3d1effdc0a9643a4e32ff67ac19811b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:45 +0000
Subject: [PATCH 13/39] fix: PointSourceRot keeps the recognised interpolation
 type and remembers its optional parameters

---
 function_objects/func_pointsource-rot.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/function_objects/func_pointsource-rot.cpp b/function_objects/func_pointsource-rot.cpp
index 4ab7646..a3fcaba 100644
--- a/function_objects/func_pointsource-rot.cpp
+++ b/function_objects/func_pointsource-rot.cpp
@@ -178,8 +178,8 @@ int PointSourceRot::SetExtraParams( map<string,string>& inputMap )
       return 0;
     }
   }
-  interpolationType = iter->second;
   extraParamsSet = true;
+  inputExtraParams = inputMap;
   printf("   PointSourceRot::SetExtraParams -- setting method = %s\n", 
        		interpolationType.c_str());
   return 1;
-- 
2.43.0


From 6a9e17d2223582ee2bdcc30d9e90cd5dd47f7ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:11 +0000
Subject: [PATCH 14/39] fix: PointSourceRot accepts the documented lanczos3
 interpolation

---
 function_objects/func_pointsource-rot.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/function_objects/func_pointsource-rot.cpp b/function_objects/func_pointsource-rot.cpp
index a3fcaba..2ccb823 100644
--- a/function_objects/func_pointsource-rot.cpp
+++ b/function_objects/func_pointsource-rot.cpp
@@ -167,6 +167,10 @@ int PointSourceRot::SetExtraParams( map<string,string>& inputMap )
         interpolationType = "lanczos2";
         break;
       }
+      if ((iter->second == "lanczos3") || (iter->second == "Lanczos3")) {
+        interpolationType = "lanczos3";
+        break;
+      }
       fprintf(stderr, "ERROR: unidentified interpolation type in PointSourceRot::SetExtraParams!\n");
       fprintf(stderr, "(\"%s\" is not a recognized interpolation type)\n",
       			iter->second.c_str());
-- 
2.43.0


From ce17fdde48bc081953298b574f699d9faa5b7416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:23 +0000
Subject: [PATCH 15/39] fix: leave bootstrap mode after bootstrap resampling

The fit statistic written to the best-fit parameter file after --bootstrap
was computed for the last bootstrap sample instead of for the data.
---
 core/bootstrap_errors.cpp       | 18 ++++++++++++++++++
 core/model_object.cpp           |  9 +++++++++
 core/model_object.h             |  2 ++
 core/model_object_multimage.cpp | 11 +++++++++++
 core/model_object_multimage.h   |  2 ++
 5 files changed, 42 insertions(+)

diff --git a/core/bootstrap_errors.cpp b/core/bootstrap_errors.cpp
index 008e70a..8e3b0cf 100644
--- a/core/bootstrap_errors.cpp
+++ b/core/bootstrap_errors.cpp
@@ -183,7 +183,9 @@ int BootstrapErrorsBase( const double *bestfitParams, vector<mp_par> parameterLi
   status = theModel->UseBootstrap();
   if (status < 0) {
     fprintf(stderr, "Error encountered during bootstrap setup!\n");
+    theModel->EndBootstrap();
     free(paramsVect);
+    free(paramOffsets);
     return -1;
   }
 
@@ -243,6 +245,13 @@ int BootstrapErrorsBase( const double *bestfitParams, vector<mp_par> parameterLi
   printf("\n");
 
  
+  // Go back to using the original data, and make sure the model image is the one
+  // which corresponds to the best-fit parameters
+  theModel->EndBootstrap();
+  for (i = 0; i < nParams; i++)
+    paramsVect[i] = bestfitParams[i];
+  theModel->GetFitStatistic(paramsVect);
+
   free(paramsVect);
   free(paramOffsets);
 
@@ -279,7 +288,9 @@ int BootstrapErrorsArrayOnly( const double *bestfitParams, vector<mp_par> parame
   status = theModel->UseBootstrap();
   if (status < 0) {
     fprintf(stderr, "Error encountered during bootstrap setup!\n");
+    theModel->EndBootstrap();
     free(paramsVect);
+    free(paramOffsets);
     return -1;
   }
 
@@ -329,6 +340,13 @@ int BootstrapErrorsArrayOnly( const double *bestfitParams, vector<mp_par> parame
   if (verboseFlag)
     printf("\n");
 
+  // Go back to using the original data, and make sure the model image is the one
+  // which corresponds to the best-fit parameters
+  theModel->EndBootstrap();
+  for (i = 0; i < nParams; i++)
+    paramsVect[i] = bestfitParams[i];
+  theModel->GetFitStatistic(paramsVect);
+
   free(paramsVect);
   free(paramOffsets);
 
diff --git a/core/model_object.cpp b/core/model_object.cpp
index 36d98fc..44af63f 100644
--- a/core/model_object.cpp
+++ b/core/model_object.cpp
@@ -2065,6 +2065,15 @@ int ModelObject::UseBootstrap( )
 }
 
 
+/* ---------------- PUBLIC METHOD: EndBootstrap ------------------------ */
+/// Tells ModelObject object that bootstrap resampling is finished: from now on, the 
+/// fit statistic is once again computed using the original (non-resampled) data.
+void ModelObject::EndBootstrap( )
+{
+  doBootstrap = false;
+}
+
+
 /* ---------------- PUBLIC METHOD: MakeBootstrapSample ----------------- */
 /// Generate a new bootstrap resampling of the data (more precisely, this generate a
 /// bootstrap resampling of the data *indices*)
diff --git a/core/model_object.h b/core/model_object.h
index 7b81eac..8904826 100644
--- a/core/model_object.h
+++ b/core/model_object.h
@@ -259,6 +259,8 @@ class ModelObject
     virtual int UseBootstrap( );
     
     virtual int MakeBootstrapSample( );
+
+    virtual void EndBootstrap( );
     
     // [x] 2D only (used in model_object_multimage.cpp)
     void GetDataImageDimensions( int *nColumns, int *nRows );
diff --git a/core/model_object_multimage.cpp b/core/model_object_multimage.cpp
index d7a95e8..e101e4d 100644
--- a/core/model_object_multimage.cpp
+++ b/core/model_object_multimage.cpp
@@ -743,6 +743,17 @@ int ModelObjectMultImage::UseBootstrap( )
 }
 
 
+/* ---------------- PUBLIC METHOD: EndBootstrap ------------------------ */
+/// Tells ModelObjectMultImage object that bootstrap resampling is finished.
+/// This (overridden) version simply calls the EndBootstrap() method on each of the 
+/// ModelObject instances in modelObjectsVect.
+void ModelObjectMultImage::EndBootstrap( )
+{
+  for (int i = 0; i < nModelObjects; i++)
+    modelObjectsVect[i]->EndBootstrap();
+}
+
+
 /* ---------------- PUBLIC METHOD: MakeBootstrapSample ----------------- */
 /// Generate a new bootstrap resampling of the data (more precisely, this generate a
 /// bootstrap resampling of the data *indices*).
diff --git a/core/model_object_multimage.h b/core/model_object_multimage.h
index 19de69c..7ff942c 100644
--- a/core/model_object_multimage.h
+++ b/core/model_object_multimage.h
@@ -96,6 +96,8 @@ class ModelObjectMultImage : public ModelObject
     
     int MakeBootstrapSample( ) override;
 
+    void EndBootstrap( ) override;
+
     string PrintModelParamsHorizontalString( const double params[], 
     											const string& separator="\t" ) override;
 
-- 
2.43.0


From 58dbcbadf248ebd3bb9924094da15daa5f188c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:40 +0000
Subject: [PATCH 16/39] fix: bootstrap summaries use only successful iterations
 and the right parameters

The summaries averaged over the unfilled (zero) entries of failed iterations;
the multi-image summary used the wrong label for the second and later images
and repeated (or, with one image, read before the start of) the parameters.
---
 core/bootstrap_errors.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/core/bootstrap_errors.cpp b/core/bootstrap_errors.cpp
index 8e3b0cf..bce47b9 100644
--- a/core/bootstrap_errors.cpp
+++ b/core/bootstrap_errors.cpp
@@ -132,10 +132,10 @@ int BootstrapErrors( const double *bestfitParams, vector<mp_par> parameterLimits
     // Calculate sigmas and 68% confidence intervals for the parameters
     // vector to hold estimated sigmas for each parameter
     if (multimfitMode)
-      PrintBootstrapSummaryMultimfit(bestfitParams, outputParamArray, nParams, nIterations, 
+      PrintBootstrapSummaryMultimfit(bestfitParams, outputParamArray, nParams, nSuccessfulIterations, 
     								parameterLimits, theModel);
     else
-      PrintBootstrapSummary(bestfitParams, outputParamArray, nParams, nIterations, 
+      PrintBootstrapSummary(bestfitParams, outputParamArray, nParams, nSuccessfulIterations, 
     						parameterLimits, theModel);
   }
 
@@ -420,12 +420,12 @@ void PrintBootstrapSummaryMultimfit( const double *bestfitParams, double **outpu
         plus = upper - bestfitParams[i];
         minus = bestfitParams[i] - lower;
         halfwidth = (upper - lower)/2.0;
-        printf("%s = %g  +%g, -%g    [%g -- %g, %g];  (%g +/- %g)\n", imageParamLabels[i].c_str(),
+        printf("%s = %g  +%g, -%g    [%g -- %g, %g];  (%g +/- %g)\n", imageParamLabels[j].c_str(),
       	       	bestfitParams[i], plus, minus, lower, upper, halfwidth,
         		Mean(outputParamArray[i], nIterations), paramSigmas[i]);
       }
       else
-        printf("%s = %g     [fixed parameter]\n", imageParamLabels[i].c_str(),
+        printf("%s = %g     [fixed parameter]\n", imageParamLabels[j].c_str(),
         		bestfitParams[i]);
     }
   }
@@ -433,7 +433,7 @@ void PrintBootstrapSummaryMultimfit( const double *bestfitParams, double **outpu
   // now print results for model parameters
   i_last = i;
   printf("# Model parameters:\n");
-  for (i = i_last; i < nParams; i++) {
+  for (i = i_last + 1; i < nParams; i++) {
     if (parameterLimits[i].fixed == 0) {
       std::tie(lower, upper) = ConfidenceInterval(outputParamArray[i], nIterations);
       plus = upper - bestfitParams[i];
-- 
2.43.0


From 8bd8c92774ce2c99fd235beb74b02b53753ad075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:40 +0000
Subject: [PATCH 17/39] fix: correct best-fit positions for image sections in
 the bootstrap summary

---
 core/bootstrap_errors.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/core/bootstrap_errors.cpp b/core/bootstrap_errors.cpp
index bce47b9..68e8a55 100644
--- a/core/bootstrap_errors.cpp
+++ b/core/bootstrap_errors.cpp
@@ -88,7 +88,7 @@ int BootstrapErrors( const double *bestfitParams, vector<mp_par> parameterLimits
 					const int nIterations, const int nFreeParams, const int whichStatistic, 
 					FILE *outputFile_ptr, unsigned long rngSeed, bool multimfitMode )
 {
-  double  *paramSigmas;
+  double  *paramOffsets, *bestfitParams_offsetCorrected;
   double **outputParamArray;
 //   double  lower, upper, plus, minus, halfwidth;
   int  i, nSuccessfulIterations;
@@ -104,8 +104,8 @@ int BootstrapErrors( const double *bestfitParams, vector<mp_par> parameterLimits
   for (i = 0; i < nParams; i++)
     outputParamArray[i] = (double *)calloc( (size_t)nIterations, sizeof(double) );
 
-//   paramOffsets = (double *) calloc(nParams, sizeof(double));
-//   bestfitParams_offsetCorrected = (double *) calloc(nParams, sizeof(double));
+  paramOffsets = (double *) calloc(nParams, sizeof(double));
+  bestfitParams_offsetCorrected = (double *) calloc(nParams, sizeof(double));
   
   // write column header info to file, if user requested saving to file
   if (outputFile_ptr != nullptr) {
@@ -125,25 +125,25 @@ int BootstrapErrors( const double *bestfitParams, vector<mp_par> parameterLimits
   else {
     // Apply image-offset corrections to best-fit parameters, so their values
     // get printed corrected
-//     theModel->GetImageOffsets(paramOffsets);
-//     for (i = 0; i < nParams; i++)
-//       bestfitParams_offsetCorrected[i] = bestfitParams[i] + paramOffsets[i];
+    theModel->GetImageOffsets(paramOffsets);
+    for (i = 0; i < nParams; i++)
+      bestfitParams_offsetCorrected[i] = bestfitParams[i] + paramOffsets[i];
     
     // Calculate sigmas and 68% confidence intervals for the parameters
     // vector to hold estimated sigmas for each parameter
     if (multimfitMode)
-      PrintBootstrapSummaryMultimfit(bestfitParams, outputParamArray, nParams, nSuccessfulIterations, 
+      PrintBootstrapSummaryMultimfit(bestfitParams_offsetCorrected, outputParamArray, nParams, nSuccessfulIterations, 
     								parameterLimits, theModel);
     else
-      PrintBootstrapSummary(bestfitParams, outputParamArray, nParams, nSuccessfulIterations, 
+      PrintBootstrapSummary(bestfitParams_offsetCorrected, outputParamArray, nParams, nSuccessfulIterations, 
     						parameterLimits, theModel);
   }
 
   for (i = 0; i < nParams; i++)
     free(outputParamArray[i]);
   free(outputParamArray);
-//   free(paramOffsets);
-//   free(bestfitParams_offsetCorrected);
+  free(paramOffsets);
+  free(bestfitParams_offsetCorrected);
 
   return nSuccessfulIterations;
 }
-- 
2.43.0


From f3232943a7180a6316ea445161dfdfa6b647dee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:54 +0000
Subject: [PATCH 18/39] fix: makeimage: PSF dimensions are zero when there is
 no PSF image

---
 core/makeimage_main.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/makeimage_main.cpp b/core/makeimage_main.cpp
index 3299346..cbd0de6 100644
--- a/core/makeimage_main.cpp
+++ b/core/makeimage_main.cpp
@@ -98,7 +98,8 @@ void DetermineFluxes( ModelObject *theModel, double *parameters,
 int main( int argc, char *argv[] )
 {
   int  nColumns, nRows;
-  int  nColumns_psf, nRows_psf;
+  int  nColumns_psf = 0;
+  int  nRows_psf = 0;
   int  nParamsTot;
   int  status;
   double  *psfPixels = nullptr;
-- 
2.43.0


From 49971d4b9fe510426ffbae02bee4ddccc35691da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:25 +0000
Subject: [PATCH 19/39] fix: do not write to output files that could not be
 opened

makeimage --save-fluxes, imfit/multimfit --save-bootstrap and the parameter
files of multimfit crashed when the file could not be created.
---
 core/imfit_main.cpp          |  7 +++++++
 core/makeimage_main.cpp      |  6 ++++++
 core/multimfit_main.cpp      |  7 +++++++
 core/print_results_multi.cpp | 20 ++++++++++++++------
 4 files changed, 34 insertions(+), 6 deletions(-)

diff --git a/core/imfit_main.cpp b/core/imfit_main.cpp
index 6acb997..2567228 100644
--- a/core/imfit_main.cpp
+++ b/core/imfit_main.cpp
@@ -399,6 +399,13 @@ int main(int argc, char *argv[])
   if ((options->doBootstrap) && (options->bootstrapIterations > 0) && (! userInterrupted)) {
     if (options->saveBootstrap) {
       bootstrapSaveFile_ptr = fopen(options->outputBootstrapFileName.c_str(), "w");
+      if (bootstrapSaveFile_ptr == nullptr) {
+        fprintf(stderr, "\n*** WARNING: Unable to open file \"%s\" -- bootstrap output will not be saved!\n\n",
+        		options->outputBootstrapFileName.c_str());
+        options->saveBootstrap = false;
+      }
+    }
+    if (options->saveBootstrap) {
       // write general info + best-fitting params as a commented-out header
       SaveParameters2(bootstrapSaveFile_ptr, paramsVect, theModel, programHeader, "#");
     }
diff --git a/core/makeimage_main.cpp b/core/makeimage_main.cpp
index cbd0de6..93a2cd5 100644
--- a/core/makeimage_main.cpp
+++ b/core/makeimage_main.cpp
@@ -806,6 +806,12 @@ void DetermineFluxes( ModelObject *theModel, double *parameters,
     headerLines.push_back(columHeaderLine_for_file);
 
     FILE * file_ptr = fopen(options->saveFluxesFileName.c_str(), "w");
+    if (file_ptr == nullptr) {
+      fprintf(stderr, "\n*** WARNING: Unable to open file \"%s\" for saving fluxes!\n\n",
+      		options->saveFluxesFileName.c_str());
+      free(fluxes);
+      return;
+    }
     for (n = 0; n < (int)headerLines.size(); n++)
       fprintf(file_ptr, "%s", headerLines[n].c_str());
     for (n = 0; n < (int)saveFluxesLines.size(); n++)
diff --git a/core/multimfit_main.cpp b/core/multimfit_main.cpp
index 9800ff1..49b86d1 100644
--- a/core/multimfit_main.cpp
+++ b/core/multimfit_main.cpp
@@ -752,6 +752,13 @@ int main(int argc, char *argv[])
   if ((options->doBootstrap) && (options->bootstrapIterations > 0) && (! userInterrupted)) {
     if (options->saveBootstrap) {
       bootstrapSaveFile_ptr = fopen(options->outputBootstrapFileName.c_str(), "w");
+      if (bootstrapSaveFile_ptr == nullptr) {
+        fprintf(stderr, "\n*** WARNING: Unable to open file \"%s\" -- bootstrap output will not be saved!\n\n",
+        		options->outputBootstrapFileName.c_str());
+        options->saveBootstrap = false;
+      }
+    }
+    if (options->saveBootstrap) {
       // write general info + best-fitting params as a commented-out header
       // SaveParameters2(bootstrapSaveFile_ptr, paramsVect, theModel, programHeader, "#");
     }
diff --git a/core/print_results_multi.cpp b/core/print_results_multi.cpp
index 2ca775f..6476f84 100644
--- a/core/print_results_multi.cpp
+++ b/core/print_results_multi.cpp
@@ -69,6 +69,10 @@ void SaveMultImageParameters( double *params, ModelObjectMultImage *multModel,
       printf("\tSaving %s...\n", newFilename.c_str());
     }
     file_ptr = fopen(newFilename.c_str(), "w");
+    if (file_ptr == nullptr) {
+      fprintf(stderr, "\n*** WARNING: Unable to open file \"%s\" for saving parameters!\n\n", newFilename.c_str());
+      continue;
+    }
     for (auto line: outputHeader)
       fprintf(file_ptr, "%s\n", line.c_str());
     dataFilename = multModel->GetDataFilename(i);
@@ -133,12 +137,16 @@ void SaveImageInfoParameters( double *params, ModelObjectMultImage *multModel,
   
   if (stringsForFile.size() > 0) {
     file_ptr = fopen(outputFilename.c_str(), "w");
-    for (auto line: outputHeader)
-      fprintf(file_ptr, "%s\n", line.c_str());
-    fprintf(file_ptr, "\n# IMAGE PARAMETERS\n\n");
-    for (auto line: stringsForFile)
-      fprintf(file_ptr, "%s", line.c_str());
-    fclose(file_ptr);
+    if (file_ptr == nullptr)
+      fprintf(stderr, "\n*** WARNING: Unable to open file \"%s\" for saving image parameters!\n\n", outputFilename.c_str());
+    else {
+      for (auto line: outputHeader)
+        fprintf(file_ptr, "%s\n", line.c_str());
+      fprintf(file_ptr, "\n# IMAGE PARAMETERS\n\n");
+      for (auto line: stringsForFile)
+        fprintf(file_ptr, "%s", line.c_str());
+      fclose(file_ptr);
+    }
   }
   
   free(imageDescriptionParams);
-- 
2.43.0


From e62c4f871aacd5cc32b6b5cfe761b9c194c02c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:35 +0000
Subject: [PATCH 20/39] fix: NLopt fits count only their own function
 evaluations

---
 solvers/nlopt_fit.cpp     | 1 +
 solvers/nmsimplex_fit.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/solvers/nlopt_fit.cpp b/solvers/nlopt_fit.cpp
index 0452a2f..d0fe439 100644
--- a/solvers/nlopt_fit.cpp
+++ b/solvers/nlopt_fit.cpp
@@ -316,6 +316,7 @@ int NLOptFit( int nParamsTot, double *paramVector, vector<mp_par> parameterLimit
 
   // Specify level of verbosity and start the optimization
   verboseOutput = verbose;
+  funcCallCount = 0;
   result = nlopt_optimize(theOptimizer, paramVector, &finalStatisticVal);
   if (verbose >= 0)
     InterpretResult(result, algorithmName);
diff --git a/solvers/nmsimplex_fit.cpp b/solvers/nmsimplex_fit.cpp
index 1fa3311..e80602d 100644
--- a/solvers/nmsimplex_fit.cpp
+++ b/solvers/nmsimplex_fit.cpp
@@ -220,6 +220,7 @@ int NMSimplexFit( const int nParamsTot, double *paramVector, vector<mp_par> para
   
   // Specify level of verbosity and start the optimization
   verboseOutput = verbose;
+  funcCallCount = 0;
   result = nlopt_optimize(optimizer, paramVector, &finalStatisticVal);
   if (verbose >= 0) {
     string interpretedResult;
-- 
2.43.0


From 96ac8bc5eeaca56c66664d90c68d84ea4ad3f882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:35 +0000
Subject: [PATCH 21/39] fix: DESolver frees its arrays with delete []

---
 solvers/DESolver.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/solvers/DESolver.cpp b/solvers/DESolver.cpp
index 6f2efdb..7296201 100644
--- a/solvers/DESolver.cpp
+++ b/solvers/DESolver.cpp
@@ -79,14 +79,14 @@ DESolver::DESolver( int dim, int popSize ) :
 
 DESolver::~DESolver( )
 {
-  if (trialSolution) delete trialSolution;
-  if (bestSolution) delete bestSolution;
-  if (popEnergy) delete popEnergy;
-  if (population) delete population;
+  if (trialSolution) delete [] trialSolution;
+  if (bestSolution) delete [] bestSolution;
+  if (popEnergy) delete [] popEnergy;
+  if (population) delete [] population;
   
-  if (oldValues) delete oldValues;
-  if (minBounds) delete minBounds;
-  if (maxBounds) delete maxBounds;
+  if (oldValues) delete [] oldValues;
+  if (minBounds) delete [] minBounds;
+  if (maxBounds) delete [] maxBounds;
 
   trialSolution = bestSolution = popEnergy = population = 0;
 }
-- 
2.43.0


From f39a4a9e909f61360453e72e7b834361d9546c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:35 +0000
Subject: [PATCH 22/39] fix: Latin hypercube sampling of DE uses the
 user-specified seed

---
 solvers/DESolver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solvers/DESolver.cpp b/solvers/DESolver.cpp
index 7296201..0e0aa7f 100644
--- a/solvers/DESolver.cpp
+++ b/solvers/DESolver.cpp
@@ -119,7 +119,7 @@ void DESolver::Setup( double *min, double *max, int deStrategy, double diffScale
     // prep Latin hypercube sampling --> sampleIndices
     vector< vector<int> >  sampleIndices;   // [nDim][nPop]
     random_device rd;
-    mt19937 g(rd());
+    mt19937 g(rngSeed > 0 ? (unsigned int)rngSeed : rd());
     vector<int> singleParamSampleIndices(nPop);
   
     // set up the shuffled indices
-- 
2.43.0


From 224cb639cb06a328c4b384b5c840e0d139f85bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:35 +0000
Subject: [PATCH 23/39] fix: DE accepts fit statistics above 1e20 and keeps
 parameters when there is no valid solution

---
 solvers/DESolver.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/solvers/DESolver.cpp b/solvers/DESolver.cpp
index 0e0aa7f..809e8eb 100644
--- a/solvers/DESolver.cpp
+++ b/solvers/DESolver.cpp
@@ -138,7 +138,7 @@ void DESolver::Setup( double *min, double *max, int deStrategy, double diffScale
         p = genrand_real1();
         Element(population,i,j) = min[j] + (sampleOffset + p)*intervalSize;
       }
-      popEnergy[i] = 1.0E20;
+      popEnergy[i] = HUGE_VAL;
     }
   }
   else {
@@ -147,7 +147,7 @@ void DESolver::Setup( double *min, double *max, int deStrategy, double diffScale
  	for (i = 0; i < nPop; i++) {
       for (int j = 0; j < nDim; j++)
         Element(population,i,j) = RandomUniform(min[j], max[j]);
-      popEnergy[i] = 1.0E20;
+      popEnergy[i] = HUGE_VAL;
     }
   }
 
@@ -214,7 +214,7 @@ int DESolver::Solve( int maxGenerations, int verbose )
   double  relativeDeltas[3] = {100.0, 100.0, 100.0};
   double  lastBestEnergy;
 
-  bestEnergy = 1.0E20;
+  bestEnergy = HUGE_VAL;
   lastBestEnergy = bestEnergy;
 
   bAtSolution = false;
@@ -308,6 +308,9 @@ int DESolver::Solve( int maxGenerations, int verbose )
 
 void DESolver::StoreSolution( double *theSolution )
 {
+  // if no candidate had a valid energy, then there is no solution to store
+  if (! (bestEnergy < HUGE_VAL))
+    return;
   for (int i = 0; i < nDim; i++)
     theSolution[i] = bestSolution[i];
 }
-- 
2.43.0


From 70bdf79a480eca38663b353189dfa5a5c2f31a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:47 +0000
Subject: [PATCH 24/39] fix: DE random indices stay below the number of
 candidates/parameters

---
 solvers/DESolver.cpp | 39 ++++++++++++++++++++++++---------------
 solvers/DESolver.h   |  1 +
 2 files changed, 25 insertions(+), 15 deletions(-)

diff --git a/solvers/DESolver.cpp b/solvers/DESolver.cpp
index 809e8eb..dc97d23 100644
--- a/solvers/DESolver.cpp
+++ b/solvers/DESolver.cpp
@@ -323,7 +323,7 @@ void DESolver::Best1Exp( int candidate )
   int n;
 
   SelectSamples(candidate, &r1, &r2);
-  n = (int)RandomUniform(0.0, (double)nDim);
+  n = RandomIndex(nDim);
 
   CopyVector(trialSolution, RowVector(population, candidate));
   for (int i = 0; (RandomUniform(0.0,1.0) < probability) && (i < nDim); i++) {
@@ -343,7 +343,7 @@ void DESolver::Rand1Exp( int candidate )
   int n;
 
   SelectSamples(candidate, &r1, &r2, &r3);
-  n = (int)RandomUniform(0.0, (double)nDim);
+  n = RandomIndex(nDim);
 
   CopyVector(trialSolution, RowVector(population, candidate));
   for (int i = 0; (RandomUniform(0.0,1.0) < probability) && (i < nDim); i++) {
@@ -363,7 +363,7 @@ void DESolver::RandToBest1Exp( int candidate )
   int n;
 
   SelectSamples(candidate, &r1, &r2);
-  n = (int)RandomUniform(0.0, (double)nDim);
+  n = RandomIndex(nDim);
 
   CopyVector(trialSolution, RowVector(population, candidate));
   for (int i = 0; (RandomUniform(0.0,1.0) < probability) && (i < nDim); i++) {
@@ -383,7 +383,7 @@ void DESolver::Best2Exp( int candidate )
   int n;
 
   SelectSamples(candidate, &r1, &r2, &r3, &r4);
-  n = (int)RandomUniform(0.0, (double)nDim);
+  n = RandomIndex(nDim);
 
   CopyVector(trialSolution, RowVector(population, candidate));
   for (int i = 0; (RandomUniform(0.0,1.0) < probability) && (i < nDim); i++) {
@@ -405,7 +405,7 @@ void DESolver::Rand2Exp( int candidate )
   int n;
 
   SelectSamples(candidate, &r1, &r2, &r3, &r4, &r5);
-  n = (int)RandomUniform(0.0, (double)nDim);
+  n = RandomIndex(nDim);
 
   CopyVector(trialSolution, RowVector(population, candidate));
   for (int i = 0; (RandomUniform(0.0,1.0) < probability) && (i < nDim); i++) {
@@ -427,7 +427,7 @@ void DESolver::Best1Bin( int candidate )
   int n;
 
   SelectSamples(candidate, &r1, &r2);
-  n = (int)RandomUniform(0.0, (double)nDim);
+  n = RandomIndex(nDim);
 
   CopyVector(trialSolution, RowVector(population, candidate));
   for (int i = 0; i < nDim; i++) {
@@ -448,7 +448,7 @@ void DESolver::Rand1Bin( int candidate )
   int n;
 
   SelectSamples(candidate, &r1, &r2, &r3);
-  n = (int)RandomUniform(0.0, (double)nDim);
+  n = RandomIndex(nDim);
 
   CopyVector(trialSolution, RowVector(population, candidate));
   for (int i = 0; i < nDim; i++) {
@@ -469,7 +469,7 @@ void DESolver::RandToBest1Bin( int candidate )
   int n;
 
   SelectSamples(candidate, &r1, &r2);
-  n = (int)RandomUniform(0.0, (double)nDim);
+  n = RandomIndex(nDim);
 
   CopyVector(trialSolution, RowVector(population, candidate));
   for (int i = 0; i < nDim; i++) {
@@ -490,7 +490,7 @@ void DESolver::Best2Bin( int candidate )
   int n;
 
   SelectSamples(candidate, &r1, &r2, &r3, &r4);
-  n = (int)RandomUniform(0.0, (double)nDim);
+  n = RandomIndex(nDim);
 
   CopyVector(trialSolution, RowVector(population, candidate));
   for (int i = 0; i < nDim; i++) {
@@ -513,7 +513,7 @@ void DESolver::Rand2Bin( int candidate )
   int n;
 
   SelectSamples(candidate, &r1, &r2, &r3, &r4, &r5);
-  n = (int)RandomUniform(0.0, (double)nDim);
+  n = RandomIndex(nDim);
 
   CopyVector(trialSolution, RowVector(population, candidate));
   for (int i = 0; i < nDim; i++) {
@@ -533,37 +533,46 @@ void DESolver::SelectSamples( int candidate, int *r1, int *r2, int *r3, int *r4,
 {
   if (r1) {
     do {
-      *r1 = (int)RandomUniform(0.0, (double)nPop);
+      *r1 = RandomIndex(nPop);
     } while (*r1 == candidate);
   }
 
   if (r2) {
     do {
-      *r2 = (int)RandomUniform(0.0, (double)nPop);
+      *r2 = RandomIndex(nPop);
     } while ((*r2 == candidate) || (*r2 == *r1));
   }
 
   if (r3) {
     do {
-      *r3 = (int)RandomUniform(0.0, (double)nPop);
+      *r3 = RandomIndex(nPop);
     } while ((*r3 == candidate) || (*r3 == *r2) || (*r3 == *r1));
   }
 
   if (r4) {
     do {
-      *r4 = (int)RandomUniform(0.0, (double)nPop);
+      *r4 = RandomIndex(nPop);
     } while ((*r4 == candidate) || (*r4 == *r3) || (*r4 == *r2) || (*r4 == *r1));
   }
 
   if (r5) {
     do {
-      *r5 = (int)RandomUniform(0.0, (double)nPop);
+      *r5 = RandomIndex(nPop);
     } while ((*r5 == candidate) || (*r5 == *r4) || (*r5 == *r3)
                           || (*r5 == *r2) || (*r5 == *r1));
   }
 }
 
 
+/// Returns a random index in the range 0 to n - 1 (inclusive)
+int DESolver::RandomIndex( int n )
+{
+  // RandomUniform can return its upper limit
+  int  index = (int)RandomUniform(0.0, (double)n);
+  return (index < n) ? index : n - 1;
+}
+
+
 /// Function added by PE: better random-number-generation function (uses
 /// Mersenne Twister and doesn't have a constant seed!)
 double DESolver::RandomUniform( double minValue, double maxValue )
diff --git a/solvers/DESolver.h b/solvers/DESolver.h
index 01538cc..29f7c73 100644
--- a/solvers/DESolver.h
+++ b/solvers/DESolver.h
@@ -91,6 +91,7 @@ protected:
   void SelectSamples( int candidate, int *r1, int *r2=0, int *r3=0, 
 												int *r4=0, int *r5=0 );
   double RandomUniform( double min, double max );
+  int RandomIndex( int n );
 
   int nDim;
   int nPop;
-- 
2.43.0


From 626ec527a80059d9d483375824bc7edf0b44d54b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:00 +0000
Subject: [PATCH 25/39] fix: NLopt algorithms that use random numbers honour
 the user-specified seed

---
 solvers/dispatch_solver.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/solvers/dispatch_solver.cpp b/solvers/dispatch_solver.cpp
index 04c9f30..25db03b 100644
--- a/solvers/dispatch_solver.cpp
+++ b/solvers/dispatch_solver.cpp
@@ -43,6 +43,7 @@
 #ifndef NO_NLOPT
 #include "nmsimplex_fit.h"
 #include "nlopt_fit.h"
+#include <nlopt.h>
 #endif
 
 int DispatchToSolver( int solverID, int nParametersTot, int nFreeParameters, int nPixelsTot,
@@ -77,6 +78,9 @@ int DispatchToSolver( int solverID, int nParametersTot, int nFreeParameters, int
     case GENERIC_NLOPT_SOLVER:
       if (verboseLevel >= 0)
         printf("\nCalling NLOpt solver %s ..\n", solverName.c_str());
+      // some NLopt algorithms (e.g., PRAXIS) use random numbers
+      if (rngSeed > 0)
+        nlopt_srand(rngSeed);
       fitStatus = NLOptFit(nParametersTot, parameters, parameterInfo, modelObj, fracTolerance, 
       						verboseLevel, solverName, solverResults);
       break;
-- 
2.43.0


From 0684b3a11d3a10962a85ec13389d08587a7e4883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:45 +0000
Subject: [PATCH 26/39] fix: stop bootstrap resampling when the user interrupts
 it, instead of storing the interrupted fit

---
 core/bootstrap_errors.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/core/bootstrap_errors.cpp b/core/bootstrap_errors.cpp
index 68e8a55..81c0eeb 100644
--- a/core/bootstrap_errors.cpp
+++ b/core/bootstrap_errors.cpp
@@ -221,6 +221,11 @@ int BootstrapErrorsBase( const double *bestfitParams, vector<mp_par> parameterLi
       						verboseLevel);
 #endif
     }
+#ifndef NO_SIGNALS
+    // user interrupted the fit: its result is not a bootstrap estimate, so stop here
+    if (stopSignal_flag == 1)
+      break;
+#endif
     // Store parameters in array (and optionally write them to file) if fit was successful
     // Note that paramsVect has subsection-relative values of X0,Y0, so we need to
     // correct them with paramOffsets
@@ -319,6 +324,11 @@ int BootstrapErrorsArrayOnly( const double *bestfitParams, vector<mp_par> parame
       						verboseLevel);
 #endif
     }
+#ifndef NO_SIGNALS
+    // user interrupted the fit: its result is not a bootstrap estimate, so stop here
+    if (stopSignal_flag == 1)
+      break;
+#endif
     // Store parameters in array if fit was successful.
     // Note that paramsVect has image-subsection-relative values of X0,Y0, 
     // so we need to correct them with paramOffsets
-- 
2.43.0


From 046f88a3102004cb6cad4770dd76740b752fc250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:45 +0000
Subject: [PATCH 27/39] fix: resume MCMC chains from the last line common to
 all of them

---
 cdream/restore_state.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdream/restore_state.cpp b/cdream/restore_state.cpp
index f56e0b7..aee3f63 100644
--- a/cdream/restore_state.cpp
+++ b/cdream/restore_state.cpp
@@ -46,7 +46,7 @@ int dream_restore_state( const dream_pars* p, Array3D<double>& state, Array2D<do
           ++line;
         }
         ifile.close();
-        if (prevLines > line) 
+        if (prevLines > line - 1) 
           prevLines = line - 1;
       }
     }
-- 
2.43.0


From 638ac6609f06f90dca612975802af5c410c011de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:06 +0000
Subject: [PATCH 28/39] fix: subtract image-subsection offsets from X0,Y0 when
 resuming MCMC chains

---
 cdream/restore_state.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/cdream/restore_state.cpp b/cdream/restore_state.cpp
index aee3f63..aa7b583 100644
--- a/cdream/restore_state.cpp
+++ b/cdream/restore_state.cpp
@@ -8,6 +8,7 @@ using namespace std;
 
 #include "dream.h"
 #include "array.h"
+#include "model_object.h"
 
 int dream_restore_state( const dream_pars* p, Array3D<double>& state, Array2D<double>& lik,
     					vector<double>& pCR, int& inBurnIn )
@@ -17,6 +18,11 @@ int dream_restore_state( const dream_pars* p, Array3D<double>& state, Array2D<do
     if (p->verboseLevel > 0)
       printf("Restoring previous state... ");
     prevLines = p->maxEvals;
+    // chain files hold X0,Y0 values with image-subsection offsets included (see
+    // ModelObject::PrintModelParamsHorizontalString); the state does not
+    vector<double> imageOffsets(p->nvar, 0.0);
+    ModelObject *theModel = (ModelObject *)p->extraData;
+    theModel->GetImageOffsets(imageOffsets.data());
     for (int i = 0; i < p->numChains; ++i) {
       if (p->verboseLevel > 0)
         printf("%d ", i);
@@ -38,8 +44,10 @@ int dream_restore_state( const dream_pars* p, Array3D<double>& state, Array2D<do
           if (input[0] == '#') 
             continue;
           istringstream istr(input);
-          for (int j = 0; j < p->nvar; ++j) 
+          for (int j = 0; j < p->nvar; ++j) {
             istr >> state(line,i,j); 
+            state(line,i,j) -= imageOffsets[j];
+          }
           istr >> lik(line,i) >> inBurnIn;
           for (int j(0); j < p->nCR; ++j) 
             istr >> pCR[j];
-- 
2.43.0


From e78dbeb65cdefa8933f448a9275bb6320309f885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:13 +0000
Subject: [PATCH 29/39] fix: report MCMC chain files which cannot be opened,
 and make imfit-mcmc fail when the chains cannot be run

---
 cdream/dream.cpp   | 8 ++++++++
 core/mcmc_main.cpp | 6 +++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/cdream/dream.cpp b/cdream/dream.cpp
index 0dc7cc1..11a44c2 100644
--- a/cdream/dream.cpp
+++ b/cdream/dream.cpp
@@ -97,6 +97,7 @@ int dream( const dream_pars* p, rng::RngStream* rng )
   int prevLines = dream_restore_state(p, state, lik, pCR, inBurnIn);
   if (prevLines < 0) {
     fprintf(stderr, "DREAM: previous MCMC output files not found!\n");
+    free(tempParams);
     return DREAM_EXIT_NO_OUTPUT_FILES;
   }
   // =========================================================================
@@ -113,6 +114,13 @@ int dream( const dream_pars* p, rng::RngStream* rng )
       chainFilename.str("");
       chainFilename << p->outputRootname << "." << i + 1 << ".txt";
       oout[i] = new ofstream(chainFilename.str().c_str(), fmode);
+      if (! *oout[i]) {
+        fprintf(stderr, "DREAM: unable to open MCMC output file \"%s\"!\n", chainFilename.str().c_str());
+        for (int n = 0; n <= i; n++)
+          delete oout[n];
+        free(tempParams);
+        return DREAM_EXIT_ERROR;
+      }
       oout[i]->setf(ios::scientific, ios::floatfield);
       oout[i]->precision(12);
       for (int n = 0; n < p->outputHeaderLines.size(); n++)
diff --git a/core/mcmc_main.cpp b/core/mcmc_main.cpp
index bc9aa02..3afd2dd 100644
--- a/core/mcmc_main.cpp
+++ b/core/mcmc_main.cpp
@@ -443,7 +443,11 @@ int main(int argc, char *argv[])
 
   // OK, now we execute the MCMC process
   printf("\nStart of MCMC processing...\n");
-  dream(&dreamPars, &rng);
+  int  dreamStatus = dream(&dreamPars, &rng);
+  if (dreamStatus < 0) {
+    fprintf(stderr, "\n*** ERROR: MCMC processing failed (no usable MCMC output files)!\n\n");
+    exit(-1);
+  }
   printf("\nMCMC chains written to output files %s.1.txt through %s.%d.txt", 
   		options->outputFileRoot.c_str(), options->outputFileRoot.c_str(), options->nChains);
 
-- 
2.43.0


From 024380cf1b3f49c6029c0f43a43ce42c6510d81d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:13 +0000
Subject: [PATCH 30/39] fix: do not delete standard output when MCMC chains are
 written to it

---
 cdream/dream.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdream/dream.cpp b/cdream/dream.cpp
index 11a44c2..d160422 100644
--- a/cdream/dream.cpp
+++ b/cdream/dream.cpp
@@ -483,7 +483,7 @@ int dream( const dream_pars* p, rng::RngStream* rng )
 
   for (int i(0); i < p->numChains; ++i) {
     // close output files
-    if (oout[i] != nullptr) 
+    if (oout[i] != &cout) 
       delete oout[i];
   }
 
-- 
2.43.0


From 725c2325e3284fe163b9e6ab7019071908c03c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:16 +0000
Subject: [PATCH 31/39] fix: use at least three MCMC chains when there is only
 one free parameter

---
 core/mcmc_main.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/mcmc_main.cpp b/core/mcmc_main.cpp
index 3afd2dd..0e5384b 100644
--- a/core/mcmc_main.cpp
+++ b/core/mcmc_main.cpp
@@ -395,6 +395,11 @@ int main(int argc, char *argv[])
     printf("Setting nChains = %d (nFreeParams)\n", nFreeParams);
     options->nChains = nFreeParams;
   }
+  // proposals are made from differences between other chains
+  if (options->nChains < 2) {
+    printf("Setting nChains = 3 (a single chain cannot be evolved)\n");
+    options->nChains = 3;
+  }
 
   dream_pars dreamPars;
   SetupDreamParams(&dreamPars, nParamsTot, paramsVect, paramNames, lockFlags, lowVals,
-- 
2.43.0


From bd96f4abe0f7b96fb0fca01ebcf9864b2114f6c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:26:42 +0000
Subject: [PATCH 32/39] fix: CheckHDUForImage looks at uninitialised values
 when the HDU cannot be read

---
 core/image_io.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/image_io.cpp b/core/image_io.cpp
index 711f71d..b4295d5 100644
--- a/core/image_io.cpp
+++ b/core/image_io.cpp
@@ -119,7 +119,8 @@ static void PrintError( int status );
 bool CheckHDUForImage( fitsfile *imageFile_ptr, int hduNum, int *status_ptr )
 {
   bool validImageFlag = false;
-  int  hduType, naxis;
+  int  hduType = ANY_HDU;   // CFITSIO leaves these alone if something goes wrong
+  int  naxis = 0;
 
   fits_movabs_hdu(imageFile_ptr, hduNum, &hduType, status_ptr);
   if (hduType == IMAGE_HDU) {   /* primary array or image HDU */
-- 
2.43.0


From 4d45b0b7a286ec4bbf37bcc832b35cd5afc229ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:56 +0000
Subject: [PATCH 33/39] fix: malformed oversampling regions were read past the
 end of their parts

---
 core/utilities.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/core/utilities.cpp b/core/utilities.cpp
index c651be6..1278f1f 100644
--- a/core/utilities.cpp
+++ b/core/utilities.cpp
@@ -313,6 +313,11 @@ std::tuple<int, int, int, int> GetAllCoordsFromBracket( const string& bracketStr
   copyBracketString = bracketString.substr(startIndex, (endIndex - startIndex + 1) );
 
   SplitString(copyBracketString, sectionPieces, ",");
+  if (sectionPieces.size() != 2) {
+    fprintf(stderr, "\nWARNING: Incorrect image section format!\n");
+    fprintf(stderr, "\t\"%s\"\n", copyBracketString.c_str());
+    return std::make_tuple(0,0,0,0);
+  }
   // handle the x part of the section specification
   if (sectionPieces[0] == star)
     x1 = 1;
@@ -321,7 +326,7 @@ std::tuple<int, int, int, int> GetAllCoordsFromBracket( const string& bracketStr
     if (subsectionPieces_x.size() != 2) {
       fprintf(stderr, "\nWARNING1: Incorrect image section format!\n");
       fprintf(stderr, "\t\"%s\"\n", copyBracketString.c_str());
-      std::make_tuple(0,0,0,0);
+      return std::make_tuple(0,0,0,0);
     }
     x1 = atoi(subsectionPieces_x[0].c_str());
     x2 = atoi(subsectionPieces_x[1].c_str());
-- 
2.43.0


From 3e2c6cda8254719d02905580075823f1f12ed685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:56 +0000
Subject: [PATCH 34/39] fix: GetPsfImage ignored a failure to read the size of
 the image

---
 core/getimages.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/getimages.cpp b/core/getimages.cpp
index c5b7e71..4e962ce 100644
--- a/core/getimages.cpp
+++ b/core/getimages.cpp
@@ -124,6 +124,11 @@ std::tuple<double *, int, int, int> GetPsfImage( const string &psfFileName )
     return std::make_tuple(psfPixels, 0,0, -1);
 
   std::tie(nColumns_psf, nRows_psf, status) = GetImageSize(psfFileName);
+  if (status < 0) {
+    fftw_free(psfPixels);
+    psfPixels = nullptr;
+    return std::make_tuple(psfPixels, 0,0, -1);
+  }
   long nPixels_psf = (long)nColumns_psf * (long)nRows_psf;
   printf("naxis1 [# pixels/row] = %d, naxis2 [# pixels/col] = %d; nPixels_tot = %ld\n", 
          nColumns_psf, nRows_psf, nPixels_psf);
-- 
2.43.0


From 4f3805c9353213630bbb82a90cb11c95541e5068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:10 +0000
Subject: [PATCH 35/39] fix: an X0 line at the end of a configuration file was
 read past the last line

---
 core/config_file_parser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/config_file_parser.cpp b/core/config_file_parser.cpp
index 20b07a2..b601864 100644
--- a/core/config_file_parser.cpp
+++ b/core/config_file_parser.cpp
@@ -415,10 +415,10 @@ int ParseFunctionSection( vector<string>& inputLines, const bool mode2D,
       i++;
       if (mode2D) {
         // X0 line should always be followed by Y0 line in 2D mode
-        if (inputLines[i].find("Y0", 0) == string::npos) {
+        if ( (i >= (int)inputLines.size()) || (inputLines[i].find("Y0", 0) == string::npos) ) {
           fprintf(stderr, "*** WARNING: A 'Y0' line must follow each 'X0' line in the configuration file!\n");
           fprintf(stderr, "   (X0 specification on input line %d should be followed by Y0 specification on next line)\n",
-          				origLineNumbers[i] - 1);
+          				origLineNumbers[i - 1]);
           return -1;
         }
         pLimitFound = AddParameterAndLimit(inputLines[i], parameterList, parameterLimits,
-- 
2.43.0


From f95730c5e4f5b5fd789cd32b9388c169203684ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:10 +0000
Subject: [PATCH 36/39] fix: optional parameters before the first FUNCTION line
 were stored outside the list of functions

---
 core/config_file_parser.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/config_file_parser.cpp b/core/config_file_parser.cpp
index b601864..937aa3d 100644
--- a/core/config_file_parser.cpp
+++ b/core/config_file_parser.cpp
@@ -461,6 +461,11 @@ int ParseFunctionSection( vector<string>& inputLines, const bool mode2D,
       continue;
     }
     if (inOptionalParams) {
+      if (functionNumber < 1) {
+        fprintf(stderr, "*** WARNING: Optional parameters must follow a FUNCTION line in the configuration file!\n");
+        fprintf(stderr, "    (Error on input line %d of configuration file)\n", origLineNumbers[i]);
+        return -1;
+      }
       AddOptionalParameter(inputLines[i], optionalParamsVect[functionNumber - 1]);
       i++;
     } else {
-- 
2.43.0


From 9cd5af9572ae3a5433af320d9e463e39a72cc30e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:10 +0000
Subject: [PATCH 37/39] fix: a FUNCTION line without a function name was read
 past its end

---
 core/config_file_parser.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/core/config_file_parser.cpp b/core/config_file_parser.cpp
index 937aa3d..1f87e20 100644
--- a/core/config_file_parser.cpp
+++ b/core/config_file_parser.cpp
@@ -321,6 +321,16 @@ int VetConfigFile( vector<string>& inputLines, const vector<int>& origLineNumber
           break;
         }
       }
+      else {
+        // FUNCTION lines must include a function name (note that ValidParameterLine
+        // removes comments -- including labels -- from the line it is given)
+        string  functionLine = inputLines[i];
+        if (! ValidParameterLine(functionLine, true)) {
+          allOK = false;
+          *badLineNumber = origLineNumbers[i];
+          break;
+        }
+      }
     }
   }
   
-- 
2.43.0


From b45a2764bf58ee21b4e39fbf82c560809731ed24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:42:02 +0000
Subject: [PATCH 38/39] fix: keywords of a configuration file were recognised
 anywhere in a line, also in comments and labels

---
 core/config_file_parser.cpp | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/core/config_file_parser.cpp b/core/config_file_parser.cpp
index 1f87e20..7f720ca 100644
--- a/core/config_file_parser.cpp
+++ b/core/config_file_parser.cpp
@@ -267,12 +267,12 @@ int VetConfigFile( vector<string>& inputLines, const vector<int>& origLineNumber
   // OK, locate the start of the function set (first line beginning with "X0")
   i = 0;
   while (i < nInputLines) {
-    if (inputLines[i].find("X0", 0) != string::npos) {
+    if (inputLines[i].find("X0", 0) == 0) {
       functionSectionStart = i;
       functionSectionFound = true;
       if (mode2D) {
         // for 2D (makeimage or imfit) mode, the next line must start with "Y0"
-        if ( ((i + 1) == nInputLines) || (inputLines[i + 1].find("Y0", 0) == string::npos) ) {
+        if ( ((i + 1) == nInputLines) || (inputLines[i + 1].find("Y0", 0) != 0) ) {
           yValueOK = false;
           *badLineNumber = origLineNumbers[i];
         }
@@ -285,7 +285,7 @@ int VetConfigFile( vector<string>& inputLines, const vector<int>& origLineNumber
   // Check to make sure we have at least one FUNCTION line
   if ((functionSectionFound) && (yValueOK)) {
     for (i = functionSectionStart; i < nInputLines; i++) {
-      if (inputLines[i].find("FUNCTION", 0) != string::npos) {
+      if (inputLines[i].find("FUNCTION", 0) == 0) {
         functionsExist = true;
         break;
       }
@@ -302,13 +302,13 @@ int VetConfigFile( vector<string>& inputLines, const vector<int>& origLineNumber
       LOG_F(2, "VetConfigFile: checking line %d (orig = %d): %s", i, 
       		origLineNumbers[i], inputLines[i].c_str());
 #endif
-      if (inputLines[i].find("FUNCTION", 0) == string::npos) {
+      if (inputLines[i].find("FUNCTION", 0) != 0) {
         // test for valid line
-        if (inputLines[i].find(OPTIONAL_PARAMS_START, 0) != string::npos) {
+        if (inputLines[i].find(OPTIONAL_PARAMS_START, 0) == 0) {
           inOptionalParams = true;
           continue;
         }
-        if (inputLines[i].find(OPTIONAL_PARAMS_END, 0) != string::npos) {
+        if (inputLines[i].find(OPTIONAL_PARAMS_END, 0) == 0) {
           inOptionalParams = false;
           continue;
         }
@@ -410,7 +410,7 @@ int ParseFunctionSection( vector<string>& inputLines, const bool mode2D,
   int  paramNumber = 0;
   parameterLimitsFound = false;
   while (i < (int)inputLines.size()) {
-    if (inputLines[i].find("X0", 0) != string::npos) {
+    if (inputLines[i].find("X0", 0) == 0) {
       //printf("X0 detected (i = %d)\n", i);
       fsetStartIndices.push_back(functionNumber);
       pLimitFound = AddParameterAndLimit(inputLines[i], parameterList, parameterLimits,
@@ -425,7 +425,7 @@ int ParseFunctionSection( vector<string>& inputLines, const bool mode2D,
       i++;
       if (mode2D) {
         // X0 line should always be followed by Y0 line in 2D mode
-        if ( (i >= (int)inputLines.size()) || (inputLines[i].find("Y0", 0) == string::npos) ) {
+        if ( (i >= (int)inputLines.size()) || (inputLines[i].find("Y0", 0) != 0) ) {
           fprintf(stderr, "*** WARNING: A 'Y0' line must follow each 'X0' line in the configuration file!\n");
           fprintf(stderr, "   (X0 specification on input line %d should be followed by Y0 specification on next line)\n",
           				origLineNumbers[i - 1]);
@@ -445,7 +445,7 @@ int ParseFunctionSection( vector<string>& inputLines, const bool mode2D,
       continue;
     }
     
-    if (inputLines[i].find("FUNCTION", 0) != string::npos) {
+    if (inputLines[i].find("FUNCTION", 0) == 0) {
       //printf("Function detected (i = %d)\n", i);
       AddFunctionNameAndLabel(inputLines[i], functionNameList, functionLabels);
       // add empty optional-params map
@@ -458,12 +458,12 @@ int ParseFunctionSection( vector<string>& inputLines, const bool mode2D,
 
     // OK, we only reach here if we're inside an individual function specification,
     // so it's a regular (non-positional) parameter line *or* optional-parameter specification
-    if (inputLines[i].find(OPTIONAL_PARAMS_START, 0) != string::npos) {
+    if (inputLines[i].find(OPTIONAL_PARAMS_START, 0) == 0) {
       inOptionalParams = true;
       i++;
       continue;
     }
-    if (inputLines[i].find(OPTIONAL_PARAMS_END, 0) != string::npos) {
+    if (inputLines[i].find(OPTIONAL_PARAMS_END, 0) == 0) {
       // Note that optionalParamsMap will be empty if no optional-parameter section
       // was found; this is fine.
       inOptionalParams = false;
-- 
2.43.0


From af056ba8e465d6389ce7c29ae5ddac6267051e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:18:31 +0000
Subject: [PATCH 39/39] fix: give bad lines of an image-info file their line
 numbers in the file

The numbers kept for the lines were an uninitialised variable, and the lines of
an image's functions were numbered by their position among the non-blank lines.
---
 core/imageparams_file_parser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/imageparams_file_parser.cpp b/core/imageparams_file_parser.cpp
index b180a3b..9e03b00 100644
--- a/core/imageparams_file_parser.cpp
+++ b/core/imageparams_file_parser.cpp
@@ -583,7 +583,7 @@ int ReadImageParamsFile( const string& configFileName, int& nImages,
     // store non-empty, non-comment lines in a vector of strings
     if ((inputLine.size() > 0) && (inputLine[0] != '#')) {
       inputLines.push_back(inputLine);
-      origLineNumbers.push_back(k);
+      origLineNumbers.push_back(currentLine);
     }
   }
   inputFileStream.close();
@@ -630,7 +630,7 @@ int ReadImageParamsFile( const string& configFileName, int& nImages,
       imageFunctionsLines.clear();
       for (i = imageFunctionsStartIndex + 1; i < currentEndIndex; i++) {
         imageFunctionsLines.push_back(inputLines[i]);
-        functionSectionLineNumbers.push_back(i);
+        functionSectionLineNumbers.push_back(origLineNumbers[i]);
       }
       bool  paramLimitsExist = false;
       int status = ParseFunctionSection(imageFunctionsLines, true, funcNameList,
-- 
2.43.0

