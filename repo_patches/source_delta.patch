From 0b810c551ab9158b1eda44b536eb718f726cb428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:22:25 +0000
Subject: [PATCH 01/24] fix: c_gauss_2d: do not release the NULL dtype on
 wrong-type input; release everything when write-back fails

---
 tractor/mix.i | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/tractor/mix.i b/tractor/mix.i
index 35698d8..3a0e979 100644
--- a/tractor/mix.i
+++ b/tractor/mix.i
@@ -347,23 +347,18 @@ static int c_gauss_2d(PyObject* ob_pos, PyObject* ob_amp,
     if (!(np_pos && np_amp && np_mean && np_var && np_result)) {
         if (!np_pos) {
             ERR("pos wasn't the type expected");
-            Py_DECREF(dtype);
         }
         if (!np_amp) {
             ERR("amp wasn't the type expected");
-            Py_DECREF(dtype);
         }
         if (!np_mean) {
             ERR("mean wasn't the type expected");
-            Py_DECREF(dtype);
         }
         if (!np_var) {
             ERR("var wasn't the type expected");
-            Py_DECREF(dtype);
         }
         if (!np_result) {
             ERR("result wasn't the type expected");
-            Py_DECREF(dtype);
         }
         goto bailout;
     }
@@ -432,7 +427,7 @@ static int c_gauss_2d(PyObject* ob_pos, PyObject* ob_amp,
 
     if (PyArray_ResolveWritebackIfCopy(np_result) == -1) {
         PyErr_SetString(PyExc_ValueError, "Failed to write-back result array values!");
-        return -1;
+        rtn = -1;
     }
 
 bailout:
-- 
2.43.0


From eb80a4d7549e46fee2da48219a944bf04d2ec255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:22:25 +0000
Subject: [PATCH 02/24] fix: get_np: PyArray_FromAny takes its dtype reference
 even when it fails; do not release it again

---
 tractor/mix.i | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/tractor/mix.i b/tractor/mix.i
index 3a0e979..29ed866 100644
--- a/tractor/mix.i
+++ b/tractor/mix.i
@@ -222,31 +222,24 @@ static int get_np(PyObject* ob_amp,
         (ob_mask && (ob_mask != Py_None) && !*np_mask)) {
         if (!*np_amp) {
             ERR("amp wasn't the type expected");
-            Py_DECREF(dtype);
         }
         if (!*np_mean) {
             ERR("mean wasn't the type expected");
-            Py_DECREF(dtype);
         }
         if (!*np_var) {
             ERR("var wasn't the type expected");
-            Py_DECREF(dtype);
         }
         if (!*np_result) {
             ERR("result wasn't the type expected");
-            Py_DECREF(dtype);
         }
         if ((ob_xderiv != Py_None) && !*np_xderiv) {
             ERR("xderiv wasn't the type expected");
-            Py_DECREF(dtype);
         }
         if ((ob_yderiv != Py_None) && !*np_yderiv) {
             ERR("yderiv wasn't the type expected");
-            Py_DECREF(dtype);
         }
         if (ob_mask && (ob_mask != Py_None) && !*np_mask) {
             ERR("mask wasn't the type expected");
-            Py_DECREF(btype);
         }
         return 1;
     }
-- 
2.43.0


From d5b1e2d10a19e724c4f675f4171d0d9f3f29f42b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:22:25 +0000
Subject: [PATCH 03/24] fix: c_gauss_2d_masked: write back results when no
 component is evaluated; accept mask=None

---
 tractor/gauss_masked.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tractor/gauss_masked.c b/tractor/gauss_masked.c
index 0557527..2476800 100644
--- a/tractor/gauss_masked.c
+++ b/tractor/gauss_masked.c
@@ -104,14 +104,14 @@ static int c_gauss_2d_masked(int x0, int y0, int W, int H,
         }
 
         if (allzero)
-            goto bailout;
+            goto done;
 
         int dx, dy;
         for (dy=0; dy<H; dy++) {
             int y = y0 + dy;
             int i0 = dy * W;
             for (dx=0; dx<W; dx++) {
-                if (!mask[i0 + dx])
+                if (mask && !mask[i0 + dx])
                     continue;
                 int x = x0 + dx;
                 if (xderiv)
@@ -142,6 +142,7 @@ static int c_gauss_2d_masked(int x0, int y0, int W, int H,
         }
     }
 
+ done:
     if (finish_np(np_result, np_xderiv, np_yderiv))
         rtn = -1;
 
-- 
2.43.0


From 95d5ec945b4fcdebd634b22100073bc2fd5ade6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:22:25 +0000
Subject: [PATCH 04/24] fix: emfit: release arrays and dtype when dimensions do
 not match

---
 tractor/emfit.i  | 20 ++++++++++++++++++++
 tractor/emfit2.c | 10 ++++++++++
 2 files changed, 30 insertions(+)

diff --git a/tractor/emfit.i b/tractor/emfit.i
index 43223c6..c68e9c4 100644
--- a/tractor/emfit.i
+++ b/tractor/emfit.i
@@ -95,10 +95,20 @@ static int em_fit_1d_samples_reg(PyObject* po_x,
     // printf("K=%i\n", K);
     if (PyArray_DIM(np_mean, 0) != K) {
         ERR("np_mean must have len K");
+        Py_DECREF(np_x);
+        Py_DECREF(np_amp);
+        Py_DECREF(np_mean);
+        Py_DECREF(np_var);
+        Py_DECREF(dtype);
         return -1;
     }
     if (PyArray_DIM(np_var, 0) != K) {
         ERR("np_var must have len K");
+        Py_DECREF(np_x);
+        Py_DECREF(np_amp);
+        Py_DECREF(np_mean);
+        Py_DECREF(np_var);
+        Py_DECREF(dtype);
         return -1;
     }
     N = PyArray_DIM(np_x, 0);
@@ -340,12 +350,22 @@ static int em_fit_2d_reg(PyObject* po_img, int x0, int y0,
     if ((PyArray_DIM(np_mean, 0) != K) ||
         (PyArray_DIM(np_mean, 1) != D)) {
         ERR("np_mean must be K x D");
+        Py_DECREF(np_img);
+        Py_DECREF(np_amp);
+        Py_DECREF(np_mean);
+        Py_DECREF(np_var);
+        Py_DECREF(dtype);
         return -1;
     }
     if ((PyArray_DIM(np_var, 0) != K) ||
         (PyArray_DIM(np_var, 1) != D) ||
         (PyArray_DIM(np_var, 2) != D)) {
         ERR("np_var must be K x D x D");
+        Py_DECREF(np_img);
+        Py_DECREF(np_amp);
+        Py_DECREF(np_mean);
+        Py_DECREF(np_var);
+        Py_DECREF(dtype);
         return -1;
     }
     NY = PyArray_DIM(np_img, 0);
diff --git a/tractor/emfit2.c b/tractor/emfit2.c
index 6f69e5a..21487b1 100644
--- a/tractor/emfit2.c
+++ b/tractor/emfit2.c
@@ -72,12 +72,22 @@ static int em_fit_2d_reg2(PyObject* po_img, int x0, int y0,
     if ((PyArray_DIM(np_mean, 0) != K) ||
         (PyArray_DIM(np_mean, 1) != D)) {
         ERR("np_mean must be K x D");
+        Py_DECREF(np_img);
+        Py_DECREF(np_amp);
+        Py_DECREF(np_mean);
+        Py_DECREF(np_var);
+        Py_DECREF(dtype);
         return -1;
     }
     if ((PyArray_DIM(np_var, 0) != K) ||
         (PyArray_DIM(np_var, 1) != D) ||
         (PyArray_DIM(np_var, 2) != D)) {
         ERR("np_var must be K x D x D");
+        Py_DECREF(np_img);
+        Py_DECREF(np_amp);
+        Py_DECREF(np_mean);
+        Py_DECREF(np_var);
+        Py_DECREF(dtype);
         return -1;
     }
     NY = PyArray_DIM(np_img, 0);
-- 
2.43.0


From 5518a509144749f7d4d1c022a0832e8d72da4b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:28:03 +0000
Subject: [PATCH 05/24] fix: Patch: division works in Python 3

---
 tractor/patch.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/tractor/patch.py b/tractor/patch.py
index 4e5e120..58cfe19 100644
--- a/tractor/patch.py
+++ b/tractor/patch.py
@@ -387,22 +387,26 @@ class Patch(object):
             self.patch *= f
         return self
 
-    def __idiv__(self, f):
+    def __itruediv__(self, f):
         if self.patch is not None:
             self.patch /= f
         return self
 
+    __idiv__ = __itruediv__
+
     # Implement *, / for numeric types
     def __mul__(self, f):
         if self.patch is None:
             return Patch(self.x0, self.y0, None)
         return Patch(self.x0, self.y0, self.patch * f)
 
-    def __div__(self, f):
+    def __truediv__(self, f):
         if self.patch is None:
             return Patch(self.x0, self.y0, None)
         return Patch(self.x0, self.y0, self.patch / f)
 
+    __div__ = __truediv__
+
     def performArithmetic(self, other, opname, otype=float):
         assert(isinstance(other, Patch))
         if (self.x0 == other.getX0() and self.y0 == other.getY0() and
-- 
2.43.0


From 17af9d0354917748e56ba5d300794835c78f7b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:28:03 +0000
Subject: [PATCH 06/24] fix: Optimizer._getims: take the region of interest of
 the image, not of the inverse error

---
 tractor/optimize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tractor/optimize.py b/tractor/optimize.py
index ab58a65..03abf02 100644
--- a/tractor/optimize.py
+++ b/tractor/optimize.py
@@ -502,7 +502,7 @@ class Optimizer(object):
             im = img.getImage()
             if roi is not None:
                 ie = ie[roi]
-                im = ie[roi]
+                im = im[roi]
             chi = (im - mod) * ie
 
             # DEBUG
-- 
2.43.0


From 0bf50bf94b8175fe2a629e33e1b51c086619a782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:28:03 +0000
Subject: [PATCH 07/24] fix: PixelizedPSF: a radius crop keeps the last row and
 column

---
 tractor/psf.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tractor/psf.py b/tractor/psf.py
index 033a2da..c3d7431 100644
--- a/tractor/psf.py
+++ b/tractor/psf.py
@@ -151,8 +151,8 @@ class PixelizedPSF(BaseParams, ducks.ImageCalibration):
             H,W = img.shape
             cx = W//2
             cy = H//2
-            img = img[max(cy-R, 0) : min(cy+R+1,H-1),
-                      max(cx-R, 0) : min(cx+R+1,W-1)]
+            img = img[max(cy-R, 0) : min(cy+R+1,H),
+                      max(cx-R, 0) : min(cx+R+1,W)]
             
         H, W = img.shape
         # float() required because builtin round(np.float64(11.0)) returns 11.0 !!
@@ -337,8 +337,8 @@ class PixelizedPSF(BaseParams, ducks.ImageCalibration):
             cy = H//2
             xlo = max(cx-R, 0)
             ylo = max(cy-R, 0)
-            img = img[ylo : min(cy+R+1,H-1),
-                      xlo : min(cx+R+1,W-1)]
+            img = img[ylo : min(cy+R+1,H),
+                      xlo : min(cx+R+1,W)]
             x0 += xlo
             y0 += ylo
 
-- 
2.43.0


From 2a5d673967f2d8322dd205e35540db44034d3c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:28:03 +0000
Subject: [PATCH 08/24] fix: Tractor: keep model_kwargs when pickled; an
 unpickled Tractor could not render

---
 tractor/engine.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/tractor/engine.py b/tractor/engine.py
index 5083070..5ba878b 100644
--- a/tractor/engine.py
+++ b/tractor/engine.py
@@ -158,13 +158,14 @@ class Tractor(MultiParams):
 
     # For pickling
     def __getstate__(self):
-        version = 1
+        version = 2
         S = (version, self.getImages(), self.getCatalog(), self.liquid,
              self.modtype, self.modelMasks, self.expectModelMasks,
-             self.optimizer)
+             self.optimizer, self.model_kwargs)
         return S
 
     def __setstate__(self, state):
+        self.model_kwargs = {}
         if len(state) == 6:
             # "backwards compat"
             (images, catalog, self.liquid, self.modtype, self.modelMasks,
@@ -174,6 +175,9 @@ class Tractor(MultiParams):
         elif len(state) == 8:
             (ver, images, catalog, self.liquid, self.modtype, self.modelMasks,
              self.expectModelMasks, self.optimizer) = state
+        elif len(state) == 9:
+            (ver, images, catalog, self.liquid, self.modtype, self.modelMasks,
+             self.expectModelMasks, self.optimizer, self.model_kwargs) = state
         self.subs = [images, catalog]
 
     def getNImages(self):
-- 
2.43.0


From 5638a36930ab40727e1883811b77896dd7f643c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:28:03 +0000
Subject: [PATCH 09/24] fix: ScaledWcs.cdAtPixel: scale y like x

---
 tractor/shifted.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tractor/shifted.py b/tractor/shifted.py
index 8613ba4..f1640a7 100644
--- a/tractor/shifted.py
+++ b/tractor/shifted.py
@@ -141,7 +141,7 @@ class ScaledWcs(ParamsWrapper, ducks.ImageCalibration):
         return ('ScaledWcs', self.factor) + tuple(self.wcs.hashkey())
 
     def cdAtPixel(self, x, y):
-        x, y = (x + 0.5) / self.factor - 0.5, (y + 0.5) * self.factor - 0.5
+        x, y = (x + 0.5) / self.factor - 0.5, (y + 0.5) / self.factor - 0.5
         cd = self.wcs.cdAtPixel(x, y)
         return cd / self.factor
 
-- 
2.43.0


From 1af436a1e904a90b3eebc1d5e8c6d15fc38b8cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:29:33 +0000
Subject: [PATCH 10/24] fix: forced photometry: restore the images when no
 update direction is found; step the sky by the accepted alpha

---
 tractor/lsqr_optimizer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tractor/lsqr_optimizer.py b/tractor/lsqr_optimizer.py
index ad89c3d..c9a8a07 100644
--- a/tractor/lsqr_optimizer.py
+++ b/tractor/lsqr_optimizer.py
@@ -110,6 +110,8 @@ class LsqrOptimizer(Optimizer):
                                         priors=priors,
                                         scale_columns=False, chiImages=chis0,
                                         shared_params=shared_params)
+            if rois is not None:
+                tractor.images = realims
             if X is None or len(X) == 0:
                 print('Error getting update direction')
                 break
@@ -117,8 +119,6 @@ class LsqrOptimizer(Optimizer):
             #topt = Time() - t0
             #logverb('forced phot: opt:', topt)
             #print('forced phot: update', X)
-            if rois is not None:
-                tractor.images = realims
 
             # tryUpdates():
             if alphas is None:
@@ -187,7 +187,7 @@ class LsqrOptimizer(Optimizer):
                 tractor.catalog.setParams(pa)
 
                 if sky:
-                    tractor.images.setParams([p + alpha * d for p, d
+                    tractor.images.setParams([p + alphaBest * d for p, d
                                               in zip(p0sky, Xsky)])
 
                 dlogprob = lnpBest - lnp0
-- 
2.43.0


From 788279452269087bfd511ee565d76b8f2c2eacae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:29:33 +0000
Subject: [PATCH 11/24] fix: NamedParams.setStepSizes: the values are those of
 the thawed parameters

---
 tractor/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tractor/utils.py b/tractor/utils.py
index 2a30fa3..07802bb 100644
--- a/tractor/utils.py
+++ b/tractor/utils.py
@@ -453,7 +453,7 @@ class NamedParams(object):
                     newss.append(1.)
             self.stepsizes = newss
         else:
-            for i, s in self._enumerateLiquidArray(ss):
+            for i, s in zip(self.getThawedParamIndices(), ss):
                 self.stepsizes[i] = s
 
     def setAllStepSizes(self, ss):
-- 
2.43.0


From 3d20bdc32fdc28a9c69ac0a2921606d1b6253388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:29:33 +0000
Subject: [PATCH 12/24] fix: NullWCS: copies keep the pixel scale and offset,
 sub-images are shifted, hashkey includes the scale

---
 tractor/wcs.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/tractor/wcs.py b/tractor/wcs.py
index 36ca902..b0c3682 100644
--- a/tractor/wcs.py
+++ b/tractor/wcs.py
@@ -20,7 +20,10 @@ class NullWCS(BaseParams, ducks.WCS):
         self.setPixscale(pixscale)
 
     def hashkey(self):
-        return ('NullWCS', self.dx, self.dy)
+        return ('NullWCS', self.pixscale, self.dx, self.dy)
+
+    def copy(self):
+        return NullWCS(pixscale=self.pixscale, dx=self.dx, dy=self.dy)
 
     def setPixscale(self, pixscale):
         self.pixscale = pixscale
@@ -46,7 +49,7 @@ class NullWCS(BaseParams, ducks.WCS):
         return self.pixscale
 
     def shifted(self, x, y):
-        return self.copy()
+        return NullWCS(pixscale=self.pixscale, dx=self.dx - x, dy=self.dy - y)
 
 
 class WcslibWcs(BaseParams, ducks.ImageCalibration):
-- 
2.43.0


From b6c2a90a315234e22d24f7152a74b4282233b43f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:29:33 +0000
Subject: [PATCH 13/24] fix: PixelizedPSF: copy and hashkey keep the sampling
 and interpolation order

---
 tractor/psf.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tractor/psf.py b/tractor/psf.py
index c3d7431..c346b60 100644
--- a/tractor/psf.py
+++ b/tractor/psf.py
@@ -115,10 +115,12 @@ class PixelizedPSF(BaseParams, ducks.ImageCalibration):
         return (self.H, self.W)
 
     def hashkey(self):
-        return ('PixelizedPSF', tuple(self.img.ravel()))
+        return ('PixelizedPSF', self.sampling, self.Lorder,
+                tuple(self.img.ravel()))
 
     def copy(self):
-        return self.__class__(self.img.copy())
+        return self.__class__(self.img.copy(), sampling=self.sampling,
+                              Lorder=self.Lorder)
 
     def getShifted(self, x0, y0):
         # not spatially varying
-- 
2.43.0


From 7b308491308666198148a80542e9e06a5d06779a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:29:33 +0000
Subject: [PATCH 14/24] fix: PixelizedPsfEx: hashkey distinguishes copied and
 shifted models

---
 tractor/psfex.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tractor/psfex.py b/tractor/psfex.py
index 6d58f1e..ee5fefa 100644
--- a/tractor/psfex.py
+++ b/tractor/psfex.py
@@ -443,7 +443,8 @@ class PixelizedPsfEx(PixelizedPSF):
         return 'PixelizedPsfEx'
 
     def hashkey(self):
-        return ('PixelizedPsfEx', self.fn, self.ext)
+        return ('PixelizedPsfEx', self.fn, self.ext,
+                id(self.psfex.psfbases), self.psfex.x0, self.psfex.y0)
 
     def copy(self):
         psfex = self.psfex.copy()
-- 
2.43.0


From 89822caa4ee43b2eab8f8cc2ac8718d452937c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:29:33 +0000
Subject: [PATCH 15/24] fix: ShiftedPsf: pass on the shifted model mask

---
 tractor/shifted.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/tractor/shifted.py b/tractor/shifted.py
index f1640a7..a977baa 100644
--- a/tractor/shifted.py
+++ b/tractor/shifted.py
@@ -84,9 +84,12 @@ class ShiftedPsf(ParamsWrapper, ducks.ImageCalibration):
                       ey0 + self.y0, ey1 + self.y0)
         mm = None
         if modelMask is not None:
-            from .patch import Patch
-            mm = Patch(modelMask.x0 + self.x0, modelMask.y0 +
-                       self.y0, modelMask.patch)
+            from .patch import ModelMask
+            mx0, my0 = modelMask.x0 + self.x0, modelMask.y0 + self.y0
+            if modelMask.mask is None:
+                mm = ModelMask(mx0, my0, modelMask.w, modelMask.h)
+            else:
+                mm = ModelMask(mx0, my0, modelMask.mask)
 
         p = self.psf.getPointSourcePatch(self.x0 + px, self.y0 + py,
                                          extent=extent, derivs=derivs,
-- 
2.43.0


From 19750ecaaaae34a850386774fc4564597793e4da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:29:33 +0000
Subject: [PATCH 16/24] fix: scale_sdss_image: integer image size

---
 tractor/sdss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tractor/sdss.py b/tractor/sdss.py
index 8adfc80..c33924a 100644
--- a/tractor/sdss.py
+++ b/tractor/sdss.py
@@ -626,7 +626,7 @@ def scale_sdss_image(tim, S):
     assert((W % S) == 0)
 
     # rebin image data
-    sH, sW = H / S, W / S
+    sH, sW = H // S, W // S
     newdata = np.zeros((sH, sW), dtype=data.dtype)
     newiv = np.zeros((sH, sW), dtype=invvar.dtype)
     for i in range(S):
-- 
2.43.0


From 2d1f4ce059962535298631a376b36fcc9f77377e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:08:33 +0000
Subject: [PATCH 17/24] fix: forced photometry: variance of the sky parameters

---
 tractor/optimize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tractor/optimize.py b/tractor/optimize.py
index 03abf02..0f4bc0b 100644
--- a/tractor/optimize.py
+++ b/tractor/optimize.py
@@ -385,7 +385,7 @@ class Optimizer(object):
         IV = np.zeros(Nsky + Nsourceparams)
         # sky derivs first
         if sky and skyvariance:
-            for di, (dsky, tim) in enumerate(skyderivs):
+            for di, [(dsky, tim)] in enumerate(skyderivs):
                 ie = tim.getInvError()
                 if dsky.shape == tim.shape:
                     dchi2 = np.sum((dsky.patch * ie)**2)
-- 
2.43.0


From 6a03280fe1c9e2d2adf7e0f789e8170ce983a6a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:08:33 +0000
Subject: [PATCH 18/24] fix: SersicGalaxy: one derivative per parameter when a
 patch is empty

---
 tractor/sersic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tractor/sersic.py b/tractor/sersic.py
index 33263c5..4b45618 100644
--- a/tractor/sersic.py
+++ b/tractor/sersic.py
@@ -408,7 +408,6 @@ class SersicGalaxy(HoggGalaxy):
         pos0 = self.getPosition()
         (px0, py0) = img.getWcs().positionToPixel(pos0, self)
         if patch0 is None:
-            derivs.append(None)
             return derivs
         counts = img.getPhotoCal().brightnessToCounts(self.brightness)
 
@@ -438,6 +437,7 @@ class SersicGalaxy(HoggGalaxy):
                     print('  stepped', step)
                     print('  to', self.sersicindex.getParams()[i])
                     derivs.append(None)
+                    continue
 
                 dx = (newpatch - patch0) * (counts / step)
                 dx.setName('d(%s)/d(%s)' % (self.dname, inames[i]))
-- 
2.43.0


From 4682cd96a05f2690277be645eeaa1b7d560ad610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:08:33 +0000
Subject: [PATCH 19/24] fix: oversampled PSF: Fourier transform of the model at
 the position asked for

---
 tractor/psf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tractor/psf.py b/tractor/psf.py
index c346b60..a492149 100644
--- a/tractor/psf.py
+++ b/tractor/psf.py
@@ -354,7 +354,7 @@ class PixelizedPSF(BaseParams, ducks.ImageCalibration):
         # shift by fractional pixel
         dx = px - int(px)
         dy = py - int(py)
-        _, _, img = self._sampleImage(None, dx, dy)
+        _, _, img = self._sampleImage(self.getImage(px, py), dx, dy)
         pad, cx, cy = self._padInImage(sz, sz, img=img)
         cx += dx
         cy += dy
-- 
2.43.0


From 0cdb0e6663234c78bfaa8753124675369e423c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:08:33 +0000
Subject: [PATCH 20/24] fix: ArithmeticParams: division in Python 3

---
 tractor/utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tractor/utils.py b/tractor/utils.py
index 07802bb..0fa2286 100644
--- a/tractor/utils.py
+++ b/tractor/utils.py
@@ -868,8 +868,8 @@ class ArithmeticParams(object):
             res.setAllParams([x * other for x in res.getAllParams()])
         return res
 
-    def __div__(self, other):
-        ''' /= '''
+    def __truediv__(self, other):
+        ''' / '''
         res = self.copy()
         if hasattr(other, 'getAllParams'):
             res.setAllParams([x / y for x, y in zip(res.getAllParams(),
@@ -878,6 +878,8 @@ class ArithmeticParams(object):
             res.setAllParams([x / other for x in res.getAllParams()])
         return res
 
+    __div__ = __truediv__
+
     def __iadd__(self, other):
         ''' += '''
         if hasattr(other, 'getAllParams'):
-- 
2.43.0


From af15dcb5374eb447691efaa41f8bf801d78d22f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:08:33 +0000
Subject: [PATCH 21/24] fix: Image.copy: keep the rendering threshold, frozen
 parameters and plot range

---
 tractor/image.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/tractor/image.py b/tractor/image.py
index 970aeb7..f4d2f34 100644
--- a/tractor/image.py
+++ b/tractor/image.py
@@ -70,14 +70,18 @@ class Image(MultiParams):
         time = self.time
         if self.time is not None:
             time = time.copy()
-        return self.__class__(data=self.data.copy(),
-                              inverr=self.inverr.copy(),
-                              wcs=self.wcs.copy(),
-                              psf=self.psf.copy(),
-                              sky=self.sky.copy(),
-                              photocal=self.photocal.copy(),
-                              name=self.name,
-                              time=time)
+        c = self.__class__(data=self.data.copy(),
+                           inverr=self.inverr.copy(),
+                           wcs=self.wcs.copy(),
+                           psf=self.psf.copy(),
+                           sky=self.sky.copy(),
+                           photocal=self.photocal.copy(),
+                           name=self.name,
+                           time=time,
+                           zr=self.zr)
+        c.modelMinval = self.modelMinval
+        c.liquid = [l for l in self.liquid]
+        return c
 
     def subimage(self, x0, x1, y0, y1):
         slc = (slice(y0, y1), slice(x0, x1))
-- 
2.43.0


From a961459e1eeb6a42a2703fe62f23b805f6fd8356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:08:33 +0000
Subject: [PATCH 22/24] fix: SplineSky.copy: keep the smoothness prior

---
 tractor/splinesky.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tractor/splinesky.py b/tractor/splinesky.py
index 22166a9..1131e1b 100644
--- a/tractor/splinesky.py
+++ b/tractor/splinesky.py
@@ -85,6 +85,7 @@ class SplineSky(ParamList, ducks.ImageCalibration):
         c = type(self)(self.xgrid, self.ygrid, self.get_grid(), order=self.order)
         c.x0 = self.x0
         c.y0 = self.y0
+        c.prior_smooth_sigma = self.prior_smooth_sigma
         # ParamList
         c.liquid = [l for l in self.liquid]
         return c
-- 
2.43.0


From 03804baf02977cdb879537828c83fc7056ef0e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:08:33 +0000
Subject: [PATCH 23/24] fix: MovingPointSource can be copied

---
 tractor/motion.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/tractor/motion.py b/tractor/motion.py
index cbdcac0..52b89a5 100644
--- a/tractor/motion.py
+++ b/tractor/motion.py
@@ -68,6 +68,13 @@ class MovingPointSource(PointSource):
     def getNamedParams():
         return dict(pos=0, brightness=1, pm=2, parallax=3)
 
+    def copy(self):
+        c = self.__class__(self.pos.copy(), self.brightness.copy(),
+                           self.pm.copy(), self.parallax.getValue(),
+                           epoch=self.epoch)
+        c.liquid = [l for l in self.liquid]
+        return c
+
     def getSourceType(self):
         return 'MovingPointSource'
 
-- 
2.43.0


From 397fe662901d72999d14352c35a3577c32008772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:08:33 +0000
Subject: [PATCH 24/24] fix: TanWcs in Python 3

---
 tractor/wcs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tractor/wcs.py b/tractor/wcs.py
index b0c3682..3cd942b 100644
--- a/tractor/wcs.py
+++ b/tractor/wcs.py
@@ -295,7 +295,7 @@ class TanWcs(ConstantFitsWcs, ducks.ImageCalibration):
         self.x0 = 0
         self.y0 = 0
 
-        if isinstance(wcs, basestring):
+        if isinstance(wcs, str):
             from astrometry.util.util import Tan
             wcs = Tan(wcs, hdu)
 
-- 
2.43.0

