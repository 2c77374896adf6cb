From e43b0ce9fe5599374ce1c1f3fe75f811bb5a2ce3 Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Wed, 18 Nov 2026 17:09:39 +0000
Subject: [PATCH 01/92] fix: dark subtraction wrapped around for unsigned
 integer images

---
 hexrd/core/imageseries/process.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hexrd/core/imageseries/process.py b/hexrd/core/imageseries/process.py
index efdef17..ba66723 100644
--- a/hexrd/core/imageseries/process.py
+++ b/hexrd/core/imageseries/process.py
@@ -126,8 +126,11 @@ class ProcessedImageSeries(ImageSeries):
         #    return ret
         # Method 1 was the slowest, and method 4 was the fastest, perhaps
         # because it creates fewer copies of the data.
+        #
+        # note: compare against the dark rather than checking for negative
+        # values, since unsigned differences wrap around instead
         ret = img - dark
-        ret[ret < 0] = 0
+        ret[img < dark] = 0
         return ret
 
     def _rectangle_optimized(self, img_key, r):
-- 
2.43.0


From b6ccef4416d72087e3f54497559b1e1e9454603d Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Wed, 18 Nov 2026 17:09:39 +0000
Subject: [PATCH 02/92] fix: processed image series had no working get_region

---
 hexrd/core/imageseries/process.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hexrd/core/imageseries/process.py b/hexrd/core/imageseries/process.py
index ba66723..22c81a5 100644
--- a/hexrd/core/imageseries/process.py
+++ b/hexrd/core/imageseries/process.py
@@ -136,6 +136,10 @@ class ProcessedImageSeries(ImageSeries):
     def _rectangle_optimized(self, img_key, r):
         return self._imser.get_region(img_key, r)
 
+    def get_region(self, frame_idx, region):
+        # a region of the processed frame
+        return self._rectangle(self[frame_idx], region)
+
     def _rectangle(self, img, r):
         # restrict to rectangle
         return img[r[0][0] : r[0][1], r[1][0] : r[1][1]]
-- 
2.43.0


From 6009447e23f70adcf4d2d27aa563d374329a10d4 Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Wed, 18 Nov 2026 17:11:05 +0000
Subject: [PATCH 03/92] fix: omega_to_frame could return a frame past the end
 of its wedge

---
 hexrd/core/imageseries/omega.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hexrd/core/imageseries/omega.py b/hexrd/core/imageseries/omega.py
index 2307f3c..a608940 100644
--- a/hexrd/core/imageseries/omega.py
+++ b/hexrd/core/imageseries/omega.py
@@ -101,7 +101,9 @@ class OmegaImageSeries(ImageSeries):
             omcheck = omin + np.mod(om - omin, self.TAU)
             if omcheck < omax:
                 odel = self._wedge_om[i, 2]
-                f = self._wedge_f[i, 0] + int(np.floor((omcheck - omin) / odel))
+                # just below omax, the quotient can round up to nsteps
+                step = int(np.floor((omcheck - omin) / odel))
+                f = self._wedge_f[i, 0] + min(step, self._wedge_f[i, 1] - 1)
                 w = i
                 break
 
-- 
2.43.0


From f413bffad637164006f23ac098786ea3c8997079 Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Wed, 18 Nov 2026 17:11:05 +0000
Subject: [PATCH 04/92] fix: omega range inside a single frame found no frames

---
 hexrd/core/imageseries/omega.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hexrd/core/imageseries/omega.py b/hexrd/core/imageseries/omega.py
index a608940..17caaae 100644
--- a/hexrd/core/imageseries/omega.py
+++ b/hexrd/core/imageseries/omega.py
@@ -120,7 +120,7 @@ class OmegaImageSeries(ImageSeries):
             return noframes
 
         # if same wedge, require frames be increasing
-        if (w0 == w1) and (f1 > f0):
+        if (w0 == w1) and (f1 > f0 or (f1 == f0 and omin <= omax)):
             return list(range(f0, f1 + 1))
 
         # case: adjacent wedges with 2pi jump in omega
-- 
2.43.0


From 285eb4ee802c0fb9612f2e7450dd7b44621958c0 Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Wed, 18 Nov 2026 17:11:05 +0000
Subject: [PATCH 05/92] fix: decreasing omega in the last wedge was accepted

---
 hexrd/core/imageseries/omega.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hexrd/core/imageseries/omega.py b/hexrd/core/imageseries/omega.py
index 17caaae..ae01e49 100644
--- a/hexrd/core/imageseries/omega.py
+++ b/hexrd/core/imageseries/omega.py
@@ -49,6 +49,8 @@ class OmegaImageSeries(ImageSeries):
                 starts.append(f)
                 delta = d
             omlast = om[f, 1]
+        if delta <= 0:
+            raise OmegaSeriesError('omega array must be increasing')
         starts.append(nf)
 
         nw = len(starts) - 1
-- 
2.43.0


From 8182a30a7bdf382de4ff7a9ff86d5040a3294f9c Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Wed, 18 Nov 2026 17:14:49 +0000
Subject: [PATCH 06/92] fix: average_iter overwrote the first image it had
 yielded

---
 hexrd/core/imageseries/stats.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hexrd/core/imageseries/stats.py b/hexrd/core/imageseries/stats.py
index 433bfb4..46e82d9 100644
--- a/hexrd/core/imageseries/stats.py
+++ b/hexrd/core/imageseries/stats.py
@@ -164,7 +164,8 @@ def average_iter(
     if stop == 0:
         if nf > 1:
             s0, stop = 1, stops[1]
-        yield img
+        # Copy so later in-place accumulation can't mutate the yielded array.
+        yield img.copy()
 
     for i in range(1, nf):
         img += ims[i]
-- 
2.43.0


From 77fcc2cf62b9551bcd162751a66a44a9797fa606 Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Wed, 18 Nov 2026 17:16:40 +0000
Subject: [PATCH 07/92] fix: image-files series read the skipped frame of files
 with one usable frame

---
 hexrd/core/imageseries/load/imagefiles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hexrd/core/imageseries/load/imagefiles.py b/hexrd/core/imageseries/load/imagefiles.py
index a9b127a..0673a94 100644
--- a/hexrd/core/imageseries/load/imagefiles.py
+++ b/hexrd/core/imageseries/load/imagefiles.py
@@ -141,7 +141,7 @@ number of files: %s
                 dtp = self._checkvalue(dtp, info.dtype, "inconsistent image dtypes")
             fcl = self._checkvalue(fcl, info.fabioclass, "inconsistent image types")
             nf += info.nframes
-            if info.nframes > 1:
+            if info.nframes > 1 or info.empty > 0:
                 self._singleframes = False
 
         self._nframes = nf
-- 
2.43.0


From 08d277992417b9f3420587161b3eecf94a980ada Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Wed, 18 Nov 2026 17:16:40 +0000
Subject: [PATCH 08/92] fix: single-frame image-files series ignored
 max-total-frames when indexed

---
 hexrd/core/imageseries/load/imagefiles.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/hexrd/core/imageseries/load/imagefiles.py b/hexrd/core/imageseries/load/imagefiles.py
index 0673a94..cdce36f 100644
--- a/hexrd/core/imageseries/load/imagefiles.py
+++ b/hexrd/core/imageseries/load/imagefiles.py
@@ -41,12 +41,10 @@ class ImageFilesImageSeriesAdapter(ImageSeriesAdapter):
             # Fully expand the array then apply the fancy indexing.
             return self[key[0]][tuple(key[1:])]
 
+        (fnum, frame) = self._file_and_frame(key)
+        filename = self.infolist[fnum].filename
         if self.singleframes:
             frame = None
-            filename = self._files[key]
-        else:
-            (fnum, frame) = self._file_and_frame(key)
-            filename = self.infolist[fnum].filename
 
         data = self._load_data(filename, frame)
 
-- 
2.43.0


From ef2a8253e78a8c77570d8241264cacfe56afc6a5 Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Wed, 18 Nov 2026 17:16:40 +0000
Subject: [PATCH 09/92] fix: raw images with a header as large as a frame were
 rejected

---
 hexrd/core/imageseries/load/rawimage.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hexrd/core/imageseries/load/rawimage.py b/hexrd/core/imageseries/load/rawimage.py
index 1dd06c1..6171a39 100644
--- a/hexrd/core/imageseries/load/rawimage.py
+++ b/hexrd/core/imageseries/load/rawimage.py
@@ -56,8 +56,9 @@ class RawImageSeriesAdapter(ImageSeriesAdapter):
     def _get_length(self):
         """Read file and determine length"""
         nbytes = os.path.getsize(self.fname)
-        if nbytes % self._frame_bytes == self.skipbytes:
-            nframes = (nbytes - self.skipbytes) // self._frame_bytes
+        nimage = nbytes - self.skipbytes
+        if nimage >= 0 and nimage % self._frame_bytes == 0:
+            nframes = nimage // self._frame_bytes
         else:
             msg = (
                 f"Total number of bytes ({nbytes}) does not work with "
-- 
2.43.0


From 2f9833cc3ab9f678af8aa70c7cff067e913af57b Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Wed, 18 Nov 2026 17:16:40 +0000
Subject: [PATCH 10/92] fix: writing an image series to HDF5 failed on plain
 string or number metadata

---
 hexrd/core/imageseries/save.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hexrd/core/imageseries/save.py b/hexrd/core/imageseries/save.py
index aa65d59..d1fe04d 100644
--- a/hexrd/core/imageseries/save.py
+++ b/hexrd/core/imageseries/save.py
@@ -176,7 +176,9 @@ class WriteH5(Writer):
 
         # add metadata
         for k, v in list(self._meta.items()):
-            if np.issubdtype(v.dtype, 'U'):
+            if isinstance(v, (np.ndarray, np.generic)) and np.issubdtype(
+                v.dtype, 'U'
+            ):
                 # HDF5 can't handle unicode strings.
                 # Turn it into a regular string.
                 v = v.astype('S')
-- 
2.43.0


From 2f06fb5bdb0133da89ed16e48424fccdd9e42121 Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Wed, 18 Nov 2026 17:16:40 +0000
Subject: [PATCH 11/92] fix: storing a nested dict in HDF5 emptied the caller's
 dict

---
 hexrd/core/utils/hdf5.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hexrd/core/utils/hdf5.py b/hexrd/core/utils/hdf5.py
index 99e934c..4251d90 100644
--- a/hexrd/core/utils/hdf5.py
+++ b/hexrd/core/utils/hdf5.py
@@ -22,8 +22,8 @@ def unwrap_dict_to_h5(grp, d, asattr=False):
     None.
 
     """
-    while len(d) > 0:
-        key, item = d.popitem()
+    # note: the dict belongs to the caller and must not be consumed
+    for key, item in d.items():
         if isinstance(item, dict):
             subgrp = grp.create_group(key)
             unwrap_dict_to_h5(subgrp, item, asattr=asattr)
-- 
2.43.0


From ad5a4be4e32375750905ebfb9b7c19b750d518aa Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Wed, 18 Nov 2026 17:21:05 +0000
Subject: [PATCH 12/92] fix: image-files series mixing single- and multi-frame
 files read the wrong file

---
 hexrd/core/imageseries/load/imagefiles.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hexrd/core/imageseries/load/imagefiles.py b/hexrd/core/imageseries/load/imagefiles.py
index cdce36f..e5d80f3 100644
--- a/hexrd/core/imageseries/load/imagefiles.py
+++ b/hexrd/core/imageseries/load/imagefiles.py
@@ -221,7 +221,9 @@ number of files: %s
     def _load_data(self, filename, frame=None):
         """Load data from a file, including processing if needed"""
         with fabio.open(filename) as img:
-            if frame is None:
+            if frame is None or img.nframes == 1:
+                # !!! for single-frame files, fabio's getframe() opens another
+                #     file of the numbered series instead
                 data = img.data
             else:
                 # Fabio does some arithmetic with the frame number.
-- 
2.43.0


From cd0de494a21a6ccdb39fdb1d8d5cebe908b2cf9f Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Wed, 18 Nov 2026 17:24:26 +0000
Subject: [PATCH 13/92] fix: angles a rounding error before the start of a
 range were rejected

---
 hexrd/core/transforms/new_capi/validate_angle_ranges.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hexrd/core/transforms/new_capi/validate_angle_ranges.c b/hexrd/core/transforms/new_capi/validate_angle_ranges.c
index d489672..d65474b 100644
--- a/hexrd/core/transforms/new_capi/validate_angle_ranges.c
+++ b/hexrd/core/transforms/new_capi/validate_angle_ranges.c
@@ -61,7 +61,8 @@ validate_angle_ranges(size_t na, double *aPtr, size_t nr, double *minPtr,
             while ( theta > 2.0*M_PI )
                 theta -= 2.0*M_PI;
 
-            if ( theta >= -sqrt_epsf && theta <= thetaMax+sqrt_epsf ) {
+            /* An angle within tolerance before the start wraps to just below 2 pi */
+            if ( theta <= thetaMax+sqrt_epsf || theta >= 2.0*M_PI-sqrt_epsf ) {
                 rPtr[i] = true;
 
                 /* No need to check other ranges */
-- 
2.43.0


From d6a9182ea81173ef1ed5d5dc3063ef7e3b90792c Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Wed, 18 Nov 2026 17:24:26 +0000
Subject: [PATCH 14/92] fix: angularDifference was negative for angles written
 in different turns

---
 hexrd/core/rotations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hexrd/core/rotations.py b/hexrd/core/rotations.py
index 33d0ba2..ff6f5e0 100644
--- a/hexrd/core/rotations.py
+++ b/hexrd/core/rotations.py
@@ -1170,7 +1170,7 @@ def angularDifference_opt(angList0, angList1, units=angularUnits):
     *) Default angular range in the code is [-pi, pi]
     """
     period = periodDict[units]
-    d = np.abs(angList1 - angList0)
+    d = np.mod(np.abs(angList1 - angList0), period)
     return np.minimum(d, period - d)
 
 
-- 
2.43.0


From c7b7b023a87635f7a4fa4812ffa9d836eb56e519 Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Wed, 18 Nov 2026 17:24:26 +0000
Subject: [PATCH 15/92] fix: half-turn quaternions were zeroed by the sign
 convention

---
 hexrd/core/rotations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hexrd/core/rotations.py b/hexrd/core/rotations.py
index ff6f5e0..2bd6480 100644
--- a/hexrd/core/rotations.py
+++ b/hexrd/core/rotations.py
@@ -113,7 +113,7 @@ def _quat_to_scipy_rotation(q: NDArray[np.float64]) -> R:
 def _scipy_rotation_to_quat(r: R) -> NDArray[np.float64]:
     quat = np.roll(np.atleast_2d(r.as_quat()), 1, axis=1).T
     # Fix quat would work, but it does too much.  Only need to check positive
-    quat *= np.sign(quat[0, :])
+    quat[:, quat[0, :] < 0] *= -1
     return quat
 
 
-- 
2.43.0


From 271219c105a5c6f86c3145b49ef023637bba7801 Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Wed, 18 Nov 2026 17:24:26 +0000
Subject: [PATCH 16/92] fix: misorientation returned extra quaternions for
 equally close equivalents

---
 hexrd/core/rotations.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/hexrd/core/rotations.py b/hexrd/core/rotations.py
index 2bd6480..09e2fdd 100644
--- a/hexrd/core/rotations.py
+++ b/hexrd/core/rotations.py
@@ -238,10 +238,8 @@ def misorientation(q1, q2, symmetries=None):
     qmax = sclEqvMis.max(0)
 
     # remap indices to use in eqvMis
-    qmaxInd = (sclEqvMis == qmax).nonzero()
-    qmaxInd = np.c_[qmaxInd[0], qmaxInd[1]]
-
-    eqvMisColInd = np.sort(qmaxInd[:, 0] + qmaxInd[:, 1] * p * m)
+    #   - exactly one per class, even if several are equally close
+    eqvMisColInd = sclEqvMis.argmax(0) + np.arange(n) * p * m
 
     # store Rmin in q
     mis = eqvMis[np.ix_(list(range(4)), eqvMisColInd)]
-- 
2.43.0


From 5a1b2071977d51c2f265ca589c3e76dfc504716f Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Wed, 18 Nov 2026 17:33:27 +0000
Subject: [PATCH 17/92] fix: RotMatEuler accepted 'Degrees' but used the angles
 as radians

---
 hexrd/core/rotations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hexrd/core/rotations.py b/hexrd/core/rotations.py
index 09e2fdd..fb8d329 100644
--- a/hexrd/core/rotations.py
+++ b/hexrd/core/rotations.py
@@ -820,7 +820,7 @@ class RotMatEuler(object):
         self._extrinsic = extrinsic
         if units.lower() not in periodDict.keys():
             raise RuntimeError("angular units '%s' not understood" % units)
-        self._units = units
+        self._units = units.lower()
 
     @property
     def angles(self):
-- 
2.43.0


From 85e700d1bb9349562ab7606a8f6720f7a9dce8c7 Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Wed, 18 Nov 2026 17:33:27 +0000
Subject: [PATCH 18/92] fix: rotate_vecs_about_axis refused a single angle or
 axis for several vectors

---
 hexrd/core/transforms/xfcapi.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hexrd/core/transforms/xfcapi.py b/hexrd/core/transforms/xfcapi.py
index 0cc167c..ab4fd52 100644
--- a/hexrd/core/transforms/xfcapi.py
+++ b/hexrd/core/transforms/xfcapi.py
@@ -659,7 +659,11 @@ def rotate_vecs_about_axis(
         Array of rotated vectors (shape == (3,n))
     """
     angle = np.asarray(angle)
+    if angle.size == 1:
+        angle = angle.reshape(())
     axis = np.ascontiguousarray(axis.T)
+    if axis.size == 3:
+        axis = axis.reshape(3)
     vecs = np.ascontiguousarray(vecs.T)
     result = transforms_c_api.rotate_vecs_about_axis(angle, axis, vecs)
     return result.T
-- 
2.43.0


From bf9b78afb8f99fa1e1d83601fd2cd720314c91c8 Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Wed, 18 Nov 2026 17:38:06 +0000
Subject: [PATCH 19/92] fix: quatAverage of two quaternions always failed

---
 hexrd/core/rotations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hexrd/core/rotations.py b/hexrd/core/rotations.py
index fb8d329..44d0389 100644
--- a/hexrd/core/rotations.py
+++ b/hexrd/core/rotations.py
@@ -473,7 +473,7 @@ def quatAverage(q_in, qsym):
             )
             q_bar = quatProduct(
                 q_in[:, 0].reshape(4, 1),
-                quatOfExpMap(0.5 * ma * unitVector(mq[1:].reshape(3, 1))),
+                quatOfExpMap(0.5 * ma * unitVector(mq[1:].reshape(3, 1))).reshape(4, 1),
             )
     else:
         # use first quat as initial guess
-- 
2.43.0


From 0cdabcbee2476d90db7b034ee40a2de481c5c08d Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Wed, 18 Nov 2026 17:53:42 +0000
Subject: [PATCH 20/92] fix: apply plane-data exclusions in the two-theta order
 they are given in

---
 hexrd/core/material/crystallography.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/hexrd/core/material/crystallography.py b/hexrd/core/material/crystallography.py
index 435d342..0a9dd48 100644
--- a/hexrd/core/material/crystallography.py
+++ b/hexrd/core/material/crystallography.py
@@ -921,11 +921,11 @@ class PlaneData(object):
             else:
                 if len(exclusions.shape) == 1:
                     # treat exclusions as indices
-                    excl[self.tThSortInv[exclusions]] = True
+                    excl[self.tThSort[exclusions]] = True
                 elif len(exclusions.shape) == 2:
                     # treat exclusions as ranges of indices
                     for r in exclusions:
-                        excl[self.tThSortInv[r[0] : r[1]]] = True
+                        excl[self.tThSort[r[0] : r[1]]] = True
                 else:
                     raise RuntimeError(f'Unclear behavior for shape {exclusions.shape}')
         self._exclusions = excl
@@ -1326,7 +1326,7 @@ class PlaneData(object):
     def _thisHKL(self, iHKLr: int) -> bool:
         hklData = self.hklDataList[iHKLr]
         if self._exclusions is not None:
-            if self._exclusions[self.tThSortInv[iHKLr]]:
+            if self._exclusions[self.tThSort[iHKLr]]:
                 return False
         if self._tThMax is not None:
             if hklData['tTheta'] > self._tThMax or np.isnan(hklData['tTheta']):
@@ -1526,7 +1526,7 @@ class PlaneData(object):
         else:
             hklList = self.getSymHKLs()  # !!! list, reduced by exclusions
             intl_hklIDs = np.asarray([i['hklID'] for i in self.hklDataList])
-            intl_hklIDs_sorted = intl_hklIDs[~self.exclusions[self.tThSortInv]]
+            intl_hklIDs_sorted = intl_hklIDs[~self.exclusions]
             dHKLInv = {}
             for iHKL, symHKLs in enumerate(hklList):
                 idx = intl_hklIDs_sorted[iHKL] if master else iHKL
@@ -1604,7 +1604,7 @@ class PlaneData(object):
             #     RuntimeError, and if allHKLs=True and the hkl_id is
             #     excluded, it also raises a RuntimeError
             all_hkl_ids = np.asarray([i['hklID'] for i in self.hklDataList])
-            sorted_excl = self.exclusions[self.tThSortInv]
+            sorted_excl = self.exclusions
             idx = np.zeros(len(self.hklDataList), dtype=int)
             for i, hkl_id in enumerate(hkl_ids):
                 # find ordinal index of current hklID
-- 
2.43.0


From 261bb37f52e06cd8012efaaf0a7475a20602c5f0 Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Wed, 18 Nov 2026 17:53:42 +0000
Subject: [PATCH 21/92] fix: keep the plane-data reflection count and mask in
 step with the angle limit

---
 hexrd/core/material/crystallography.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/hexrd/core/material/crystallography.py b/hexrd/core/material/crystallography.py
index 0a9dd48..fa8f671 100644
--- a/hexrd/core/material/crystallography.py
+++ b/hexrd/core/material/crystallography.py
@@ -776,7 +776,10 @@ class PlaneData(object):
         if 'doTThSort' in kwargs:
             self._doTThSort = kwargs.pop('doTThSort')
         if 'exclusions' in kwargs:
-            self._exclusions = kwargs.pop('exclusions')
+            exclusions = kwargs.pop('exclusions')
+            if exclusions is not None:
+                exclusions = np.array(exclusions, dtype=bool)
+            self._exclusions = exclusions
         if 'tThMax' in kwargs:
             self._tThMax = toFloat(kwargs.pop('tThMax'), 'radians')
         if 'tThWidth' in kwargs:
@@ -818,7 +821,6 @@ class PlaneData(object):
             self.tThSortInv = np.arange(len(hklDataList))
             self.hklDataList = hklDataList
         self._latVecOps = latVecOps
-        self.nHKLs = len(self.getHKLs())
 
     def __str__(self):
         s = '========== plane data ==========\n'
@@ -861,6 +863,13 @@ class PlaneData(object):
         """
         return len(self.hklDataList)
 
+    @property
+    def nHKLs(self) -> int:
+        """
+        Number of hkl's in the plane data that are not excluded.
+        """
+        return int(np.count_nonzero(~self.exclusions))
+
     @property
     def hkls(self) -> np.ndarray:
         """
@@ -903,7 +912,7 @@ class PlaneData(object):
             retval[:] = self._exclusions[self.tThSort]
         if self._tThMax is not None:
             for iHKLr, hklData in enumerate(self.hklDataList):
-                if hklData['tTheta'] > self._tThMax:
+                if hklData['tTheta'] > self._tThMax or np.isnan(hklData['tTheta']):
                     retval[iHKLr] = True
         return retval
 
@@ -929,7 +938,6 @@ class PlaneData(object):
                 else:
                     raise RuntimeError(f'Unclear behavior for shape {exclusions.shape}')
         self._exclusions = excl
-        self.nHKLs = np.sum(np.logical_not(self._exclusions))
 
     def exclude(
         self,
-- 
2.43.0


From 0f1d3bca20c498d6427e59668481ce00165f526a Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Wed, 18 Nov 2026 17:54:06 +0000
Subject: [PATCH 22/92] fix: keep structure factors with their reflections when
 the angle order changes

---
 hexrd/core/material/crystallography.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/hexrd/core/material/crystallography.py b/hexrd/core/material/crystallography.py
index fa8f671..0f049c2 100644
--- a/hexrd/core/material/crystallography.py
+++ b/hexrd/core/material/crystallography.py
@@ -770,6 +770,8 @@ class PlaneData(object):
         self._hkls: NDArray[np.int_] = copy.deepcopy(hkls)
         self._strainMag = strainMag
         self._structFact: Optional[NDArray[np.float64]] = np.ones(self._hkls.shape[1])
+        self._hedm_intensity: Optional[NDArray[np.float64]] = None
+        self._powder_intensity: Optional[NDArray[np.float64]] = None
         self.tThWidth: float | None = tThWidth
 
         # ... need to implement tThMin too
@@ -805,6 +807,7 @@ class PlaneData(object):
             self._strainMag,
             self.wavelength,
         )
+        old_sort = getattr(self, 'tThSort', None)
         'sort by tTheta'
         tThs = np.array(
             [hklDataList[iHKL]['tTheta'] for iHKL in range(len(hklDataList))]
@@ -821,6 +824,14 @@ class PlaneData(object):
             self.tThSortInv = np.arange(len(hklDataList))
             self.hklDataList = hklDataList
         self._latVecOps = latVecOps
+        if old_sort is not None and self._structFact is not None:
+            # the structure factors stay with their hkls, but the intensities
+            # depend on the angles and need to be computed again
+            in_hkl_order = np.empty_like(self._structFact)
+            in_hkl_order[old_sort] = self._structFact
+            self._structFact = in_hkl_order[self.tThSort]
+            self._hedm_intensity = None
+            self._powder_intensity = None
 
     def __str__(self):
         s = '========== plane data ==========\n'
@@ -1110,6 +1121,9 @@ class PlaneData(object):
             # This can be expensive to do, so we lazily compute it when needed.
             hkls = self.getHKLs(allHKLs=True)
             self.structFact = self._unitcell.CalcXRSF(hkls)
+        elif any_invalid and self._structFact is not None:
+            # Only the intensities need to be computed
+            self.structFact = self._structFact
 
     @property
     def structFact(self) -> np.ndarray:
-- 
2.43.0


From 326e312cba4830538951e93ae474833600ae2e1c Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Wed, 18 Nov 2026 17:56:25 +0000
Subject: [PATCH 23/92] fix: exclude reflections by intensity also when some
 cannot diffract

---
 hexrd/core/material/crystallography.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hexrd/core/material/crystallography.py b/hexrd/core/material/crystallography.py
index 0f049c2..4f6b001 100644
--- a/hexrd/core/material/crystallography.py
+++ b/hexrd/core/material/crystallography.py
@@ -1009,7 +1009,7 @@ class PlaneData(object):
 
         if (sfacmin is not None) or (sfacmax is not None):
             sfac = self.structFact
-            sfac = sfac / sfac.max()
+            sfac = sfac / np.nanmax(sfac)
             if sfacmin is not None:
                 excl[sfac < sfacmin] = True
             if sfacmax is not None:
@@ -1017,7 +1017,7 @@ class PlaneData(object):
 
         if (pintmin is not None) or (pintmax is not None):
             pint = self.powder_intensity
-            pint = pint / pint.max()
+            pint = pint / np.nanmax(pint)
             if pintmin is not None:
                 excl[pint < pintmin] = True
             if pintmax is not None:
-- 
2.43.0


From 32c4504c46a74e32ae7a00ce9288ae7fbf01532c Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Wed, 18 Nov 2026 18:03:09 +0000
Subject: [PATCH 24/92] fix: convert lengths given in nanometres

---
 hexrd/core/valunits.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hexrd/core/valunits.py b/hexrd/core/valunits.py
index 1eaf028..6b6e569 100644
--- a/hexrd/core/valunits.py
+++ b/hexrd/core/valunits.py
@@ -71,6 +71,10 @@ cv_dict = {
     ('mm', 'meter'): 1.0e-3,
     ('mm', 'nm'): 1.0e6,
     ('mm', 'angstrom'): 1.0e7,
+    ('nm', 'm'): 1.0e-9,
+    ('nm', 'meter'): 1.0e-9,
+    ('nm', 'mm'): 1.0e-6,
+    ('nm', 'angstrom'): 1.0e1,
     ('angstrom', 'm'): 1.0e-10,
     ('angstrom', 'meter'): 1.0e-10,
     ('angstrom', 'mm'): 1.0e-7,
-- 
2.43.0


From a8eab2644018a2e835ced5687350117f4b6aa446 Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Wed, 18 Nov 2026 18:14:46 +0000
Subject: [PATCH 25/92] fix: merge two-theta ranges when no reflection is shown
 or some cannot diffract

---
 hexrd/core/material/crystallography.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hexrd/core/material/crystallography.py b/hexrd/core/material/crystallography.py
index 4f6b001..220df03 100644
--- a/hexrd/core/material/crystallography.py
+++ b/hexrd/core/material/crystallography.py
@@ -1421,10 +1421,12 @@ class PlaneData(object):
         """
         tThs = self.getTTh()
         tThRanges = self.getTThRanges()
+        if len(tThRanges) == 0:
+            return [], []
 
         # if you end exlcusions in a doublet (or multiple close rings)
         # then this will 'fail'.  May need to revisit...
-        nonoverlapNexts = np.hstack((tThRanges[:-1, 1] < tThRanges[1:, 0], True))
+        nonoverlapNexts = np.hstack((~(tThRanges[:-1, 1] >= tThRanges[1:, 0]), True))
         iHKLLists = []
         mergedRanges = []
         hklsCur = []
-- 
2.43.0


From 355cb84a982f7e4ceb932ca2f13c7bcd6a8e562a Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Wed, 18 Nov 2026 18:22:37 +0000
Subject: [PATCH 26/92] fix: do not turn the angle limit into exclusions when a
 material's reflection list changes

---
 hexrd/core/material/material.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/hexrd/core/material/material.py b/hexrd/core/material/material.py
index 8dda950..1733a1b 100644
--- a/hexrd/core/material/material.py
+++ b/hexrd/core/material/material.py
@@ -318,8 +318,13 @@ class Material(object):
             old_indices, new_indices = map_hkls_to_new(old_pdata, self._pData)
 
             # Map the new exclusions to the old ones. New ones default to True.
+            # Reflections that are only hidden by tThMax are not excluded.
+            old_exclusions = np.zeros(old_pdata.getNhklRef(), dtype=bool)
+            if old_pdata._exclusions is not None:
+                old_exclusions[:] = old_pdata._exclusions[old_pdata.tThSort]
+
             exclusions = np.ones(hkls.shape[1], dtype=bool)
-            exclusions[new_indices] = old_pdata.exclusions[old_indices]
+            exclusions[new_indices] = old_exclusions[old_indices]
 
             if np.all(exclusions):
                 # If they are all excluded, just set the default exclusions
-- 
2.43.0


From f44c1760afb18e3d70429d6bd4cc652a6c249092 Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Wed, 18 Nov 2026 18:22:37 +0000
Subject: [PATCH 27/92] fix: update a material's absorption length with its
 beam energy and lattice

---
 hexrd/core/material/unitcell.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hexrd/core/material/unitcell.py b/hexrd/core/material/unitcell.py
index 419bec2..85eca32 100644
--- a/hexrd/core/material/unitcell.py
+++ b/hexrd/core/material/unitcell.py
@@ -1452,6 +1452,7 @@ class unitcell:
         self.CalcMaxGIndex()
         if hasattr(self, "numat"):
             self.CalcDensity()
+            self.calc_absorption_length()
 
     @property
     def lparms_reduced(self):
@@ -1575,6 +1576,8 @@ class unitcell:
     def voltage(self, v):
         self._voltage = v
         self.CalcWavelength()
+        if hasattr(self, "density"):
+            self.calc_absorption_length()
 
     @property
     def wavelength(self):
-- 
2.43.0


From 8c4190b10c71888c887592ede51e7a1b1f2f49b6 Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Wed, 18 Nov 2026 18:22:37 +0000
Subject: [PATCH 28/92] fix: apply a change of a material's space-group setting

---
 hexrd/core/material/material.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hexrd/core/material/material.py b/hexrd/core/material/material.py
index 1733a1b..5ba46e6 100644
--- a/hexrd/core/material/material.py
+++ b/hexrd/core/material/material.py
@@ -1234,6 +1234,8 @@ class Material(object):
     def sgsetting(self, val):
         if val in [0, 1]:
             self._sgsetting = val
+            self._newUnitcell()
+            self._hkls_changed()
         else:
             msg = f'space group setting must be either 0' f' or 1.'
             raise ValueError(msg)
-- 
2.43.0


From 4e3146cdc587a030e1896218ce9934ed7c2d9a90 Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Wed, 18 Nov 2026 18:49:58 +0000
Subject: [PATCH 29/92] fix: keep a configuration value set under a block that
 does not exist yet

---
 hexrd/core/config/config.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/hexrd/core/config/config.py b/hexrd/core/config/config.py
index db2d889..5311ddf 100644
--- a/hexrd/core/config/config.py
+++ b/hexrd/core/config/config.py
@@ -54,9 +54,10 @@ class Config(object):
         args, item = args[:-1], args[-1]
         temp = self._cfg
         for arg in args:
-            temp = temp.get(arg, {})
-            # intermediate block may be None:
-            temp = {} if temp is None else temp
+            # intermediate block may be missing or None:
+            if temp.get(arg) is None:
+                temp[arg] = {}
+            temp = temp[arg]
         if temp.get(item, null) != val:
             temp[item] = val
             self._dirty = True
-- 
2.43.0


From 52d7864034f509ded6c76625ac8d1d83e7db6de5 Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Wed, 18 Nov 2026 18:49:58 +0000
Subject: [PATCH 30/92] fix: let a block replace a plain value when merging
 configurations

---
 hexrd/core/config/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hexrd/core/config/utils.py b/hexrd/core/config/utils.py
index 4733a6e..296ca86 100644
--- a/hexrd/core/config/utils.py
+++ b/hexrd/core/config/utils.py
@@ -34,8 +34,9 @@ def merge_dicts(a, b):
 def _merge_dicts(a, b):
     for k, v in b.items():
         if isinstance(v, dict):
-            if a.get(k) is None:
-                # happens in cases where all but section head is commented
+            if not isinstance(a.get(k), dict):
+                # happens in cases where all but section head is commented,
+                # or where a block replaces a plain value
                 a[k] = {}
             _merge_dicts(a[k], v)
         else:
-- 
2.43.0


From 3ab7fe3295aed63e86e92cf23a538b1295f789cc Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Wed, 18 Nov 2026 18:49:59 +0000
Subject: [PATCH 31/92] fix: store the working directory as text so that the
 configuration can be saved

---
 hexrd/core/config/root.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hexrd/core/config/root.py b/hexrd/core/config/root.py
index 61fea33..97571fc 100644
--- a/hexrd/core/config/root.py
+++ b/hexrd/core/config/root.py
@@ -37,7 +37,7 @@ class RootConfig(Config):
         val = Path(val)
         if not val.is_dir():
             raise IOError('"working_dir": "%s" does not exist' % str(val))
-        self.set('working_dir', val)
+        self.set('working_dir', str(val))
 
     @property
     def analysis_name(self):
-- 
2.43.0


From 37d8bb400f09e0b229382f06907fa454f6de09d1 Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Wed, 18 Nov 2026 18:54:15 +0000
Subject: [PATCH 32/92] fix: save a single configuration as a document, not as
 a list

---
 hexrd/core/config/__init__.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/hexrd/core/config/__init__.py b/hexrd/core/config/__init__.py
index 075f339..f0f93c0 100644
--- a/hexrd/core/config/__init__.py
+++ b/hexrd/core/config/__init__.py
@@ -44,7 +44,4 @@ def save(config_list, file_name):
     res = [cfg._cfg for cfg in config_list]
 
     with open_file(file_name, 'w') as f:
-        if len(res) > 1:
-            yaml.safe_dump_all(res, f)
-        else:
-            yaml.safe_dump(res, f)
+        yaml.safe_dump_all(res, f)
-- 
2.43.0


From 507d937b5039d5210bf9e73e853781e4239b0dff Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Wed, 18 Nov 2026 18:56:56 +0000
Subject: [PATCH 33/92] fix: give every distinct call of a memoised function
 its own cache key

---
 hexrd/core/utils/decorators.py | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/hexrd/core/utils/decorators.py b/hexrd/core/utils/decorators.py
index b9aa391..f029bd4 100644
--- a/hexrd/core/utils/decorators.py
+++ b/hexrd/core/utils/decorators.py
@@ -67,8 +67,7 @@ def memoize(func=None, maxsize=2):
             nonlocal misses
             nonlocal hits
 
-            all_args = list(args) + sorted(kwargs.items())
-            key = _make_hashable(all_args)
+            key = _make_hashable((args, kwargs))
             if key not in cache:
                 # Make sure the current size is less than the max size
                 while len(cache) >= maxsize:
@@ -103,21 +102,32 @@ def memoize(func=None, maxsize=2):
 def _make_hashable(items):
     """Convert a list of items into hashable forms
 
+    Different kinds of arguments (for example an integer and a float of the
+    same value, or a list and a tuple) give different keys.
+
     Note: they may not be able to be converted back.
     """
 
     def convert(x):
         # Perform any conversions here to make a variable hashable
-        if isinstance(x, np.ndarray):
-            # Create an sha1 of the data, and throw in a string
+        if isinstance(x, np.ma.MaskedArray):
+            parts = (np.asarray(x.data), np.ma.getmaskarray(x), x.fill_value)
+            return (type(x), _make_hashable(parts))
+        elif isinstance(x, np.ndarray):
+            # Create a hash of the data, and throw in the type, the dtype
             # and the shape.
-            x = np.ascontiguousarray(x)
-            return ('__type_np.ndarray', x.shape, xxhash.xxh3_128_hexdigest(x))
+            key = (type(x), x.dtype, x.shape)
+            if x.dtype.hasobject:
+                return (*key, _make_hashable(x.ravel().tolist()))
+            x = np.ascontiguousarray(x).reshape(-1).view(np.uint8)
+            return (*key, xxhash.xxh3_128_hexdigest(x))
         elif isinstance(x, (list, tuple)):
-            return _make_hashable(x)
+            return (type(x), _make_hashable(x))
         elif isinstance(x, dict):
-            return _make_hashable(sorted(x.items()))
-        return x
+            return (type(x), frozenset(map(convert, x.items())))
+        elif isinstance(x, (set, frozenset)):
+            return (type(x), frozenset(map(convert, x)))
+        return (type(x), x)
 
     return tuple(map(convert, items))
 
-- 
2.43.0


From c1f2d74829640b50bdbd08e2c95e8222e076c496 Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Wed, 18 Nov 2026 18:58:49 +0000
Subject: [PATCH 34/92] fix: protect all the arrays of a memoised result from
 its callers

---
 hexrd/core/utils/decorators.py | 58 ++++++++++++++++++++++++++--------
 1 file changed, 45 insertions(+), 13 deletions(-)

diff --git a/hexrd/core/utils/decorators.py b/hexrd/core/utils/decorators.py
index f029bd4..38ecb41 100644
--- a/hexrd/core/utils/decorators.py
+++ b/hexrd/core/utils/decorators.py
@@ -69,27 +69,26 @@ def memoize(func=None, maxsize=2):
 
             key = _make_hashable((args, kwargs))
             if key not in cache:
-                # Make sure the current size is less than the max size
-                while len(cache) >= maxsize:
-                    # Remove the left item (least recently used)
-                    cache.popitem(last=False)
-
-                output = func(*args, **kwargs)
-                if isinstance(output, np.ndarray):
-                    # Make the array readonly so that caller functions *cannot*
-                    # modify the cached output array. Otherwise, we run into
-                    # hard-to-track-down bugs.
-                    output.flags.writeable = False
+                # Make the arrays readonly so that caller functions *cannot*
+                # modify the cached output arrays. Otherwise, we run into
+                # hard-to-track-down bugs.
+                output = _protect(func(*args, **kwargs), _arrays_in((args, kwargs)))
+                misses += 1
 
                 # This inserts the item on the right (most recently used)
                 cache[key] = output
-                misses += 1
+
+                # Make sure the current size does not exceed the max size
+                while len(cache) > maxsize:
+                    # Remove the left item (least recently used)
+                    cache.popitem(last=False)
             else:
                 # Move the item to the right (most recently used)
                 cache.move_to_end(key)
                 hits += 1
+                output = cache[key]
 
-            return cache[key]
+            return output
 
         return wrapped
 
@@ -99,6 +98,35 @@ def memoize(func=None, maxsize=2):
         return decorator(func)
 
 
+def _arrays_in(x):
+    """List the numpy arrays in (nested) containers"""
+    if isinstance(x, np.ndarray):
+        return [x]
+    if isinstance(x, dict):
+        x = x.values()
+    elif not isinstance(x, (list, tuple)):
+        return []
+    return [array for item in x for array in _arrays_in(item)]
+
+
+def _protect(output, arguments):
+    """Make the arrays of a function's output readonly
+
+    This includes arrays in (nested) tuples, lists and dicts. An array that
+    may share its memory with one of the arguments, which are the caller's to
+    modify, is copied first.
+    """
+    if isinstance(output, np.ndarray):
+        if any(np.may_share_memory(output, x) for x in arguments):
+            output = output.copy()
+        output.flags.writeable = False
+    elif type(output) in (list, tuple):
+        output = type(output)(_protect(x, arguments) for x in output)
+    elif type(output) is dict:
+        output = {k: _protect(v, arguments) for k, v in output.items()}
+    return output
+
+
 def _make_hashable(items):
     """Convert a list of items into hashable forms
 
@@ -127,6 +155,10 @@ def _make_hashable(items):
             return (type(x), frozenset(map(convert, x.items())))
         elif isinstance(x, (set, frozenset)):
             return (type(x), frozenset(map(convert, x)))
+        elif isinstance(x, (float, complex, np.generic)):
+            # Use the bytes, since zeros of different signs are equal
+            array = np.asarray(x)
+            return (type(x), array.dtype, array.tobytes())
         return (type(x), x)
 
     return tuple(map(convert, items))
-- 
2.43.0


From d856ab8c70a92f1a4eedaa81f66c877cca3827f5 Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Wed, 18 Nov 2026 18:59:16 +0000
Subject: [PATCH 35/92] fix: let memoised results follow a change of the
 distortion parameters

---
 hexrd/core/distortion/distortionabc.py | 4 ++++
 hexrd/core/utils/decorators.py         | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/hexrd/core/distortion/distortionabc.py b/hexrd/core/distortion/distortionabc.py
index 6f6b9cb..75f93bd 100644
--- a/hexrd/core/distortion/distortionabc.py
+++ b/hexrd/core/distortion/distortionabc.py
@@ -14,3 +14,7 @@ class DistortionABC(metaclass=abc.ABCMeta):
     def apply_inverse(self, xy_in):
         """Apply inverse distortion mapping"""
         raise NotImplementedError
+
+    def _memoize_key(self):
+        """State that identifies this distortion in calls to memoized functions"""
+        return (vars(self),)
diff --git a/hexrd/core/utils/decorators.py b/hexrd/core/utils/decorators.py
index 38ecb41..fe22027 100644
--- a/hexrd/core/utils/decorators.py
+++ b/hexrd/core/utils/decorators.py
@@ -159,6 +159,9 @@ def _make_hashable(items):
             # Use the bytes, since zeros of different signs are equal
             array = np.asarray(x)
             return (type(x), array.dtype, array.tobytes())
+        elif hasattr(x, '_memoize_key'):
+            # This object's state may change
+            return (type(x), _make_hashable(x._memoize_key()))
         return (type(x), x)
 
     return tuple(map(convert, items))
-- 
2.43.0


From 0d0dff5a6d98206595d19ea9044d570e328bbab1 Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Wed, 18 Nov 2026 19:07:23 +0000
Subject: [PATCH 36/92] fix: store arrays of strings in HDF5 as such

---
 hexrd/core/utils/hdf5.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/hexrd/core/utils/hdf5.py b/hexrd/core/utils/hdf5.py
index 4251d90..a2a310e 100644
--- a/hexrd/core/utils/hdf5.py
+++ b/hexrd/core/utils/hdf5.py
@@ -1,5 +1,6 @@
 from hexrd.core.utils.compatibility import h5py_read_string
 
+import h5py
 import numpy as np
 
 
@@ -45,11 +46,15 @@ def unwrap_dict_to_h5(grp, d, asattr=False):
                     else:
                         # probably a string badness
 
-                        if isinstance(item, np.ndarray) and np.issubdtype(
+                        dtype = None
+                        if isinstance(item, (np.ndarray, np.str_)) and np.issubdtype(
                             item.dtype, 'U'
                         ):
-                            item = str(item)  # hdf5 files do not support unicode arrays
-                        grp.create_dataset(key, data=item)
+                            # hdf5 files do not support unicode arrays, but
+                            # they do support arrays of strings
+                            item = item.astype(object)
+                            dtype = h5py.string_dtype()
+                        grp.create_dataset(key, data=item, dtype=dtype)
 
 
 def unwrap_h5_to_dict(f, d):
-- 
2.43.0


From 898a04f3fc34fc76c9b1a9ea6864300c34fc0d5b Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Wed, 18 Nov 2026 19:07:23 +0000
Subject: [PATCH 37/92] fix: keep arrays whose bytes look like a unicode escape
 when encoding to JSON

---
 hexrd/core/utils/json.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hexrd/core/utils/json.py b/hexrd/core/utils/json.py
index f11f827..c1a59b0 100644
--- a/hexrd/core/utils/json.py
+++ b/hexrd/core/utils/json.py
@@ -25,7 +25,7 @@ class NumpyEncoder(json.JSONEncoder):
                 np.save(bytes_io, obj, allow_pickle=False)
                 data = bytes_io.getvalue()
 
-            return {ndarray_key: data.decode('raw_unicode_escape')}
+            return {ndarray_key: data.decode('latin-1')}
 
         return super().default(obj)
 
@@ -40,7 +40,7 @@ class NumpyDecoder(json.JSONDecoder):
 
     def object_hook(self, obj):
         if ndarray_key in obj:
-            data = obj[ndarray_key].encode('raw_unicode_escape')
+            data = obj[ndarray_key].encode('latin-1')
             with io.BytesIO(data) as bytes_io:
                 return np.load(bytes_io)
 
-- 
2.43.0


From 1d11c2abdcfd39a3a39e027fa26908ab01ab4c0e Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Wed, 18 Nov 2026 19:09:18 +0000
Subject: [PATCH 38/92] fix: dump a shared list that starts with an array, and
 0-d arrays, to YAML

---
 hexrd/core/utils/yaml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hexrd/core/utils/yaml.py b/hexrd/core/utils/yaml.py
index 89f1eff..1d886e3 100644
--- a/hexrd/core/utils/yaml.py
+++ b/hexrd/core/utils/yaml.py
@@ -14,7 +14,7 @@ class NumpyToNativeDumper(yaml.SafeDumper):
 
     def represent_data(self, data):
         if isinstance(data, np.ndarray):
-            return self.represent_list(data.tolist())
+            return self.represent_data(data.tolist())
         elif isinstance(data, (np.generic, np.number)):
             item = data.item()
             if isinstance(item, (np.generic, np.number)):
-- 
2.43.0


From b0341ba0391b7b1fc620bfee8b65a202dae87a79 Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Wed, 18 Nov 2026 19:41:10 +0000
Subject: [PATCH 39/92] fix: load each module only once, also submodules of
 relocated packages that are new

---
 hexrd/module_map.py | 51 +++++++++++++++++++++++++++++++++++++--------
 1 file changed, 42 insertions(+), 9 deletions(-)

diff --git a/hexrd/module_map.py b/hexrd/module_map.py
index d40341f..ac94df8 100644
--- a/hexrd/module_map.py
+++ b/hexrd/module_map.py
@@ -4,6 +4,7 @@ from collections import defaultdict
 import importlib
 import importlib.abc
 import importlib.machinery
+import importlib.util
 from pathlib import Path
 import sys
 from typing import Union
@@ -39,6 +40,8 @@ with open(HEXRD_PACKAGE_PATH / "file_table.tsv", "r") as f:
         file_map[Path(k)].append(Path(v))
 
 module_map: dict[str, tuple[str, Path]] = {}
+# All of the new modules that an old module was split into
+split_map: dict[str, list[str]] = {}
 
 for old_path, new_paths in file_map.items():
     if old_path.suffix not in ("", ".py") or not "hexrd" in old_path.parts:
@@ -54,6 +57,7 @@ for old_path, new_paths in file_map.items():
         path_to_module(selected_path),
         HEXRD_PACKAGE_PATH.parent / selected_path,
     )
+    split_map[old_module_path] = [path_to_module(p) for p in new_paths]
 
 
 class ModuleAlias:
@@ -119,6 +123,39 @@ class ModuleAliasImporter(importlib.abc.MetaPathFinder, importlib.abc.Loader):
                 origin=mapped_fp.as_posix(),
                 is_package=mapped_fp.name == "__init__.py",
             )
+
+        new_name = self._new_submodule_name(fullname)
+        if new_name is not None:
+            spec = importlib.util.find_spec(new_name)
+            return importlib.machinery.ModuleSpec(
+                fullname,
+                self,
+                origin=spec.origin,
+                is_package=spec.submodule_search_locations is not None,
+            )
+        return None
+
+    @staticmethod
+    def _new_submodule_name(fullname: str) -> Union[str, None]:
+        """
+        Find the new name of a submodule that is not mapped itself, but whose
+        parent package is known by an old name.
+
+        Otherwise, the other importers would load a second copy of the
+        submodule, under the old name.
+        """
+        parent, _, name = fullname.rpartition(".")
+        package = sys.modules.get(parent)
+        if package is None or package.__name__ == parent:
+            return None
+
+        for candidate in (package.__name__, *split_map.get(parent, [])):
+            new_name = f"{candidate}.{name}"
+            try:
+                if importlib.util.find_spec(new_name) is not None:
+                    return new_name
+            except ModuleNotFoundError:
+                pass
         return None
 
     def load_module(self, fullname):
@@ -127,7 +164,11 @@ class ModuleAliasImporter(importlib.abc.MetaPathFinder, importlib.abc.Loader):
         than to override it with create and exec_module.
         """
         if fullname not in module_map:
-            raise ImportError(f"Module {fullname} not found in module_map")
+            new_name = self._new_submodule_name(fullname)
+            if new_name is None:
+                raise ImportError(f"Module {fullname} not found in module_map")
+            sys.modules[fullname] = importlib.import_module(new_name)
+            return sys.modules[fullname]
 
         mapped_module, _mapped_fp = module_map[fullname]
         base_mod = importlib.import_module(mapped_module)
@@ -160,14 +201,6 @@ class ModuleAliasImporter(importlib.abc.MetaPathFinder, importlib.abc.Loader):
                 except Exception:
                     continue
 
-                if hasattr(base_mod, "__path__") and hasattr(cand_mod, "__path__"):
-                    try:
-                        for p in list(cand_mod.__path__):
-                            if p not in base_mod.__path__:
-                                base_mod.__path__.append(p)
-                    except Exception:
-                        pass
-
                 base_all = getattr(base_mod, "__all__", None)
                 cand_all = getattr(cand_mod, "__all__", None)
                 if cand_all:
-- 
2.43.0


From 1fd609f381d4cf6b31c77c3ab3ad33543244311f Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Wed, 18 Nov 2026 19:41:50 +0000
Subject: [PATCH 40/92] fix: let old packages be asked for submodules that
 moved to another package

---
 hexrd/module_map.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/hexrd/module_map.py b/hexrd/module_map.py
index ac94df8..fd12b21 100644
--- a/hexrd/module_map.py
+++ b/hexrd/module_map.py
@@ -107,6 +107,23 @@ class ModuleSpecWithParent(importlib.machinery.ModuleSpec):
         return self._parent
 
 
+def _submodule_getter(package: str):
+    """
+    Make a module-level `__getattr__` for `from package import submodule`
+    """
+
+    def __getattr__(name):
+        full_name = f"{package}.{name}"
+        if full_name in module_map:
+            try:
+                return importlib.import_module(full_name)
+            except ModuleNotFoundError:
+                pass
+        raise AttributeError(f"Module `{package}` has no attribute {name}")
+
+    return __getattr__
+
+
 class ModuleAliasImporter(importlib.abc.MetaPathFinder, importlib.abc.Loader):
     def find_spec(self, fullname, path, target=None):
         if fullname in module_map:
@@ -225,6 +242,10 @@ class ModuleAliasImporter(importlib.abc.MetaPathFinder, importlib.abc.Loader):
                     if name not in base_mod.__dict__:
                         base_mod.__dict__[name] = val
 
+        if hasattr(base_mod, "__path__"):
+            # The submodules may have moved to another package
+            base_mod.__dict__.setdefault("__getattr__", _submodule_getter(fullname))
+
         sys.modules[fullname] = base_mod
         return sys.modules[fullname]
 
-- 
2.43.0


From f9bde90b4ee93f8d3cc88457fe879af63171feb7 Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Wed, 18 Nov 2026 19:48:17 +0000
Subject: [PATCH 41/92] fix: importing a module by its old name does not hide a
 package's object of that name

---
 hexrd/module_map.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/hexrd/module_map.py b/hexrd/module_map.py
index fd12b21..6de5aae 100644
--- a/hexrd/module_map.py
+++ b/hexrd/module_map.py
@@ -246,6 +246,16 @@ class ModuleAliasImporter(importlib.abc.MetaPathFinder, importlib.abc.Loader):
             # The submodules may have moved to another package
             base_mod.__dict__.setdefault("__getattr__", _submodule_getter(fullname))
 
+            # Submodules that are already imported must not be imported again
+            # by their old name. This would set them as attributes of the
+            # package, also where it has another object of the same name.
+            for name in list(sys.modules):
+                package, _, child = name.rpartition(".")
+                if package == mapped_module:
+                    old_name = f"{fullname}.{child}"
+                    if module_map.get(old_name, (name,))[0] == name:
+                        sys.modules.setdefault(old_name, sys.modules[name])
+
         sys.modules[fullname] = base_mod
         return sys.modules[fullname]
 
-- 
2.43.0


From eb532365568a6e143a501c44c66dbcf4d7f1c97b Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Wed, 18 Nov 2026 20:00:55 +0000
Subject: [PATCH 42/92] fix: old packages give also the submodules that are new
 in a package they were split into

---
 hexrd/module_map.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hexrd/module_map.py b/hexrd/module_map.py
index 6de5aae..7f609ba 100644
--- a/hexrd/module_map.py
+++ b/hexrd/module_map.py
@@ -114,7 +114,10 @@ def _submodule_getter(package: str):
 
     def __getattr__(name):
         full_name = f"{package}.{name}"
-        if full_name in module_map:
+        if full_name in module_map or (
+            not name.startswith("__")
+            and ModuleAliasImporter._new_submodule_name(full_name) is not None
+        ):
             try:
                 return importlib.import_module(full_name)
             except ModuleNotFoundError:
-- 
2.43.0


From 72847f4c0271c3a67949cd74188d6a180362e361 Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Wed, 18 Nov 2026 20:39:05 +0000
Subject: [PATCH 43/92] fix: count the bins of a tolerance grid right when the
 width is a multiple of the bin width

---
 hexrd/core/gridutil.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/hexrd/core/gridutil.py b/hexrd/core/gridutil.py
index 39da717..4b8c28b 100644
--- a/hexrd/core/gridutil.py
+++ b/hexrd/core/gridutil.py
@@ -192,14 +192,22 @@ def make_tolerance_grid(
     one_sided=False,
 ):
     bin_width = min(bin_width, window_width)
+
+    # A window that is a multiple of the bin width has this many bins, also
+    # where the quotient is off by a rounding error (e.g. 0.9 / 0.3)
+    nbins = window_width / float(bin_width)
+    if np.isclose(nbins, np.round(nbins), rtol=1e-9, atol=0):
+        nbins = np.round(nbins)
+
     if adjust_window:
-        window_width = np.ceil(window_width / bin_width) * bin_width
+        nbins = np.ceil(nbins)
+        window_width = nbins * bin_width
     if one_sided:
-        ndiv = abs(int(window_width / bin_width))
+        ndiv = abs(int(nbins))
         grid = (np.arange(0, 2 * ndiv + 1) - ndiv) * bin_width
         ndiv *= 2
     else:
-        ndiv = int(num_subdivisions * np.ceil(window_width / float(bin_width)))
+        ndiv = int(num_subdivisions * np.ceil(nbins))
         grid = np.arange(0, ndiv + 1) * window_width / float(ndiv) - 0.5 * window_width
     return ndiv, grid
 
-- 
2.43.0


From 45cb7d0099e89f982716325031dbb9d9acc54556 Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Wed, 18 Nov 2026 20:39:05 +0000
Subject: [PATCH 44/92] fix: compute the areas of cells that are not
 parallelograms

---
 hexrd/core/gridutil.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hexrd/core/gridutil.py b/hexrd/core/gridutil.py
index 4b8c28b..c0e55f1 100644
--- a/hexrd/core/gridutil.py
+++ b/hexrd/core/gridutil.py
@@ -161,6 +161,7 @@ def compute_areas(xy_eval_vtx, conn):
             v1x = vtx_x - vtx0x
             v1y = vtx_y - vtx0y
             acc += v0x * v1y - v1x * v0y
+            v0x, v0y = v1x, v1y
 
         areas[i] = 0.5 * acc
     return areas
-- 
2.43.0


From a2e5a2d755079e6b51015cf2657f89529ef4d085 Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Wed, 18 Nov 2026 20:39:05 +0000
Subject: [PATCH 45/92] fix: find the bin of points on the first of descending
 edges, and of integers

---
 hexrd/core/gridutil.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hexrd/core/gridutil.py b/hexrd/core/gridutil.py
index c0e55f1..f701bfa 100644
--- a/hexrd/core/gridutil.py
+++ b/hexrd/core/gridutil.py
@@ -65,7 +65,7 @@ def cellIndices(edges, points_1d):
 
     assert len(edges) >= 2, "must have at least 2 edges"
 
-    points_1d = np.r_[points_1d].flatten()
+    points_1d = np.r_[points_1d].flatten().astype(float)
     delta = float(edges[1] - edges[0])
 
     if delta > 0:
@@ -75,6 +75,8 @@ def cellIndices(edges, points_1d):
     elif delta < 0:
         on_last_rhs = points_1d <= edges[-1] + ztol
         points_1d[on_last_rhs] = points_1d[on_last_rhs] + ztol
+        on_first_lhs = np.abs(points_1d - edges[0]) <= ztol
+        points_1d[on_first_lhs] = points_1d[on_first_lhs] - ztol
         idx = np.ceil((points_1d - edges[0]) / delta) - 1
     else:
         raise RuntimeError("edges array gives delta of 0")
-- 
2.43.0


From abb39d1b2f8df5ce103591f623fd2599ad76b199 Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Wed, 18 Nov 2026 20:40:40 +0000
Subject: [PATCH 46/92] fix: keep clipped polygons inside when an edge lies
 along the clip boundary

---
 hexrd/core/gridutil.py | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/hexrd/core/gridutil.py b/hexrd/core/gridutil.py
index f701bfa..2c99255 100644
--- a/hexrd/core/gridutil.py
+++ b/hexrd/core/gridutil.py
@@ -270,6 +270,22 @@ def isinside(point, boundary, ccw=True):
     return inside
 
 
+def _cutSegment(point1, point2, boundary):
+    """
+    The point of the segment between two points that lie on different sides of
+    the boundary line where it meets the line.
+
+    Unlike the intersection of the two lines, this is a point of the segment
+    also when the segment is parallel to the boundary but for rounding errors.
+    """
+    vec = boundary[1, :] - boundary[0, :]
+    rel1 = point1 - boundary[0, :]
+    rel2 = point2 - boundary[0, :]
+    dist1 = rel1[0] * vec[1] - rel1[1] * vec[0]
+    dist2 = rel2[0] * vec[1] - rel2[1] * vec[0]
+    return point1 + (point2 - point1) * (dist1 / (dist1 - dist2))
+
+
 def sutherlandHodgman(subjectPolygon, clipPolygon):
     """
     https://en.wikipedia.org/wiki/Sutherland%E2%80%93Hodgman_algorithm
@@ -301,16 +317,16 @@ def sutherlandHodgman(subjectPolygon, clipPolygon):
 
             if isinside(curr_subjectVertex, clipBoundary):
                 if not isinside(prev_subjectVertex, clipBoundary):
-                    subjectLineSegment = np.vstack(
-                        [curr_subjectVertex, prev_subjectVertex]
-                    )
                     outputList.append(
-                        computeIntersection(subjectLineSegment, clipBoundary)
+                        _cutSegment(
+                            curr_subjectVertex, prev_subjectVertex, clipBoundary
+                        )
                     )
                 outputList.append(curr_subjectVertex)
             elif isinside(prev_subjectVertex, clipBoundary):
-                subjectLineSegment = np.vstack([curr_subjectVertex, prev_subjectVertex])
-                outputList.append(computeIntersection(subjectLineSegment, clipBoundary))
+                outputList.append(
+                    _cutSegment(curr_subjectVertex, prev_subjectVertex, clipBoundary)
+                )
             prev_subjectVertex = curr_subjectVertex
             prev_clipVertex = curr_clipVertex
     return outputList
-- 
2.43.0


From 248eec54955211d068cd13ef71ed4b347dc54d94 Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Wed, 18 Nov 2026 20:44:12 +0000
Subject: [PATCH 47/92] fix: place the pixels of chunked panels where the
 pixels of the panel are

---
 hexrd/core/instrument/hedm_instrument.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hexrd/core/instrument/hedm_instrument.py b/hexrd/core/instrument/hedm_instrument.py
index 7ee65be..9b33513 100644
--- a/hexrd/core/instrument/hedm_instrument.py
+++ b/hexrd/core/instrument/hedm_instrument.py
@@ -209,7 +209,8 @@ def chunk_instrument(instr, rects, labels, use_roi=False):
 
             row_col_dim = np.diff(rect)  # (2, 1)
             shape = tuple(row_col_dim.flatten())
-            center = rect[:, 0].reshape(2, 1) + 0.5 * row_col_dim
+            # !!! in pixel coordinates, where the pixel centers are integers
+            center = rect[:, 0].reshape(2, 1) + 0.5 * row_col_dim - 0.5
 
             sp_tvec = np.concatenate(
                 [panel.pixelToCart(center.T).flatten(), np.zeros(1)]
-- 
2.43.0


From bb134daa670d556663d17fbbcbad25cf4f73c17b Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Wed, 18 Nov 2026 20:44:12 +0000
Subject: [PATCH 48/92] fix: do not truncate interpolated intensities of
 integer images

---
 hexrd/core/instrument/detector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hexrd/core/instrument/detector.py b/hexrd/core/instrument/detector.py
index 78df625..33894f2 100644
--- a/hexrd/core/instrument/detector.py
+++ b/hexrd/core/instrument/detector.py
@@ -2074,7 +2074,7 @@ def _interpolate_bilinear(
 ) -> NDArray[np.float64]:
     # The math is faster and uses the GIL less (which is more
     # multi-threading friendly) when we run this code in numba.
-    result = np.zeros(i_floor_img.shape[0], dtype=img.dtype)
+    result = np.zeros(i_floor_img.shape[0], dtype=np.float64)
     on_panel_idx = np.arange(i_floor_img.shape[0])
     _interpolate_bilinear_in_place(
         img,
-- 
2.43.0


From 9c35706c370b94d9cff942b624ed840630d0cdeb Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Wed, 18 Nov 2026 20:44:12 +0000
Subject: [PATCH 49/92] fix: nearest interpolation reads the pixel that
 contains the point

---
 hexrd/core/instrument/detector.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hexrd/core/instrument/detector.py b/hexrd/core/instrument/detector.py
index 33894f2..8c98c77 100644
--- a/hexrd/core/instrument/detector.py
+++ b/hexrd/core/instrument/detector.py
@@ -1117,8 +1117,8 @@ class Detector:
         xy_clip, on_panel = self.clip_to_panel(xy, buffer_edges=True)
 
         # get pixel indices of clipped points
-        i_src = cellIndices(self.row_pixel_vec, xy_clip[:, 1])
-        j_src = cellIndices(self.col_pixel_vec, xy_clip[:, 0])
+        i_src = cellIndices(self.row_edge_vec, xy_clip[:, 1])
+        j_src = cellIndices(self.col_edge_vec, xy_clip[:, 0])
 
         # next interpolate across cols
         int_vals = img[i_src, j_src]
-- 
2.43.0


From e3a3831026c05712d4868b460eda3d577db8f21e Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Wed, 18 Nov 2026 20:44:12 +0000
Subject: [PATCH 50/92] fix: find the pixels of patches on panels with pixels
 that are not square

---
 hexrd/hedm/xrdutil/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hexrd/hedm/xrdutil/utils.py b/hexrd/hedm/xrdutil/utils.py
index 77c9c45..8b208eb 100644
--- a/hexrd/hedm/xrdutil/utils.py
+++ b/hexrd/hedm/xrdutil/utils.py
@@ -860,8 +860,8 @@ def make_reflection_patches(
         -0.5 * np.r_[frame_ncols * pixel_size[1], frame_nrows * pixel_size[0]],
         0.5 * np.r_[frame_ncols * pixel_size[1], frame_nrows * pixel_size[0]],
     )
-    row_edges = np.arange(frame_nrows + 1)[::-1] * pixel_size[1] + panel_dims[0][1]
-    col_edges = np.arange(frame_ncols + 1) * pixel_size[0] + panel_dims[0][0]
+    row_edges = np.arange(frame_nrows + 1)[::-1] * pixel_size[0] + panel_dims[0][1]
+    col_edges = np.arange(frame_ncols + 1) * pixel_size[1] + panel_dims[0][0]
 
     # handle distortion
     distortion = None
-- 
2.43.0


From 991acede4122653e413b2e23cd0b9c862e4c310a Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Wed, 18 Nov 2026 20:44:12 +0000
Subject: [PATCH 51/92] fix: crop every image of a shared 3-d array to the
 panel

---
 hexrd/core/instrument/hedm_instrument.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/hexrd/core/instrument/hedm_instrument.py b/hexrd/core/instrument/hedm_instrument.py
index 9b33513..df85075 100644
--- a/hexrd/core/instrument/hedm_instrument.py
+++ b/hexrd/core/instrument/hedm_instrument.py
@@ -330,10 +330,8 @@ def _parse_imgser_dict(
                 ncols = roi[1][1] - roi[1][0]
                 n_images = len(images_in)
                 ims = np.empty((n_images, nrows, ncols), dtype=images_in.dtype)
-                for i, image in images_in:  # TODO: Is this meant to be an enumerate?
-                    ims[i, :, :] = images_in[
-                        roi[0][0] : roi[0][1], roi[1][0] : roi[1][1]
-                    ]
+                for i, image in enumerate(images_in):
+                    ims[i, :, :] = image[roi[0][0] : roi[0][1], roi[1][0] : roi[1][1]]
             else:
                 raise RuntimeError(f"image input dim must be 2 or 3; you gave {ndim}")
     return ims
-- 
2.43.0


From 48a99fa3de6bce5cb01a199532e014e1f1a17510 Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Wed, 18 Nov 2026 20:44:12 +0000
Subject: [PATCH 52/92] fix: accept panel buffers given as a scalar or a list

---
 hexrd/core/instrument/detector.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/hexrd/core/instrument/detector.py b/hexrd/core/instrument/detector.py
index 8c98c77..95bfda2 100644
--- a/hexrd/core/instrument/detector.py
+++ b/hexrd/core/instrument/detector.py
@@ -285,7 +285,7 @@ class Detector:
 
         self._saturation_level = saturation_level
 
-        self._panel_buffer = panel_buffer
+        self._panel_buffer = _normalize_panel_buffer(panel_buffer)
 
         self._tth_distortion = tth_distortion
 
@@ -395,6 +395,7 @@ class Detector:
     @panel_buffer.setter
     def panel_buffer(self, x):
         """if not None, a buffer in mm (x, y)"""
+        x = _normalize_panel_buffer(x)
         if x is not None:
             assert isinstance(x, str) or len(x) == 2 or x.ndim == 2
         self._panel_buffer = x
@@ -2052,6 +2053,17 @@ def _fix_indices(idx, lo, hi):
     return nidx
 
 
+def _normalize_panel_buffer(panel_buffer):
+    # The scalars and array-likes that are allowed, as arrays
+    if panel_buffer is None or isinstance(panel_buffer, str):
+        return panel_buffer
+
+    panel_buffer = np.asarray(panel_buffer)
+    if panel_buffer.ndim == 0:
+        panel_buffer = panel_buffer * np.ones(2)
+    return panel_buffer
+
+
 def _row_edge_vec(rows, pixel_size_row):
     return pixel_size_row * (0.5 * rows - np.arange(rows + 1))
 
-- 
2.43.0


From a88c6d3caf29baaa563a328891ca268402cb4f7f Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Wed, 18 Nov 2026 20:45:50 +0000
Subject: [PATCH 53/92] fix: let the region of interest of a panel follow its
 size

---
 hexrd/core/instrument/detector.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hexrd/core/instrument/detector.py b/hexrd/core/instrument/detector.py
index 95bfda2..9d45639 100644
--- a/hexrd/core/instrument/detector.py
+++ b/hexrd/core/instrument/detector.py
@@ -416,7 +416,11 @@ class Detector:
 
     @property
     def roi(self):
-        return self._roi
+        if self._roi is None:
+            return None
+        # !!! the size of the panel may have changed since it was set
+        (r0, _), (c0, _) = self._roi
+        return ((r0, r0 + self.rows), (c0, c0 + self.cols))
 
     @roi.setter
     def roi(self, vertex_array):
-- 
2.43.0


From 6f38fe75e3cd457ea0077a0b32bbe6fd3d7889d8 Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Wed, 18 Nov 2026 21:03:47 +0000
Subject: [PATCH 54/92] fix: find the distortion parameters of a detector whose
 name ends another's

---
 hexrd/core/fitting/calibration/lmfit_param_handling.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/hexrd/core/fitting/calibration/lmfit_param_handling.py b/hexrd/core/fitting/calibration/lmfit_param_handling.py
index dc359e2..8d649a9 100644
--- a/hexrd/core/fitting/calibration/lmfit_param_handling.py
+++ b/hexrd/core/fitting/calibration/lmfit_param_handling.py
@@ -381,12 +381,14 @@ def update_unconstrained_detector_parameters(instr, params, euler_convention):
             rad = params[f'{det}_radius'].value
             detector.radius = rad
 
-        distortion_str = f'{det}_distortion_param'
-        if any(distortion_str in p for p in params):
+        # !!! a name may be the end of another detector's name
+        distortion_str = f'{det}_distortion_param_'
+        names = [p for p in params if p.startswith(distortion_str)]
+        if names:
             if detector.distortion is None:
                 raise RuntimeError(f"distortion discrepancy for '{det}'!")
             else:
-                names = np.sort([p for p in params if distortion_str in p])
+                names.sort(key=lambda p: int(p.removeprefix(distortion_str)))
                 distortion = np.r_[[params[n].value for n in names]]
                 try:
                     detector.distortion.params = distortion
-- 
2.43.0


From b73898bb19be7f9c585e5de19412340bceba398e Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Wed, 18 Nov 2026 21:03:47 +0000
Subject: [PATCH 55/92] fix: shift constrained detectors whose translation was
 given in integers

---
 hexrd/core/fitting/calibration/lmfit_param_handling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hexrd/core/fitting/calibration/lmfit_param_handling.py b/hexrd/core/fitting/calibration/lmfit_param_handling.py
index 8d649a9..d1e270b 100644
--- a/hexrd/core/fitting/calibration/lmfit_param_handling.py
+++ b/hexrd/core/fitting/calibration/lmfit_param_handling.py
@@ -449,7 +449,7 @@ def _update_constrained_detector_parameters(
 
         diff = new_tvec - tvec
         for panel in detectors:
-            panel.tvec += diff
+            panel.tvec = panel.tvec + diff
 
         # Update the tvec
         tvec[:] = new_tvec
-- 
2.43.0


From 9c586c4c02a52b139f30e16df63bdac197687fc1 Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Wed, 18 Nov 2026 21:03:47 +0000
Subject: [PATCH 56/92] fix: allow dashes in beam names in the calibration
 parameters

---
 hexrd/core/fitting/calibration/lmfit_param_handling.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hexrd/core/fitting/calibration/lmfit_param_handling.py b/hexrd/core/fitting/calibration/lmfit_param_handling.py
index d1e270b..07fdc38 100644
--- a/hexrd/core/fitting/calibration/lmfit_param_handling.py
+++ b/hexrd/core/fitting/calibration/lmfit_param_handling.py
@@ -248,7 +248,8 @@ def add_group_constrained_detector_parameters(
 def create_beam_param_names(instr: HEDMInstrument) -> dict[str, dict[str, str]]:
     param_names = {}
     for k in instr.beam_dict.keys():
-        prefix = f'{k}_' if instr.has_multi_beam else ''
+        # lmfit doesn't like '-' in names
+        prefix = f'{k}_'.replace('-', '_') if instr.has_multi_beam else ''
         param_names[k] = {
             'beam_polar': f'{prefix}beam_polar',
             'beam_azimuth': f'{prefix}beam_azimuth',
@@ -558,7 +559,8 @@ def tth_parameter_prefixes(instr: HEDMInstrument) -> dict[str, str]:
     if len(beam_names) == 1:
         return {beam_names[0]: prefix}
 
-    return {name: f'{name}_{prefix}' for name in beam_names}
+    # lmfit doesn't like '-' in names
+    return {name: f'{name}_{prefix}'.replace('-', '_') for name in beam_names}
 
 
 def create_material_params(material, refinements=None):
-- 
2.43.0


From 0fef1f89c4eb14242012af36a58fbb8d243cb0d2 Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Wed, 18 Nov 2026 21:03:47 +0000
Subject: [PATCH 57/92] fix: describe detectors without a saturation level

---
 hexrd/core/instrument/detector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hexrd/core/instrument/detector.py b/hexrd/core/instrument/detector.py
index 9d45639..432201d 100644
--- a/hexrd/core/instrument/detector.py
+++ b/hexrd/core/instrument/detector.py
@@ -897,7 +897,7 @@ class Detector:
         # saturation level
         if sat_level is None:
             sat_level = self.saturation_level
-        det_dict['saturation_level'] = float(sat_level)
+        det_dict['saturation_level'] = None if sat_level is None else float(sat_level)
 
         # panel buffer
         if panel_buffer is None:
-- 
2.43.0


From 458442dbe01b0eb3bb983d10b44d4e655c96f87f Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Wed, 18 Nov 2026 21:03:47 +0000
Subject: [PATCH 58/92] fix: name the only beam after the active beam that was
 asked for

---
 hexrd/core/instrument/hedm_instrument.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hexrd/core/instrument/hedm_instrument.py b/hexrd/core/instrument/hedm_instrument.py
index df85075..0070c80 100644
--- a/hexrd/core/instrument/hedm_instrument.py
+++ b/hexrd/core/instrument/hedm_instrument.py
@@ -821,7 +821,7 @@ class HEDMInstrument(object):
         return self._beam_dict
 
     def _create_default_beam(self):
-        name = 'XRS1'
+        name = self._active_beam_name or 'XRS1'
         self._beam_dict[name] = {
             'energy': beam_energy_DFLT,
             'vector': beam_vec_DFLT.copy(),
-- 
2.43.0


From 29a11cddd515552145f540d4409762da4c79b00d Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Wed, 18 Nov 2026 21:03:55 +0000
Subject: [PATCH 59/92] fix: accept source distances that are numpy numbers, as
 HDF5 files give them

---
 hexrd/core/instrument/detector.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hexrd/core/instrument/detector.py b/hexrd/core/instrument/detector.py
index 432201d..e29e8bf 100644
--- a/hexrd/core/instrument/detector.py
+++ b/hexrd/core/instrument/detector.py
@@ -3,6 +3,7 @@ from __future__ import annotations
 from abc import abstractmethod
 import copy
 import logging
+import numbers
 import os
 from typing import Literal, Optional, TYPE_CHECKING, Sequence, overload
 
@@ -520,7 +521,7 @@ class Detector:
     @xrs_dist.setter
     def xrs_dist(self, x):
         if x is not None:
-            if not isinstance(x, (float, int)):
+            if not isinstance(x, numbers.Real):
                 raise ValueError('xrs_dist must be a scalar value')
         self._xrs_dist = x
 
-- 
2.43.0


From 9f64dd214578f0f366f07f0d6943e3a8df958b71 Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Wed, 18 Nov 2026 21:04:59 +0000
Subject: [PATCH 60/92] fix: let grain calibrators use the default Euler
 convention

---
 hexrd/core/fitting/calibration/abstract_grain.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/hexrd/core/fitting/calibration/abstract_grain.py b/hexrd/core/fitting/calibration/abstract_grain.py
index 5ee41ed..da17caa 100644
--- a/hexrd/core/fitting/calibration/abstract_grain.py
+++ b/hexrd/core/fitting/calibration/abstract_grain.py
@@ -13,6 +13,7 @@ from .calibrator import Calibrator
 from .lmfit_param_handling import (
     create_grain_params,
     DEFAULT_EULER_CONVENTION,
+    normalize_euler_convention,
     rename_to_avoid_collision,
 )
 
@@ -99,6 +100,11 @@ class AbstractGrainCalibrator(Calibrator):
     def strain_param_names(self) -> list[str]:
         return self.param_names[6:]
 
+    def _make_rme(self):
+        # !!! the convention may be a dict or a tuple
+        axes_order, extrinsic = normalize_euler_convention(self.euler_convention)
+        return RotMatEuler(np.zeros(3), axes_order=axes_order, extrinsic=extrinsic)
+
     @property
     def grain_params_euler(self):
         # Grain parameters with orientation set using Euler angle convention
@@ -106,7 +112,7 @@ class AbstractGrainCalibrator(Calibrator):
             return self.grain_params
 
         grain_params = self.grain_params.copy()
-        rme = RotMatEuler(np.zeros(3), **self.euler_convention)
+        rme = self._make_rme()
         rme.rmat = xfcapi.make_rmat_of_expmap(grain_params[:3])
         grain_params[:3] = np.degrees(rme.angles)
         return grain_params
@@ -116,12 +122,7 @@ class AbstractGrainCalibrator(Calibrator):
         # Grain parameters with orientation set using Euler angle convention
         grain_params = v.copy()
         if self.euler_convention is not None:
-            rme = RotMatEuler(
-                np.zeros(
-                    3,
-                ),
-                **self.euler_convention
-            )
+            rme = self._make_rme()
             rme.angles = np.radians(grain_params[:3])
             phi, n = angleAxisOfRotMat(rme.rmat)
             grain_params[:3] = phi * n.flatten()
-- 
2.43.0


From be31902c2f47672adc2ee9edf9a6bfd8e9513541 Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Wed, 18 Nov 2026 21:16:49 +0000
Subject: [PATCH 61/92] fix: keep an instrument's energy correction apart from
 the dictionaries it came from

---
 hexrd/core/instrument/hedm_instrument.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/hexrd/core/instrument/hedm_instrument.py b/hexrd/core/instrument/hedm_instrument.py
index 0070c80..f6b84de 100644
--- a/hexrd/core/instrument/hedm_instrument.py
+++ b/hexrd/core/instrument/hedm_instrument.py
@@ -592,7 +592,9 @@ class HEDMInstrument(object):
                         xrs_config['vector']['polar_angle'],
                     ),
                     'distance': xrs_config.get('source_distance', np.inf),
-                    'energy_correction': xrs_config.get('energy_correction', None),
+                    'energy_correction': copy.deepcopy(
+                        xrs_config.get('energy_correction', None)
+                    ),
                 }
             else:
                 # Multi beam load
@@ -604,7 +606,9 @@ class HEDMInstrument(object):
                             beam['vector']['polar_angle'],
                         ),
                         'distance': beam.get('source_distance', np.inf),
-                        'energy_correction': beam.get('energy_correction', None),
+                        'energy_correction': copy.deepcopy(
+                            beam.get('energy_correction', None)
+                        ),
                     }
 
             # Set the active beam name if not set already
@@ -936,7 +940,8 @@ class HEDMInstrument(object):
                     f'energy_correction keys do not match required keys.\nGot: {keys}\nExpected: {default_keys}'
                 )
 
-        self.active_beam['energy_correction'] = v
+        # The dict belongs to the caller; calibration changes ours
+        self.active_beam['energy_correction'] = copy.deepcopy(v)
 
     @staticmethod
     def create_default_energy_correction() -> dict[str, float | str]:
@@ -992,7 +997,9 @@ class HEDMInstrument(object):
                 beam_dict[beam_name]['source_distance'] = beam['distance']
 
             if beam.get('energy_correction') is not None:
-                beam_dict[beam_name]['energy_correction'] = beam['energy_correction']
+                beam_dict[beam_name]['energy_correction'] = copy.deepcopy(
+                    beam['energy_correction']
+                )
 
         if len(beam_dict) == 1:
             # Just write it out a single beam (classical way)
-- 
2.43.0


From 4f99598b3b401fc3e53d6c42ca84ac719c9153cc Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Wed, 18 Nov 2026 21:16:49 +0000
Subject: [PATCH 62/92] fix: keep an instrument's eta vector apart from the
 array it was given

---
 hexrd/core/instrument/hedm_instrument.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hexrd/core/instrument/hedm_instrument.py b/hexrd/core/instrument/hedm_instrument.py
index f6b84de..758070c 100644
--- a/hexrd/core/instrument/hedm_instrument.py
+++ b/hexrd/core/instrument/hedm_instrument.py
@@ -550,7 +550,8 @@ class HEDMInstrument(object):
         if eta_vector is None:
             self._eta_vector = eta_vec_DFLT
         else:
-            self._eta_vector = eta_vector
+            # The panels copy it as well
+            self._eta_vector = np.array(eta_vector).flatten()
 
         self.max_workers = max_workers
 
-- 
2.43.0


From da79548fb56c7984f8b8aae44573236c0617235b Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Wed, 18 Nov 2026 21:28:34 +0000
Subject: [PATCH 63/92] fix: build grain calibrators' rotations from either
 form of Euler convention

---
 hexrd/core/fitting/calibration/abstract_grain.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/hexrd/core/fitting/calibration/abstract_grain.py b/hexrd/core/fitting/calibration/abstract_grain.py
index da17caa..b32ea28 100644
--- a/hexrd/core/fitting/calibration/abstract_grain.py
+++ b/hexrd/core/fitting/calibration/abstract_grain.py
@@ -13,7 +13,6 @@ from .calibrator import Calibrator
 from .lmfit_param_handling import (
     create_grain_params,
     DEFAULT_EULER_CONVENTION,
-    normalize_euler_convention,
     rename_to_avoid_collision,
 )
 
@@ -102,8 +101,10 @@ class AbstractGrainCalibrator(Calibrator):
 
     def _make_rme(self):
         # !!! the convention may be a dict or a tuple
-        axes_order, extrinsic = normalize_euler_convention(self.euler_convention)
-        return RotMatEuler(np.zeros(3), axes_order=axes_order, extrinsic=extrinsic)
+        if isinstance(self.euler_convention, dict):
+            return RotMatEuler(np.zeros(3), **self.euler_convention)
+
+        return RotMatEuler(np.zeros(3), *self.euler_convention)
 
     @property
     def grain_params_euler(self):
-- 
2.43.0


From b2278f9cb1a97c3f4abb10be35dd317cf6231987 Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Wed, 18 Nov 2026 22:09:32 +0000
Subject: [PATCH 64/92] fix: score every orientation when there are fewer of
 them than processes

---
 hexrd/hedm/indexer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hexrd/hedm/indexer.py b/hexrd/hedm/indexer.py
index 7b657a8..5c6beaa 100644
--- a/hexrd/hedm/indexer.py
+++ b/hexrd/hedm/indexer.py
@@ -295,7 +295,7 @@ def paintGrid(
 
     if multiProcMode:
         nCPUs = nCPUs or nCPUs_DFLT
-        chunksize = min(quats.shape[1] // nCPUs, 10)
+        chunksize = max(1, min(quats.shape[1] // nCPUs, 10))
         logger.debug(
             "using multiprocessing with %d processes and a chunk size of %d",
             nCPUs,
-- 
2.43.0


From 45b42fcf684ffd8ff260e7d4244fe987d4cd8501 Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Wed, 18 Nov 2026 22:09:32 +0000
Subject: [PATCH 65/92] fix: refuse overlapping angle ranges and accept any
 number of disjoint ones in paintGrid

---
 hexrd/hedm/indexer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hexrd/hedm/indexer.py b/hexrd/hedm/indexer.py
index 5c6beaa..ec590f3 100644
--- a/hexrd/hedm/indexer.py
+++ b/hexrd/hedm/indexer.py
@@ -461,7 +461,8 @@ def _normalize_ranges(
         new_result[-1] = offset + two_pi
         result = new_result
 
-    if not np.all(starts[1:] > stops[0:-2]):
+    # the ends of disjoint ranges are in ascending order
+    if np.any(np.diff(result) < -1e-8):
         raise ValueError("Angle ranges overlap")
 
     return result
-- 
2.43.0


From 47eba74e6b0fb9b3ff8c1be82fdc956a3366c67e Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Wed, 18 Nov 2026 22:09:32 +0000
Subject: [PATCH 66/92] fix: raise for invalid angle ranges in paintGrid with
 multiprocessing instead of hanging

---
 hexrd/hedm/indexer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hexrd/hedm/indexer.py b/hexrd/hedm/indexer.py
index ec590f3..97cb516 100644
--- a/hexrd/hedm/indexer.py
+++ b/hexrd/hedm/indexer.py
@@ -340,7 +340,10 @@ def paintGrid(
     start = timeit.default_timer()
     retval = None
     if multiProcMode:
-        # multiple process version
+        # multiple process version; bad ranges must be found out before the
+        # workers start, as a pool replaces the ones that fail endlessly
+        _normalize_ranges(etaMin, etaMax, -np.pi)
+        _normalize_ranges(omeMin, omeMax, min(omePeriod))
         pool = constants.mp_context.Pool(nCPUs, paintgrid_init, (params,))
         retval = pool.map(paintGridThis, quats.T, chunksize=chunksize)
         pool.close()
-- 
2.43.0


From dd3d5a8e2446fbb407a9d45c6af3c7fd17bd958a Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Wed, 18 Nov 2026 22:09:32 +0000
Subject: [PATCH 67/92] fix: leave missing values out of the automatic
 threshold of paintGrid

---
 hexrd/hedm/indexer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hexrd/hedm/indexer.py b/hexrd/hedm/indexer.py
index 97cb516..12406b3 100644
--- a/hexrd/hedm/indexer.py
+++ b/hexrd/hedm/indexer.py
@@ -232,8 +232,8 @@ def paintGrid(
         for i in range(nHKLS):
             threshold[i] = np.mean(
                 np.r_[
-                    np.mean(etaOmeMaps.dataStore[i]),
-                    np.median(etaOmeMaps.dataStore[i]),
+                    np.nanmean(etaOmeMaps.dataStore[i]),
+                    np.nanmedian(etaOmeMaps.dataStore[i]),
                 ]
             )
     elif threshold is not None and not hasattr(threshold, "__len__"):
-- 
2.43.0


From 15e213238883d271e842588d677776cd1a1ba3be Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Wed, 18 Nov 2026 22:09:32 +0000
Subject: [PATCH 68/92] fix: hand positional arguments on to the function in
 GenericMultiprocessing

---
 hexrd/core/utils/multiprocess_generic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hexrd/core/utils/multiprocess_generic.py b/hexrd/core/utils/multiprocess_generic.py
index 0cad378..a578233 100644
--- a/hexrd/core/utils/multiprocess_generic.py
+++ b/hexrd/core/utils/multiprocess_generic.py
@@ -41,7 +41,7 @@ class GenericMultiprocessing:
         logger.info(f"Number of CPUs: {nprocs} - Running on all of them.")
 
         for i in range(nprocs):
-            pass_args = [func, q_in, q_out]
+            pass_args = [func, q_in, q_out, *args]
 
             p = Process(target=self._func_queue, args=tuple(pass_args), kwargs=kwargs)
 
-- 
2.43.0


From e8c0226c499a153d15c892322dec0245c0d4b329 Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Wed, 18 Nov 2026 22:09:32 +0000
Subject: [PATCH 69/92] fix: do not assume the kind of result in
 GenericMultiprocessing

---
 hexrd/core/utils/multiprocess_generic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hexrd/core/utils/multiprocess_generic.py b/hexrd/core/utils/multiprocess_generic.py
index a578233..41b8400 100644
--- a/hexrd/core/utils/multiprocess_generic.py
+++ b/hexrd/core/utils/multiprocess_generic.py
@@ -26,7 +26,7 @@ class GenericMultiprocessing:
 
             res = func(var, *args, **kwargs)
             q_out.put((pos, res))
-            logger.info(f"Finished azimuthal position #{pos} with rwp={res[2]*100}%")
+            logger.info(f"Finished azimuthal position #{pos}")
 
     def parallelise_function(self, var, func, *args, **kwargs):
         """Split evaluations of func across processors"""
-- 
2.43.0


From 8966e1ead4ae5f8f24db881d7363f0be334198ed Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Wed, 18 Nov 2026 22:21:36 +0000
Subject: [PATCH 70/92] fix: count an atom given outside the unit cell, or on
 its faces, once

---
 hexrd/core/material/unitcell.py | 20 ++++++++++++++------
 hexrd/powder/wppf/phase.py      | 20 ++++++++++++--------
 2 files changed, 26 insertions(+), 14 deletions(-)

diff --git a/hexrd/core/material/unitcell.py b/hexrd/core/material/unitcell.py
index 85eca32..3213a91 100644
--- a/hexrd/core/material/unitcell.py
+++ b/hexrd/core/material/unitcell.py
@@ -534,7 +534,16 @@ class unitcell:
         # using wigner-sietz notation
         r = np.hstack((r, 1.0))
 
-        asym_pos = np.broadcast_to(r[0:3], [1, 3])
+        def reduce(rr):
+            # reduce to fundamental unitcell with fractional
+            # coordinates between 0-1
+            rr = np.modf(rr)[0]
+            rr[rr < 0.0] += 1.0
+            rr[np.abs(rr) < 1.0e-6] = 0.0
+            return rr
+
+        r0 = reduce(r[0:3]) if reduceToUC else r[0:3]
+        asym_pos = np.broadcast_to(r0, [1, 3])
 
         for symmat in self.SYM_SG:
             # get new position
@@ -542,16 +551,15 @@ class unitcell:
             rr = rnew[0:3]
 
             if reduceToUC:
-                # reduce to fundamental unitcell with fractional
-                # coordinates between 0-1
-                rr = np.modf(rr)[0]
-                rr[rr < 0.0] += 1.0
-                rr[np.abs(rr) < 1.0e-6] = 0.0
+                rr = reduce(rr)
 
             # check if this is new
             isnew = True
             for j in range(n):
                 v = rr - asym_pos[j]
+                if reduceToUC:
+                    # positions on opposite faces of the cell are the same
+                    v = v - np.round(v)
                 dist = self.CalcLength(v, "d")
                 if dist < 1e-3:
                     isnew = False
diff --git a/hexrd/powder/wppf/phase.py b/hexrd/powder/wppf/phase.py
index 96a0bcd..fc249ac 100644
--- a/hexrd/powder/wppf/phase.py
+++ b/hexrd/powder/wppf/phase.py
@@ -706,23 +706,27 @@ class Material_Rietveld(Material_LeBail):
             r = self.atom_pos[i, 0:3]
             r = np.hstack((r, 1.0))
 
-            asym_pos.append(np.broadcast_to(r[0:3], [1, 3]))
-
-            for symmat in self.SYM_SG:
-                # get new position
-                rnew = np.dot(symmat, r)
-
+            def reduce(rr):
                 # reduce to fundamental unitcell with fractional
                 # coordinates between 0-1
-                rr = rnew[0:3]
                 rr = np.modf(rr)[0]
                 rr[rr < 0.0] += 1.0
                 rr[np.abs(rr) < 1.0e-6] = 0.0
+                return rr
+
+            asym_pos.append(np.broadcast_to(reduce(r[0:3]), [1, 3]))
+
+            for symmat in self.SYM_SG:
+                # get new position
+                rnew = np.dot(symmat, r)
+                rr = reduce(rnew[0:3])
 
                 # check if this is new
                 isnew = True
                 for j in range(n):
-                    if np.sum(np.abs(rr - asym_pos[i][j, :])) < 1e-4:
+                    # positions on opposite faces of the cell are the same
+                    dr = rr - asym_pos[i][j, :]
+                    if np.sum(np.abs(dr - np.round(dr))) < 1e-4:
                         isnew = False
                         break
 
-- 
2.43.0


From a0ca47e6ba5dd45f5f0b7c05e0b0cc3b3ec20c4f Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Wed, 18 Nov 2026 22:21:49 +0000
Subject: [PATCH 71/92] fix: bound the reflection search by the direct axes so
 that none is lost in oblique cells

---
 hexrd/core/material/unitcell.py | 21 ++++-----------------
 hexrd/powder/wppf/phase.py      | 22 ++++------------------
 2 files changed, 8 insertions(+), 35 deletions(-)

diff --git a/hexrd/core/material/unitcell.py b/hexrd/core/material/unitcell.py
index 3213a91..74bf6ae 100644
--- a/hexrd/core/material/unitcell.py
+++ b/hexrd/core/material/unitcell.py
@@ -748,23 +748,10 @@ class unitcell:
     def CalcMaxGIndex(self):
         self.init_max_g_index()
 
-        while (
-            1.0 / self.CalcLength(np.array([self.ih, 0, 0], dtype=np.float64), "r")
-            > self.dmin
-        ):
-            self.ih = self.ih + 1
-
-        while (
-            1.0 / self.CalcLength(np.array([0, self.ik, 0], dtype=np.float64), "r")
-            > self.dmin
-        ):
-            self.ik = self.ik + 1
-
-        while (
-            1.0 / self.CalcLength(np.array([0, 0, self.il], dtype=np.float64), "r")
-            > self.dmin
-        ):
-            self.il = self.il + 1
+        # the planes of index h are at most |a|/h apart, and likewise k, l:
+        # the reciprocal axes are too short a bound if the cell is oblique
+        nmax = np.ceil(np.sqrt(np.diag(self.dmt)) / self.dmin - 1e-9)
+        self.ih, self.ik, self.il = (max(1, int(n)) for n in nmax)
 
     def InitializeInterpTable(self):
         f_anomalous_data = []
diff --git a/hexrd/powder/wppf/phase.py b/hexrd/powder/wppf/phase.py
index fc249ac..35b6612 100644
--- a/hexrd/powder/wppf/phase.py
+++ b/hexrd/powder/wppf/phase.py
@@ -330,24 +330,10 @@ class Material_LeBail(AbstractMaterial):
         self.SYM_PG_r_laue = self.SYM_PG_r_laue.astype(np.int32)
 
     def CalcMaxGIndex(self):
-        self.ih = 1
-        while (
-            1.0 / self.CalcLength(np.array([self.ih, 0, 0], dtype=np.float64), 'r')
-            > self.dmin
-        ):
-            self.ih = self.ih + 1
-        self.ik = 1
-        while (
-            1.0 / self.CalcLength(np.array([0, self.ik, 0], dtype=np.float64), 'r')
-            > self.dmin
-        ):
-            self.ik = self.ik + 1
-        self.il = 1
-        while (
-            1.0 / self.CalcLength(np.array([0, 0, self.il], dtype=np.float64), 'r')
-            > self.dmin
-        ):
-            self.il = self.il + 1
+        # the planes of index h are at most |a|/h apart, and likewise k, l:
+        # the reciprocal axes are too short a bound if the cell is oblique
+        nmax = np.ceil(np.sqrt(np.diag(self.dmt)) / self.dmin - 1e-9)
+        self.ih, self.ik, self.il = (max(1, int(n)) for n in nmax)
 
     def CalcStar(self, v, space, applyLaue=False):
         """
-- 
2.43.0


From 16465b21579cd43338f9bf32bb367b066e09352d Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Wed, 18 Nov 2026 22:21:58 +0000
Subject: [PATCH 72/92] fix: keep the reflections that the glide planes of Pa-3
 allow

---
 hexrd/core/material/spacegroup.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/hexrd/core/material/spacegroup.py b/hexrd/core/material/spacegroup.py
index f454f16..8298f32 100644
--- a/hexrd/core/material/spacegroup.py
+++ b/hexrd/core/material/spacegroup.py
@@ -801,12 +801,9 @@ def omitglideplaneabsences(sgnum, hkllist, plane, ip):
             mask5 = np.mod(hkllist[:, 1] + 100, 2) != 0
             mask6 = np.mod(hkllist[:, 2] + 100, 2) != 0
             if plane == 'a':
-                mask1 = np.logical_or(
-                    np.logical_and(mask1, mask5), np.logical_and(mask1, mask6)
-                )
-                mask2 = np.logical_or(
-                    np.logical_and(mask2, mask4), np.logical_and(mask2, mask6)
-                )
+                # 0kl: k = 2n, h0l: l = 2n, hk0: h = 2n
+                mask1 = np.logical_and(mask1, mask5)
+                mask2 = np.logical_and(mask2, mask6)
                 mask3 = np.logical_and(mask3, mask4)
                 mask = np.logical_not(np.logical_or(mask1, np.logical_or(mask2, mask3)))
             elif plane == 'b':
-- 
2.43.0


From b1bb6daf89f78d8e2f77cb43b3c8c92c7a889212 Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Wed, 18 Nov 2026 22:25:34 +0000
Subject: [PATCH 73/92] Revert "fix: bound the reflection search by the direct
 axes so that none is lost in oblique cells"

This reverts commit a0ca47e6ba5dd45f5f0b7c05e0b0cc3b3ec20c4f.
---
 hexrd/core/material/unitcell.py | 21 +++++++++++++++++----
 hexrd/powder/wppf/phase.py      | 22 ++++++++++++++++++----
 2 files changed, 35 insertions(+), 8 deletions(-)

diff --git a/hexrd/core/material/unitcell.py b/hexrd/core/material/unitcell.py
index 74bf6ae..3213a91 100644
--- a/hexrd/core/material/unitcell.py
+++ b/hexrd/core/material/unitcell.py
@@ -748,10 +748,23 @@ class unitcell:
     def CalcMaxGIndex(self):
         self.init_max_g_index()
 
-        # the planes of index h are at most |a|/h apart, and likewise k, l:
-        # the reciprocal axes are too short a bound if the cell is oblique
-        nmax = np.ceil(np.sqrt(np.diag(self.dmt)) / self.dmin - 1e-9)
-        self.ih, self.ik, self.il = (max(1, int(n)) for n in nmax)
+        while (
+            1.0 / self.CalcLength(np.array([self.ih, 0, 0], dtype=np.float64), "r")
+            > self.dmin
+        ):
+            self.ih = self.ih + 1
+
+        while (
+            1.0 / self.CalcLength(np.array([0, self.ik, 0], dtype=np.float64), "r")
+            > self.dmin
+        ):
+            self.ik = self.ik + 1
+
+        while (
+            1.0 / self.CalcLength(np.array([0, 0, self.il], dtype=np.float64), "r")
+            > self.dmin
+        ):
+            self.il = self.il + 1
 
     def InitializeInterpTable(self):
         f_anomalous_data = []
diff --git a/hexrd/powder/wppf/phase.py b/hexrd/powder/wppf/phase.py
index 35b6612..fc249ac 100644
--- a/hexrd/powder/wppf/phase.py
+++ b/hexrd/powder/wppf/phase.py
@@ -330,10 +330,24 @@ class Material_LeBail(AbstractMaterial):
         self.SYM_PG_r_laue = self.SYM_PG_r_laue.astype(np.int32)
 
     def CalcMaxGIndex(self):
-        # the planes of index h are at most |a|/h apart, and likewise k, l:
-        # the reciprocal axes are too short a bound if the cell is oblique
-        nmax = np.ceil(np.sqrt(np.diag(self.dmt)) / self.dmin - 1e-9)
-        self.ih, self.ik, self.il = (max(1, int(n)) for n in nmax)
+        self.ih = 1
+        while (
+            1.0 / self.CalcLength(np.array([self.ih, 0, 0], dtype=np.float64), 'r')
+            > self.dmin
+        ):
+            self.ih = self.ih + 1
+        self.ik = 1
+        while (
+            1.0 / self.CalcLength(np.array([0, self.ik, 0], dtype=np.float64), 'r')
+            > self.dmin
+        ):
+            self.ik = self.ik + 1
+        self.il = 1
+        while (
+            1.0 / self.CalcLength(np.array([0, 0, self.il], dtype=np.float64), 'r')
+            > self.dmin
+        ):
+            self.il = self.il + 1
 
     def CalcStar(self, v, space, applyLaue=False):
         """
-- 
2.43.0


From 84689c7c4eb86336582b9039047066fc55d978a7 Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Wed, 18 Nov 2026 23:04:44 +0000
Subject: [PATCH 74/92] fix: gvec_to_xy honours bmat, vmat_inv and several
 candidate positions

---
 hexrd/core/transforms/xfcapi.py | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/hexrd/core/transforms/xfcapi.py b/hexrd/core/transforms/xfcapi.py
index ab4fd52..0aa7598 100644
--- a/hexrd/core/transforms/xfcapi.py
+++ b/hexrd/core/transforms/xfcapi.py
@@ -246,8 +246,37 @@ def gvec_to_xy(
     """
     beam_vec = beam_vec if beam_vec is not None else cnst.beam_vec
 
+    # several candidate positions: one set of intersections for each
+    if tvec_c.ndim == 2 and tvec_c.shape[0] > 1 and tvec_c.shape[1] == 3:
+        return np.array(
+            [
+                gvec_to_xy(
+                    gvec_c,
+                    rmat_d,
+                    rmat_s,
+                    rmat_c,
+                    tvec_d,
+                    tvec_s,
+                    this_tvec_c,
+                    beam_vec=beam_vec,
+                    vmat_inv=vmat_inv,
+                    bmat=bmat,
+                )
+                for this_tvec_c in tvec_c
+            ]
+        )
+
     orig_ndim = gvec_c.ndim
-    gvec_c = np.ascontiguousarray(np.atleast_2d(gvec_c))
+    gvec_c = np.atleast_2d(gvec_c)
+    if bmat is not None:
+        gvec_c = np.dot(gvec_c, np.asarray(bmat).T)
+    if vmat_inv is not None:
+        # !!! vmat_inv is in the SAMPLE FRAME
+        gvec_c = gvec_c @ (rmat_c.T @ vmat_inv @ rmat_c).T
+    if bmat is not None or vmat_inv is not None:
+        gvec_c = unit_vector(gvec_c)
+
+    gvec_c = np.ascontiguousarray(gvec_c)
     rmat_d = np.ascontiguousarray(rmat_d)
     rmat_s = np.ascontiguousarray(rmat_s)
     rmat_c = np.ascontiguousarray(rmat_c)
-- 
2.43.0


From 65693fa06bfac716b0634be246aae537cf952901 Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Wed, 18 Nov 2026 23:04:44 +0000
Subject: [PATCH 75/92] fix: makeGVector normalizes each reciprocal lattice
 vector

---
 hexrd/core/transforms/xfcapi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hexrd/core/transforms/xfcapi.py b/hexrd/core/transforms/xfcapi.py
index 0aa7598..b58f1ca 100644
--- a/hexrd/core/transforms/xfcapi.py
+++ b/hexrd/core/transforms/xfcapi.py
@@ -169,7 +169,7 @@ def makeGVector(
     """
     if hkl.shape[0] != 3:
         raise ValueError('hkl input must be (3, n)')
-    return unit_vector(np.dot(bMat, hkl))
+    return unit_vector(np.dot(bMat, hkl).T).T
 
 
 def gvec_to_xy(
-- 
2.43.0


From 0f7ff38491050047dcf18cb2675dfae44afa456d Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Wed, 18 Nov 2026 23:05:54 +0000
Subject: [PATCH 76/92] fix: xy_to_gvec gives two theta of the undeflected beam
 as zero, not NaN

---
 hexrd/core/transforms/new_capi/xy_to_gvec.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hexrd/core/transforms/new_capi/xy_to_gvec.c b/hexrd/core/transforms/new_capi/xy_to_gvec.c
index 611a839..91e2d82 100644
--- a/hexrd/core/transforms/new_capi/xy_to_gvec.c
+++ b/hexrd/core/transforms/new_capi/xy_to_gvec.c
@@ -54,6 +54,9 @@ xy_to_gvec(size_t npts, double *xy, double *rMat_d, double *rMat_s,
         for (j=0; j<3; j++) {
             nrm += bVec[j]*dHat_l[j];
         }
+        /* guard against roundoff for undeflected (or back-scattered) rays */
+        if (nrm > 1.0) nrm = 1.0;
+        if (nrm < -1.0) nrm = -1.0;
         tTh[i] = acos(nrm);
 
         /* Compute eta */
-- 
2.43.0


From a0926ec0704872c8c2995ec1ff15f6dc1cd4e4ec Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Wed, 18 Nov 2026 23:06:29 +0000
Subject: [PATCH 77/92] fix: angles_to_cart does not derive signed sample
 angles by arccos

---
 hexrd/core/instrument/cylindrical_detector.py | 12 ++++------
 hexrd/core/instrument/planar_detector.py      | 24 +++++++++----------
 2 files changed, 15 insertions(+), 21 deletions(-)

diff --git a/hexrd/core/instrument/cylindrical_detector.py b/hexrd/core/instrument/cylindrical_detector.py
index fa9c2f3..a50d920 100644
--- a/hexrd/core/instrument/cylindrical_detector.py
+++ b/hexrd/core/instrument/cylindrical_detector.py
@@ -85,14 +85,10 @@ class CylindricalDetector(Detector):
         if tvec_c is None:
             tvec_c = ct.zeros_3
 
-        # get chi and ome from rmat_s
-        # !!! WARNING: API ambiguity
-        # !!! this assumes rmat_s was made from the composition
-        # !!! rmat_s = R(Xl, chi) * R(Yl, ome)
-        chi = np.arccos(rmat_s[1, 1])
-        ome = np.arccos(rmat_s[0, 0])
-
-        angs = np.hstack([tth_eta, np.tile(ome, (len(tth_eta), 1))])
+        # the angles fix the diffracted beams in the LAB frame; the sample
+        # frame only matters for where the rays originate
+        chi = 0.0
+        angs = np.hstack([tth_eta, np.zeros((len(tth_eta), 1))])
         kwargs = {
             'beamVec': self.bvec,
             'etaVec': self.evec,
diff --git a/hexrd/core/instrument/planar_detector.py b/hexrd/core/instrument/planar_detector.py
index 97f0802..5b82d3b 100644
--- a/hexrd/core/instrument/planar_detector.py
+++ b/hexrd/core/instrument/planar_detector.py
@@ -70,23 +70,21 @@ class PlanarDetector(Detector):
         if tvec_c is None:
             tvec_c = ct.zeros_3
 
-        # get chi and ome from rmat_s
-        # !!! WARNING: API ambiguity
-        # !!! this assumes rmat_s was made from the composition
-        # !!! rmat_s = R(Xl, chi) * R(Yl, ome)
-        chi = np.arccos(rmat_s[1, 1])
-        ome = np.arccos(rmat_s[0, 0])
-
-        angs = np.hstack([tth_eta, np.tile(ome, (len(tth_eta), 1))])
-        gvec = angles_to_gvec(angs, beam_vec=self.bvec, eta_vec=self.evec, chi=chi)
+        # the angles fix the G-vectors in the LAB frame; the sample and crystal
+        # frames only matter for where the rays originate
+        tvec_s = np.asarray(tvec_s, dtype=float).flatten()
+        tvec_c = np.asarray(tvec_c, dtype=float).flatten()
+        gvec = angles_to_gvec(
+            np.asarray(tth_eta), beam_vec=self.bvec, eta_vec=self.evec
+        )
         xy_det = gvec_to_xy(
             gvec,
             self.rmat,
-            rmat_s,
-            rmat_c,
+            ct.identity_3x3,
+            ct.identity_3x3,
             self.tvec,
-            tvec_s,
-            tvec_c,
+            tvec_s + np.dot(rmat_s, tvec_c),
+            ct.zeros_3,
             beam_vec=self.bvec,
         )
         if apply_distortion and self.distortion is not None:
-- 
2.43.0


From 5d76cceedabd279008ebd391cd4ccb8fe7fad33e Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Wed, 18 Nov 2026 23:07:33 +0000
Subject: [PATCH 78/92] fix: simulateGVecs maps omega with the current mapAngle

---
 hexrd/hedm/xrdutil/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hexrd/hedm/xrdutil/utils.py b/hexrd/hedm/xrdutil/utils.py
index 8b208eb..c7d7bf8 100644
--- a/hexrd/hedm/xrdutil/utils.py
+++ b/hexrd/hedm/xrdutil/utils.py
@@ -686,7 +686,7 @@ def simulateGVecs(
         op_idx = np.where(on_panel)[0]
 
         valid_ang = allAngs[op_idx, :]
-        valid_ang[:, 2] = xfcapi.mapAngle(valid_ang[:, 2], ome_period)
+        valid_ang[:, 2] = rot.mapAngle(valid_ang[:, 2], ome_period)
         valid_ids = allHKLs[op_idx, 0]
         valid_hkl = allHKLs[op_idx, 1:]
         valid_xy = det_xy[op_idx, :]
-- 
2.43.0


From 04ddb491260d66bb2be5d41cdaabefc04ec44588 Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Wed, 18 Nov 2026 23:07:33 +0000
Subject: [PATCH 79/92] fix: simulateGVecs keeps angles and hkls aligned with
 the spots on the plane

---
 hexrd/hedm/xrdutil/utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hexrd/hedm/xrdutil/utils.py b/hexrd/hedm/xrdutil/utils.py
index c7d7bf8..0626d50 100644
--- a/hexrd/hedm/xrdutil/utils.py
+++ b/hexrd/hedm/xrdutil/utils.py
@@ -660,7 +660,7 @@ def simulateGVecs(
         ang_ps = np.array([])
     else:
         # ??? preallocate for speed?
-        det_xy, rMat_ss, _ = _project_on_detector_plane(
+        det_xy, rMat_ss, on_plane = _project_on_detector_plane(
             allAngs,
             rMat_d,
             rMat_c,
@@ -672,6 +672,10 @@ def simulateGVecs(
             beamVec=beam_vector,
         )
 
+        # det_xy only has the rays that intersect the detector plane
+        allAngs = allAngs[on_plane, :]
+        allHKLs = allHKLs[on_plane, :]
+
         on_panel = np.logical_and(
             np.logical_and(
                 det_xy[:, 0] >= panel_dims[0][0],
-- 
2.43.0


From 36a893c123b8f7e275e78694ee5dba6ca3479190 Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Wed, 18 Nov 2026 23:07:33 +0000
Subject: [PATCH 80/92] fix: the sense of one omega range does not leak into
 the next

---
 hexrd/hedm/xrdutil/utils.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/hexrd/hedm/xrdutil/utils.py b/hexrd/hedm/xrdutil/utils.py
index 0626d50..704a0a1 100644
--- a/hexrd/hedm/xrdutil/utils.py
+++ b/hexrd/hedm/xrdutil/utils.py
@@ -523,11 +523,9 @@ def _filter_hkls_eta_ome(
             xfcapi.validate_angle_ranges(angles[:, 1], etas[0], etas[1]),
         )
 
-    ccw = True
     angMask_ome = np.zeros(len(angles), dtype=bool)
     for omes in ome_range:
-        if omes[1] - omes[0] < 0:
-            ccw = False
+        ccw = omes[1] - omes[0] >= 0
         angMask_ome = np.logical_or(
             angMask_ome,
             xfcapi.validate_angle_ranges(angles[:, 2], omes[0], omes[1], ccw=ccw),
-- 
2.43.0


From 46f160a258bdac3fff893fd80c6f0a0b6e7ada7b Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Wed, 18 Nov 2026 23:08:35 +0000
Subject: [PATCH 81/92] fix: simulate_rotation_series measures eta from the
 panel's eta vector

---
 hexrd/core/instrument/detector.py | 2 ++
 hexrd/hed/xrdutil/utils.py        | 5 ++++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/hexrd/core/instrument/detector.py b/hexrd/core/instrument/detector.py
index e29e8bf..15f5ca6 100644
--- a/hexrd/core/instrument/detector.py
+++ b/hexrd/core/instrument/detector.py
@@ -1681,6 +1681,7 @@ class Detector:
                     corrected_wavelength,
                     v_inv=vInv_s,
                     beam_vec=self.bvec,
+                    eta_vec=self.evec,
                 )
             )
 
@@ -1702,6 +1703,7 @@ class Detector:
                 tVec_s,
                 self.distortion,
                 self.bvec,
+                self.evec,
             )
             xys_p, on_panel = self.clip_to_panel(det_xy)
             valid_xys.append(xys_p)
diff --git a/hexrd/hed/xrdutil/utils.py b/hexrd/hed/xrdutil/utils.py
index a81f434..0331486 100644
--- a/hexrd/hed/xrdutil/utils.py
+++ b/hexrd/hed/xrdutil/utils.py
@@ -73,12 +73,15 @@ def _project_on_detector_plane(
     tVec_s: np.ndarray,
     distortion: Optional[DistortionABC] = None,
     beamVec: np.ndarray = constants.beam_vec,
+    etaVec: np.ndarray = constants.eta_vec,
 ) -> tuple[np.ndarray, np.ndarray, np.ndarray]:
     """
     utility routine for projecting a list of (tth, eta, ome) onto the
     detector plane parameterized by the args
     """
-    gVec_cs = xfcapi.angles_to_gvec(allAngs, chi=chi, rmat_c=rMat_c, beam_vec=beamVec)
+    gVec_cs = xfcapi.angles_to_gvec(
+        allAngs, chi=chi, rmat_c=rMat_c, beam_vec=beamVec, eta_vec=etaVec
+    )
 
     rMat_ss = xfcapi.make_sample_rmat(chi, allAngs[:, 2])
 
-- 
2.43.0


From 7a63f6002e18f87f53274865b47bb4e081036e65 Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Wed, 18 Nov 2026 23:08:35 +0000
Subject: [PATCH 82/92] fix: Laue simulation labels each spot with the hkl that
 diffracts in that grain

---
 hexrd/laue/simulation.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/hexrd/laue/simulation.py b/hexrd/laue/simulation.py
index c80c368..1631fbf 100644
--- a/hexrd/laue/simulation.py
+++ b/hexrd/laue/simulation.py
@@ -33,17 +33,21 @@ def simulate_laue_pattern_on_panel(
         # and the unit plane normals (G-vectors) in CRYSTAL FRAME
         gvec_c = np.dot(plane_data.latVecOps['B'], hkls)
 
-        # Filter out g-vectors going in the wrong direction. `gvec_to_xy()` used
-        # to do this, but not anymore.
-        to_keep = np.dot(gvec_c.T, detector.bvec) <= 0
+        # Friedel mates (hkl and -hkl) share a spot: keep one of each pair here.
+        # Which of the two diffracts depends on the orientation of the grain, so
+        # it is sorted out for each grain below.
+        leading = hkls[np.argmax(hkls != 0, axis=0), np.arange(hkls.shape[1])]
+        to_keep = leading > 0
 
         hkls = hkls[:, to_keep]
         gvec_c = gvec_c[:, to_keep]
+        pick_friedel_mate = True
     elif len(crystal_data) == 2:
         # !!! should clean this up
         hkls = np.array(crystal_data[0])
         bmat = crystal_data[1]
         gvec_c = np.dot(bmat, hkls)
+        pick_friedel_mate = False
     else:
         raise RuntimeError(f'argument list not understood: {crystal_data=}')
     nhkls_tot: int = hkls.shape[1]
@@ -124,6 +128,11 @@ def simulate_laue_pattern_on_panel(
         if np.any(canIntersect):
             dpts = dpts[canIntersect, :].reshape(npts_in, 2)
             dhkl = hkls[:, canIntersect].reshape(3, npts_in)
+            if pick_friedel_mate:
+                # the diffracting G-vector points against the beam
+                gvec_l = np.dot(rmat_s, gvec_s_str[:, canIntersect])
+                flip = np.dot(np.asarray(beam_vec).flatten(), gvec_l) > 0
+                dhkl = np.where(flip, -dhkl, dhkl)
 
             rmat_b = make_beam_rmat(beam_vec, ct.eta_vec)
             # back to angles
-- 
2.43.0


From 425c58ddef83f1323673908b780fbcaa0d37c5f3 Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Thu, 19 Nov 2026 00:44:26 +0000
Subject: [PATCH 83/92] fix: make eta-omega maps of scans with several wedges

---
 hexrd/hedm/instrument/generate_eta_omega_maps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hexrd/hedm/instrument/generate_eta_omega_maps.py b/hexrd/hedm/instrument/generate_eta_omega_maps.py
index 298631e..17a2547 100644
--- a/hexrd/hedm/instrument/generate_eta_omega_maps.py
+++ b/hexrd/hedm/instrument/generate_eta_omega_maps.py
@@ -86,7 +86,7 @@ class GenerateEtaOmeMaps:
             #     the omegas attribute?
             owedges = this_det_ims.omegawedges.wedges
             ostart = owedges[0]['ostart']  # !!! DEGREES
-            ostop = float(mapAngle(owedges[-1]['ostop'], ome_period, units='degrees'))
+            ostop = mapAngle(owedges[-1]['ostop'], ome_period, units='degrees').item()
             # compute total nsteps
             # FIXME: need check for roundoff badness
             nsteps = int((ostop - ostart) / delta_ome)
-- 
2.43.0


From 0f6c90e8e1892e101dd075944e2a5ef5d2571d55 Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Thu, 19 Nov 2026 00:44:26 +0000
Subject: [PATCH 84/92] fix: extract polar maps of active hkls given as plain
 integers

---
 hexrd/core/instrument/hedm_instrument.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hexrd/core/instrument/hedm_instrument.py b/hexrd/core/instrument/hedm_instrument.py
index 758070c..60f716f 100644
--- a/hexrd/core/instrument/hedm_instrument.py
+++ b/hexrd/core/instrument/hedm_instrument.py
@@ -1127,7 +1127,9 @@ class HEDMInstrument(object):
                 raise TypeError("active_hkls must be an iterable with __len__")
 
             # these are all active reflection unique hklIDs
-            active_hklIDs = plane_data.getHKLID(plane_data.hkls, master=True)
+            active_hklIDs = np.asarray(
+                plane_data.getHKLID(plane_data.hkls, master=True)
+            )
 
             # find indices
             idx = np.zeros_like(active_hkls, dtype=int)
-- 
2.43.0


From 555914f7732fedab3d50f86554a70313ffb0afe8 Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Thu, 19 Nov 2026 00:45:17 +0000
Subject: [PATCH 85/92] fix: count the omega steps of eta-omega maps without
 truncating round-off

---
 hexrd/hedm/instrument/generate_eta_omega_maps.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/hexrd/hedm/instrument/generate_eta_omega_maps.py b/hexrd/hedm/instrument/generate_eta_omega_maps.py
index 17a2547..7cff6b9 100644
--- a/hexrd/hedm/instrument/generate_eta_omega_maps.py
+++ b/hexrd/hedm/instrument/generate_eta_omega_maps.py
@@ -88,8 +88,7 @@ class GenerateEtaOmeMaps:
             ostart = owedges[0]['ostart']  # !!! DEGREES
             ostop = mapAngle(owedges[-1]['ostop'], ome_period, units='degrees').item()
             # compute total nsteps
-            # FIXME: need check for roundoff badness
-            nsteps = int((ostop - ostart) / delta_ome)
+            nsteps = int(np.round((ostop - ostart) / delta_ome))
             ome_edges_full = np.linspace(ostart, ostop, num=nsteps + 1, endpoint=True)
             omegas_array = np.vstack([ome_edges_full[:-1], ome_edges_full[1:]]).T
             ome_centers = np.average(omegas_array, axis=1)
-- 
2.43.0


From f2a0afb2fda91c350e92ad728da1a7283054fffa Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Thu, 19 Nov 2026 00:46:07 +0000
Subject: [PATCH 86/92] fix: sum the intensities of polar maps of integer
 images without overflow

---
 hexrd/core/instrument/hedm_instrument.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hexrd/core/instrument/hedm_instrument.py b/hexrd/core/instrument/hedm_instrument.py
index 60f716f..83737b2 100644
--- a/hexrd/core/instrument/hedm_instrument.py
+++ b/hexrd/core/instrument/hedm_instrument.py
@@ -2558,7 +2558,9 @@ def _run_histograms(rows, ims, tth_ranges, ring_maps, ring_params, threshold):
 
             # Unpack the params
             pixel_etas, eta_edges, pixel_ids, bins_on_detector = params
-            result = histogram(pixel_etas, bins=eta_edges, weights=image[pixel_ids])[0]
+            # !!! sums of integers would overflow in the type of the image
+            weights = image[pixel_ids].astype(float)
+            result = histogram(pixel_etas, bins=eta_edges, weights=weights)[0]
 
             # Note that this preserves nan values for bins not on the detector.
             this_map[i_row, bins_on_detector] = result[bins_on_detector]
-- 
2.43.0


From 8a645869e57082fc913ee4128aee81963d4c2e62 Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Thu, 19 Nov 2026 01:39:46 +0000
Subject: [PATCH 87/92] fix: measure distances to fibers of crystal directions
 given as flat lists

---
 hexrd/core/rotations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hexrd/core/rotations.py b/hexrd/core/rotations.py
index 44d0389..ff90991 100644
--- a/hexrd/core/rotations.py
+++ b/hexrd/core/rotations.py
@@ -990,7 +990,7 @@ def distanceToFiber(c, s, q, qsym, centrosymmetry=False, bmatrix=I3):
     if len(c) != 3 or len(s) != 3:
         raise RuntimeError('c and/or s are not 3-vectors')
 
-    c = unitVector(np.dot(bmatrix, np.asarray(c)))
+    c = unitVector(np.dot(bmatrix, np.asarray(c).reshape(3, 1)))
     s = unitVector(np.asarray(s).reshape(3, 1))
 
     nq = q.shape[1]  # number of quaternions
-- 
2.43.0


From dd827749837a208f7c8ec298688289a092c9fef2 Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Thu, 19 Nov 2026 02:18:25 +0000
Subject: [PATCH 88/92] fix: do not truncate the Dexela distortion of
 whole-number points

---
 hexrd/core/distortion/dexela_2923.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hexrd/core/distortion/dexela_2923.py b/hexrd/core/distortion/dexela_2923.py
index 8a60351..d04f924 100644
--- a/hexrd/core/distortion/dexela_2923.py
+++ b/hexrd/core/distortion/dexela_2923.py
@@ -37,6 +37,7 @@ class Dexela_2923(DistortionABC, metaclass=_RegisterDistortionClass):
         if self.is_trivial:
             return xy_in
         else:
+            xy_in = np.asarray(xy_in, dtype=float)
             xy_out = np.empty_like(xy_in)
             _dexela_2923_distortion(xy_out, xy_in, np.asarray(self.params))
             return xy_out
@@ -45,6 +46,7 @@ class Dexela_2923(DistortionABC, metaclass=_RegisterDistortionClass):
         if self.is_trivial:
             return xy_in
         else:
+            xy_in = np.asarray(xy_in, dtype=float)
             xy_out = np.empty_like(xy_in)
             _dexela_2923_inverse_distortion(xy_out, xy_in, np.asarray(self.params))
             return xy_out
-- 
2.43.0


From ee9bac7329eb95453e19176f06eee90ade32a4f1 Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Thu, 19 Nov 2026 02:18:25 +0000
Subject: [PATCH 89/92] fix: use the unit cell's own axes for the symmetry of
 orientational variants

---
 hexrd/phase_transition/variants.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/hexrd/phase_transition/variants.py b/hexrd/phase_transition/variants.py
index 17cfc7b..e653258 100644
--- a/hexrd/phase_transition/variants.py
+++ b/hexrd/phase_transition/variants.py
@@ -30,6 +30,16 @@ def removeinversion(ksym: np.ndarray) -> np.ndarray:
     return np.array(klist)
 
 
+def cartesian_symmetry(mat: Material) -> np.ndarray:
+    """point group of the material in the cartesian axes of its unit cell
+
+    unitcell.SYM_PG_c is meant for the reduction of directions, and holds the
+    operations of the monoclinic groups in other axes
+    """
+    uc = mat.unitcell
+    return np.array([np.dot(uc.dsm, np.dot(s, uc.rsm.T)) for s in uc.SYM_PG_d])
+
+
 def expected_num_variants(
     mat1: Material, mat2: Material, r1: np.ndarray, r2: np.ndarray
 ) -> int:
@@ -41,8 +51,8 @@ def expected_num_variants(
     N_alpha = |G_beta|/|H_beta|
     """
     T = np.dot(r1, r2.T)
-    sym1 = mat1.unitcell.SYM_PG_c
-    sym2 = mat2.unitcell.SYM_PG_c
+    sym1 = cartesian_symmetry(mat1)
+    sym2 = cartesian_symmetry(mat2)
     ctr = 0
     for s2 in sym2:
         ss = np.dot(T, np.dot(s2, T.T))
@@ -107,8 +117,8 @@ def getOR(r1: np.ndarray, r2: np.ndarray, mat1: Material, mat2: Material) -> np.
     r2 ---> mat2
     """
     rmat = []
-    sym1 = mat1.unitcell.SYM_PG_c
-    sym2 = mat2.unitcell.SYM_PG_c
+    sym1 = cartesian_symmetry(mat1)
+    sym2 = cartesian_symmetry(mat2)
     for sa in sym1:
         ma = np.dot(sa, r1)
         # for sb in sym2:
-- 
2.43.0


From 66e259a58fd12565186543beb0ea882aa9f11633 Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Thu, 19 Nov 2026 02:18:32 +0000
Subject: [PATCH 90/92] fix: take the cross product of whole-number vectors

---
 hexrd/core/material/unitcell.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hexrd/core/material/unitcell.py b/hexrd/core/material/unitcell.py
index 3213a91..9074d0b 100644
--- a/hexrd/core/material/unitcell.py
+++ b/hexrd/core/material/unitcell.py
@@ -334,7 +334,8 @@ class unitcell:
                 p[1] * q[2] - p[2] * q[1],
                 p[2] * q[0] - p[0] * q[2],
                 p[0] * q[1] - p[1] * q[0],
-            ]
+            ],
+            dtype=float,
         )
 
         if inspace == "d":
-- 
2.43.0


From fbc83b0fd4f5dbc88cdc96721a7359799d1ef1e7 Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Thu, 19 Nov 2026 02:18:32 +0000
Subject: [PATCH 91/92] fix: color a direction by the supergroup reduction of
 its reduced direction

---
 hexrd/core/material/unitcell.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hexrd/core/material/unitcell.py b/hexrd/core/material/unitcell.py
index 9074d0b..84bcc66 100644
--- a/hexrd/core/material/unitcell.py
+++ b/hexrd/core/material/unitcell.py
@@ -1327,7 +1327,7 @@ class unitcell:
             introduces inversion symmetry. For other probes, this is not the case.
             """
             dir3_red = self.reduce_dirvector(dir3, switch="laue")
-            dir3_red_supergroup = self.reduce_dirvector(dir3, switch="superlaue")
+            dir3_red_supergroup = self.reduce_dirvector(dir3_red, switch="superlaue")
             switch = "superlaue"
 
         else:
@@ -1335,7 +1335,7 @@ class unitcell:
             follow the logic in the function description
             """
             dir3_red = self.reduce_dirvector(dir3, switch="pg")
-            dir3_red_supergroup = self.reduce_dirvector(dir3, switch="super")
+            dir3_red_supergroup = self.reduce_dirvector(dir3_red, switch="super")
             switch = "super"
 
         mask = np.linalg.norm(dir3_red - dir3_red_supergroup, axis=1) < eps
-- 
2.43.0


From c0541f142f962a26b4cdf6905cad2454e03df9e1 Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Thu, 19 Nov 2026 02:22:50 +0000
Subject: [PATCH 92/92] fix: invert the GE_41RT distortion for every parameter
 and at the center

---
 hexrd/core/distortion/ge_41rt.py              |  2 +-
 .../cpp_sublibrary/src/inverse_distortion.cpp | 55 +++++++++++++++++++
 2 files changed, 56 insertions(+), 1 deletion(-)

diff --git a/hexrd/core/distortion/ge_41rt.py b/hexrd/core/distortion/ge_41rt.py
index 4e3d0ee..511ef81 100644
--- a/hexrd/core/distortion/ge_41rt.py
+++ b/hexrd/core/distortion/ge_41rt.py
@@ -139,6 +139,6 @@ class GE_41RT(DistortionABC, metaclass=_RegisterDistortionClass):
         else:
             xy_in = np.asarray(xy_in, dtype=float)
             xy_out = inverse_distortion.ge_41rt_inverse_distortion(
-                xy_in, float(RHO_MAX), np.asarray(self.params[:3])
+                xy_in, float(RHO_MAX), np.asarray(self.params)
             )
             return xy_out
diff --git a/hexrd/core/transforms/cpp_sublibrary/src/inverse_distortion.cpp b/hexrd/core/transforms/cpp_sublibrary/src/inverse_distortion.cpp
index e3ef027..2e5eb0a 100644
--- a/hexrd/core/transforms/cpp_sublibrary/src/inverse_distortion.cpp
+++ b/hexrd/core/transforms/cpp_sublibrary/src/inverse_distortion.cpp
@@ -10,6 +10,35 @@ const double FOUR_THIRDS_PI = M_PI * 4.0 / 3.0;
 const double N_THREE_HALVES_SQRT_3 = -3.0 / 2.0 * std::sqrt(3.0);
 const double TWO_OVER_SQRT_THREE = 2.0 / std::sqrt(3.0);
 
+// Invert the radial function of a single point with Newton's method:
+//   (p0 s^p3 cos(2 eta) + p1 s^p4 cos(4 eta) + p2 s^p5 + 1) r = radius
+// where s = r / rhoMax
+static double newton_inverse_radius(const double radius,
+                                    const double cosine_double_angle,
+                                    const double cosine_quadruple_angle,
+                                    const double rhoMax,
+                                    const Eigen::ArrayXd &params,
+                                    const double *exponents) {
+  const double terms[3] = {params[0] * cosine_double_angle,
+                           params[1] * cosine_quadruple_angle, params[2]};
+  double r = radius;
+  for (int i = 0; i < 100; ++i) {
+    double value = 1.0;
+    double slope = 1.0;
+    for (int j = 0; j < 3; ++j) {
+      const double term = terms[j] * std::pow(r / rhoMax, exponents[j]);
+      value += term;
+      slope += term * (exponents[j] + 1.0);
+    }
+    const double step = (value * r - radius) / slope;
+    r -= step;
+    if (!(std::abs(step) > 1e-15 * std::abs(r))) {
+      break;
+    }
+  }
+  return r;
+}
+
 Eigen::ArrayXXd ge_41rt_inverse_distortion(const Eigen::ArrayXXd &inputs,
                                            const double rhoMax,
                                            const Eigen::ArrayXd &params) {
@@ -31,6 +60,32 @@ Eigen::ArrayXXd ge_41rt_inverse_distortion(const Eigen::ArrayXXd &inputs,
       solutions.rowwise().replicate(inputs.cols()).array() * inputs *
       inverted_radii.rowwise().replicate(inputs.cols()).array();
 
+  // The closed form is a root of a cubic: it holds for quadratic exponents,
+  // where the distortion draws points towards the center. All other points are
+  // inverted numerically, and the center does not move.
+  double exponents[3] = {2.0, 2.0, 2.0};
+  if (params.size() >= 6) {
+    for (int j = 0; j < 3; ++j) {
+      exponents[j] = params[3 + j];
+    }
+  }
+  const bool quadratic =
+      exponents[0] == 2.0 && exponents[1] == 2.0 && exponents[2] == 2.0;
+  for (Eigen::Index i = 0; i < inputs.rows(); ++i) {
+    if (radii[i] == 0.0) {
+      results.row(i) = 0.0;
+      continue;
+    }
+    const double gain = params[0] * cosine_double_angles[i] +
+                        params[1] * cosine_quadruple_angles[i] + params[2];
+    if (std::isfinite(radii[i]) && !(quadratic && gain < -1e-8)) {
+      const double radius = newton_inverse_radius(
+          radii[i], cosine_double_angles[i], cosine_quadruple_angles[i], rhoMax,
+          params, exponents);
+      results.row(i) = inputs.row(i) * (radius * inverted_radii[i]);
+    }
+  }
+
   return results;
 }
 
-- 
2.43.0

