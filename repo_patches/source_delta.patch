From d0de72c2f7a5e05cb39351e6b492034bffd582ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:27 +0000
Subject: [PATCH 01/93] fix: keep the richness bisection bracket valid when the
 root is just below 1

The low-end stability floor replaced the function value at the lower bracket
by 0.9 also when the lower bracket was already above 0.9, which flips its sign
and makes the bisection run away to the upper end of the bracket.
---
 redmapper/solver_nfw/solver_nfw.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/solver_nfw/solver_nfw.c b/redmapper/solver_nfw/solver_nfw.c
index fb88267..73bc129 100644
--- a/redmapper/solver_nfw/solver_nfw.c
+++ b/redmapper/solver_nfw/solver_nfw.c
@@ -41,7 +41,7 @@ int solver_nfw(double r0, double beta, long ngal,
 
     outmid += mid*cval;
 
-    if (outlo < 1.0) { outlo = 0.9;} // stability at low end
+    if (lamlo < 0.9 && outlo < 1.0) { outlo = 0.9;} // stability at low end
     if ((outlo-lamlo)*(outmid-mid) > 0.0) {
       lamlo=mid;
       outlo=-1.0;
-- 
2.43.0


From f739ada30bd9e329e02ec759145cf2c9fac4b5dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:27 +0000
Subject: [PATCH 02/93] fix: reset the hard-cut radial weight outside the
 richness radius

theta_r was only ever set to 1, so galaxies that fell inside a larger trial
radius during the bisection kept theta_r=1 although they end up outside.
---
 redmapper/solver_nfw/nfw_weights.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/redmapper/solver_nfw/nfw_weights.c b/redmapper/solver_nfw/nfw_weights.c
index 5678b51..67a82fe 100644
--- a/redmapper/solver_nfw/nfw_weights.c
+++ b/redmapper/solver_nfw/nfw_weights.c
@@ -45,6 +45,7 @@ int nfw_weights(double inlambda, double r0, double beta, long ngal,
 	 theta_r[i] = 1.0; // added by Tom
       } else {
          wt[i]=0.0;
+         theta_r[i] = 0.0;
       }
     } else { // rsig > 0.0
       /*
-- 
2.43.0


From 258ae778d91edfa2ee4a1c2fdbff41424bd5541a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:27 +0000
Subject: [PATCH 03/93] fix: use each galaxy's own slope for the reference
 magnitude error

In the many-galaxies, many-redshifts mode the slope of the first row was used
for every galaxy when propagating the reference magnitude error.
---
 redmapper/chisq_dist/chisq_dist.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/chisq_dist/chisq_dist.c b/redmapper/chisq_dist/chisq_dist.c
index f632c97..312c4e3 100644
--- a/redmapper/chisq_dist/chisq_dist.c
+++ b/redmapper/chisq_dist/chisq_dist.c
@@ -351,7 +351,7 @@ int chisq_dist(int mode, int do_chisq, int nophotoerr, int ncalc, int ncol,
 	      gsl_matrix_set_zero(cimat);
 	      for (j=0;j<ncol;j++) {
 		  for (k=j;k<ncol;k++) {
-		      val = slope[j] * slope[k] * refmagerr[i] * refmagerr[i];
+		      val = slope[i*ncol+j] * slope[i*ncol+k] * refmagerr[i] * refmagerr[i];
 		      gsl_matrix_set(cimat, j, k, val);
 		      if (k != j) {
 			  gsl_matrix_set(cimat, k, j, val);
-- 
2.43.0


From b1b981069153d3d3ee7171b77ee3f5317bc7ac41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:27 +0000
Subject: [PATCH 04/93] fix: pair eigenvalues with their own eigenvectors when
 fixing a covariance

gsl_eigen_symm and gsl_eigen_symmv return the eigenvalues in different
(unsorted) orders, so the repaired matrix mixed up the axes.
---
 redmapper/chisq_dist/chisq_dist.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/redmapper/chisq_dist/chisq_dist.c b/redmapper/chisq_dist/chisq_dist.c
index 312c4e3..9c85e50 100644
--- a/redmapper/chisq_dist/chisq_dist.c
+++ b/redmapper/chisq_dist/chisq_dist.c
@@ -488,6 +488,12 @@ int check_and_fix_covmat(gsl_matrix *covmat) {
     // calculate eigenvalues and eigenvector matrix Q
     gsl_eigen_symmv(mat, eigenval_temp, Q, wvec);
 
+    // the eigenvalues must be in the same order as the eigenvectors
+    for (i=0;i<nelt;i++) {
+      eigenval_i = gsl_vector_get(eigenval_temp,i);
+      gsl_vector_set(eigenval,i,(eigenval_i < MIN_EIGENVAL) ? MIN_EIGENVAL : eigenval_i);
+    }
+
     // invert eigenvector matrix Q-> Qinv (leaving Q in place)
     gsl_matrix_memcpy(temp,Q);
     gsl_linalg_LU_decomp(temp, pp, &s);
-- 
2.43.0


From 873935de271bd97592e0705ff059af322904ad7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:27 +0000
Subject: [PATCH 05/93] fix: parse the integer arguments of ChisqDist into ints

The 'i' format only writes an int, leaving half of each long uninitialized.
---
 redmapper/chisq_dist/chisq_dist_pywrap.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/redmapper/chisq_dist/chisq_dist_pywrap.c b/redmapper/chisq_dist/chisq_dist_pywrap.c
index bebb3f5..26faf6a 100644
--- a/redmapper/chisq_dist/chisq_dist_pywrap.c
+++ b/redmapper/chisq_dist/chisq_dist_pywrap.c
@@ -28,10 +28,10 @@ ChisqDistObject_dealloc(struct ChisqDistObject* self)
 static int
 ChisqDistObject_init(struct ChisqDistObject* self, PyObject* args)
 {
-    long mode;
-    long ngal;
-    long nz;
-    long ncol;
+    int mode;
+    int ngal;
+    int nz;
+    int ncol;
     PyArrayObject *covmat_obj = NULL;
     PyArrayObject *c_obj = NULL;
     PyArrayObject *slope_obj = NULL;
-- 
2.43.0


From 341f704e333eb023e29e6b419ed775ffb1d3500b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:27 +0000
Subject: [PATCH 06/93] fix: make compute_chisq independent of the memory
 layout of its inputs

astype() keeps the memory order of its input, but the C code assumes C order
(and redshift-major covariance matrices), so e.g. a C-contiguous
[ncol, ncol, nz] covmat was misread.
---
 redmapper/chisq_dist/chisq_dist_lib.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/redmapper/chisq_dist/chisq_dist_lib.py b/redmapper/chisq_dist/chisq_dist_lib.py
index 458a276..49f0980 100644
--- a/redmapper/chisq_dist/chisq_dist_lib.py
+++ b/redmapper/chisq_dist/chisq_dist_lib.py
@@ -83,13 +83,18 @@ def compute_chisq(covmat, c, slope, pivotmag, refmag, magerr, color, refmagerr=N
        Float array of likelihoods.  Present if calc_lkhd=True.
     """
 
-    _covmat = covmat.astype('f8')
-    _c = c.astype('f8')
-    _slope = slope.astype('f8')
+    # The C code reads contiguous arrays, with the redshift index of the
+    # covariance matrices varying slowest.
+    if covmat.ndim == 3:
+        _covmat = np.ascontiguousarray(np.moveaxis(covmat, 2, 0), dtype='f8')
+    else:
+        _covmat = np.ascontiguousarray(covmat, dtype='f8')
+    _c = np.ascontiguousarray(c, dtype='f8')
+    _slope = np.ascontiguousarray(slope, dtype='f8')
     _pivotmag = np.atleast_1d(pivotmag.astype('f8'))
     _refmag = np.atleast_1d(refmag.astype('f8'))
-    _magerr = magerr.astype('f8')
-    _color = color.astype('f8')
+    _magerr = np.ascontiguousarray(magerr, dtype='f8')
+    _color = np.ascontiguousarray(color, dtype='f8')
 
     if (refmagerr is None):
         _refmagerr = np.zeros(refmag.size,dtype='f8')
@@ -152,7 +157,7 @@ def compute_chisq(covmat, c, slope, pivotmag, refmag, magerr, color, refmagerr=N
         if (lupcorr is None):
             _lupcorr = np.zeros((ngal, ncol),dtype='f8')
         else :
-            _lupcorr = lupcorr.astype('f8')
+            _lupcorr = np.ascontiguousarray(lupcorr, dtype='f8')
 
         if (_lupcorr.shape[0] != ngal) or (_lupcorr.shape[1] != ncol):
             raise ValueError("lupcorr must be ncol x ngal for mode 0")
@@ -192,7 +197,7 @@ def compute_chisq(covmat, c, slope, pivotmag, refmag, magerr, color, refmagerr=N
         if (lupcorr is None):
             _lupcorr = np.zeros((nz, ncol),dtype='f8')
         else :
-            _lupcorr = lupcorr.astype('f8')
+            _lupcorr = np.ascontiguousarray(lupcorr, dtype='f8')
 
         if (_lupcorr.shape[0] != nz) or (_lupcorr.shape[1] != ncol):
             raise ValueError("lupcorr must be ncol x nz for mode 1")
@@ -226,7 +231,7 @@ def compute_chisq(covmat, c, slope, pivotmag, refmag, magerr, color, refmagerr=N
         if (lupcorr is None):
             _lupcorr = np.zeros((ngal, ncol),dtype='f8')
         else :
-            _lupcorr = lupcorr.astype('f8')
+            _lupcorr = np.ascontiguousarray(lupcorr, dtype='f8')
 
         if (_lupcorr.shape[0] != ngal) or (_lupcorr.shape[1] != ncol):
             raise ValueError("lupcorr must be ngal x ncol for mode 2")
-- 
2.43.0


From 7c188938caaf63ab2e4a8a06f8db1c54759f1480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:27 +0000
Subject: [PATCH 07/93] fix: check the covmat and refmag sizes in the
 many-galaxies, many-redshifts mode

Without the check the C code reads beyond the end of the arrays.
---
 redmapper/chisq_dist/chisq_dist_lib.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/redmapper/chisq_dist/chisq_dist_lib.py b/redmapper/chisq_dist/chisq_dist_lib.py
index 49f0980..d1b0bc0 100644
--- a/redmapper/chisq_dist/chisq_dist_lib.py
+++ b/redmapper/chisq_dist/chisq_dist_lib.py
@@ -218,6 +218,10 @@ def compute_chisq(covmat, c, slope, pivotmag, refmag, magerr, color, refmagerr=N
             raise ValueError("covmat must be 3 dimensions for mode 2")
         if (covmat.shape[2] != nz):
             raise ValueError("Third dimension of covmat must be nz for mode 2")
+        if (covmat.shape[0] != ncol or covmat.shape[1] != ncol):
+            raise ValueError("covmat must be ncol x ncol x nz for mode 2")
+        if (_refmag.size != ngal):
+            raise ValueError("refmag must be ngal elements for mode 2")
 
         if (magerr.ndim != 2):
             raise ValueError("magerr must be 2D for mode 2")
-- 
2.43.0


From a1689701254109bb6ddd5099b785a76ca84b1669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:53 +0000
Subject: [PATCH 08/93] fix: do not abort the interpreter on a numerically
 singular covariance

The default GSL error handler calls abort(); return the existing 'unusable'
value for that galaxy instead.
---
 redmapper/chisq_dist/chisq_dist.c        | 18 +++++++++++++++---
 redmapper/chisq_dist/chisq_dist_pywrap.c |  4 ++++
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/redmapper/chisq_dist/chisq_dist.c b/redmapper/chisq_dist/chisq_dist.c
index 9c85e50..ed74854 100644
--- a/redmapper/chisq_dist/chisq_dist.c
+++ b/redmapper/chisq_dist/chisq_dist.c
@@ -158,7 +158,11 @@ int chisq_dist(int mode, int do_chisq, int nophotoerr, int ncalc, int ncol,
 	check_and_fix_covmat(&mvcovmat.matrix);
 
 	gsl_linalg_LU_decomp(&mvcovmat.matrix, pp, &s);
-	gsl_linalg_LU_invert(&mvcovmat.matrix, pp, mmetric);
+	if (gsl_linalg_LU_invert(&mvcovmat.matrix, pp, mmetric) != GSL_SUCCESS) {
+	  // numerically singular
+	  dist[i] = do_chisq ? 1e11 : -1e11;
+	  continue;
+	}
 
 	if (!do_chisq) {
 	  // need the determinant
@@ -273,7 +277,11 @@ int chisq_dist(int mode, int do_chisq, int nophotoerr, int ncalc, int ncol,
 	check_and_fix_covmat(&mvcovmat.matrix);
 
 	gsl_linalg_LU_decomp(&mvcovmat.matrix, pp, &s);
-	gsl_linalg_LU_invert(&mvcovmat.matrix, pp, mmetric);
+	if (gsl_linalg_LU_invert(&mvcovmat.matrix, pp, mmetric) != GSL_SUCCESS) {
+	  // numerically singular
+	  dist[i] = do_chisq ? 1e11 : -1e11;
+	  continue;
+	}
 
 	if (!do_chisq) {
 	  norm = gsl_linalg_LU_det(&mvcovmat.matrix, s);
@@ -391,7 +399,11 @@ int chisq_dist(int mode, int do_chisq, int nophotoerr, int ncalc, int ncol,
 	      check_and_fix_covmat(&mvcovmat.matrix);
 
 	      gsl_linalg_LU_decomp(&mvcovmat.matrix, pp, &s);
-	      gsl_linalg_LU_invert(&mvcovmat.matrix, pp, mmetric);
+	      if (gsl_linalg_LU_invert(&mvcovmat.matrix, pp, mmetric) != GSL_SUCCESS) {
+	        // numerically singular
+	        dist[i] = do_chisq ? 1e11 : -1e11;
+	        continue;
+	      }
 
 	      if (!do_chisq) {
 		  // need the determinant
diff --git a/redmapper/chisq_dist/chisq_dist_pywrap.c b/redmapper/chisq_dist/chisq_dist_pywrap.c
index 26faf6a..21b799f 100644
--- a/redmapper/chisq_dist/chisq_dist_pywrap.c
+++ b/redmapper/chisq_dist/chisq_dist_pywrap.c
@@ -1,6 +1,7 @@
 #include <Python.h>
 #include "chisq_dist.h"
 #include "stdio.h"
+#include <gsl/gsl_errno.h>
 #include <numpy/arrayobject.h>
 
 #define NPY_NO_DEPRECATED_API NPY_1_7_API_VERSION
@@ -287,6 +288,9 @@ init_chisq_dist_pywrap(void)
 
     import_array();
 
+    // errors are handled by the caller, do not abort the interpreter
+    gsl_set_error_handler_off();
+
 #if PY_MAJOR_VERSION >= 3
     return m;
 #endif
-- 
2.43.0


From 26f83eb59c12df5efb9386d5d786983e4cb3f31f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:34 +0000
Subject: [PATCH 09/93] fix: make dir() of a DataObject work on Python 3

---
 redmapper/catalog.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/catalog.py b/redmapper/catalog.py
index 2bd1f1c..2ae18bb 100644
--- a/redmapper/catalog.py
+++ b/redmapper/catalog.py
@@ -218,7 +218,7 @@ class DataObject(object):
         # also need to know original __dir__!
         return sorted(set(
                 dir(type(self)) +
-                self.__dict__.keys() +
+                list(self.__dict__.keys()) +
                 [x.lower() for x in self._ndarray.dtype.names]))
 
 
-- 
2.43.0


From 2383a94205da67009bc975f0d406352e1b56732a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:34 +0000
Subject: [PATCH 10/93] fix: honour indices when writing a one-row catalog

---
 redmapper/catalog.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/redmapper/catalog.py b/redmapper/catalog.py
index 2ae18bb..5beae89 100644
--- a/redmapper/catalog.py
+++ b/redmapper/catalog.py
@@ -143,6 +143,8 @@ class DataObject(object):
         if self._ndarray.size == 1:
             temp_array = np.zeros(1, dtype=self._ndarray.dtype)
             temp_array[0] = self._ndarray
+            if indices is not None:
+                temp_array = temp_array[indices]
             fitsio.write(filename, temp_array, clobber=clobber, header=header, extname=extname)
         else:
             if indices is None:
-- 
2.43.0


From fff8be7589d3b58ad2c8eb58905d9b1e44d41a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:12 +0000
Subject: [PATCH 11/93] fix: let GalaxyCatalogMaker read a geometric mask

The mask reader takes the length of the sub-region pixel list, so a scalar 0
raised a TypeError for every maskfile.
---
 redmapper/galaxy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/galaxy.py b/redmapper/galaxy.py
index 781dcff..e563c03 100644
--- a/redmapper/galaxy.py
+++ b/redmapper/galaxy.py
@@ -541,7 +541,7 @@ class FakeMaskConfig(object):
 
         class TempD(object):
             def __init__(self):
-                self.hpix = 0
+                self.hpix = []
                 self.nside = 0
 
         self.d = TempD()
-- 
2.43.0


From 8e4725e21d8501e405c910f0cfe5cf1b8acad3b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:12 +0000
Subject: [PATCH 12/93] fix: write the galaxy master table only after the id
 checks

A catalog rejected for duplicate ids was left behind with a complete-looking
master table.
---
 redmapper/galaxy.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/redmapper/galaxy.py b/redmapper/galaxy.py
index e563c03..553aa92 100644
--- a/redmapper/galaxy.py
+++ b/redmapper/galaxy.py
@@ -886,8 +886,6 @@ class GalaxyCatalogMaker(object):
         hdr['PIXELS'] = 1
         hdr['FITS'] = 1
 
-        tab.to_fits_file(self.filename, header=hdr, clobber=True)
-
         # Check for galaxy uniqueness or generate unique ids
         if self.generate_unique_ids:
             ctr = 1
@@ -921,6 +919,9 @@ class GalaxyCatalogMaker(object):
             if len(np.unique(ids)) < len(ids):
                 raise RuntimeError("Input galaxy IDs must be unique.  Fix input catalog or use generate_unique_ids")
 
+        # The master table marks the catalog as complete, so write it last
+        tab.to_fits_file(self.filename, header=hdr, clobber=True)
+
         self.is_finalized = True
 
         if self.parallel:
-- 
2.43.0


From 6e152ea9314f6131e0bed2bb5d84cb6035ee17c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:12 +0000
Subject: [PATCH 13/93] fix: take the pixel number from the end of the pixel
 file name

An output path or base name containing _ and seven digits was mistaken for the
pixel number.
---
 redmapper/galaxy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/galaxy.py b/redmapper/galaxy.py
index 553aa92..3019870 100644
--- a/redmapper/galaxy.py
+++ b/redmapper/galaxy.py
@@ -807,7 +807,7 @@ class GalaxyCatalogMaker(object):
             # Figure out which hpixels are there
             files = sorted(glob.glob('%s/%s_???????.fit' % (self.outpath, self.outbase_nopath)))
             for f in files:
-                m = re.search(r'_(\d{7})', f)
+                m = re.search(r'_(\d{7})\.fit$', os.path.basename(f))
                 if m is None:
                     raise RuntimeError("Malformed filename for pixel file: %s" % (f))
 
-- 
2.43.0


From f191606271011297cac8ac80c8d1fa3437a3b797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:12 +0000
Subject: [PATCH 14/93] fix: raise the intended ValueError for an out-of-range
 hpix

---
 redmapper/galaxy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/galaxy.py b/redmapper/galaxy.py
index 3019870..330e03e 100644
--- a/redmapper/galaxy.py
+++ b/redmapper/galaxy.py
@@ -138,7 +138,7 @@ class GalaxyCatalog(Catalog):
             if len(_hpix) > 0:
                 for _hp in _hpix:
                     if _hp < 0 or _hp >= hpg.nside_to_npixel(nside):
-                        raise ValueError("hpix %d is out of range." % (hp))
+                        raise ValueError("hpix %d is out of range." % (_hp))
 
         if border > 0.0 and len(_hpix) > 0:
             if len(_hpix) != 1:
-- 
2.43.0


From d7ed13667a577f7082e39912a29ce99d0f3fe0f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:28 +0000
Subject: [PATCH 15/93] fix: accept a batch of galaxies that lies fully outside
 the mask

---
 redmapper/galaxy.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/redmapper/galaxy.py b/redmapper/galaxy.py
index 330e03e..7a72a6b 100644
--- a/redmapper/galaxy.py
+++ b/redmapper/galaxy.py
@@ -734,6 +734,10 @@ class GalaxyCatalogMaker(object):
             good = self.mask.compute_radmask(gals['ra'], gals['dec'])
             gals = gals[good]
 
+        if gals.size == 0:
+            # Nothing to append (e.g. everything is outside the mask)
+            return
+
         ipring = hpg.angle_to_pixel(self.nside, gals['ra'], gals['dec'], nest=False)
 
         h, rev = esutil.stat.histogram(ipring, min=0, max=self.ngals.size-1, rev=True)
-- 
2.43.0


From 9c95d35d2201c342e05c50daffac4ab501bfd401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:59 +0000
Subject: [PATCH 16/93] fix: convert the mask to healsparse in native byte
 order

---
 redmapper/mask.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/redmapper/mask.py b/redmapper/mask.py
index cad3570..932bb41 100644
--- a/redmapper/mask.py
+++ b/redmapper/mask.py
@@ -445,7 +445,10 @@ def convert_maskfile_to_healsparse(maskfile, healsparsefile, nsideCoverage, clob
 
     nside = old_hdr['nside']
 
-    sparseMap = healsparse.HealSparseMap.make_empty(nsideCoverage, nside, old_mask['fracgood'].dtype)
+    # The table is read in FITS (big-endian) order; the map must be native, since
+    # some values of a byte-swapped map are lost when it is written.
+    sparseMap = healsparse.HealSparseMap.make_empty(nsideCoverage, nside,
+                                                    old_mask['fracgood'].dtype.newbyteorder('='))
     sparseMap.update_values_pix(old_mask['hpix'], old_mask['fracgood'], nest=old_hdr['nest'])
 
     sparseMap.write(healsparsefile, clobber=clobber)
-- 
2.43.0


From 1c7ae25b04f20ec26c38d2937337f456e2cebec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:26 +0000
Subject: [PATCH 17/93] fix: make the generated background independent of the
 number of processes

---
 redmapper/background.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/redmapper/background.py b/redmapper/background.py
index ea62073..6e20fbd 100644
--- a/redmapper/background.py
+++ b/redmapper/background.py
@@ -440,9 +440,11 @@ class BackgroundGenerator(object):
         starttime = time.time()
 
         zbins_use = self.zbins[zbinmark]
-        zrange_use = np.array([zbins_use[0], zbins_use[-1] + self.config.bkg_zbinsize])
+        # The model is read over the full redshift range, so that the result does
+        # not depend on how the redshift bins were split over the processes.
+        zrange_use = np.array([self.zbins[0], self.zbins[-1] + self.config.bkg_zbinsize])
 
-        # We need to load in the red sequence structure -- just in the specific redshift range
+        # We need to load in the red sequence structure
         zredstr = RedSequenceColorPar(self.config.parfile, zrange=zrange_use)
 
         zredstrbinsize = zredstr.z[1] - zredstr.z[0]
-- 
2.43.0


From 699574b40c5627e17bac1c08a3f0d9ae622bb5b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:26 +0000
Subject: [PATCH 18/93] fix: read every galaxy of a non-pixelized file for the
 background

---
 redmapper/background.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/redmapper/background.py b/redmapper/background.py
index 6e20fbd..8c07cf2 100644
--- a/redmapper/background.py
+++ b/redmapper/background.py
@@ -495,14 +495,14 @@ class BackgroundGenerator(object):
         ctr = 0
         p = 0
         # This covers both loops
-        while ((ctr < ngal) and (p < npix)):
+        while ((ctr < ngal) and (not self.config.galfile_pixelized or p < npix)):
             # Read in a section of the galaxies, or the pixel
             if not self.config.galfile_pixelized:
                 lo = ctr
                 hi = np.clip(ctr + self.natatime, None, ngal)
 
                 gals = GalaxyCatalog.from_fits_file(self.config.galfile, rows=np.arange(lo, hi))
-                ctr = hi + 1
+                ctr = hi
             else:
                 if master.ngals[subreg_indices[p]] == 0:
                     p += 1
-- 
2.43.0


From eaa984dcc5579a21115f50a739490427cb5809d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:26 +0000
Subject: [PATCH 19/93] fix: read backgrounds whose number of chisq bins
 differs from the log bins

---
 redmapper/background.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/redmapper/background.py b/redmapper/background.py
index 8c07cf2..9b6aa33 100644
--- a/redmapper/background.py
+++ b/redmapper/background.py
@@ -68,7 +68,7 @@ class Background(object):
 
         # Set up some arrays to populate
         sigma_g_new = np.zeros((nrefmagbins, nchisqbins, nzbins))
-        sigma_lng_new = np.zeros((nrefmagbins, nchisqbins, nzbins))
+        sigma_lng_new = np.zeros((nrefmagbins, nlnchisqbins, nzbins))
 
         # Do linear interpolation to get the sigma_g value
         # between the raw background points.
@@ -77,6 +77,7 @@ class Background(object):
             for j in range(nchisqbins):
                 sigma_g_new[:,j,i] = np.interp(refmagbins, obkg.refmagbins, obkg.sigma_g[:,j,i])
                 sigma_g_new[:,j,i] = np.where(sigma_g_new[:,j,i] < 0, 0, sigma_g_new[:,j,i])
+            for j in range(nlnchisqbins):
                 sigma_lng_new[:,j,i] = np.interp(refmagbins, obkg.refmagbins, obkg.sigma_lng[:,j,i])
                 sigma_lng_new[:,j,i] = np.where(sigma_lng_new[:,j,i] < 0, 0, sigma_lng_new[:,j,i])
 
-- 
2.43.0


From 09d5df64300ec46c192d589d453616acb3f4e299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:26 +0000
Subject: [PATCH 20/93] fix: look up chisq of exactly zero in the first
 background bin

---
 redmapper/background.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/background.py b/redmapper/background.py
index 9b6aa33..02e4d93 100644
--- a/redmapper/background.py
+++ b/redmapper/background.py
@@ -150,7 +150,7 @@ class Background(object):
            Sigma_g(x) for input values
         """
         zmin = self.zbins[0]
-        chisqindex = np.searchsorted(self.chisqbins, chisq) - 1
+        chisqindex = np.clip(np.searchsorted(self.chisqbins, chisq) - 1, 0, None)
         refmagindex = np.searchsorted(self.refmagbins, refmag) - 1
         # Look into changing to searchsorted
         ind = np.clip(np.round((z-zmin)/(self.zbins[1]-zmin)),0, self.zbins.size-1).astype(np.int32)
-- 
2.43.0


From e0a43e901f35ab676a9075432a594f885d89d1d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:26 +0000
Subject: [PATCH 21/93] fix: normalize the single-color background for every
 color bin size

---
 redmapper/color_background.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/color_background.py b/redmapper/color_background.py
index 86aec8b..07de3f9 100644
--- a/redmapper/color_background.py
+++ b/redmapper/color_background.py
@@ -92,7 +92,7 @@ class ColorBackground(object):
                 for j in range(nrefmagbins):
                     bc_new[j, :] = np.clip(interpol(bc[j, :], obkg.colbins, colbins), 0.0, None)
 
-                n = np.sum(bc, axis=1, dtype=np.float64) * (colbinsize / obkg.colbinsize)
+                n = np.sum(bc, axis=1, dtype=np.float64) * obkg.colbinsize
 
                 sigma_g = bc_new.copy()
                 for j in range(ncolbins):
-- 
2.43.0


From 0ce1fb9806aa7bb8c6722b885f2f0ad51b0f6f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:34 +0000
Subject: [PATCH 22/93] fix: swap the colors along with their indices in the
 two-color background

---
 redmapper/color_background.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/redmapper/color_background.py b/redmapper/color_background.py
index 07de3f9..b1acae7 100644
--- a/redmapper/color_background.py
+++ b/redmapper/color_background.py
@@ -277,6 +277,7 @@ class ColorBackground(object):
         key = bkg_index1 * 100 + bkg_index2
         if key not in self.bkgs:
             key = bkg_index2 * 100 + bkg_index1
+            colors1, colors2 = colors2, colors1
 
         try:
             bkg = self.bkgs[key]
-- 
2.43.0


From 017bb43fabc5b9d1e715f8a07a8c5d192dc9ff7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:27 +0000
Subject: [PATCH 23/93] fix: look up the nearest redshift bin when the range
 does not start on a multiple of the bin size

---
 redmapper/redsequence.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/redmapper/redsequence.py b/redmapper/redsequence.py
index 1272b6c..1657f15 100644
--- a/redmapper/redsequence.py
+++ b/redmapper/redsequence.py
@@ -369,7 +369,7 @@ class RedSequenceColorPar(object):
 
         # set top overflow bins to very large number
         self.z[self.z.size-1] = 1000.0
-        self.zinteger=np.round(self.z*self.zbinscale).astype(np.int64)
+        self.zinteger=np.round((self.z - self.z[0])/self.zbinsize).astype(np.int64)
         self.refmagbins[self.refmagbins.size-1] = 1000.0
         self.refmaginteger = np.round(self.refmagbins*self.refmagbinscale).astype(np.int64)
         self.lumrefmagbins[self.lumrefmagbins.size-1] = 1000.0
@@ -415,7 +415,7 @@ class RedSequenceColorPar(object):
         """
         # return the z index/indices with rounding.
 
-        zind = np.searchsorted(self.zinteger,np.round(np.atleast_1d(z)*self.zbinscale).astype(np.int64))
+        zind = np.searchsorted(self.zinteger,np.round((np.atleast_1d(z) - self.z[0])/self.zbinsize).astype(np.int64))
         if (zind.size == 1):
             return np.ndarray.item(zind)
         else:
-- 
2.43.0


From 8a521305f0e4e590d8f76fa832ebe2ce39abffcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:27 +0000
Subject: [PATCH 24/93] fix: do not index the overflow bin when the model is
 not extrapolated at the top

---
 redmapper/zred_color.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/redmapper/zred_color.py b/redmapper/zred_color.py
index 303d5b0..7d55f97 100644
--- a/redmapper/zred_color.py
+++ b/redmapper/zred_color.py
@@ -42,7 +42,8 @@ class ZredColor(object):
         self.zrange = zrange
 
         self.nz = self.zredstr.z.size - 1
-        self.notextrap, = np.where(~self.zredstr.extrapolated)
+        # The overflow bin is not used here
+        self.notextrap, = np.where(~self.zredstr.extrapolated[: self.nz])
 
         if self.zrange is None:
             self.zbinstart = 0
-- 
2.43.0


From 4ce7bbc5b3af0182a717f30bf7a5b98a13ef77dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:03 +0000
Subject: [PATCH 25/93] fix: keep the sentinel zreds of unusable galaxies in
 the bulk correction

---
 redmapper/zred_color.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/redmapper/zred_color.py b/redmapper/zred_color.py
index 7d55f97..fefaed9 100644
--- a/redmapper/zred_color.py
+++ b/redmapper/zred_color.py
@@ -71,25 +71,31 @@ class ZredColor(object):
 
         if self.do_correction:
             # Bulk processing
-            olddzs = np.zeros(galaxies.size)
+            # Leave the sentinel values of the galaxies without a zred
+            gd, = np.where(galaxies.zred_uncorr_e > 0.0)
+            refmag = galaxies.refmag[gd]
+            zred_uncorr = galaxies.zred_uncorr[gd]
+            zred_uncorr_e = galaxies.zred_uncorr_e[gd]
+
+            olddzs = np.zeros(gd.size)
             dzs = np.zeros_like(olddzs)
             iteration = 0
 
-            pivotmags = interpol(self.zredstr.pivotmag, self.zredstr.z, galaxies.zred_uncorr)
+            pivotmags = interpol(self.zredstr.pivotmag, self.zredstr.z, zred_uncorr)
 
             while (iteration < 5):
                 olddzs[:] = dzs
-                dzs[:] = interpol(self.zredstr.corr, self.zredstr.z, galaxies.zred_uncorr + olddzs) + (galaxies.refmag - pivotmags) * interpol(self.zredstr.corr_slope, self.zredstr.z, galaxies.zred_uncorr + olddzs)
+                dzs[:] = interpol(self.zredstr.corr, self.zredstr.z, zred_uncorr + olddzs) + (refmag - pivotmags) * interpol(self.zredstr.corr_slope, self.zredstr.z, zred_uncorr + olddzs)
                 iteration += 1
 
-            galaxies.zred = galaxies.zred_uncorr + dzs
-            galaxies.zred_e = galaxies.zred_uncorr_e * interpol(self.zredstr.corr_r, self.zredstr.z, galaxies.zred)
+            galaxies.zred[gd] = zred_uncorr + dzs
+            galaxies.zred_e[gd] = zred_uncorr_e * interpol(self.zredstr.corr_r, self.zredstr.z, galaxies.zred[gd])
 
-            dz2s = interpol(self.zredstr.corr2, self.zredstr.z, galaxies.zred_uncorr)
-            r2s = interpol(self.zredstr.corr2_r, self.zredstr.z, galaxies.zred_uncorr)
+            dz2s = interpol(self.zredstr.corr2, self.zredstr.z, zred_uncorr)
+            r2s = interpol(self.zredstr.corr2_r, self.zredstr.z, zred_uncorr)
 
-            galaxies.zred2 = galaxies.zred_uncorr + dz2s
-            galaxies.zred2_e = galaxies.zred_uncorr_e * r2s
+            galaxies.zred2[gd] = zred_uncorr + dz2s
+            galaxies.zred2_e[gd] = zred_uncorr_e * r2s
 
 
     def compute_zred(self, galaxy, no_corrections=False):
-- 
2.43.0


From a86c1c76e68dfecccd205f6660983d3c485dd8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:03 +0000
Subject: [PATCH 26/93] fix: apply the zred2 magnitude slope in the bulk
 correction as for single galaxies

---
 redmapper/zred_color.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/zred_color.py b/redmapper/zred_color.py
index fefaed9..299f60c 100644
--- a/redmapper/zred_color.py
+++ b/redmapper/zred_color.py
@@ -91,7 +91,7 @@ class ZredColor(object):
             galaxies.zred[gd] = zred_uncorr + dzs
             galaxies.zred_e[gd] = zred_uncorr_e * interpol(self.zredstr.corr_r, self.zredstr.z, galaxies.zred[gd])
 
-            dz2s = interpol(self.zredstr.corr2, self.zredstr.z, zred_uncorr)
+            dz2s = interpol(self.zredstr.corr2, self.zredstr.z, zred_uncorr) + (refmag - pivotmags) * interpol(self.zredstr.corr2_slope, self.zredstr.z, zred_uncorr)
             r2s = interpol(self.zredstr.corr2_r, self.zredstr.z, zred_uncorr)
 
             galaxies.zred2[gd] = zred_uncorr + dz2s
-- 
2.43.0


From bc796a7e1c7808d0fe3e22267a2c5c3f30be75a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:03 +0000
Subject: [PATCH 27/93] fix: compute zreds of catalogs with fewer galaxies than
 processes

---
 redmapper/zred_runner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/zred_runner.py b/redmapper/zred_runner.py
index 16c2302..deb568f 100644
--- a/redmapper/zred_runner.py
+++ b/redmapper/zred_runner.py
@@ -75,7 +75,7 @@ class ZredRunCatalog(object):
 
         if nperproc is None:
             nperproc = int(float(ngal) / (self.config.calib_nproc - 0.1))
-            nperproc = np.clip(nperproc, None, maxperproc)
+            nperproc = np.clip(nperproc, 1, maxperproc)
 
         inds = np.arange(0, ngal, nperproc)
         worker_list = [(ind, np.clip(ind + nperproc, None, ngal)) for ind in inds]
-- 
2.43.0


From ea9ca0e8e2d0add4fc2db0e922996860f72dd829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:58:26 +0000
Subject: [PATCH 28/93] fix: do not put zred samples in between separate peaks
 of the posterior

---
 redmapper/zred_color.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/redmapper/zred_color.py b/redmapper/zred_color.py
index 299f60c..5d432a8 100644
--- a/redmapper/zred_color.py
+++ b/redmapper/zred_color.py
@@ -229,12 +229,14 @@ class ZredColor(object):
             # We cannot do a proper p(z)
             zred_samp = np.zeros(galaxy.zred_samp.size) + zred
         else:
+            # Interpolate over every bin in the range, and without overshooting,
+            # so that no probability is put in between separate peaks.
+            pzbins = np.arange(gdzbins[0], gdzbins[-1] + 1)
             pz = dist.copy()
-            n = scipy.integrate.simpson(y=pz[gdzbins], x=self.zredstr.z[gdzbins])
+            n = scipy.integrate.simpson(y=pz[pzbins], x=self.zredstr.z[pzbins])
             pz /= n
 
-            pdf = scipy.interpolate.interp1d(self.zredstr.z[gdzbins], pz[gdzbins], kind='quadratic',
-                                             bounds_error=False, fill_value=0.0)
+            pdf = scipy.interpolate.PchipInterpolator(self.zredstr.z[pzbins], pz[pzbins])
             zred_samp = sample_from_pdf(pdf,
                                         [self.zredstr.z[gdzbins[0]], self.zredstr.z[gdzbins[-1]]],
                                         0.0001,
-- 
2.43.0


From e7308727472935d91d44017baebc437724f907d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:02:33 +0000
Subject: [PATCH 29/93] fix: evaluate the mask fraction at the cluster radius
 with the highest power first

---
 redmapper/cluster.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/redmapper/cluster.py b/redmapper/cluster.py
index 96a8290..dfadbca 100644
--- a/redmapper/cluster.py
+++ b/redmapper/cluster.py
@@ -524,8 +524,7 @@ class Cluster(Entry):
         else:
             # Only do this computation if we have a valid measurement
             bar_pmem = np.sum(pmem**2.0)/np.sum(pmem)
-            cval = np.clip(np.sum(cpars * rlam**np.arange(cpars.size, dtype=float)),
-                           0.0, None)
+            cval = np.clip(np.polyval(cpars, rlam), 0.0, None)
 
             self.scaleval = np.absolute(lam / np.sum(pmem))
 
-- 
2.43.0


From 0773ea7930c599ebf96fccf595842f3fabaf0d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:02:48 +0000
Subject: [PATCH 30/93] fix: compute the richness error of single-color
 richnesses

---
 redmapper/cluster.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/redmapper/cluster.py b/redmapper/cluster.py
index dfadbca..d332464 100644
--- a/redmapper/cluster.py
+++ b/redmapper/cluster.py
@@ -747,9 +747,10 @@ class Cluster(Entry):
             lam_unscaled = lam / self.scaleval
 
             if calc_err:
+                cval = np.clip(np.polyval(cpars, rlam), 0.0, None)
                 lam_cerr = self.calc_lambdacerr(mask.maskgals, self.mstar,
                                                lam, rlam, pmem, cval, self.config.dldr_gamma)
-                lam_err = np.sqrt((1. - bar_pmem) * lam_unscaled + lambda_cerr**2.)
+                lam_err = np.sqrt((1. - bar_pmem) * lam_unscaled + lam_cerr**2.)
 
             # calculate pcol (color only)
             ucounts = d_wt * phi
-- 
2.43.0


From b65625491327654042a6623a964aa25e04aa1522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:06:09 +0000
Subject: [PATCH 31/93] fix: copy the catalog values and zred background of a
 cluster

---
 redmapper/cluster.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/redmapper/cluster.py b/redmapper/cluster.py
index d332464..92da6d4 100644
--- a/redmapper/cluster.py
+++ b/redmapper/cluster.py
@@ -853,12 +853,14 @@ class Cluster(Entry):
     def __copy__(self):
         # This returns a copy of the cluster, and note that the neighbors will
         # be deepcopied which is what we want.
-        return Cluster(r0=self.r0,
+        return Cluster(cat_vals=self._ndarray.copy(),
+                       r0=self.r0,
                        beta=self.beta,
                        config=self.config,
                        zredstr=self.zredstr,
                        bkg=self.bkg,
                        cbkg=self.cbkg,
+                       zredbkg=self.zredbkg,
                        neighbors=self.neighbors)
 
 class ClusterCatalog(Catalog):
-- 
2.43.0


From e71ef3d8883ab081ee817efde6b6347de6eee0ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:12:07 +0000
Subject: [PATCH 32/93] fix: honor noerr in the z_lambda correction and do not
 modify its inputs

---
 redmapper/zlambda.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/redmapper/zlambda.py b/redmapper/zlambda.py
index f808769..ce0c863 100644
--- a/redmapper/zlambda.py
+++ b/redmapper/zlambda.py
@@ -706,12 +706,15 @@ class ZlambdaCorrectionPar(object):
 
             ozlam = copy.deepcopy(zlam)
 
-            zlam += dz
+            # Do not modify the input in place
+            zlam = zlam + dz
 
-            if pzbins is None and not noerr:
-                # No P(z).  Simple error application
-                zlam_e = np.sqrt(zlam_e**2. + extra_err**2.)
+            if noerr:
+                zlam_e_new = zlam_e
             else:
+                zlam_e_new = np.sqrt(zlam_e**2. + extra_err**2.)
+
+            if pzbins is not None:
                 # With P(z).  Do "space density expansion"
                 # modify width of bins by expansion, and also
                 # shift the center to the new zlam
@@ -719,14 +722,14 @@ class ZlambdaCorrectionPar(object):
                 offset = pzbins[int((float(npzbins) - 1)/2.)] - ozlam
 
                 opdz = pzbins[1] - pzbins[0]
-                pdz = opdz * np.sqrt(extra_err**2. + zlam_e**2.) / zlam_e
+                pdz = opdz * zlam_e_new / zlam_e
 
                 pzbins = pdz * np.arange(npzbins) + zlam - pdz * (npzbins - 1)/2. + offset
 
                 n = scipy.integrate.simpson(y=pzvals, x=pzbins)
-                pzvals /= n
+                pzvals = pzvals / n
 
-                zlam_e = np.sqrt(zlam_e**2. + extra_err**2.)
+            zlam_e = zlam_e_new
 
         if pzbins is None:
             return zlam, zlam_e
-- 
2.43.0


From 31d9747a30a928f93c5773b1f23f1738aae5aef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:12:26 +0000
Subject: [PATCH 33/93] fix: extend a p(z) that is truncated at its
 high-redshift end

---
 redmapper/zlambda.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/redmapper/zlambda.py b/redmapper/zlambda.py
index ce0c863..db0ccdd 100644
--- a/redmapper/zlambda.py
+++ b/redmapper/zlambda.py
@@ -394,10 +394,10 @@ class Zlambda(object):
 
         # check for bad values, and do slow run if necessary...
         if (self.pz[(self.config.npzbins - 1) // 2] > 0.0 and
-            ((self.pz[0] / self.pz[(self.config.npzbins - 1) // 2] > 0.01) and
+            (((self.pz[0] / self.pz[(self.config.npzbins - 1) // 2] > 0.01) and
              (self.pzbins[0] >= (self.zredstr.z[0] + 0.01))) or
-            ((self.pz[-1] >= self.pz[(self.config.npzbins-1) // 2] > 0.01) and
-             (self.pzbins[-1] <= (self.zredstr.z[-2] - 0.01)))):
+            ((self.pz[-1] / self.pz[(self.config.npzbins-1) // 2] > 0.01) and
+             (self.pzbins[-1] <= (self.zredstr.z[-2] - 0.01))))):
 
             self._zlambda_calc_pz(z_lambda, wtvals, maxrad, maxmag, slow=True)
 
-- 
2.43.0


From d79f73ccdd7a966f4a355df1d301acbe5669d33e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:14:28 +0000
Subject: [PATCH 34/93] fix: honor the maximum magnitude given for z_lambda

---
 redmapper/zlambda.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/redmapper/zlambda.py b/redmapper/zlambda.py
index db0ccdd..3f85f15 100644
--- a/redmapper/zlambda.py
+++ b/redmapper/zlambda.py
@@ -84,7 +84,7 @@ class Zlambda(object):
 
         maxmag = self.zredstr.mstar(z_lambda) - 2.5*np.log10(self.config.lval_reference)
         if maxmag_in is not None:
-            if maxmag_in.size == 1:
+            if np.size(maxmag_in) == 1:
                 maxmag = maxmag_in
 
         maxrad = 1.2 * self.cluster.r0 * 3.**self.cluster.beta
@@ -131,10 +131,6 @@ class Zlambda(object):
 
                 wtvals_mod = self.cluster.neighbors.pcol
 
-                if maxmag_in is not None:
-                   maxmag = (self.zredstr.mstar(z_lambda) -
-                       2.5 * np.log10(self.config.lval_reference))
-
                 self._zlambda_select_neighbors(wtvals_mod, maxrad, maxmag)
 
                 # break if too few neighbors
-- 
2.43.0


From 9830438c2c7a26aa536619976b8558a5ef51d0f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:19:00 +0000
Subject: [PATCH 35/93] fix: read z_lambda corrections with a single iteration

---
 redmapper/zlambda.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/redmapper/zlambda.py b/redmapper/zlambda.py
index 3f85f15..5d67810 100644
--- a/redmapper/zlambda.py
+++ b/redmapper/zlambda.py
@@ -636,13 +636,13 @@ class ZlambdaCorrectionPar(object):
         self.extrapolated[hiz] = True
 
         if self.niter == 1:
-            spl = CubicSpline(pars.offset_z, pars.offset_true)
+            spl = CubicSpline(pars.offset_z, pars.offset_true.reshape(-1))
             self.offset[0, :] = spl(self.z)
 
-            spl = CubicSpline(pars.slope_z, pars.slope_true)
+            spl = CubicSpline(pars.slope_z, pars.slope_true.reshape(-1))
             self.slope[0, :] = spl(self.z)
 
-            spl = CubicSpline(pars.slope_z, pars.scatter_true)
+            spl = CubicSpline(pars.slope_z, pars.scatter_true.reshape(-1))
             self.scatter[0, :] = np.clip(spl(self.z), 0.001, None)
         else:
             for i in range(self.niter):
-- 
2.43.0


From fcaa483976eb698c706cf51068b24ff6c95edfa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:26:58 +0000
Subject: [PATCH 36/93] fix: do not overwrite the zreds of the neighbors when
 centering with spectroscopic redshifts

---
 redmapper/centering.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/redmapper/centering.py b/redmapper/centering.py
index 5641393..df03362 100644
--- a/redmapper/centering.py
+++ b/redmapper/centering.py
@@ -90,6 +90,9 @@ class CenteringBCG(Centering):
         z_neighbors_e = self.cluster.neighbors.zred_e
         if self.config.centering_use_zspec:
             has_zspec, = np.where(self.cluster.neighbors.zspec > 0.0)
+            # Do not overwrite the values of the neighbors
+            z_neighbors = z_neighbors.copy()
+            z_neighbors_e = z_neighbors_e.copy()
             z_neighbors[has_zspec] = self.cluster.neighbors.zspec[has_zspec]
             z_neighbors_e[has_zspec] = self.cluster.neighbors.zspec_err[has_zspec]
 
@@ -147,8 +150,12 @@ class CenteringWcenZred(Centering):
         chisq_neighbors = self.cluster.neighbors.zred_chisq
         if self.config.centering_use_zspec:
             has_zspec, = np.where(self.cluster.neighbors.zspec > 0.0)
+            # Do not overwrite the values of the neighbors
+            z_neighbors = z_neighbors.copy()
+            z_neighbors_e = z_neighbors_e.copy()
             z_neighbors[has_zspec] = self.cluster.neighbors.zspec[has_zspec]
             z_neighbors_e[has_zspec] = self.cluster.neighbors.zspec_err[has_zspec]
+            chisq_neighbors = chisq_neighbors.copy()
             chisq_neighbors[has_zspec] = 1.0
 
         # These are the galaxies considered as candidate centers
-- 
2.43.0


From 188c6219b32deb72d137ddd21b3888566f7a9d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:26:58 +0000
Subject: [PATCH 37/93] fix: report failure when no galaxy can be a center

---
 redmapper/centering.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/redmapper/centering.py b/redmapper/centering.py
index df03362..5336825 100644
--- a/redmapper/centering.py
+++ b/redmapper/centering.py
@@ -165,6 +165,11 @@ class CenteringWcenZred(Centering):
                         ((self.cluster.neighbors.pmem > 0.0) |
                          (np.abs(self.cluster.redshift - z_neighbors) < 5.0 * z_neighbors_e)))
 
+        if use.size == 0:
+            # There are no candidate centers
+            self.q_miss = 1.0
+            return False
+
         # Do the phi_cen filter
         mbar = self.cluster.mstar + self.config.wcen_Delta0 + self.config.wcen_Delta1 * np.log(self.cluster.Lambda / self.config.wcen_pivot)
         phi_cen = gaussFunction(self.cluster.neighbors.refmag[use],
-- 
2.43.0


From b3c19c58f3d2bad61916d9efa0329134f9b83b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:29:52 +0000
Subject: [PATCH 38/93] fix: do not record the id of an unrelated galaxy for
 missing centers

---
 redmapper/run_percolation.py | 3 ++-
 redmapper/run_zscan.py       | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/redmapper/run_percolation.py b/redmapper/run_percolation.py
index 905c22f..6503d21 100644
--- a/redmapper/run_percolation.py
+++ b/redmapper/run_percolation.py
@@ -308,7 +308,8 @@ class RunPercolation(ClusterRunner):
                 cluster.zred_e = cluster.neighbors.zred_e[cent.index[0]]
                 cluster.zred_chisq = cluster.neighbors.zred_chisq[cent.index[0]]
 
-            cluster.id_cent[:] = cluster.neighbors.id[cent.index]
+            # There may be fewer good centers than the maximum
+            cluster.id_cent[:] = np.where(cent.index >= 0, cluster.neighbors.id[cent.index], 0)
             cluster.neighbors.centering_cand[cent.index] = 1
 
         # And update the center info...
diff --git a/redmapper/run_zscan.py b/redmapper/run_zscan.py
index aa580d5..c9c0c79 100644
--- a/redmapper/run_zscan.py
+++ b/redmapper/run_zscan.py
@@ -271,7 +271,8 @@ class RunZScan(ClusterRunner):
                 cluster.zred_e = cluster.neighbors.zred_e[cent.index[0]]
                 cluster.zred_chisq = cluster.neighbors.zred_chisq[cent.index[0]]
 
-            cluster.id_cent[:] = cluster.neighbors.id[cent.index]
+            # There may be fewer good centers than the maximum
+            cluster.id_cent[:] = np.where(cent.index >= 0, cluster.neighbors.id[cent.index], 0)
 
         # And update the center info...
         cluster.ncent_good = cent.ngood
-- 
2.43.0


From a5df53953eb23406fd9a0b27f7b4702a17d73870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:49:36 +0000
Subject: [PATCH 39/93] fix: set the total likelihood when the centering is not
 yet calibrated

---
 redmapper/run_likelihoods.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/run_likelihoods.py b/redmapper/run_likelihoods.py
index 81dc02c..f595379 100644
--- a/redmapper/run_likelihoods.py
+++ b/redmapper/run_likelihoods.py
@@ -234,7 +234,7 @@ class RunLikelihoods(ClusterRunner):
 
                 cluster.lnbcglike = np.log(phi_cen * np.clip(g, 1e-10, None) * fw)
 
-            cluster.lnlike = cluster.lnbcglike + cluster.lnlamlike
+        cluster.lnlike = cluster.lnbcglike + cluster.lnlamlike
 
         return bad
 
-- 
2.43.0


From d7e0a5d4c003c58e2ea8200d5704a30b521831d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:49:36 +0000
Subject: [PATCH 40/93] fix: record the central likelihood in the catalog

---
 redmapper/run_likelihoods.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/redmapper/run_likelihoods.py b/redmapper/run_likelihoods.py
index f595379..1e4e388 100644
--- a/redmapper/run_likelihoods.py
+++ b/redmapper/run_likelihoods.py
@@ -160,7 +160,7 @@ class RunLikelihoods(ClusterRunner):
         Internal method to reset all cluster values to "bad" values.
         """
         cluster.lnlamlike = -1e11
-        cluster.lnbcglike = -1e11
+        cluster.lncglike = -1e11
         cluster.lnlike = -1e11
 
         super(RunLikelihoods, self)._reset_bad_values(cluster)
@@ -198,7 +198,7 @@ class RunLikelihoods(ClusterRunner):
         # And the central likelihood
         if self.config.lnw_cen_sigma <= 0.0:
             # We do not have a calibration yet
-            cluster.lnbcglike = 0.0
+            cluster.lncglike = 0.0
         else:
             # First phi_cen
             mbar = (cluster.mstar + self.config.wcen_Delta0 +
@@ -232,9 +232,9 @@ class RunLikelihoods(ClusterRunner):
             with warnings.catch_warnings():
                 warnings.simplefilter("error")
 
-                cluster.lnbcglike = np.log(phi_cen * np.clip(g, 1e-10, None) * fw)
+                cluster.lncglike = np.log(phi_cen * np.clip(g, 1e-10, None) * fw)
 
-        cluster.lnlike = cluster.lnbcglike + cluster.lnlamlike
+        cluster.lnlike = cluster.lncglike + cluster.lnlamlike
 
         return bad
 
-- 
2.43.0


From f8e1f881ac513cea96bb727b85852c322d075429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:49:36 +0000
Subject: [PATCH 41/93] fix: use the configured radius for first pass seeds
 from zreds

---
 redmapper/run_firstpass.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/redmapper/run_firstpass.py b/redmapper/run_firstpass.py
index 9bb209c..5dbc94b 100644
--- a/redmapper/run_firstpass.py
+++ b/redmapper/run_firstpass.py
@@ -209,7 +209,9 @@ class RunFirstPass(ClusterRunner):
                                             zredstr=self.zredstr,
                                             config=self.config,
                                             bkg=self.bkg,
-                                            cosmo=self.cosmo)
+                                            cosmo=self.cosmo,
+                                            r0=self.r0,
+                                            beta=self.beta)
 
             self.cat.ra = self.gals.ra[use[good]]
             self.cat.dec = self.gals.dec[use[good]]
-- 
2.43.0


From 2424b9b13b79a72d3ad5d12ca402bdfb7432f777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:49:36 +0000
Subject: [PATCH 42/93] fix: record the corrected p(z)

---
 redmapper/cluster_runner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/cluster_runner.py b/redmapper/cluster_runner.py
index eebad42..bb61a1b 100644
--- a/redmapper/cluster_runner.py
+++ b/redmapper/cluster_runner.py
@@ -459,7 +459,7 @@ class ClusterRunner(object):
                                                                                           pzbins=cluster.pzbins,
                                                                                           pzvals=cluster.pz)
                         cluster.pzbins = pzbins
-                        cluster.pzvals = pzvals
+                        cluster.pz = pzvals
                     else:
                         zlam, zlam_e = self.zlambda_corr.apply_correction(cluster.Lambda,
                                                                           cluster.z_lambda,
-- 
2.43.0


From fa13a8472c5f99f7bc954207f526ddd1ef237237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:49:36 +0000
Subject: [PATCH 43/93] fix: match the zreds of the centers to the right
 clusters

---
 redmapper/cluster_runner.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/redmapper/cluster_runner.py b/redmapper/cluster_runner.py
index bb61a1b..c53c82f 100644
--- a/redmapper/cluster_runner.py
+++ b/redmapper/cluster_runner.py
@@ -349,9 +349,9 @@ class ClusterRunner(object):
             self.cat.mag_err[i0, :] = self.gals.mag_err[i1, :]
 
             if self.did_read_zreds:
-                self.cat.zred = self.gals.zred[i1]
-                self.cat.zred_e = self.gals.zred_e[i1]
-                self.cat.zred_chisq = self.gals.zred_chisq[i1]
+                self.cat.zred[i0] = self.gals.zred[i1]
+                self.cat.zred_e[i0] = self.gals.zred_e[i1]
+                self.cat.zred_chisq[i0] = self.gals.zred_chisq[i1]
 
         # loop over clusters...
         # at the moment, we are doing the matching once per cluster.
-- 
2.43.0


From 849717c78e01fb031c108c9271131207d16bdc40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:49:36 +0000
Subject: [PATCH 44/93] fix: keep the free probability of a galaxy from going
 negative

---
 redmapper/cluster_runner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/cluster_runner.py b/redmapper/cluster_runner.py
index c53c82f..90bb453 100644
--- a/redmapper/cluster_runner.py
+++ b/redmapper/cluster_runner.py
@@ -403,7 +403,7 @@ class ClusterRunner(object):
                         continue
 
                     if self.do_percolation_masking:
-                        cluster.neighbors.pfree[:] = 1.0 - self.pgal[cluster.neighbors.index]
+                        cluster.neighbors.pfree[:] = np.clip(1.0 - self.pgal[cluster.neighbors.index], 0.0, None)
                     else:
                         cluster.neighbors.pfree[:] = 1.0
 
-- 
2.43.0


From 48fe6713aad640c49987181b8e947a5e1a29b9d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:49:36 +0000
Subject: [PATCH 45/93] fix: apply the luminosity limit of the recorded members

---
 redmapper/run_percolation.py | 1 +
 redmapper/runcat.py          | 1 +
 2 files changed, 2 insertions(+)

diff --git a/redmapper/run_percolation.py b/redmapper/run_percolation.py
index 6503d21..348bf57 100644
--- a/redmapper/run_percolation.py
+++ b/redmapper/run_percolation.py
@@ -210,6 +210,7 @@ class RunPercolation(ClusterRunner):
         if (self.config.percolation_memlum is not None and
             self.config.percolation_memlum > 0.0 and
             self.config.percolation_memlum < self.config.lval_reference):
+            self.use_memlum = True
             if self.config.percolation_memlum < self.limlum:
                 self.limlum = self.config.percolation_memlum
 
diff --git a/redmapper/runcat.py b/redmapper/runcat.py
index 7f7ac96..2cd63d0 100644
--- a/redmapper/runcat.py
+++ b/redmapper/runcat.py
@@ -104,6 +104,7 @@ class RunCatalog(ClusterRunner):
         if self.config.percolation_memlum is not None:
             if (self.config.percolation_memlum > 0.0 and
                 self.config.percolation_memlum < self.config.lval_reference):
+                self.use_memlum = True
                 if self.config.percolation_memlum < self.limlum:
                     self.limlum = self.config.percolation_memlum
 
-- 
2.43.0


From ff5d1d738f72ee2650d24a81ecf4615dead67164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:49:36 +0000
Subject: [PATCH 46/93] fix: only mark actual central candidates

---
 redmapper/run_percolation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/run_percolation.py b/redmapper/run_percolation.py
index 348bf57..f2ab21a 100644
--- a/redmapper/run_percolation.py
+++ b/redmapper/run_percolation.py
@@ -311,7 +311,7 @@ class RunPercolation(ClusterRunner):
 
             # There may be fewer good centers than the maximum
             cluster.id_cent[:] = np.where(cent.index >= 0, cluster.neighbors.id[cent.index], 0)
-            cluster.neighbors.centering_cand[cent.index] = 1
+            cluster.neighbors.centering_cand[cent.index[cent.index >= 0]] = 1
 
         # And update the center info...
         cluster.ncent_good = cent.ngood
-- 
2.43.0


From 18b9b9dbedab5b02e8864b530483a4e8f5e13175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:49:36 +0000
Subject: [PATCH 47/93] fix: do not record clusters without members inside
 r_lambda

---
 redmapper/run_percolation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/redmapper/run_percolation.py b/redmapper/run_percolation.py
index f2ab21a..579e6d8 100644
--- a/redmapper/run_percolation.py
+++ b/redmapper/run_percolation.py
@@ -399,6 +399,7 @@ class RunPercolation(ClusterRunner):
                       (cluster.neighbors.p > 0.0))
         if u.size == 0:
             # This is another way to get a bad cluster
+            bad = True
             self._reset_bad_values(cluster)
             return bad
 
-- 
2.43.0


From d4a78a972b44f9970a20b1cb8b9667def0665af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:00:55 +0000
Subject: [PATCH 48/93] fix: use the number of colors for the central
 chi-squared filter

---
 redmapper/run_likelihoods.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/run_likelihoods.py b/redmapper/run_likelihoods.py
index 1e4e388..c2b12b4 100644
--- a/redmapper/run_likelihoods.py
+++ b/redmapper/run_likelihoods.py
@@ -219,7 +219,7 @@ class RunLikelihoods(ClusterRunner):
                      np.exp(-0.5 * (cluster.neighbors.zred[minrind] - zrmod)**2. / cluster.neighbors.zred_e[minrind]**2.))
             else:
                 # chisq filter
-                g = chisq_pdf(cluster.neighbors.chisq[minrind], self.zredstr.dof)
+                g = chisq_pdf(cluster.neighbors.chisq[minrind], self.zredstr.ncol)
 
             # and the w filter
             lum = 10.**((cluster.mstar - cluster.neighbors.refmag) / 2.5)
-- 
2.43.0


From f682bac81956030c99e4ce58fc69922b89722a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:25:45 +0000
Subject: [PATCH 49/93] fix: area of a volume-limit mask counts the pixels
 whose zmax exceeds z

---
 redmapper/volumelimit.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/redmapper/volumelimit.py b/redmapper/volumelimit.py
index cfc6667..4a5b047 100644
--- a/redmapper/volumelimit.py
+++ b/redmapper/volumelimit.py
@@ -303,8 +303,9 @@ class VolumeLimitMask(object):
         astr.area[lo] = np.sum(fracgoods.astype(np.float64)) * pixsize
 
         if np.sum(~lo) > 0:
-            carea = pixsize * np.cumsum(fracgoods, dtype=np.float64)
-            astr.area[~lo] = carea[carea.size - inds[~lo]]
+            # carea[i] is the area of the pixels from i on (those with larger zmax)
+            carea = np.append(pixsize * np.cumsum(fracgoods[::-1], dtype=np.float64)[::-1], 0.0)
+            astr.area[~lo] = carea[inds[~lo]]
 
         return astr
 
-- 
2.43.0


From e88bdd55fb7e1ce9215e4189185fe14fa035ea81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:25:45 +0000
Subject: [PATCH 50/93] fix: zmax of a position off the sphere is zero, not an
 error

---
 redmapper/volumelimit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/volumelimit.py b/redmapper/volumelimit.py
index 4a5b047..9b495a5 100644
--- a/redmapper/volumelimit.py
+++ b/redmapper/volumelimit.py
@@ -260,7 +260,7 @@ class VolumeLimitMask(object):
         if (len(ras) != len(decs)):
             raise ValueError("ras, decs must be same length")
 
-        values = self.sparse_vlimmap.get_values_pos(ras, decs, lonlat=True)
+        values = self.sparse_vlimmap.get_values_pos(ras, np.clip(decs, -90.0, 90.0), lonlat=True)
 
         bad, = np.where(np.abs(decs) > 90.0)
         values['zmax'][bad] = hpg.UNSEEN
-- 
2.43.0


From 8fa05873672838fdd832d47922009667748e35ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:25:45 +0000
Subject: [PATCH 51/93] fix: sub-region attributes of the volume-limit mask
 were swapped

---
 redmapper/volumelimit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/redmapper/volumelimit.py b/redmapper/volumelimit.py
index 9b495a5..b4b059a 100644
--- a/redmapper/volumelimit.py
+++ b/redmapper/volumelimit.py
@@ -87,8 +87,8 @@ class VolumeLimitMask(object):
         self.sparse_vlimmap = healsparse.HealSparseMap.read(self.vlimfile, pixels=covpixels)
 
         self.nside = self.sparse_vlimmap.nside_sparse
-        self.subpix_nside = self.config.d.hpix
-        self.subpix_hpix = self.config.d.nside
+        self.subpix_nside = self.config.d.nside
+        self.subpix_hpix = self.config.d.hpix
         self.subpix_border = self.config.border
 
     def _build_mask(self):
-- 
2.43.0


From 40182eab2efce43fe4b531a09afa4758f1d53300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:25:45 +0000
Subject: [PATCH 52/93] fix: random points compare with the zmax of their own
 position

---
 redmapper/randoms.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/redmapper/randoms.py b/redmapper/randoms.py
index 5abc9b6..d498273 100644
--- a/redmapper/randoms.py
+++ b/redmapper/randoms.py
@@ -117,6 +117,7 @@ class GenerateRandoms(object):
 
             # zctr counts the number of successfully placed randoms
             # while i counts index through tempcat, many of which will be rejected.
+            zmax = zmax[gd]
             zctr = 0
             for i in range(tempcat.size):
                 if (zz[zctr] < zmax[i]):
-- 
2.43.0


From f8c06513d696b430fe1b2d714fc8fef996468ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:25:45 +0000
Subject: [PATCH 53/93] fix: weighted randoms are named after the redshift
 range they were made for

---
 redmapper/randoms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/redmapper/randoms.py b/redmapper/randoms.py
index d498273..ab2bed0 100644
--- a/redmapper/randoms.py
+++ b/redmapper/randoms.py
@@ -279,8 +279,8 @@ class RandomWeigher(object):
         if zrange is None:
             zrange = np.array([self.config.zrange[0], self.config.zrange[1]])
 
-        zname = 'z%03d-%03d' % (int(self.config.zrange[0]*100),
-                                int(self.config.zrange[1]*100))
+        zname = 'z%03d-%03d' % (int(zrange[0]*100),
+                                int(zrange[1]*100))
         vlimname = 'vl%02d' % (int(self.vlim_lstar*10))
         if lambdabin is None:
             lamname = 'lgt%03d' % (int(minlambda))
-- 
2.43.0


From 87810cf398ac4ed1f7de6a771b077fff9a0b046e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:25:45 +0000
Subject: [PATCH 54/93] fix: split_randoms needs the os module

---
 redmapper/randoms.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/redmapper/randoms.py b/redmapper/randoms.py
index ab2bed0..0af1f25 100644
--- a/redmapper/randoms.py
+++ b/redmapper/randoms.py
@@ -3,6 +3,7 @@
 
 import fitsio
 import esutil
+import os
 import re
 import copy
 import numpy as np
-- 
2.43.0


From d52bac3dbc47895ddf2fb85066e2d5933597ab9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:25:45 +0000
Subject: [PATCH 55/93] fix: redMaGiC randoms can be made from file names

---
 redmapper/redmagic/redmagic_randoms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/redmapper/redmagic/redmagic_randoms.py b/redmapper/redmagic/redmagic_randoms.py
index bc78b6d..4601ebe 100644
--- a/redmapper/redmagic/redmagic_randoms.py
+++ b/redmapper/redmagic/redmagic_randoms.py
@@ -35,14 +35,14 @@ class RedmagicGenerateRandoms(object):
             self.vlim_mask = vlim_mask_or_file
         elif isinstance(vlim_mask_or_file, str):
             # This 0.2 is a dummy value
-            self.vlim_mask = VolumeLimitMask(config, 0.2, vlimfile=self.vlim_mask_or_file)
+            self.vlim_mask = VolumeLimitMask(config, 0.2, vlimfile=vlim_mask_or_file)
         else:
             raise RuntimeError("vlim_mask_or_file must be a redmapper.VolumeLimitMask or a filename")
 
         if isinstance(redmagic_cat_or_file, GalaxyCatalog):
             self.redmagic_cat = redmagic_cat_or_file
         elif isinstance(redmagic_cat_or_file, str):
-            self.redmagic_cat = GalaxyCatalog.from_fits_file(redmagic_file)
+            self.redmagic_cat = GalaxyCatalog.from_fits_file(redmagic_cat_or_file)
         else:
             raise RuntimeError("redmagic_cat_or_file must be a redmapper.GalaxyCatalog")
 
-- 
2.43.0


From ff32ff868ddc6a0cd0b522eed2d53bf19cf8af6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:25:45 +0000
Subject: [PATCH 56/93] fix: redMaGiC randoms keep unit weight

---
 redmapper/redmagic/redmagic_randoms.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/redmapper/redmagic/redmagic_randoms.py b/redmapper/redmagic/redmagic_randoms.py
index 4601ebe..16c0194 100644
--- a/redmapper/redmagic/redmagic_randoms.py
+++ b/redmapper/redmagic/redmagic_randoms.py
@@ -103,6 +103,7 @@ class RedmagicGenerateRandoms(object):
             tempcat.ra = ra_rand[gd]
             tempcat.dec = dec_rand[gd]
             tempcat.z[:] = -1.0
+            tempcat.weight[:] = 1.0
 
             zz = rng.choice(self.redmagic_cat.zredmagic, size=gd.size)
             zmax = zmax[gd]
-- 
2.43.0


From 2d51ac5af5bd1008f7301d4923567d3073205ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:53 +0000
Subject: [PATCH 57/93] fix: run on one process below a high-resolution region
 splits at the region nside

---
 redmapper/redmapper_run.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/redmapper_run.py b/redmapper/redmapper_run.py
index da0ea42..c88313b 100644
--- a/redmapper/redmapper_run.py
+++ b/redmapper/redmapper_run.py
@@ -169,7 +169,7 @@ class RedmapperRun(object):
 
         if self.config.calib_run_nproc == 1:
             if self.config.d.nside > self.config.calib_run_min_nside:
-                nside_test = self.config.run_min_nside
+                nside_test = self.config.d.nside
             else:
                 nside_test = np.clip(self.config.d.nside, 1, None)
             subpixels = self._get_subpixels(nside_test, tab)
-- 
2.43.0


From e2d0fe6d9416dcfcb6cba237887b8482bc89a0b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:53 +0000
Subject: [PATCH 58/93] fix: member file of a merged pixel is found when the
 path contains .fit

---
 redmapper/redmapper_run.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/redmapper/redmapper_run.py b/redmapper/redmapper_run.py
index c88313b..0898214 100644
--- a/redmapper/redmapper_run.py
+++ b/redmapper/redmapper_run.py
@@ -317,8 +317,7 @@ class RedmapperRun(object):
             cat = cat[use]
 
             if members:
-                parts = f.split('.fit')
-                mem = Catalog.from_fits_file(parts[0] + '_members.fit')
+                mem = Catalog.from_fits_file(os.path.splitext(f)[0] + '_members.fit')
 
                 # We are going to replace the mem_match_ids in the consolidated catalog,
                 # because the ones generated in the pixels aren't unique
-- 
2.43.0


From 550b8abdc420565c21f587d921085e83e8fa1b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:53 +0000
Subject: [PATCH 59/93] fix: read_members removes the .fit extension and not
 trailing letters

---
 redmapper/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/utilities.py b/redmapper/utilities.py
index e53507d..97ebeac 100644
--- a/redmapper/utilities.py
+++ b/redmapper/utilities.py
@@ -1091,7 +1091,7 @@ def read_members(catfile):
 
     from .galaxy import GalaxyCatalog
 
-    memfile = '%s_members.fit' % (catfile.rstrip('.fit'))
+    memfile = '%s_members.fit' % (os.path.splitext(catfile)[0])
 
     if not os.path.isfile(memfile):
         raise RuntimeError("Could not find member file %s" % (memfile))
-- 
2.43.0


From 68d5faa0f2bd9f89b5440da059140685d46328c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:53 +0000
Subject: [PATCH 60/93] fix: memory prediction maps table pixels to run pixels

---
 redmapper/pipeline/mempredict.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/pipeline/mempredict.py b/redmapper/pipeline/mempredict.py
index a64ff57..7e745fc 100644
--- a/redmapper/pipeline/mempredict.py
+++ b/redmapper/pipeline/mempredict.py
@@ -91,7 +91,7 @@ class MemPredict(object):
 
         theta, phi = hpg.pixel_to_angle(tab.nside, tab.hpix, lonlat=False, nest=False)
         for i, nside in enumerate(nsides):
-            hpix_run = hpg.pixel_to_angle(nside, theta, phi, lonlat=False, nest=False)
+            hpix_run = hpg.angle_to_pixel(nside, theta, phi, lonlat=False, nest=False)
 
             h, rev = esutil.stat.histogram(hpix_run, rev=True)
 
-- 
2.43.0


From 09e8e8afb8f8949f309479759f8c3906e8035d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:53 +0000
Subject: [PATCH 61/93] fix: runcat pixel task imports RunCatalog

---
 redmapper/pipeline/redmappertask.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/redmapper/pipeline/redmappertask.py b/redmapper/pipeline/redmappertask.py
index affbfdb..0ebbb65 100644
--- a/redmapper/pipeline/redmappertask.py
+++ b/redmapper/pipeline/redmappertask.py
@@ -11,6 +11,7 @@ from ..run_likelihoods import RunLikelihoods
 from ..run_percolation import RunPercolation
 from ..run_randoms_zmask import RunRandomsZmask
 from ..run_zscan import RunZScan
+from ..runcat import RunCatalog
 
 from ..utilities import getMemoryString
 
-- 
2.43.0


From 0c4cd5a106339a61830bacb78a7854afc4e27a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:53 +0000
Subject: [PATCH 62/93] fix: runcat and zscan pixel tasks write the file names
 they look for

---
 redmapper/pipeline/redmappertask.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/redmapper/pipeline/redmappertask.py b/redmapper/pipeline/redmappertask.py
index 0ebbb65..41cdb7a 100644
--- a/redmapper/pipeline/redmappertask.py
+++ b/redmapper/pipeline/redmappertask.py
@@ -176,7 +176,7 @@ class RuncatPixelTask(object):
         runcat = RunCatalog(self.config)
         if not os.path.isfile(runcat.filename):
             runcat.run(do_percolation_masking=self.config.runcat_percolation_masking)
-            runcat.output(savemembers=True, withversion=True)
+            runcat.output(savemembers=True, withversion=False)
 
         self.config.stop_file_logging()
 
@@ -306,7 +306,7 @@ class RunZScanPixelTask(object):
         runzscan = RunZScan(self.config)
         if not os.path.isfile(runzscan.filename):
             runzscan.run()
-            runzscan.output(savemembers=True, withversion=True)
+            runzscan.output(savemembers=True, withversion=False)
 
         self.config.stop_file_logging()
 
-- 
2.43.0


From 48b082abc0e42c3f95ef431b4240593f40ce4316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:53 +0000
Subject: [PATCH 63/93] fix: consolidation with select_scaleval scales the
 selected clusters

---
 redmapper/pipeline/redmapperconsolidatetask.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/redmapper/pipeline/redmapperconsolidatetask.py b/redmapper/pipeline/redmapperconsolidatetask.py
index e9169d6..34302e3 100644
--- a/redmapper/pipeline/redmapperconsolidatetask.py
+++ b/redmapper/pipeline/redmapperconsolidatetask.py
@@ -160,8 +160,6 @@ class RedmapperConsolidateTask(object):
 
             # Note: when adding mock support, read in true galaxies to get members
 
-            scaleval = cat.scaleval if self.config.select_scaleval else 1.0
-
             # Figure out which clusters are in the pixel, less than
             # max_maskfrac, and above percolation_minlambda (with or without
             # scale)
@@ -194,6 +192,8 @@ class RedmapperConsolidateTask(object):
             all_ids = np.append(all_ids, cat.mem_match_id)
             all_likelihoods = np.append(all_likelihoods, cat.lnlamlike)
 
+            scaleval = cat.scaleval if self.config.select_scaleval else 1.0
+
             # loop over minlambda
             for i, minlambda in enumerate(self.lambda_cuts):
                 # loop over vlim_masks
-- 
2.43.0


From 9167078d55a7cd2ba75f2eebdf2dc734aafa90f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:53 +0000
Subject: [PATCH 64/93] fix: consolidation skips the renumbering of an empty
 selection

---
 redmapper/pipeline/redmapperconsolidatetask.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/redmapper/pipeline/redmapperconsolidatetask.py b/redmapper/pipeline/redmapperconsolidatetask.py
index 34302e3..35cb36d 100644
--- a/redmapper/pipeline/redmapperconsolidatetask.py
+++ b/redmapper/pipeline/redmapperconsolidatetask.py
@@ -246,6 +246,10 @@ class RedmapperConsolidateTask(object):
 
         for i, minlambda in enumerate(self.lambda_cuts):
             for j, vlim_mask in enumerate(vlim_masks):
+                if not started[i, j]:
+                    # No clusters were selected, and no files were written
+                    continue
+
                 catfits = fitsio.FITS(cat_filename_dict[(i, j)][1], mode='rw')
                 memfits = fitsio.FITS(cat_filename_dict[(i, j)][2], mode='rw')
 
-- 
2.43.0


From b63e6f09ef0b73f20cf6370dc66805cce97fac5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:53 +0000
Subject: [PATCH 65/93] fix: nside and pixel are read from the end of the
 catalog file name

---
 redmapper/pipeline/redmapperconsolidatetask.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/redmapper/pipeline/redmapperconsolidatetask.py b/redmapper/pipeline/redmapperconsolidatetask.py
index 35cb36d..9176230 100644
--- a/redmapper/pipeline/redmapperconsolidatetask.py
+++ b/redmapper/pipeline/redmapperconsolidatetask.py
@@ -80,7 +80,7 @@ class RedmapperConsolidateTask(object):
         self.config.logger.info("Found %d catalog files in %s" % (len(catfiles), self.config.outpath))
 
         # Extract the nside that was run
-        m = re.search(r'_(\d+)_(\d\d\d\d\d)_', catfiles[0])
+        m = re.search(r'_(\d+)_(\d\d\d\d\d)_final_catalog\.fit$', catfiles[0])
         if m is None:
             raise RuntimeError("Could not understand filename for %s" % (catfiles[0]))
 
@@ -128,7 +128,7 @@ class RedmapperConsolidateTask(object):
 
             # Extract pixnum from name
 
-            m = re.search(r'_(\d+)_(\d\d\d\d\d)_', catfile)
+            m = re.search(r'_(\d+)_(\d\d\d\d\d)_final_catalog\.fit$', catfile)
             if m is None:
                 raise RuntimeError("Could not understand filename for %s" % (catfile))
 
@@ -338,7 +338,7 @@ class RuncatConsolidateTask(object):
         self.config.logger.info("Found %d catalog files in %s" % (len(catfiles), self.config.outpath))
 
         # Extract the nside that was run
-        m = re.search(r'_(\d+)_(\d\d\d\d\d)_', catfiles[0])
+        m = re.search(r'_(\d+)_(\d\d\d\d\d)_%s_catalog\.fit$' % (re.escape(cattype)), catfiles[0])
         if m is None:
             raise RuntimeError("Could not understand filename for %s" % (catfiles[0]))
 
@@ -361,7 +361,7 @@ class RuncatConsolidateTask(object):
 
             # Extract pixnum from name
 
-            m = re.search(r'_(\d+)_(\d\d\d\d\d)_', catfile)
+            m = re.search(r'_(\d+)_(\d\d\d\d\d)_%s_catalog\.fit$' % (re.escape(cattype)), catfile)
             if m is None:
                 raise RuntimeError("Could not understand filename for %s" % (catfile))
 
-- 
2.43.0


From 23f1ad630af91b0d3389f487a417510503dff7cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:53 +0000
Subject: [PATCH 66/93] fix: runcat consolidation keeps only the members of the
 clusters it keeps

---
 redmapper/pipeline/redmapperconsolidatetask.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/redmapper/pipeline/redmapperconsolidatetask.py b/redmapper/pipeline/redmapperconsolidatetask.py
index 9176230..38b0cc5 100644
--- a/redmapper/pipeline/redmapperconsolidatetask.py
+++ b/redmapper/pipeline/redmapperconsolidatetask.py
@@ -404,6 +404,11 @@ class RuncatConsolidateTask(object):
 
             cat = cat[use]
 
+            if consolidate_members:
+                # Cut down members
+                a, b = esutil.numpy_util.match(cat.mem_match_id, mem.mem_match_id)
+                mem = mem[b]
+
             if not started:
                 # Figure out filename
                 cat_fname = self.config.redmapper_filename('%s_catalog' % (cattype), withversion=True)
-- 
2.43.0


From 15a9e7e762103c266fd124965ddcb9759b822f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:53 +0000
Subject: [PATCH 67/93] fix: runcat consolidation names its plots

---
 redmapper/pipeline/redmapperconsolidatetask.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/pipeline/redmapperconsolidatetask.py b/redmapper/pipeline/redmapperconsolidatetask.py
index 38b0cc5..0e33561 100644
--- a/redmapper/pipeline/redmapperconsolidatetask.py
+++ b/redmapper/pipeline/redmapperconsolidatetask.py
@@ -428,7 +428,7 @@ class RuncatConsolidateTask(object):
 
         if do_plots:
             cat = Catalog.from_fits_file(cat_fname)
-            self.config.d.outbase = cat_name
+            self.config.d.outbase = os.path.basename(cat_fname).split('_catalog')[0]
             specplot = SpecPlot(self.config)
 
             if self.config.has_truth:
-- 
2.43.0


From 32363e16c76574f01313b74d8f9b693497142454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:53 +0000
Subject: [PATCH 68/93] fix: zred pixel task releases its lock when the
 computation fails

---
 redmapper/pipeline/zredtask.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/redmapper/pipeline/zredtask.py b/redmapper/pipeline/zredtask.py
index 9eb343f..942a804 100644
--- a/redmapper/pipeline/zredtask.py
+++ b/redmapper/pipeline/zredtask.py
@@ -88,12 +88,13 @@ class RunZredPixelTask(object):
         if not test:
             raise IOError("Failed to get lock on pixel %d" % (self.pixel))
 
-        # Compute all the zreds and output pixels
-        runPixels = ZredRunPixels(self.config)
-        runPixels.run(single_process=True, no_zred_table=True, verbose=True)
-
-        # We are done writing, so we can clear the lockfile
-        os.unlink(writelock)
+        try:
+            # Compute all the zreds and output pixels
+            runPixels = ZredRunPixels(self.config)
+            runPixels.run(single_process=True, no_zred_table=True, verbose=True)
+        finally:
+            # We are done writing, so we can clear the lockfile
+            os.unlink(writelock)
 
         # Make a lockfile and check what's been output already.
 
-- 
2.43.0


From f90c79028d49aa74199fea2407a1435be65a0d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:58 +0000
Subject: [PATCH 69/93] fix: read maps of sub-region pixels that share a
 coverage pixel

---
 redmapper/depthmap.py    | 3 +++
 redmapper/mask.py        | 3 +++
 redmapper/volumelimit.py | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/redmapper/depthmap.py b/redmapper/depthmap.py
index 4c93fb2..18cd238 100644
--- a/redmapper/depthmap.py
+++ b/redmapper/depthmap.py
@@ -57,6 +57,9 @@ class DepthMap(object):
         if len(config.d.hpix) > 0:
             covpixels = get_healsparse_subpix_indices(config.d.nside, config.d.hpix,
                                                       config.border, nside_coverage)
+            if covpixels is not None:
+                # Several sub-region pixels may share a coverage pixel
+                covpixels = np.unique(covpixels)
         else:
             covpixels = None
 
diff --git a/redmapper/mask.py b/redmapper/mask.py
index 932bb41..be88765 100644
--- a/redmapper/mask.py
+++ b/redmapper/mask.py
@@ -361,6 +361,9 @@ class HPMask(Mask):
         if len(config.d.hpix) > 0:
             covpixels = get_healsparse_subpix_indices(config.d.nside, config.d.hpix,
                                                       config.border, nside_coverage)
+            if covpixels is not None:
+                # Several sub-region pixels may share a coverage pixel
+                covpixels = np.unique(covpixels)
         else:
             # Read in the whole thing
             covpixels = None
diff --git a/redmapper/volumelimit.py b/redmapper/volumelimit.py
index b4b059a..20f8d52 100644
--- a/redmapper/volumelimit.py
+++ b/redmapper/volumelimit.py
@@ -81,6 +81,9 @@ class VolumeLimitMask(object):
         if len(self.config.d.hpix) > 0:
             covpixels = get_healsparse_subpix_indices(self.config.d.nside, self.config.d.hpix,
                                                       self.config.border, nside_coverage)
+            if covpixels is not None:
+                # Several sub-region pixels may share a coverage pixel
+                covpixels = np.unique(covpixels)
         else:
             covpixels = None
 
-- 
2.43.0


From 114f5d347fa31de773f5e7ea19102e0b05b38a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:50 +0000
Subject: [PATCH 70/93] fix: honour maxiter when converging z_lambda in
 RunCatalog

---
 redmapper/runcat.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/redmapper/runcat.py b/redmapper/runcat.py
index 2cd63d0..6115f50 100644
--- a/redmapper/runcat.py
+++ b/redmapper/runcat.py
@@ -180,5 +180,7 @@ class RunCatalog(ClusterRunner):
             else:
                 done = True
 
+            iteration += 1
+
         return bad
 
-- 
2.43.0


From 703f2791403cd83d0b7f80598e30901fb8ccd151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:42 +0000
Subject: [PATCH 71/93] fix: run redMaGiC from the run configuration that was
 written

---
 redmapper/redmagic/redmagic_calibrate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/redmagic/redmagic_calibrate.py b/redmapper/redmagic/redmagic_calibrate.py
index cb37933..5ac8c6e 100644
--- a/redmapper/redmagic/redmagic_calibrate.py
+++ b/redmapper/redmagic/redmagic_calibrate.py
@@ -711,5 +711,5 @@ class RedmagicCalibrator(object):
 
         if do_run:
             # Call the redmagic runner here.
-            run_redmagic = RunRedmagicTask(runfile)
+            run_redmagic = RunRedmagicTask(self.runfile)
             run_redmagic.run()
-- 
2.43.0


From f79b32d6f53fdd1b62cedc40a4277cdd6d20dc8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:30 +0000
Subject: [PATCH 72/93] fix: select redMaGiC galaxies from a catalog of one
 galaxy

---
 redmapper/redmagic/redmagic_selector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/redmagic/redmagic_selector.py b/redmapper/redmagic/redmagic_selector.py
index 627c60e..470b949 100644
--- a/redmapper/redmagic/redmagic_selector.py
+++ b/redmapper/redmagic/redmagic_selector.py
@@ -167,7 +167,7 @@ class RedmagicSelector(object):
             zredmagic_e *= spl(gals.zred_uncorr)
 
         # Compute mstar
-        mstar = self.zredstr.mstar(zredmagic)
+        mstar = np.atleast_1d(self.zredstr.mstar(zredmagic))
 
         # Compute the maximum redshift
         vmask = self.vlim_masks[_mode]
-- 
2.43.0


From d3277e1ae3abd3b61f3df263fd8cfc6313bd643c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:00 +0000
Subject: [PATCH 73/93] fix: files of volume limits that differ by less than
 0.1 L* have different names

---
 .../pipeline/redmapperconsolidatetask.py      |  4 +--
 redmapper/randoms.py                          |  4 +--
 redmapper/volumelimit.py                      | 27 +++++++++++++++++--
 3 files changed, 29 insertions(+), 6 deletions(-)

diff --git a/redmapper/pipeline/redmapperconsolidatetask.py b/redmapper/pipeline/redmapperconsolidatetask.py
index 0e33561..842477b 100644
--- a/redmapper/pipeline/redmapperconsolidatetask.py
+++ b/redmapper/pipeline/redmapperconsolidatetask.py
@@ -9,7 +9,7 @@ import hpgeom as hpg
 import esutil
 
 from ..configuration import Configuration
-from ..volumelimit import VolumeLimitMask, VolumeLimitMaskFixed
+from ..volumelimit import VolumeLimitMask, VolumeLimitMaskFixed, vlim_name
 from ..catalog import Catalog, Entry
 from ..utilities import read_members, astro_to_sphere
 from ..plotting import SpecPlot, NzPlot, NLambdaPlot, PositionPlot
@@ -211,7 +211,7 @@ class RedmapperConsolidateTask(object):
                     if not started[i, j]:
                         # Figure out filename
                         if len(self.vlim_lstars) > 0:
-                            extraname = 'lgt%02d_vl%02d' % (minlambda, int(self.vlim_lstars[j]*10))
+                            extraname = 'lgt%02d_%s' % (minlambda, vlim_name(self.vlim_lstars[j]))
                         else:
                             extraname = 'lgt%02d' % (minlambda)
 
diff --git a/redmapper/randoms.py b/redmapper/randoms.py
index 0af1f25..057013b 100644
--- a/redmapper/randoms.py
+++ b/redmapper/randoms.py
@@ -15,7 +15,7 @@ from .galaxy import GalaxyCatalog, GalaxyCatalogMaker
 from .cluster import ClusterCatalog
 from .utilities import make_nodes, CubicSpline
 from .fitters import MedZFitter
-from .volumelimit import VolumeLimitMask
+from .volumelimit import VolumeLimitMask, vlim_name
 
 class GenerateRandoms(object):
     """
@@ -282,7 +282,7 @@ class RandomWeigher(object):
 
         zname = 'z%03d-%03d' % (int(zrange[0]*100),
                                 int(zrange[1]*100))
-        vlimname = 'vl%02d' % (int(self.vlim_lstar*10))
+        vlimname = vlim_name(self.vlim_lstar)
         if lambdabin is None:
             lamname = 'lgt%03d' % (int(minlambda))
             lambdabin = np.array([0.0, 1000.0])
diff --git a/redmapper/volumelimit.py b/redmapper/volumelimit.py
index 20f8d52..1883406 100644
--- a/redmapper/volumelimit.py
+++ b/redmapper/volumelimit.py
@@ -13,6 +13,29 @@ from .redsequence import RedSequenceColorPar
 from .utilities import astro_to_sphere, get_healsparse_subpix_indices
 
 
+def vlim_name(vlim_lstar):
+    """
+    Get the name of a volume limit, to use in filenames.
+
+    This is tenths of L* (e.g. vl02), and hundredths of L* (e.g. vl025) for
+    limits which are not a multiple of 0.1 L*.
+
+    Parameters
+    ----------
+    vlim_lstar: `float`
+       Volume limit threshold luminosity
+
+    Returns
+    -------
+    name: `str`
+    """
+    hundredths = int(round(vlim_lstar * 100))
+    if hundredths % 10 == 0:
+        return 'vl%02d' % (hundredths // 10)
+    else:
+        return 'vl%03d' % (hundredths)
+
+
 class VolumeLimitMask(object):
     """
     A class to describe a volume limit mask.
@@ -51,8 +74,8 @@ class VolumeLimitMask(object):
         self.vlim_lstar = vlim_lstar
 
         if vlimfile is None:
-            self.vlimfile = self.config.redmapper_filename('vl%02d_vlim_zmask' %
-                                                            (int(self.vlim_lstar*10)),
+            self.vlimfile = self.config.redmapper_filename('%s_vlim_zmask' %
+                                                           (vlim_name(self.vlim_lstar)),
                                                            withversion=withversion)
         else:
             self.vlimfile = vlimfile
-- 
2.43.0


From a6fc9e1fa3aa56176c61fb3afdcabaa11f1fafb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:06 +0000
Subject: [PATCH 74/93] fix: write the configuration when an array option is
 not set

---
 redmapper/configuration.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/redmapper/configuration.py b/redmapper/configuration.py
index 263c8dd..b5f3962 100644
--- a/redmapper/configuration.py
+++ b/redmapper/configuration.py
@@ -943,6 +943,9 @@ class Configuration(object):
         for key in type(self).__dict__:
             if isinstance(type(self).__dict__[key], ConfigField):
                 if type(self).__dict__[key]._isArray:
+                    if type(self).__dict__[key]._value is None:
+                        # Not set, and will not be set when reading back in.
+                        continue
                     # Convert all elements to python types and make a list
                     out_dict[key] = np.ndarray.tolist(type(self).__dict__[key]._value)
                 else:
-- 
2.43.0


From 8b2c95d32f3724fd650fd33e2a9390469c461416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:06 +0000
Subject: [PATCH 75/93] fix: read the slope of the satellite luminosity
 function from the wcenfile

---
 redmapper/configuration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/configuration.py b/redmapper/configuration.py
index b5f3962..05ba9c7 100644
--- a/redmapper/configuration.py
+++ b/redmapper/configuration.py
@@ -822,7 +822,7 @@ class Configuration(object):
         # New wcen files also record the phi1 information
         if 'phi1_mmstar_m' in wcen[0].dtype.names:
             vals['phi1_mmstar_m'] = wcen[0]['phi1_mmstar_m']
-            vals['phi1_mmstar_slope'] = wcen[0]['phi1_mmstar_m']
+            vals['phi1_mmstar_slope'] = wcen[0]['phi1_mmstar_slope']
             vals['phi1_msig_m'] = wcen[0]['phi1_msig_m']
             vals['phi1_msig_slope'] = wcen[0]['phi1_msig_slope']
 
-- 
2.43.0


From 0a87537a18b194fe7cba1116e0f8a10715cba7f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:06 +0000
Subject: [PATCH 76/93] fix: log to a file when not running on a sub-region

---
 redmapper/configuration.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/redmapper/configuration.py b/redmapper/configuration.py
index 05ba9c7..263115e 100644
--- a/redmapper/configuration.py
+++ b/redmapper/configuration.py
@@ -591,8 +591,11 @@ class Configuration(object):
             os.makedirs(os.path.join(self.outpath, self.logpath), exist_ok=True)
 
         if filename is None:
-            logfilename = os.path.join(self.outpath, self.logpath,
-                                       f'redmapper_{self.d.outbase}_{self.d.hpix[0]:04}.log')
+            if len(self.d.hpix) > 0:
+                logname = f'redmapper_{self.d.outbase}_{self.d.hpix[0]:04}.log'
+            else:
+                logname = f'redmapper_{self.d.outbase}.log'
+            logfilename = os.path.join(self.outpath, self.logpath, logname)
         else:
             logfilename = os.path.join(self.outpath, self.logpath, os.path.basename(filename))
 
-- 
2.43.0


From 0d24e98c02f07fd83868b1e94ce930870628d3c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:06 +0000
Subject: [PATCH 77/93] fix: file logging can be started again after it was
 stopped

---
 redmapper/configuration.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/redmapper/configuration.py b/redmapper/configuration.py
index 263115e..3189f63 100644
--- a/redmapper/configuration.py
+++ b/redmapper/configuration.py
@@ -612,6 +612,8 @@ class Configuration(object):
             handler.close()
             self.logger.removeHandler(handler)
 
+        self._file_logging_started = False
+
     def _reset_vars(self):
         """
         Internal method to reset variables to defaults
-- 
2.43.0


From 52efda0de9a01342501280d8b3d8aee07e9c0af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:24:13 +0000
Subject: [PATCH 78/93] fix: the two-component fit does not stop where the
 density underflows

---
 redmapper/fitters.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/redmapper/fitters.py b/redmapper/fitters.py
index c1f7e84..9807ce9 100644
--- a/redmapper/fitters.py
+++ b/redmapper/fitters.py
@@ -1054,7 +1054,8 @@ class EcgmmFitter(object):
         g = ((wt0 / np.sqrt(2. * np.pi * (sigma0**2. + self._y_err2)) * np.exp(-(self._y - mu0)**2. / (2. * (sigma0**2. + self._y_err2)))) +
              (wt1 / np.sqrt(2. * np.pi * (sigma1**2. + self._y_err2)) * np.exp(-(self._y - mu1)**2. / (2. * (sigma1**2. + self._y_err2)))))
 
-        t = np.sum(np.log(g))
+        # Far from both components the density underflows, but the cost must stay finite
+        t = np.sum(np.log(np.clip(g, np.finfo(np.float64).tiny, None)))
 
         return -t
 
-- 
2.43.0


From 04c09fc714456fa0b9ff7af4661547c1ab2c269f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:24:13 +0000
Subject: [PATCH 79/93] fix: name the file of calibration zreds after the whole
 galaxy file name

---
 redmapper/calibration/redsequencecal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/calibration/redsequencecal.py b/redmapper/calibration/redsequencecal.py
index 2b02802..4ca3373 100644
--- a/redmapper/calibration/redsequencecal.py
+++ b/redmapper/calibration/redsequencecal.py
@@ -215,7 +215,7 @@ class RedSequenceCalibrator(object):
         self._calc_zreds(gals, do_correction=True)
 
         # And want to save galaxies and zreds
-        zredfile = os.path.join(self.config.outpath, os.path.basename(self._galfile.rstrip('.fit') + '_zreds.fit'))
+        zredfile = os.path.join(self.config.outpath, os.path.basename(os.path.splitext(self._galfile)[0] + '_zreds.fit'))
         gals.to_fits_file(zredfile)
 
         # Make diagnostic plots
-- 
2.43.0


From d0346f1c7ecbbe15e8f8447392c3df468b1d7d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:56:43 +0000
Subject: [PATCH 80/93] fix: write the members before the catalogue which marks
 a pass as done

---
 redmapper/cluster_runner.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/redmapper/cluster_runner.py b/redmapper/cluster_runner.py
index 90bb453..5ab5b64 100644
--- a/redmapper/cluster_runner.py
+++ b/redmapper/cluster_runner.py
@@ -651,15 +651,17 @@ class ClusterRunner(object):
             self.config.logger.info("Warning: no catalog generated for %s" % (self._filename))
             return
 
-        self.config.logger.info("Writing catalog to file: %s" % (self._filename))
-        self.cat.to_fits_file(self._filename, clobber=clobber)
-
+        # The members are written first because the presence of the catalog is
+        # taken to mean that the output is complete (for restarts)
         if savemembers:
             if self.members is None:
                 self.config.logger.info("Warning: no members generated for %s" % (self._filename))
-                return
-            memfilename = self.config.redmapper_filename(self.filetype + '_catalog_members', withversion=withversion, outbase=outbase)
-            self.members.to_fits_file(memfilename, clobber=clobber)
+            else:
+                memfilename = self.config.redmapper_filename(self.filetype + '_catalog_members', withversion=withversion, outbase=outbase)
+                self.members.to_fits_file(memfilename, clobber=clobber)
+
+        self.config.logger.info("Writing catalog to file: %s" % (self._filename))
+        self.cat.to_fits_file(self._filename, clobber=clobber)
 
     @property
     def filename(self):
-- 
2.43.0


From 4d344f9a2ee0c4d0d339f73a00a720fd3ae7a16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:56:43 +0000
Subject: [PATCH 81/93] fix: write the final catalogue of a run last so that an
 interrupted run is completed

---
 redmapper/redmapper_run.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/redmapper/redmapper_run.py b/redmapper/redmapper_run.py
index 0898214..6a0c7f7 100644
--- a/redmapper/redmapper_run.py
+++ b/redmapper/redmapper_run.py
@@ -134,14 +134,16 @@ class RedmapperRun(object):
         percfiles = [x[3] for x in retvals if x[3] is not None]
 
         # Allow for runs without consolidation
+        # The final file is made last because its presence is taken to mean that
+        # the run is complete (for restarts)
+        if consolidate_like:
+            likefile = self._consolidate(hpixels_like, likefiles, 'like', members=False, check=check)
+
         if consolidate:
             finalfile = self._consolidate(hpixels_perc, percfiles, 'final', members=True, check=check)
         else:
             finalfile = None
 
-        if consolidate_like:
-            likefile = self._consolidate(hpixels_like, likefiles, 'like', members=False, check=check)
-
         # Reset the nside in the config file
         self.config.d.nside = nside_orig
 
@@ -358,11 +360,13 @@ class RedmapperRun(object):
         # And write out...
         # We can clobber because if it was already there and we wanted to check
         # that already happened
-        ubercat.to_fits_file(outfile, clobber=True)
-
+        # The members are written first because the presence of the catalog is
+        # taken to mean that the output is complete (for restarts)
         if members:
             ubermem.to_fits_file(memfile, clobber=True)
 
+        ubercat.to_fits_file(outfile, clobber=True)
+
         return outfile
 
     def _worker(self, hpix):
-- 
2.43.0


From 82b19a9e8c1eb80df18ca516f9368bd5ba662302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:56:43 +0000
Subject: [PATCH 82/93] fix: write the red galaxy model before the red galaxies
 which mark the step as done

---
 redmapper/calibration/selectspecred.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/redmapper/calibration/selectspecred.py b/redmapper/calibration/selectspecred.py
index 0875a31..e918b4c 100644
--- a/redmapper/calibration/selectspecred.py
+++ b/redmapper/calibration/selectspecred.py
@@ -210,11 +210,6 @@ class SelectSpecRedGalaxies(object):
                                 self.config.calib_redspec_nsig * np.sqrt(galcolor_err[u, j]**2. + sc**2.)))
                 mark[u[gd]] = True
 
-        # Output the red galaxies
-        use, = np.where(mark)
-
-        gals.to_fits_file(self.config.redgalfile, indices=use, clobber=True)
-
         # Output the model
         model = Entry(np.zeros(1, dtype=[('nodes', 'f4', nodes.size),
                                          ('meancol', 'f4', meancol.shape),
@@ -229,6 +224,12 @@ class SelectSpecRedGalaxies(object):
 
         model.to_fits_file(self.config.redgalmodelfile, clobber=True)
 
+        # Output the red galaxies (last, because the presence of this file is
+        # taken to mean that the selection has been made)
+        use, = np.where(mark)
+
+        gals.to_fits_file(self.config.redgalfile, indices=use, clobber=True)
+
         # And make some plots!
         import matplotlib.pyplot as plt
 
-- 
2.43.0


From 0c60e8d350c4b950da05f9aff10fe8233f13702a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:56:43 +0000
Subject: [PATCH 83/93] fix: stop the calibration if any corrected redshift is
 negative

---
 redmapper/calibration/calibrate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/calibration/calibrate.py b/redmapper/calibration/calibrate.py
index a052da8..d30d962 100644
--- a/redmapper/calibration/calibrate.py
+++ b/redmapper/calibration/calibrate.py
@@ -528,7 +528,7 @@ class RedmapperCalibrationIteration(object):
                 cluster.z_lambda_e = zlam_e
 
             # Check for negative values... this is a minimal check
-            test, = np.where(cluster.z_lambda < 0.0)
+            test, = np.where(cat.z_lambda < 0.0)
             if (test.size > 0):
                 raise RuntimeError("z_lambda correction calibration totally failed, and is yielding negative redshifts.  "
                                    "Likely there is a configuration error, see config.calib_zlambda_minlambda and "
-- 
2.43.0


From 86ab5039be6cee02c0b784ed5c5ecae9dd1dfcbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:56:43 +0000
Subject: [PATCH 84/93] fix: the run configuration of a calibration has the
 full path of the depth and mask files

---
 redmapper/calibration/calibrate.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/redmapper/calibration/calibrate.py b/redmapper/calibration/calibrate.py
index d30d962..2c84a5a 100644
--- a/redmapper/calibration/calibrate.py
+++ b/redmapper/calibration/calibrate.py
@@ -216,6 +216,10 @@ class RedmapperCalibrator(object):
         # Make sure we have absolute paths for everything that is defined
         self.config.galfile = os.path.abspath(self.config.galfile)
         self.config.specfile = os.path.abspath(self.config.specfile)
+        if self.config.depthfile is not None:
+            self.config.depthfile = os.path.abspath(self.config.depthfile)
+        if self.config.maskfile is not None:
+            self.config.maskfile = os.path.abspath(self.config.maskfile)
 
         outbase_cal = self.config.outbase
 
-- 
2.43.0


From 2dc4abaf174e20c73755a807fc411ccd9f28f79e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:12 +0000
Subject: [PATCH 85/93] fix: a narrow redshift range keeps its first node

---
 redmapper/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/utilities.py b/redmapper/utilities.py
index 97ebeac..d5eb550 100644
--- a/redmapper/utilities.py
+++ b/redmapper/utilities.py
@@ -864,7 +864,7 @@ def make_nodes(zrange, nodesize, maxnode=None):
     nodes = np.arange(zrange[0], _maxnode, nodesize)
 
     # Should we extend the last bin?
-    if ((_maxnode - nodes.max()) > (nodesize / 2. + 0.01)):
+    if nodes.size == 1 or ((_maxnode - nodes.max()) > (nodesize / 2. + 0.01)):
         # one more node!
         nodes = np.append(nodes, _maxnode)
     elif ~np.allclose(np.max(nodes), _maxnode):
-- 
2.43.0


From 59ba37f69eaacda60bdc689f4466bbf339c2d639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:12 +0000
Subject: [PATCH 86/93] fix: draw the noise of each galaxy in the depth model

---
 redmapper/depth_fitting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/depth_fitting.py b/redmapper/depth_fitting.py
index 0dee613..2d7aac4 100644
--- a/redmapper/depth_fitting.py
+++ b/redmapper/depth_fitting.py
@@ -105,7 +105,7 @@ def applyErrorModel(pars, magIn, noNoise=False, lnscat=None):
     if (noNoise):
         flux = tFlux
     else:
-        flux = tFlux + noise*np.random.normal(magIn.size)
+        flux = tFlux + noise*np.random.normal(size=magIn.size)
 
     # Straight magnitudes
     mag = pars['ZP'][0] - 2.5*np.log10(flux/pars['EXPTIME'][0])
-- 
2.43.0


From df7d30fd8824c5518de20e45ffd2245cc7df627b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:44:34 +0000
Subject: [PATCH 87/93] fix: the batch tool uses the healpix library that is
 required

---
 bin/redmapper_batch.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bin/redmapper_batch.py b/bin/redmapper_batch.py
index 473aae4..f00b55c 100644
--- a/bin/redmapper_batch.py
+++ b/bin/redmapper_batch.py
@@ -8,7 +8,7 @@ from __future__ import division, absolute_import, print_function
 import os
 import argparse
 import yaml
-import healpy as hp
+import hpgeom as hpg
 import numpy as np
 import glob
 
@@ -154,8 +154,8 @@ jobname = '%s_%s' % (config.outbase, jobtype)
 
 tab = redmapper.Entry.from_fits_file(config.galfile)
 
-theta, phi = hp.pix2ang(tab.nside, tab.hpix)
-hpix_run = np.unique(hp.ang2pix(nside, theta, phi))
+theta, phi = hpg.pixel_to_angle(tab.nside, tab.hpix, lonlat=False, nest=False)
+hpix_run = np.unique(hpg.angle_to_pixel(nside, theta, phi, lonlat=False, nest=False))
 
 # Make the batch script in a "jobs" directory
 
-- 
2.43.0


From 286480b0ca53d98dd45ba1a4a61a0b846de0da1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:44:34 +0000
Subject: [PATCH 88/93] fix: consolidate the catalogs that runcat writes

---
 bin/redmapper_consolidate_runcat.py            | 2 +-
 redmapper/pipeline/redmapperconsolidatetask.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bin/redmapper_consolidate_runcat.py b/bin/redmapper_consolidate_runcat.py
index fcb4cae..48f5b02 100644
--- a/bin/redmapper_consolidate_runcat.py
+++ b/bin/redmapper_consolidate_runcat.py
@@ -25,7 +25,7 @@ if __name__ == '__main__':
         do_plots = True
         match_spec = True
         consolidate_members = True
-        cattype = 'runcat'
+        cattype = 'lambda_chisq'
 
     consolidate = redmapper.pipeline.RuncatConsolidateTask(args.configfile)
     consolidate.run(do_plots=do_plots, match_spec=match_spec, consolidate_members=consolidate_members, cattype=cattype)
diff --git a/redmapper/pipeline/redmapperconsolidatetask.py b/redmapper/pipeline/redmapperconsolidatetask.py
index 842477b..28678ee 100644
--- a/redmapper/pipeline/redmapperconsolidatetask.py
+++ b/redmapper/pipeline/redmapperconsolidatetask.py
@@ -318,7 +318,7 @@ class RuncatConsolidateTask(object):
 
         self.config = Configuration(configfile, outpath=path)
 
-    def run(self, do_plots=True, match_spec=True, consolidate_members=True, cattype='runcat'):
+    def run(self, do_plots=True, match_spec=True, consolidate_members=True, cattype='lambda_chisq'):
         """
         Run the runcat consolidation task.
 
-- 
2.43.0


From c6965627763e0dd729f0ffbfcb0428643fbd4aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:45:01 +0000
Subject: [PATCH 89/93] fix: do not overwrite the tenth batch job

---
 bin/redmapper_batch.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/bin/redmapper_batch.py b/bin/redmapper_batch.py
index f00b55c..1c1dd4a 100644
--- a/bin/redmapper_batch.py
+++ b/bin/redmapper_batch.py
@@ -10,7 +10,6 @@ import argparse
 import yaml
 import hpgeom as hpg
 import numpy as np
-import glob
 
 import redmapper
 import redmapper.parsl_templates as parsl_templates
@@ -167,10 +166,12 @@ if not os.path.isdir(jobpath):
 
 # Will want to check for previous (failed) jobs
 if batchconfig[batchmode]['batch'] == 'parsl':
-    test = glob.glob(os.path.join(jobpath, '%s_?.py' % (jobname)))
+    jobext = 'py'
 else:
-    test = glob.glob(os.path.join(jobpath, '%s_?.job' % (jobname)))
-index = len(test)
+    jobext = 'job'
+index = 0
+while os.path.isfile(os.path.join(jobpath, '%s_%d.%s' % (jobname, index + 1, jobext))):
+    index += 1
 
 need_maskgals = False
 
-- 
2.43.0


From 91a62d4f2065fc4c9ac1f2c705559db66161f03f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:09:00 +0000
Subject: [PATCH 90/93] fix: member redshifts of the spectroscopic plot belong
 to their own cluster

---
 redmapper/plotting.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/redmapper/plotting.py b/redmapper/plotting.py
index 16b4027..a14f0ac 100644
--- a/redmapper/plotting.py
+++ b/redmapper/plotting.py
@@ -104,15 +104,19 @@ class SpecPlot(object):
         ok, = np.where(mem.zspec > 0.0)
         mem = mem[ok]
 
-        a, b = esutil.numpy_util.match(cat.mem_match_id, mem.mem_match_id)
+        if mem.size > 0:
+            a, b = esutil.numpy_util.match(cat.mem_match_id, mem.mem_match_id)
+        else:
+            a = b = np.zeros(0, dtype=np.int64)
 
-        h, rev = esutil.stat.histogram(a, rev=True)
         mem_zmed = np.zeros(cat.size)
-        for i in range(h.size):
-            if h[i] == 0:
-                continue
-            i1a = rev[rev[i]: rev[i + 1]]
-            mem_zmed[i] = np.median(mem.zspec[i1a])
+        if a.size > 0:
+            h, rev = esutil.stat.histogram(a, min=0, max=cat.size - 1, rev=True)
+            for i in range(h.size):
+                if h[i] == 0:
+                    continue
+                i1a = rev[rev[i]: rev[i + 1]]
+                mem_zmed[i] = np.median(mem.zspec[b[i1a]])
 
         return self.plot_values(mem_zmed, cat.z_lambda, cat.z_lambda_e, title=title,
                                 figure_return=figure_return, withversion=withversion)
-- 
2.43.0


From 2203f57ff11b09e5f731c0a94fe2555c7d9d67a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:09:00 +0000
Subject: [PATCH 91/93] fix: a catalog without spectra is consolidated and
 plotted to the end

---
 redmapper/plotting.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/redmapper/plotting.py b/redmapper/plotting.py
index a14f0ac..2c1ec60 100644
--- a/redmapper/plotting.py
+++ b/redmapper/plotting.py
@@ -157,6 +157,10 @@ class SpecPlot(object):
 
         use, = np.where(z_spec > 0.0)
 
+        if use.size == 0:
+            self.config.logger.info("No spectroscopic redshifts to plot.  Skipping...")
+            return None
+
         import matplotlib.pyplot as plt
         from matplotlib.ticker import MultipleLocator
 
-- 
2.43.0


From 078a5526c80d6f05d772b6cb7f7b3151bcabf4d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:09:00 +0000
Subject: [PATCH 92/93] fix: plot of a consolidated catalog without members
 uses the central redshift

---
 redmapper/pipeline/redmapperconsolidatetask.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/pipeline/redmapperconsolidatetask.py b/redmapper/pipeline/redmapperconsolidatetask.py
index 28678ee..346ecb5 100644
--- a/redmapper/pipeline/redmapperconsolidatetask.py
+++ b/redmapper/pipeline/redmapperconsolidatetask.py
@@ -431,7 +431,7 @@ class RuncatConsolidateTask(object):
             self.config.d.outbase = os.path.basename(cat_fname).split('_catalog')[0]
             specplot = SpecPlot(self.config)
 
-            if self.config.has_truth:
+            if self.config.has_truth and consolidate_members:
                 mem = Catalog.from_fits_file(mem_fname)
                 specplot.plot_cluster_catalog_from_members(cat, mem, title=self.config.d.outbase)
             else:
-- 
2.43.0


From 979131ce2c68138a77932583e559ed5d3778124e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:24:32 +0000
Subject: [PATCH 93/93] fix: the id given to a single cluster is kept

---
 redmapper/cluster_runner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/cluster_runner.py b/redmapper/cluster_runner.py
index 5ab5b64..b6254b3 100644
--- a/redmapper/cluster_runner.py
+++ b/redmapper/cluster_runner.py
@@ -292,7 +292,7 @@ class ClusterRunner(object):
         min_id = self.cat.mem_match_id.min()
         max_id = self.cat.mem_match_id.max()
 
-        if (min_id == max_id):
+        if (min_id == max_id) and (self.cat.size > 1 or max_id == 0):
             # These are unset: generate them
             self.cat.mem_match_id = np.arange(self.cat.size) + 1
         else:
-- 
2.43.0

