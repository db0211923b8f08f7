From 262e49feba081adc45cd034c8a8b008ecdc19619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:22:44 +0000
Subject: [PATCH 01/48] fix: report a percolated cluster without connected
 members as bad

---
 redmapper/run_percolation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/redmapper/run_percolation.py b/redmapper/run_percolation.py
index 905c22f..59edb0e 100644
--- a/redmapper/run_percolation.py
+++ b/redmapper/run_percolation.py
@@ -397,6 +397,7 @@ class RunPercolation(ClusterRunner):
                       (cluster.neighbors.p > 0.0))
         if u.size == 0:
             # This is another way to get a bad cluster
+            bad = True
             self._reset_bad_values(cluster)
             return bad
 
-- 
2.43.0


From a4df253669c6d014a478f75e8a57a2bc9d4250d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:22:44 +0000
Subject: [PATCH 02/48] fix: do not record the last neighbor for unused central
 candidates in percolation

---
 redmapper/run_percolation.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/redmapper/run_percolation.py b/redmapper/run_percolation.py
index 59edb0e..164c991 100644
--- a/redmapper/run_percolation.py
+++ b/redmapper/run_percolation.py
@@ -308,8 +308,10 @@ class RunPercolation(ClusterRunner):
                 cluster.zred_e = cluster.neighbors.zred_e[cent.index[0]]
                 cluster.zred_chisq = cluster.neighbors.zred_chisq[cent.index[0]]
 
-            cluster.id_cent[:] = cluster.neighbors.id[cent.index]
-            cluster.neighbors.centering_cand[cent.index] = 1
+            # unused candidate slots are padded with index -1
+            gd, = np.where(cent.index >= 0)
+            cluster.id_cent[gd] = cluster.neighbors.id[cent.index[gd]]
+            cluster.neighbors.centering_cand[cent.index[gd]] = 1
 
         # And update the center info...
         cluster.ncent_good = cent.ngood
-- 
2.43.0


From 0a0c1978235a3980218bebe49d9166243e6647e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:22:44 +0000
Subject: [PATCH 03/48] fix: read phi1_mmstar_slope from its own column of the
 wcen file

---
 redmapper/configuration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/configuration.py b/redmapper/configuration.py
index 263c8dd..5b41e5c 100644
--- a/redmapper/configuration.py
+++ b/redmapper/configuration.py
@@ -822,7 +822,7 @@ class Configuration(object):
         # New wcen files also record the phi1 information
         if 'phi1_mmstar_m' in wcen[0].dtype.names:
             vals['phi1_mmstar_m'] = wcen[0]['phi1_mmstar_m']
-            vals['phi1_mmstar_slope'] = wcen[0]['phi1_mmstar_m']
+            vals['phi1_mmstar_slope'] = wcen[0]['phi1_mmstar_slope']
             vals['phi1_msig_m'] = wcen[0]['phi1_msig_m']
             vals['phi1_msig_slope'] = wcen[0]['phi1_msig_slope']
 
-- 
2.43.0


From 62a0f76c794976e9a557dcfbabd5d2f0e92813a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:22:44 +0000
Subject: [PATCH 04/48] fix: import RunCatalog for the runcat pixel task

---
 redmapper/pipeline/redmappertask.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/redmapper/pipeline/redmappertask.py b/redmapper/pipeline/redmappertask.py
index affbfdb..0ebbb65 100644
--- a/redmapper/pipeline/redmappertask.py
+++ b/redmapper/pipeline/redmappertask.py
@@ -11,6 +11,7 @@ from ..run_likelihoods import RunLikelihoods
 from ..run_percolation import RunPercolation
 from ..run_randoms_zmask import RunRandomsZmask
 from ..run_zscan import RunZScan
+from ..runcat import RunCatalog
 
 from ..utilities import getMemoryString
 
-- 
2.43.0


From 58666c6d76de5d6a3a9af2fad29759635705c9fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:22:45 +0000
Subject: [PATCH 05/48] fix: report the out of range pixel instead of failing
 on an undefined name

---
 redmapper/galaxy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/galaxy.py b/redmapper/galaxy.py
index 781dcff..ca18d59 100644
--- a/redmapper/galaxy.py
+++ b/redmapper/galaxy.py
@@ -138,7 +138,7 @@ class GalaxyCatalog(Catalog):
             if len(_hpix) > 0:
                 for _hp in _hpix:
                     if _hp < 0 or _hp >= hpg.nside_to_npixel(nside):
-                        raise ValueError("hpix %d is out of range." % (hp))
+                        raise ValueError("hpix %d is out of range." % (_hp))
 
         if border > 0.0 and len(_hpix) > 0:
             if len(_hpix) != 1:
-- 
2.43.0


From 71eef71006b69a11002f3def6c330066f804e049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:22:45 +0000
Subject: [PATCH 06/48] fix: count mask pixels with hpgeom when cutting healpix
 masks

---
 redmapper/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/utilities.py b/redmapper/utilities.py
index e53507d..60cb616 100644
--- a/redmapper/utilities.py
+++ b/redmapper/utilities.py
@@ -1143,7 +1143,7 @@ def get_hpmask_subpix_indices(submask_nside, submask_hpix, submask_border, nside
     nside_cutref = np.clip(submask_nside * 4, 256, nside_mask)
 
     # Find out which cutref pixels are inside the main pixel
-    theta, phi = hpg.pixel_to_angle(nside_cutref, np.arange(hp.nside2npix(nside_cutref)), lonlat=False, nest=False)
+    theta, phi = hpg.pixel_to_angle(nside_cutref, np.arange(hpg.nside_to_npixel(nside_cutref)), lonlat=False, nest=False)
     ipring_coarse = hpg.angle_to_pixel(submask_nside, theta, phi, lonlat=False, nest=False)
     inhpix, = np.where(ipring_coarse == submask_hpix)
 
-- 
2.43.0


From 3c03ab764a89b0d3a4a22a5b28f7b4080d68f659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:22:45 +0000
Subject: [PATCH 07/48] fix: compute the richness error of single-color fits

---
 redmapper/cluster.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/redmapper/cluster.py b/redmapper/cluster.py
index 96a8290..9a4ab37 100644
--- a/redmapper/cluster.py
+++ b/redmapper/cluster.py
@@ -748,9 +748,11 @@ class Cluster(Entry):
             lam_unscaled = lam / self.scaleval
 
             if calc_err:
+                cval = np.clip(np.sum(cpars * rlam**np.arange(cpars.size, dtype=float)),
+                               0.0, None)
                 lam_cerr = self.calc_lambdacerr(mask.maskgals, self.mstar,
                                                lam, rlam, pmem, cval, self.config.dldr_gamma)
-                lam_err = np.sqrt((1. - bar_pmem) * lam_unscaled + lambda_cerr**2.)
+                lam_err = np.sqrt((1. - bar_pmem) * lam_unscaled + lam_cerr**2.)
 
             # calculate pcol (color only)
             ucounts = d_wt * phi
-- 
2.43.0


From bf0bfe7abb23459779f0fd15f5c5ba935fd33362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:22:45 +0000
Subject: [PATCH 08/48] fix: import os for splitting randoms

---
 redmapper/randoms.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/redmapper/randoms.py b/redmapper/randoms.py
index 5abc9b6..6fec1ef 100644
--- a/redmapper/randoms.py
+++ b/redmapper/randoms.py
@@ -1,6 +1,7 @@
 """Classes for generating redmapper randoms.
 """
 
+import os
 import fitsio
 import esutil
 import re
-- 
2.43.0


From b0b2e95080ace4098cf5087e6bb5f4c12281be59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:22:45 +0000
Subject: [PATCH 09/48] fix: accept file names when generating redmagic randoms

---
 redmapper/redmagic/redmagic_randoms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/redmapper/redmagic/redmagic_randoms.py b/redmapper/redmagic/redmagic_randoms.py
index bc78b6d..4601ebe 100644
--- a/redmapper/redmagic/redmagic_randoms.py
+++ b/redmapper/redmagic/redmagic_randoms.py
@@ -35,14 +35,14 @@ class RedmagicGenerateRandoms(object):
             self.vlim_mask = vlim_mask_or_file
         elif isinstance(vlim_mask_or_file, str):
             # This 0.2 is a dummy value
-            self.vlim_mask = VolumeLimitMask(config, 0.2, vlimfile=self.vlim_mask_or_file)
+            self.vlim_mask = VolumeLimitMask(config, 0.2, vlimfile=vlim_mask_or_file)
         else:
             raise RuntimeError("vlim_mask_or_file must be a redmapper.VolumeLimitMask or a filename")
 
         if isinstance(redmagic_cat_or_file, GalaxyCatalog):
             self.redmagic_cat = redmagic_cat_or_file
         elif isinstance(redmagic_cat_or_file, str):
-            self.redmagic_cat = GalaxyCatalog.from_fits_file(redmagic_file)
+            self.redmagic_cat = GalaxyCatalog.from_fits_file(redmagic_cat_or_file)
         else:
             raise RuntimeError("redmagic_cat_or_file must be a redmapper.GalaxyCatalog")
 
-- 
2.43.0


From 8f23928505dcd8f6552c3e85dbf28b1b25a66705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:22:45 +0000
Subject: [PATCH 10/48] fix: import pyplot before plotting the depth fit

---
 redmapper/depth_fitting.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/redmapper/depth_fitting.py b/redmapper/depth_fitting.py
index 0dee613..bc4c2e6 100644
--- a/redmapper/depth_fitting.py
+++ b/redmapper/depth_fitting.py
@@ -281,6 +281,7 @@ def calcErrorModel(_mag, _magErr, nSig=10.0, doPlot=False, nTrial=100, calcErr=F
             pars['EXPTIME'] = np.median(expTimes)
 
     if (doPlot):
+        import matplotlib.pyplot as plt
         fig=plt.figure(1)
         fig.clf()
         ax=fig.add_subplot(111)
-- 
2.43.0


From f44f729a5b51ca0791f6d360e38c6ae27b55a2bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:22:45 +0000
Subject: [PATCH 11/48] fix: use the configured minimum nside for
 single-process calibration runs

---
 redmapper/redmapper_run.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/redmapper_run.py b/redmapper/redmapper_run.py
index da0ea42..471bf6e 100644
--- a/redmapper/redmapper_run.py
+++ b/redmapper/redmapper_run.py
@@ -169,7 +169,7 @@ class RedmapperRun(object):
 
         if self.config.calib_run_nproc == 1:
             if self.config.d.nside > self.config.calib_run_min_nside:
-                nside_test = self.config.run_min_nside
+                nside_test = self.config.calib_run_min_nside
             else:
                 nside_test = np.clip(self.config.d.nside, 1, None)
             subpixels = self._get_subpixels(nside_test, tab)
-- 
2.43.0


From 732281c1c643432a934097cf22e4b367322b9ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:22:45 +0000
Subject: [PATCH 12/48] fix: honour the row selection when writing a one-row
 catalog

---
 redmapper/catalog.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/redmapper/catalog.py b/redmapper/catalog.py
index 2bd1f1c..9435cf8 100644
--- a/redmapper/catalog.py
+++ b/redmapper/catalog.py
@@ -143,6 +143,8 @@ class DataObject(object):
         if self._ndarray.size == 1:
             temp_array = np.zeros(1, dtype=self._ndarray.dtype)
             temp_array[0] = self._ndarray
+            if indices is not None:
+                temp_array = temp_array[indices]
             fitsio.write(filename, temp_array, clobber=clobber, header=header, extname=extname)
         else:
             if indices is None:
-- 
2.43.0


From e31cebeaed7232faf9297e694b6ad376005a0ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:24:17 +0000
Subject: [PATCH 13/48] fix: do not record the last neighbor for unused central
 candidates in zscan

---
 redmapper/run_zscan.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/redmapper/run_zscan.py b/redmapper/run_zscan.py
index aa580d5..1dd2f18 100644
--- a/redmapper/run_zscan.py
+++ b/redmapper/run_zscan.py
@@ -271,7 +271,9 @@ class RunZScan(ClusterRunner):
                 cluster.zred_e = cluster.neighbors.zred_e[cent.index[0]]
                 cluster.zred_chisq = cluster.neighbors.zred_chisq[cent.index[0]]
 
-            cluster.id_cent[:] = cluster.neighbors.id[cent.index]
+            # unused candidate slots are padded with index -1
+            gd, = np.where(cent.index >= 0)
+            cluster.id_cent[gd] = cluster.neighbors.id[cent.index[gd]]
 
         # And update the center info...
         cluster.ncent_good = cent.ngood
-- 
2.43.0


From aaa0f5d4338bee931cda2bee27914a338867fdca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:24:17 +0000
Subject: [PATCH 14/48] fix: store the central likelihood in the catalog column
 lncglike

---
 redmapper/run_likelihoods.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/redmapper/run_likelihoods.py b/redmapper/run_likelihoods.py
index 81dc02c..0f22ae9 100644
--- a/redmapper/run_likelihoods.py
+++ b/redmapper/run_likelihoods.py
@@ -160,7 +160,7 @@ class RunLikelihoods(ClusterRunner):
         Internal method to reset all cluster values to "bad" values.
         """
         cluster.lnlamlike = -1e11
-        cluster.lnbcglike = -1e11
+        cluster.lncglike = -1e11
         cluster.lnlike = -1e11
 
         super(RunLikelihoods, self)._reset_bad_values(cluster)
@@ -198,7 +198,7 @@ class RunLikelihoods(ClusterRunner):
         # And the central likelihood
         if self.config.lnw_cen_sigma <= 0.0:
             # We do not have a calibration yet
-            cluster.lnbcglike = 0.0
+            cluster.lncglike = 0.0
         else:
             # First phi_cen
             mbar = (cluster.mstar + self.config.wcen_Delta0 +
@@ -232,9 +232,9 @@ class RunLikelihoods(ClusterRunner):
             with warnings.catch_warnings():
                 warnings.simplefilter("error")
 
-                cluster.lnbcglike = np.log(phi_cen * np.clip(g, 1e-10, None) * fw)
+                cluster.lncglike = np.log(phi_cen * np.clip(g, 1e-10, None) * fw)
 
-            cluster.lnlike = cluster.lnbcglike + cluster.lnlamlike
+            cluster.lnlike = cluster.lncglike + cluster.lnlamlike
 
         return bad
 
-- 
2.43.0


From be22ec5d2bb7350fc505850a61713c11601ec63c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:24:17 +0000
Subject: [PATCH 15/48] fix: set the total likelihood also when the centering
 is not calibrated

---
 redmapper/run_likelihoods.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/run_likelihoods.py b/redmapper/run_likelihoods.py
index 0f22ae9..1e4e388 100644
--- a/redmapper/run_likelihoods.py
+++ b/redmapper/run_likelihoods.py
@@ -234,7 +234,7 @@ class RunLikelihoods(ClusterRunner):
 
                 cluster.lncglike = np.log(phi_cen * np.clip(g, 1e-10, None) * fw)
 
-            cluster.lnlike = cluster.lncglike + cluster.lnlamlike
+        cluster.lnlike = cluster.lncglike + cluster.lnlamlike
 
         return bad
 
-- 
2.43.0


From ec4a0b43194d9d5706d9539a929d3028f70e2f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:24:17 +0000
Subject: [PATCH 16/48] fix: use the number of colors for the central
 chi-squared filter

---
 redmapper/run_likelihoods.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/run_likelihoods.py b/redmapper/run_likelihoods.py
index 1e4e388..c2b12b4 100644
--- a/redmapper/run_likelihoods.py
+++ b/redmapper/run_likelihoods.py
@@ -219,7 +219,7 @@ class RunLikelihoods(ClusterRunner):
                      np.exp(-0.5 * (cluster.neighbors.zred[minrind] - zrmod)**2. / cluster.neighbors.zred_e[minrind]**2.))
             else:
                 # chisq filter
-                g = chisq_pdf(cluster.neighbors.chisq[minrind], self.zredstr.dof)
+                g = chisq_pdf(cluster.neighbors.chisq[minrind], self.zredstr.ncol)
 
             # and the w filter
             lum = 10.**((cluster.mstar - cluster.neighbors.refmag) / 2.5)
-- 
2.43.0


From 229b171496d313514c3bd85b9e51372bd46891dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:24:17 +0000
Subject: [PATCH 17/48] fix: turn off the lambda derivatives flag by its name

---
 redmapper/run_likelihoods.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/run_likelihoods.py b/redmapper/run_likelihoods.py
index c2b12b4..b74bfad 100644
--- a/redmapper/run_likelihoods.py
+++ b/redmapper/run_likelihoods.py
@@ -147,7 +147,7 @@ class RunLikelihoods(ClusterRunner):
                 self.config.logger.info("No input cluster positions are in the mask on pixel %s" % (self.hpix_logstr))
                 return False
 
-        self.do_lam_plusminux = False
+        self.do_lam_plusminus = False
         self.match_centers_to_galaxies = False
         self.record_members = False
         self.do_correct_zlambda = False
-- 
2.43.0


From 22036df60b62240965e8e2211e5de6059c5ed717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:24:17 +0000
Subject: [PATCH 18/48] fix: flag the redshift error when the gaussian error
 fails

---
 redmapper/zlambda.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/zlambda.py b/redmapper/zlambda.py
index f808769..964b445 100644
--- a/redmapper/zlambda.py
+++ b/redmapper/zlambda.py
@@ -174,7 +174,7 @@ class Zlambda(object):
                     # mark a failure
                     if z_lambda_e < 0.0:
                         z_lambda = -1.0
-                        z_lamba_e = -1.0
+                        z_lambda_e = -1.0
                     pzdone = True
                 else:
                     # Calculating p(z)
-- 
2.43.0


From 9dd22ce7337cff5f49639a975bfb7afe9727b15a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:24:17 +0000
Subject: [PATCH 19/48] fix: store corrected p(z) values in the catalog column
 pz

---
 redmapper/cluster_runner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/cluster_runner.py b/redmapper/cluster_runner.py
index eebad42..bb61a1b 100644
--- a/redmapper/cluster_runner.py
+++ b/redmapper/cluster_runner.py
@@ -459,7 +459,7 @@ class ClusterRunner(object):
                                                                                           pzbins=cluster.pzbins,
                                                                                           pzvals=cluster.pz)
                         cluster.pzbins = pzbins
-                        cluster.pzvals = pzvals
+                        cluster.pz = pzvals
                     else:
                         zlam, zlam_e = self.zlambda_corr.apply_correction(cluster.Lambda,
                                                                           cluster.z_lambda,
-- 
2.43.0


From 0de6d92bc6860412e946e7af83a7619d31333798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:24:17 +0000
Subject: [PATCH 20/48] fix: use the firstpass richness scale for zred-seeded
 clusters

---
 redmapper/run_firstpass.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/redmapper/run_firstpass.py b/redmapper/run_firstpass.py
index 9bb209c..5dbc94b 100644
--- a/redmapper/run_firstpass.py
+++ b/redmapper/run_firstpass.py
@@ -209,7 +209,9 @@ class RunFirstPass(ClusterRunner):
                                             zredstr=self.zredstr,
                                             config=self.config,
                                             bkg=self.bkg,
-                                            cosmo=self.cosmo)
+                                            cosmo=self.cosmo,
+                                            r0=self.r0,
+                                            beta=self.beta)
 
             self.cat.ra = self.gals.ra[use[good]]
             self.cat.dec = self.gals.dec[use[good]]
-- 
2.43.0


From a9f6f837bf65fdcbf4ab7983a220cd8ae7ec21a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:24:17 +0000
Subject: [PATCH 21/48] fix: compare each random to the maximum redshift at its
 own position

---
 redmapper/randoms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/randoms.py b/redmapper/randoms.py
index 6fec1ef..7eec5da 100644
--- a/redmapper/randoms.py
+++ b/redmapper/randoms.py
@@ -120,7 +120,7 @@ class GenerateRandoms(object):
             # while i counts index through tempcat, many of which will be rejected.
             zctr = 0
             for i in range(tempcat.size):
-                if (zz[zctr] < zmax[i]):
+                if (zz[zctr] < zmax[gd[i]]):
                     # This is in a location that is within the volume limit.
                     tempcat.z[i] = zz[zctr]
                     tempcat.Lambda[i] = ll[zctr]
-- 
2.43.0


From e9348310424b44c3d3ebcb67b464af4dd8455a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:24:17 +0000
Subject: [PATCH 22/48] fix: draw independent zero-mean noise in the error
 model

---
 redmapper/depth_fitting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/depth_fitting.py b/redmapper/depth_fitting.py
index bc4c2e6..b9afb53 100644
--- a/redmapper/depth_fitting.py
+++ b/redmapper/depth_fitting.py
@@ -105,7 +105,7 @@ def applyErrorModel(pars, magIn, noNoise=False, lnscat=None):
     if (noNoise):
         flux = tFlux
     else:
-        flux = tFlux + noise*np.random.normal(magIn.size)
+        flux = tFlux + noise*np.random.normal(size=magIn.size)
 
     # Straight magnitudes
     mag = pars['ZP'][0] - 2.5*np.log10(flux/pars['EXPTIME'][0])
-- 
2.43.0


From 7b7de4b27ebcaaa87575d114ec3cbc7e5de0a9f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:24:17 +0000
Subject: [PATCH 23/48] fix: assign pixels to coarse run pixels in memory
 prediction

---
 redmapper/pipeline/mempredict.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/pipeline/mempredict.py b/redmapper/pipeline/mempredict.py
index a64ff57..7e745fc 100644
--- a/redmapper/pipeline/mempredict.py
+++ b/redmapper/pipeline/mempredict.py
@@ -91,7 +91,7 @@ class MemPredict(object):
 
         theta, phi = hpg.pixel_to_angle(tab.nside, tab.hpix, lonlat=False, nest=False)
         for i, nside in enumerate(nsides):
-            hpix_run = hpg.pixel_to_angle(nside, theta, phi, lonlat=False, nest=False)
+            hpix_run = hpg.angle_to_pixel(nside, theta, phi, lonlat=False, nest=False)
 
             h, rev = esutil.stat.histogram(hpix_run, rev=True)
 
-- 
2.43.0


From 59d1ba3e0e6f3716a76ab984247ec9ae0ac1f7a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:24:17 +0000
Subject: [PATCH 24/48] fix: check all corrected redshifts for negative values

---
 redmapper/calibration/calibrate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/calibration/calibrate.py b/redmapper/calibration/calibrate.py
index a052da8..d30d962 100644
--- a/redmapper/calibration/calibrate.py
+++ b/redmapper/calibration/calibrate.py
@@ -528,7 +528,7 @@ class RedmapperCalibrationIteration(object):
                 cluster.z_lambda_e = zlam_e
 
             # Check for negative values... this is a minimal check
-            test, = np.where(cluster.z_lambda < 0.0)
+            test, = np.where(cat.z_lambda < 0.0)
             if (test.size > 0):
                 raise RuntimeError("z_lambda correction calibration totally failed, and is yielding negative redshifts.  "
                                    "Likely there is a configuration error, see config.calib_zlambda_minlambda and "
-- 
2.43.0


From f492fe0ac7d1d242ced535b705ced5d670c8a72e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:24:17 +0000
Subject: [PATCH 25/48] fix: assign matched central galaxy zreds to the
 clusters that they match

---
 redmapper/cluster_runner.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/redmapper/cluster_runner.py b/redmapper/cluster_runner.py
index bb61a1b..ee66ef3 100644
--- a/redmapper/cluster_runner.py
+++ b/redmapper/cluster_runner.py
@@ -349,9 +349,9 @@ class ClusterRunner(object):
             self.cat.mag_err[i0, :] = self.gals.mag_err[i1, :]
 
             if self.did_read_zreds:
-                self.cat.zred = self.gals.zred[i1]
-                self.cat.zred_e = self.gals.zred_e[i1]
-                self.cat.zred_chisq = self.gals.zred_chisq[i1]
+                self.cat.zred[i0] = self.gals.zred[i1]
+                self.cat.zred_e[i0] = self.gals.zred_e[i1]
+                self.cat.zred_chisq[i0] = self.gals.chisq[i1]
 
         # loop over clusters...
         # at the moment, we are doing the matching once per cluster.
-- 
2.43.0


From d59beca9e0376ff7be593c144efb9fd5d533503d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:24:17 +0000
Subject: [PATCH 26/48] fix: select richness cuts with the scale of the
 selected clusters

---
 redmapper/pipeline/redmapperconsolidatetask.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/redmapper/pipeline/redmapperconsolidatetask.py b/redmapper/pipeline/redmapperconsolidatetask.py
index e9169d6..5b44982 100644
--- a/redmapper/pipeline/redmapperconsolidatetask.py
+++ b/redmapper/pipeline/redmapperconsolidatetask.py
@@ -160,8 +160,6 @@ class RedmapperConsolidateTask(object):
 
             # Note: when adding mock support, read in true galaxies to get members
 
-            scaleval = cat.scaleval if self.config.select_scaleval else 1.0
-
             # Figure out which clusters are in the pixel, less than
             # max_maskfrac, and above percolation_minlambda (with or without
             # scale)
@@ -179,6 +177,8 @@ class RedmapperConsolidateTask(object):
 
             cat = cat[use]
 
+            scaleval = cat.scaleval if self.config.select_scaleval else 1.0
+
             # match catalog with members via mem_match_id
             a, b = esutil.numpy_util.match(cat.mem_match_id, mem.mem_match_id)
 
-- 
2.43.0


From 0b0e7af843d0b880a4cf12489011dfd1c2f1d7dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:24:17 +0000
Subject: [PATCH 27/48] fix: skip consolidated catalogs that have no clusters

---
 redmapper/pipeline/redmapperconsolidatetask.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/redmapper/pipeline/redmapperconsolidatetask.py b/redmapper/pipeline/redmapperconsolidatetask.py
index 5b44982..8c2fc37 100644
--- a/redmapper/pipeline/redmapperconsolidatetask.py
+++ b/redmapper/pipeline/redmapperconsolidatetask.py
@@ -246,6 +246,10 @@ class RedmapperConsolidateTask(object):
 
         for i, minlambda in enumerate(self.lambda_cuts):
             for j, vlim_mask in enumerate(vlim_masks):
+                if not started[i, j]:
+                    # No clusters passed this cut
+                    continue
+
                 catfits = fitsio.FITS(cat_filename_dict[(i, j)][1], mode='rw')
                 memfits = fitsio.FITS(cat_filename_dict[(i, j)][2], mode='rw')
 
-- 
2.43.0


From 7e11c62770f90e0dfc48ac2b9f8cc5aea3502fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:24:17 +0000
Subject: [PATCH 28/48] fix: only consolidate members of the clusters that are
 kept for runcat

---
 redmapper/pipeline/redmapperconsolidatetask.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/redmapper/pipeline/redmapperconsolidatetask.py b/redmapper/pipeline/redmapperconsolidatetask.py
index 8c2fc37..2748038 100644
--- a/redmapper/pipeline/redmapperconsolidatetask.py
+++ b/redmapper/pipeline/redmapperconsolidatetask.py
@@ -404,6 +404,11 @@ class RuncatConsolidateTask(object):
 
             cat = cat[use]
 
+            if consolidate_members:
+                # Cut down to the members of these clusters
+                a, b = esutil.numpy_util.match(cat.mem_match_id, mem.mem_match_id)
+                mem = mem[b]
+
             if not started:
                 # Figure out filename
                 cat_fname = self.config.redmapper_filename('%s_catalog' % (cattype), withversion=True)
-- 
2.43.0


From a6874ad2ddb02e0da0f23717e57453a01e46d6b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:24:17 +0000
Subject: [PATCH 29/48] fix: name the runcat consolidation plots after the
 catalog

---
 redmapper/pipeline/redmapperconsolidatetask.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/pipeline/redmapperconsolidatetask.py b/redmapper/pipeline/redmapperconsolidatetask.py
index 2748038..1127aa8 100644
--- a/redmapper/pipeline/redmapperconsolidatetask.py
+++ b/redmapper/pipeline/redmapperconsolidatetask.py
@@ -428,7 +428,7 @@ class RuncatConsolidateTask(object):
 
         if do_plots:
             cat = Catalog.from_fits_file(cat_fname)
-            self.config.d.outbase = cat_name
+            self.config.d.outbase = os.path.basename(cat_fname).split('_catalog')[0]
             specplot = SpecPlot(self.config)
 
             if self.config.has_truth:
-- 
2.43.0


From 686f66426ce36d7b1ccd74b166ec383de18fe55c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:24:17 +0000
Subject: [PATCH 30/48] fix: find member files of catalogs whose base name ends
 in f, i, t or a dot

---
 redmapper/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/utilities.py b/redmapper/utilities.py
index 60cb616..1d3a243 100644
--- a/redmapper/utilities.py
+++ b/redmapper/utilities.py
@@ -1091,7 +1091,7 @@ def read_members(catfile):
 
     from .galaxy import GalaxyCatalog
 
-    memfile = '%s_members.fit' % (catfile.rstrip('.fit'))
+    memfile = '%s_members.fit' % (os.path.splitext(catfile)[0])
 
     if not os.path.isfile(memfile):
         raise RuntimeError("Could not find member file %s" % (memfile))
-- 
2.43.0


From 6c7353a8c746365a3e540acfbbaab0e115796d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:24:17 +0000
Subject: [PATCH 31/48] fix: keep the full base name of the galaxy file for
 calibration zreds

---
 redmapper/calibration/redsequencecal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/calibration/redsequencecal.py b/redmapper/calibration/redsequencecal.py
index 2b02802..4ca3373 100644
--- a/redmapper/calibration/redsequencecal.py
+++ b/redmapper/calibration/redsequencecal.py
@@ -215,7 +215,7 @@ class RedSequenceCalibrator(object):
         self._calc_zreds(gals, do_correction=True)
 
         # And want to save galaxies and zreds
-        zredfile = os.path.join(self.config.outpath, os.path.basename(self._galfile.rstrip('.fit') + '_zreds.fit'))
+        zredfile = os.path.join(self.config.outpath, os.path.basename(os.path.splitext(self._galfile)[0] + '_zreds.fit'))
         gals.to_fits_file(zredfile)
 
         # Make diagnostic plots
-- 
2.43.0


From 0882a9af4eed5a8d156eab9f26d6578e11afb614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:25:37 +0000
Subject: [PATCH 32/48] fix: write the members before the catalog that marks a
 pixel as complete

---
 redmapper/cluster_runner.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/redmapper/cluster_runner.py b/redmapper/cluster_runner.py
index ee66ef3..9750bf8 100644
--- a/redmapper/cluster_runner.py
+++ b/redmapper/cluster_runner.py
@@ -651,15 +651,17 @@ class ClusterRunner(object):
             self.config.logger.info("Warning: no catalog generated for %s" % (self._filename))
             return
 
-        self.config.logger.info("Writing catalog to file: %s" % (self._filename))
-        self.cat.to_fits_file(self._filename, clobber=clobber)
-
+        # The catalog file is used to check if a pixel has been completed, so the
+        # members must be written first.
         if savemembers:
             if self.members is None:
                 self.config.logger.info("Warning: no members generated for %s" % (self._filename))
-                return
-            memfilename = self.config.redmapper_filename(self.filetype + '_catalog_members', withversion=withversion, outbase=outbase)
-            self.members.to_fits_file(memfilename, clobber=clobber)
+            else:
+                memfilename = self.config.redmapper_filename(self.filetype + '_catalog_members', withversion=withversion, outbase=outbase)
+                self.members.to_fits_file(memfilename, clobber=clobber)
+
+        self.config.logger.info("Writing catalog to file: %s" % (self._filename))
+        self.cat.to_fits_file(self._filename, clobber=clobber)
 
     @property
     def filename(self):
-- 
2.43.0


From 13bc46e66d52b658be02b80eacc15b964e240b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:25:37 +0000
Subject: [PATCH 33/48] fix: fall back to the reference luminosity when
 percolation_lmask is not set

---
 redmapper/cluster_runner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/cluster_runner.py b/redmapper/cluster_runner.py
index 9750bf8..ee73402 100644
--- a/redmapper/cluster_runner.py
+++ b/redmapper/cluster_runner.py
@@ -118,7 +118,7 @@ class ClusterRunner(object):
             self.rmask_gamma = self.config.percolation_rmask_gamma
             self.rmask_zpivot = self.config.percolation_rmask_zpivot
 
-        if self.config.percolation_lmask < 0.0:
+        if self.config.percolation_lmask is None or self.config.percolation_lmask < 0.0:
             self.percolation_lmask = self.config.lval_reference
         else:
             self.percolation_lmask = self.config.percolation_lmask
-- 
2.43.0


From 77428badcf65d9ff246fb10a71d3bcb9349678f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:25:37 +0000
Subject: [PATCH 34/48] fix: allow percolation without percolation_lmask in the
 configuration

---
 redmapper/run_percolation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/run_percolation.py b/redmapper/run_percolation.py
index 164c991..b09f667 100644
--- a/redmapper/run_percolation.py
+++ b/redmapper/run_percolation.py
@@ -213,7 +213,7 @@ class RunPercolation(ClusterRunner):
             if self.config.percolation_memlum < self.limlum:
                 self.limlum = self.config.percolation_memlum
 
-        if self.config.percolation_lmask > 0.0:
+        if self.config.percolation_lmask is not None and self.config.percolation_lmask > 0.0:
             if self.config.percolation_lmask < self.limlum:
                 self.limlum = self.config.percolation_lmask
 
-- 
2.43.0


From c03c56c987450cd824d213d351fb11e8412faa28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:25:37 +0000
Subject: [PATCH 35/48] fix: record the sub-pixel nside and pixels of the
 volume limit mask the right way round

---
 redmapper/volumelimit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/redmapper/volumelimit.py b/redmapper/volumelimit.py
index cfc6667..737d070 100644
--- a/redmapper/volumelimit.py
+++ b/redmapper/volumelimit.py
@@ -87,8 +87,8 @@ class VolumeLimitMask(object):
         self.sparse_vlimmap = healsparse.HealSparseMap.read(self.vlimfile, pixels=covpixels)
 
         self.nside = self.sparse_vlimmap.nside_sparse
-        self.subpix_nside = self.config.d.hpix
-        self.subpix_hpix = self.config.d.nside
+        self.subpix_nside = self.config.d.nside
+        self.subpix_hpix = self.config.d.hpix
         self.subpix_border = self.config.border
 
     def _build_mask(self):
-- 
2.43.0


From 2c4fea4e4bc2cec59e8213a992cc58567e8b9e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:25:37 +0000
Subject: [PATCH 36/48] fix: compute volume limited areas from the pixels that
 reach each redshift

---
 redmapper/volumelimit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/volumelimit.py b/redmapper/volumelimit.py
index 737d070..21ddab5 100644
--- a/redmapper/volumelimit.py
+++ b/redmapper/volumelimit.py
@@ -304,7 +304,7 @@ class VolumeLimitMask(object):
 
         if np.sum(~lo) > 0:
             carea = pixsize * np.cumsum(fracgoods, dtype=np.float64)
-            astr.area[~lo] = carea[carea.size - inds[~lo]]
+            astr.area[~lo] = carea[-1] - carea[inds[~lo] - 1]
 
         return astr
 
-- 
2.43.0


From 28ce7951e58d5b6d39e2ba2ae296d180024494e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:32:27 +0000
Subject: [PATCH 37/48] fix: apply the zred2 magnitude slope when correcting
 galaxies in bulk

---
 redmapper/zred_color.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/zred_color.py b/redmapper/zred_color.py
index 303d5b0..439763d 100644
--- a/redmapper/zred_color.py
+++ b/redmapper/zred_color.py
@@ -84,7 +84,7 @@ class ZredColor(object):
             galaxies.zred = galaxies.zred_uncorr + dzs
             galaxies.zred_e = galaxies.zred_uncorr_e * interpol(self.zredstr.corr_r, self.zredstr.z, galaxies.zred)
 
-            dz2s = interpol(self.zredstr.corr2, self.zredstr.z, galaxies.zred_uncorr)
+            dz2s = interpol(self.zredstr.corr2, self.zredstr.z, galaxies.zred_uncorr) + (galaxies.refmag - pivotmags) * interpol(self.zredstr.corr2_slope, self.zredstr.z, galaxies.zred_uncorr)
             r2s = interpol(self.zredstr.corr2_r, self.zredstr.z, galaxies.zred_uncorr)
 
             galaxies.zred2 = galaxies.zred_uncorr + dz2s
-- 
2.43.0


From 14552f204456f26719d35039bdfa2200d4e6f395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:32:27 +0000
Subject: [PATCH 38/48] fix: keep the bad values of galaxies without a valid
 zred after corrections

---
 redmapper/zred_color.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/redmapper/zred_color.py b/redmapper/zred_color.py
index 439763d..ddb73b0 100644
--- a/redmapper/zred_color.py
+++ b/redmapper/zred_color.py
@@ -90,6 +90,12 @@ class ZredColor(object):
             galaxies.zred2 = galaxies.zred_uncorr + dz2s
             galaxies.zred2_e = galaxies.zred_uncorr_e * r2s
 
+            # Galaxies without a valid zred keep the bad values
+            bad, = np.where(galaxies.zred_uncorr_e < 0.0)
+            galaxies.zred[bad] = -1.0
+            galaxies.zred_e[bad] = -1.0
+            galaxies.zred2[bad] = -1.0
+            galaxies.zred2_e[bad] = -1.0
 
     def compute_zred(self, galaxy, no_corrections=False):
         """
-- 
2.43.0


From ef076e9c0862551ad4c0a5f7c843a49f43f6d863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:32:27 +0000
Subject: [PATCH 39/48] fix: write the red galaxy model before the file that
 marks the selection as done

---
 redmapper/calibration/selectspecred.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/redmapper/calibration/selectspecred.py b/redmapper/calibration/selectspecred.py
index 0875a31..1d272b6 100644
--- a/redmapper/calibration/selectspecred.py
+++ b/redmapper/calibration/selectspecred.py
@@ -210,11 +210,6 @@ class SelectSpecRedGalaxies(object):
                                 self.config.calib_redspec_nsig * np.sqrt(galcolor_err[u, j]**2. + sc**2.)))
                 mark[u[gd]] = True
 
-        # Output the red galaxies
-        use, = np.where(mark)
-
-        gals.to_fits_file(self.config.redgalfile, indices=use, clobber=True)
-
         # Output the model
         model = Entry(np.zeros(1, dtype=[('nodes', 'f4', nodes.size),
                                          ('meancol', 'f4', meancol.shape),
@@ -229,6 +224,11 @@ class SelectSpecRedGalaxies(object):
 
         model.to_fits_file(self.config.redgalmodelfile, clobber=True)
 
+        # Output the red galaxies (last, because this marks that the step is done)
+        use, = np.where(mark)
+
+        gals.to_fits_file(self.config.redgalfile, indices=use, clobber=True)
+
         # And make some plots!
         import matplotlib.pyplot as plt
 
-- 
2.43.0


From 3ea0afbc6db7317600f2bf66402bfc384780dc2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:33:33 +0000
Subject: [PATCH 40/48] fix: do not overwrite the zreds of the neighbors when
 centering with spectra

---
 redmapper/centering.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/redmapper/centering.py b/redmapper/centering.py
index 5641393..daf504f 100644
--- a/redmapper/centering.py
+++ b/redmapper/centering.py
@@ -86,8 +86,8 @@ class CenteringBCG(Centering):
         # This is somewhat arbitrary, and is not yet configurable
         pmem_cut = 0.8
 
-        z_neighbors = self.cluster.neighbors.zred
-        z_neighbors_e = self.cluster.neighbors.zred_e
+        z_neighbors = self.cluster.neighbors.zred.copy()
+        z_neighbors_e = self.cluster.neighbors.zred_e.copy()
         if self.config.centering_use_zspec:
             has_zspec, = np.where(self.cluster.neighbors.zspec > 0.0)
             z_neighbors[has_zspec] = self.cluster.neighbors.zspec[has_zspec]
@@ -142,9 +142,9 @@ class CenteringWcenZred(Centering):
            True when a center is successfully found. (Always True).
         """
 
-        z_neighbors = self.cluster.neighbors.zred
-        z_neighbors_e = self.cluster.neighbors.zred_e
-        chisq_neighbors = self.cluster.neighbors.zred_chisq
+        z_neighbors = self.cluster.neighbors.zred.copy()
+        z_neighbors_e = self.cluster.neighbors.zred_e.copy()
+        chisq_neighbors = self.cluster.neighbors.zred_chisq.copy()
         if self.config.centering_use_zspec:
             has_zspec, = np.where(self.cluster.neighbors.zspec > 0.0)
             z_neighbors[has_zspec] = self.cluster.neighbors.zspec[has_zspec]
-- 
2.43.0


From 711503a3d1589d53d4b5ead289c8f3e50030f9cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:33:33 +0000
Subject: [PATCH 41/48] fix: report that no center was found when there are no
 candidate centers

---
 redmapper/centering.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/redmapper/centering.py b/redmapper/centering.py
index daf504f..5f6608b 100644
--- a/redmapper/centering.py
+++ b/redmapper/centering.py
@@ -158,6 +158,9 @@ class CenteringWcenZred(Centering):
                         ((self.cluster.neighbors.pmem > 0.0) |
                          (np.abs(self.cluster.redshift - z_neighbors) < 5.0 * z_neighbors_e)))
 
+        if use.size == 0:
+            return False
+
         # Do the phi_cen filter
         mbar = self.cluster.mstar + self.config.wcen_Delta0 + self.config.wcen_Delta1 * np.log(self.cluster.Lambda / self.config.wcen_pivot)
         phi_cen = gaussFunction(self.cluster.neighbors.refmag[use],
-- 
2.43.0


From 4c9f08ee80069e1053795eb18b760d9773234c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:34:09 +0000
Subject: [PATCH 42/48] fix: check the has_zspec flag that is stored in the
 galaxy master table

---
 redmapper/galaxy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/galaxy.py b/redmapper/galaxy.py
index ca18d59..8c135a1 100644
--- a/redmapper/galaxy.py
+++ b/redmapper/galaxy.py
@@ -265,7 +265,7 @@ class GalaxyCatalog(Catalog):
 
         if zspec:
             try:
-                cat_has_zspec = tab.has_spec
+                cat_has_zspec = tab.has_zspec
             except:
                 cat_has_zspec = 'zspec' in elt.dtype.names
             if not cat_has_zspec:
-- 
2.43.0


From 7d2d26f1c013b6fc6828563c78dbef2ded3258d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:34:09 +0000
Subject: [PATCH 43/48] fix: take the pixel number from the end of the galaxy
 pixel file name

---
 redmapper/galaxy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/galaxy.py b/redmapper/galaxy.py
index 8c135a1..47b272b 100644
--- a/redmapper/galaxy.py
+++ b/redmapper/galaxy.py
@@ -807,7 +807,7 @@ class GalaxyCatalogMaker(object):
             # Figure out which hpixels are there
             files = sorted(glob.glob('%s/%s_???????.fit' % (self.outpath, self.outbase_nopath)))
             for f in files:
-                m = re.search(r'_(\d{7})', f)
+                m = re.search(r'_(\d{7})\.fit$', f)
                 if m is None:
                     raise RuntimeError("Malformed filename for pixel file: %s" % (f))
 
-- 
2.43.0


From b8de989a65af9371cf713acd8ca018a3cbeb4a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:34:58 +0000
Subject: [PATCH 44/48] fix: only write the galaxy master table after the
 galaxy ids have been checked

---
 redmapper/galaxy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/redmapper/galaxy.py b/redmapper/galaxy.py
index 47b272b..034ad47 100644
--- a/redmapper/galaxy.py
+++ b/redmapper/galaxy.py
@@ -886,8 +886,6 @@ class GalaxyCatalogMaker(object):
         hdr['PIXELS'] = 1
         hdr['FITS'] = 1
 
-        tab.to_fits_file(self.filename, header=hdr, clobber=True)
-
         # Check for galaxy uniqueness or generate unique ids
         if self.generate_unique_ids:
             ctr = 1
@@ -921,6 +919,8 @@ class GalaxyCatalogMaker(object):
             if len(np.unique(ids)) < len(ids):
                 raise RuntimeError("Input galaxy IDs must be unique.  Fix input catalog or use generate_unique_ids")
 
+        tab.to_fits_file(self.filename, header=hdr, clobber=True)
+
         self.is_finalized = True
 
         if self.parallel:
-- 
2.43.0


From 5236adcbad7955910f79b01401738d8c76b38bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:20:37 +0000
Subject: [PATCH 45/48] fix: use each galaxy's own slope in the many-galaxies
 many-redshifts chi-squared

---
 redmapper/chisq_dist/chisq_dist.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/chisq_dist/chisq_dist.c b/redmapper/chisq_dist/chisq_dist.c
index f632c97..312c4e3 100644
--- a/redmapper/chisq_dist/chisq_dist.c
+++ b/redmapper/chisq_dist/chisq_dist.c
@@ -351,7 +351,7 @@ int chisq_dist(int mode, int do_chisq, int nophotoerr, int ncalc, int ncol,
 	      gsl_matrix_set_zero(cimat);
 	      for (j=0;j<ncol;j++) {
 		  for (k=j;k<ncol;k++) {
-		      val = slope[j] * slope[k] * refmagerr[i] * refmagerr[i];
+		      val = slope[i*ncol+j] * slope[i*ncol+k] * refmagerr[i] * refmagerr[i];
 		      gsl_matrix_set(cimat, j, k, val);
 		      if (k != j) {
 			  gsl_matrix_set(cimat, k, j, val);
-- 
2.43.0


From ab119d3ee221016d12b02e8ccbbaab5d1b0ef3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:21:48 +0000
Subject: [PATCH 46/48] fix: hand the compiled chi-squared code arrays in the
 memory order it reads

---
 redmapper/chisq_dist/chisq_dist_lib.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/redmapper/chisq_dist/chisq_dist_lib.py b/redmapper/chisq_dist/chisq_dist_lib.py
index 458a276..f62b72a 100644
--- a/redmapper/chisq_dist/chisq_dist_lib.py
+++ b/redmapper/chisq_dist/chisq_dist_lib.py
@@ -83,13 +83,15 @@ def compute_chisq(covmat, c, slope, pivotmag, refmag, magerr, color, refmagerr=N
        Float array of likelihoods.  Present if calc_lkhd=True.
     """
 
-    _covmat = covmat.astype('f8')
-    _c = c.astype('f8')
-    _slope = slope.astype('f8')
+    # The compiled code reads the raw buffers, so these must be in the memory
+    # order that it expects, with the redshift index of covmat varying slowest.
+    _covmat = np.ascontiguousarray(np.moveaxis(covmat, -1, 0) if covmat.ndim == 3 else covmat, dtype='f8')
+    _c = c.astype('f8', order='C')
+    _slope = slope.astype('f8', order='C')
     _pivotmag = np.atleast_1d(pivotmag.astype('f8'))
     _refmag = np.atleast_1d(refmag.astype('f8'))
-    _magerr = magerr.astype('f8')
-    _color = color.astype('f8')
+    _magerr = magerr.astype('f8', order='C')
+    _color = color.astype('f8', order='C')
 
     if (refmagerr is None):
         _refmagerr = np.zeros(refmag.size,dtype='f8')
@@ -152,7 +154,7 @@ def compute_chisq(covmat, c, slope, pivotmag, refmag, magerr, color, refmagerr=N
         if (lupcorr is None):
             _lupcorr = np.zeros((ngal, ncol),dtype='f8')
         else :
-            _lupcorr = lupcorr.astype('f8')
+            _lupcorr = lupcorr.astype('f8', order='C')
 
         if (_lupcorr.shape[0] != ngal) or (_lupcorr.shape[1] != ncol):
             raise ValueError("lupcorr must be ncol x ngal for mode 0")
@@ -192,7 +194,7 @@ def compute_chisq(covmat, c, slope, pivotmag, refmag, magerr, color, refmagerr=N
         if (lupcorr is None):
             _lupcorr = np.zeros((nz, ncol),dtype='f8')
         else :
-            _lupcorr = lupcorr.astype('f8')
+            _lupcorr = lupcorr.astype('f8', order='C')
 
         if (_lupcorr.shape[0] != nz) or (_lupcorr.shape[1] != ncol):
             raise ValueError("lupcorr must be ncol x nz for mode 1")
@@ -226,7 +228,7 @@ def compute_chisq(covmat, c, slope, pivotmag, refmag, magerr, color, refmagerr=N
         if (lupcorr is None):
             _lupcorr = np.zeros((ngal, ncol),dtype='f8')
         else :
-            _lupcorr = lupcorr.astype('f8')
+            _lupcorr = lupcorr.astype('f8', order='C')
 
         if (_lupcorr.shape[0] != ngal) or (_lupcorr.shape[1] != ncol):
             raise ValueError("lupcorr must be ngal x ncol for mode 2")
-- 
2.43.0


From 07e7abd525366fdda6d832bb35796aa74ff7c301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:40 +0000
Subject: [PATCH 47/48] fix: reject mismatched covariance and refmag shapes
 before the compiled code reads them

---
 redmapper/chisq_dist/chisq_dist_lib.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/redmapper/chisq_dist/chisq_dist_lib.py b/redmapper/chisq_dist/chisq_dist_lib.py
index f62b72a..6c227e2 100644
--- a/redmapper/chisq_dist/chisq_dist_lib.py
+++ b/redmapper/chisq_dist/chisq_dist_lib.py
@@ -215,6 +215,10 @@ def compute_chisq(covmat, c, slope, pivotmag, refmag, magerr, color, refmagerr=N
             raise ValueError("covmat must be 3 dimensions for mode 2")
         if (covmat.shape[2] != nz):
             raise ValueError("Third dimension of covmat must be nz for mode 2")
+        if (covmat.shape[0] != ncol or covmat.shape[1] != ncol):
+            raise ValueError("covmat must be ncol x ncol x nz for mode 2")
+        if (_refmag.size != ngal):
+            raise ValueError("refmag must be ngal elements for mode 2")
 
         if (magerr.ndim != 2):
             raise ValueError("magerr must be 2D for mode 2")
-- 
2.43.0


From d3cc0df80020a2f7d9c2f5dfb3f6c591b829ef5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:24:06 +0000
Subject: [PATCH 48/48] fix: clear the radial weight of galaxies outside a hard
 radial cut

---
 redmapper/solver_nfw/nfw_weights.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/redmapper/solver_nfw/nfw_weights.c b/redmapper/solver_nfw/nfw_weights.c
index 5678b51..67a82fe 100644
--- a/redmapper/solver_nfw/nfw_weights.c
+++ b/redmapper/solver_nfw/nfw_weights.c
@@ -45,6 +45,7 @@ int nfw_weights(double inlambda, double r0, double beta, long ngal,
 	 theta_r[i] = 1.0; // added by Tom
       } else {
          wt[i]=0.0;
+         theta_r[i] = 0.0;
       }
     } else { // rsig > 0.0
       /*
-- 
2.43.0

