From 0593c8c864db873bca0517098f6c2a5015510055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:27 +0000
Subject: [PATCH 01/59] fix: nearest-cluster query by coordinate picks the
 nearest data point

---
 src/diffpy/srmise/dataclusters.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/dataclusters.py b/src/diffpy/srmise/dataclusters.py
index c79d5fb..87a4330 100644
--- a/src/diffpy/srmise/dataclusters.py
+++ b/src/diffpy/srmise/dataclusters.py
@@ -255,8 +255,10 @@ class DataClusters:
             raise Exception("Cannot cluster next point while status is INIT.")
 
         idx = np.searchsorted(self.x, x)
-        if idx > 0 or idx >= len(self.x):
+        if idx == 0:
             return self.find_nearest_cluster(idx)
+        elif idx >= len(self.x):
+            return self.find_nearest_cluster(len(self.x) - 1)
         else:
             # Choose adjacent index nearest to x
             if (self.x[idx] - x) < (x - self.x[idx - 1]):
-- 
2.43.0


From 10f81e3786c4547048def85e6537ea537f458c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:52 +0000
Subject: [PATCH 02/59] fix: combining and finding adjacent clusters with runs
 of unequal length, and rejection of bad groups

---
 src/diffpy/srmise/dataclusters.py | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/src/diffpy/srmise/dataclusters.py b/src/diffpy/srmise/dataclusters.py
index 87a4330..cc73bf7 100644
--- a/src/diffpy/srmise/dataclusters.py
+++ b/src/diffpy/srmise/dataclusters.py
@@ -359,42 +359,42 @@ class DataClusters:
         None
         """
         # Ensure that the same clusters aren't combined multiple times.
-        combine_flat = np.array(combine).ravel()
+        combine_flat = np.array([i for c in combine for i in c], dtype=int)
         if len(combine_flat) != len(np.unique(combine_flat)):
             raise ValueError("Cannot combine a single cluster multiple times.")
 
         for c in combine:
             # Test that all clusters are contiguous and adjacent
-            first = c[0]
-            for i in range(c[0], c[-1]):
-                if c[i + 1 - first] - 1 != c[i - first]:
+            for left, right in zip(c[:-1], c[1:]):
+                if right - 1 != left:
                     raise ValueError(
                         "".join(
                             [
                                 "Clusters  ",
-                                str(c[i]),
+                                str(left),
                                 " and ",
-                                str(c[i + 1]),
+                                str(right),
                                 " are not contiguous and/or increasing.",
                             ]
                         )
                     )
-                if self.clusters[i + 1, 0] - self.clusters[i, 1] != 1:
+                if self.clusters[right, 0] - self.clusters[left, 1] != 1:
                     raise ValueError(
                         "".join(
                             [
                                 "Clusters  ",
-                                str(c[i]),
+                                str(left),
                                 " and ",
-                                str(c[i + 1]),
+                                str(right),
                                 " have unclustered points between them.",
                             ]
                         )
                     )
 
-            # update cluster endpoints
+        # update cluster endpoints
+        for c in combine:
             self.clusters[c[0], 1] = self.clusters[c[-1], 1]
-        todelete = np.array([c[1:] for c in combine]).ravel()
+        todelete = np.array([i for c in combine for i in c[1:]], dtype=int)
         self.clusters = np.delete(self.clusters, todelete, 0)
 
     def find_adjacent_clusters(self):
@@ -431,6 +431,11 @@ class DataClusters:
             if right_idx > left_idx:
                 adj.append(range(left_idx, right_idx + 1))
             left_idx = right_idx + 1  # set for next possible left_idx
+        if len({len(a) for a in adj}) > 1:
+            # Runs of unequal length do not fit a rectangular array
+            ragged = np.empty(len(adj), dtype=object)
+            ragged[:] = [np.array(a) for a in adj]
+            return ragged
         return np.array(adj)
 
     def cut(self, idx):
-- 
2.43.0


From 0476c7fe69417ce07ec577812837d31d9780406e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:54 +0000
Subject: [PATCH 03/59] fix: cluster boundaries at the first data point,
 returned as (x, y) pairs

---
 src/diffpy/srmise/dataclusters.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/diffpy/srmise/dataclusters.py b/src/diffpy/srmise/dataclusters.py
index cc73bf7..968fbaa 100644
--- a/src/diffpy/srmise/dataclusters.py
+++ b/src/diffpy/srmise/dataclusters.py
@@ -457,13 +457,13 @@ class DataClusters:
         """Return sequence with (x,y) of all cluster boundaries."""
         boundaries = []
         for cluster in self.clusters:
-            xlo = np.mean(self.x[cluster[0] - 1 : cluster[0] + 1])
-            ylo = np.mean(self.y[cluster[0] - 1 : cluster[0] + 1])
+            xlo = np.mean(self.x[max(cluster[0] - 1, 0) : cluster[0] + 1])
+            ylo = np.mean(self.y[max(cluster[0] - 1, 0) : cluster[0] + 1])
             xhi = np.mean(self.x[cluster[1] : cluster[1] + 2])
             yhi = np.mean(self.y[cluster[1] : cluster[1] + 2])
             boundaries.append((xlo, ylo))
             boundaries.append((xhi, yhi))
-        return np.unique(boundaries)
+        return np.unique(boundaries, axis=0)
 
     def plot(self, *args, **kwds):
         """Plot the data with vertical lines at the cluster divisions.
-- 
2.43.0


From 5e81da3057c354b7aa4fe9a8cf89a19361afbf83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:30 +0000
Subject: [PATCH 04/59] fix: polynomial Jacobian follows the descending order
 of the coefficients

---
 src/diffpy/srmise/baselines/polynomial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/baselines/polynomial.py b/src/diffpy/srmise/baselines/polynomial.py
index df0f379..3fbfd6a 100644
--- a/src/diffpy/srmise/baselines/polynomial.py
+++ b/src/diffpy/srmise/baselines/polynomial.py
@@ -160,7 +160,7 @@ class Polynomial(BaselineFunction):
         # polynomial is just x^nth.
         for idx in range(self.npars):
             if free[idx]:
-                jacobian[idx] = np.power(r, idx)
+                jacobian[idx] = np.power(r, self.degree - idx)
         return jacobian
 
     def _transform_parametersraw(self, pars, in_format, out_format):
-- 
2.43.0


From dd99c263a227bc919a50e4dfd7cc1acc648e3b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:41 +0000
Subject: [PATCH 05/59] fix: nanospherical baseline with negative internal
 radius or scale

---
 src/diffpy/srmise/baselines/nanospherical.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/diffpy/srmise/baselines/nanospherical.py b/src/diffpy/srmise/baselines/nanospherical.py
index c788b6b..0e2a02e 100644
--- a/src/diffpy/srmise/baselines/nanospherical.py
+++ b/src/diffpy/srmise/baselines/nanospherical.py
@@ -115,7 +115,7 @@ class NanoSpherical(BaselineFunction):
             return jacobian
 
         if np.isscalar(r):
-            if r <= 0.0 or r >= 2.0 * pars[1]:
+            if r <= 0.0 or r >= 2.0 * np.abs(pars[1]):
                 if free[0]:
                     jacobian[0] = 0.0
                 if free[1]:
@@ -152,13 +152,12 @@ class NanoSpherical(BaselineFunction):
         array-like
             The partial Jacobian of the nanoparticle baseline wrt scale without bounds checking.
         """
-        np.abs(pars[0])
         R = np.abs(pars[1])
         rdivR = r / R
         # From abs'(s) in derivative, which is equivalent to sign(s) except at 0 where it
         # is undefined. Since s=0 is equivalent to the absence of a nanoparticle, sign will
         # be fine.
-        sign = np.sign(pars[1])
+        sign = np.sign(pars[0])
         return -sign * r * (1 - (3.0 / 4.0) * rdivR + (1.0 / 16.0) * rdivR**3)
 
     def _jacobianrawradius(self, pars, r):
@@ -247,7 +246,7 @@ class NanoSpherical(BaselineFunction):
             emsg = "Argument pars must have " + str(self.npars) + " elements."
             raise ValueError(emsg)
         if np.isscalar(r):
-            if r <= 0.0 or r >= 2.0 * pars[1]:
+            if r <= 0.0 or r >= 2.0 * np.abs(pars[1]):
                 return 0.0
             else:
                 return self._valueraw2(pars, r)
@@ -296,7 +295,7 @@ class NanoSpherical(BaselineFunction):
             The slice object for which r > 0 and r < twice the radius
         """
         low = r.searchsorted(0.0, side="right")
-        high = r.searchsorted(2.0 * pars[1], side="left")
+        high = r.searchsorted(2.0 * np.abs(pars[1]), side="left")
         return slice(low, high)
 
     def getmodule(self):
-- 
2.43.0


From 285e36090bec2127e76204a4091e5c1bd2649036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:38 +0000
Subject: [PATCH 06/59] fix: Gaussian Jacobian with a sequence of free flags

---
 src/diffpy/srmise/peaks/gaussian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/peaks/gaussian.py b/src/diffpy/srmise/peaks/gaussian.py
index 2c9b713..83c322d 100644
--- a/src/diffpy/srmise/peaks/gaussian.py
+++ b/src/diffpy/srmise/peaks/gaussian.py
@@ -272,7 +272,7 @@ class Gaussian(PeakFunction):
             Only columns corresponding to `True` values in `free` are computed.
         """
         jacobian = [None, None, None]
-        if (free is False).sum() == self.npars:
+        if np.sum(np.logical_not(free)) == self.npars:
             return jacobian
 
         # Optimization
-- 
2.43.0


From 087ddbd018a6c35d78b0f37884766cc2b1b8dc27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:57 +0000
Subject: [PATCH 07/59] fix: scaling a peak raises SrMiseScalingError where no
 scaled peak exists

---
 src/diffpy/srmise/peaks/gaussian.py      | 3 +++
 src/diffpy/srmise/peaks/gaussianoverr.py | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/src/diffpy/srmise/peaks/gaussian.py b/src/diffpy/srmise/peaks/gaussian.py
index 83c322d..e7ad39a 100644
--- a/src/diffpy/srmise/peaks/gaussian.py
+++ b/src/diffpy/srmise/peaks/gaussian.py
@@ -233,6 +233,9 @@ class Gaussian(PeakFunction):
         tpars[0] = mu2
         tpars[1] = sigma2
         tpars[2] = area2
+        if not np.all(np.isfinite(tpars)) or sigma2 <= 0:
+            emsg = "No peak with the same maximum has the requested value."
+            raise SrMiseScalingError(emsg)
         try:
             tpars = self.transform_parameters(tpars, in_format="mu_sigma_area", out_format="internal")
         except SrMiseTransformationError as err:
diff --git a/src/diffpy/srmise/peaks/gaussianoverr.py b/src/diffpy/srmise/peaks/gaussianoverr.py
index c47191a..c12a175 100644
--- a/src/diffpy/srmise/peaks/gaussianoverr.py
+++ b/src/diffpy/srmise/peaks/gaussianoverr.py
@@ -247,6 +247,10 @@ class GaussianOverR(PeakFunction):
         tpars[0] = mu2
         tpars[1] = sigma2
         tpars[2] = area2
+        # The maximum remains at rmax only while sigma2 is less than rmax.
+        if not np.all(np.isfinite(tpars)) or not 0 < sigma2 < rmax:
+            emsg = "No peak with the same maximum has the requested value."
+            raise SrMiseScalingError(emsg)
         try:
             tpars = self.transform_parameters(tpars, in_format="mu_sigma_area", out_format="internal")
         except SrMiseTransformationError as err:
-- 
2.43.0


From c12398780b93c61bf96d09ea458ebb3baea7ce2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:57 +0000
Subject: [PATCH 08/59] fix: second attempt at matching a group of peaks

---
 src/diffpy/srmise/peaks/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/diffpy/srmise/peaks/base.py b/src/diffpy/srmise/peaks/base.py
index 7e57c10..da00cc1 100644
--- a/src/diffpy/srmise/peaks/base.py
+++ b/src/diffpy/srmise/peaks/base.py
@@ -191,7 +191,7 @@ class Peaks(ModelParts):
                 self[:] = orig[:]
                 any_scaled = False
                 scale = (y - fixed_height) / (height - fixed_height)
-                for peak, s in (self, scaled):
+                for peak, s in zip(self, scaled):
                     if s:
                         # "or" is short-circuited, so scale_at() must be first
                         # to guarantee it is called.
@@ -260,7 +260,7 @@ class Peak(ModelPart):
         try:
             adj_pars = self._owner.scale_at(self.pars, x, scale)
         except SrMiseScalingError as err:
-            logger.debug("Cannot scale peak:", err)
+            logger.debug("Cannot scale peak: %s", err)
             return False
 
         # Check if a fixed parameter was changed.
-- 
2.43.0


From 59aadd28d1c3f5aaaad51f250fdfac99fe4aab13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:57 +0000
Subject: [PATCH 09/59] fix: Gaussian provides the derivatives of its format
 conversions

---
 src/diffpy/srmise/peaks/gaussian.py | 54 +++++++++++++++++++++++++++++
 1 file changed, 54 insertions(+)

diff --git a/src/diffpy/srmise/peaks/gaussian.py b/src/diffpy/srmise/peaks/gaussian.py
index e7ad39a..10c5e50 100644
--- a/src/diffpy/srmise/peaks/gaussian.py
+++ b/src/diffpy/srmise/peaks/gaussian.py
@@ -308,6 +308,60 @@ class Gaussian(PeakFunction):
                 jacobian[2] = -exp_p
         return jacobian
 
+    def _transform_derivativesraw(self, pars, in_format, out_format):
+        """Return gradient matrix for the pars converted from in_format
+        to out_format.
+
+        Parameters
+        ----------
+        pars: Sequence of parameters
+        in_format: A format defined for this class
+        out_format: A format defined for this class
+
+        Defined Formats
+        internal: [position, parameterized width-squared, area]
+        pwa: [position, full width at half maximum, area]
+        mu_sigma_area: [mu, sigma, area]
+        """
+        # With these three formats only the width-related parameter changes.
+        # Therefore the gradient matrix is the identity matrix with the possible
+        # exception of the element at [1,1].
+        g = np.identity(self.npars)
+
+        if in_format == out_format:
+            return
+
+        if in_format == "internal":
+            if out_format == "pwa":
+                g[1, 1] = self.maxwidth / (2 * np.sqrt(2)) * np.cos(pars[1]) / np.sqrt(1 + np.sin(pars[1]))
+            elif out_format == "mu_sigma_area":
+                g[1, 1] = (
+                    self.maxwidth
+                    / (2 * np.sqrt(2) * self.sigma2fwhm)
+                    * np.cos(pars[1])
+                    / np.sqrt(1 + np.sin(pars[1]))
+                )
+            else:
+                raise ValueError("Argument 'out_format' must be one of %s." % self.parformats)
+        elif in_format == "pwa":
+            if out_format == "internal":
+                g[1, 1] = 2 / np.sqrt(self.maxwidth**2 - pars[1] ** 2)
+            elif out_format == "mu_sigma_area":
+                g[1, 1] = 1 / self.sigma2fwhm
+            else:
+                raise ValueError("Argument 'out_format' must be one of %s." % self.parformats)
+        elif in_format == "mu_sigma_area":
+            if out_format == "internal":
+                g[1, 1] = 2 * self.sigma2fwhm / np.sqrt(self.maxwidth**2 - (self.sigma2fwhm * pars[1]) ** 2)
+            elif out_format == "pwa":
+                g[1, 1] = self.sigma2fwhm
+            else:
+                raise ValueError("Argument 'out_format' must be one of %s." % self.parformats)
+        else:
+            raise ValueError("Argument 'in_format' must be one of %s." % self.parformats)
+
+        return g
+
     def _transform_parametersraw(self, pars, in_format, out_format):
         """Convert parameter values from one format to another.
 
-- 
2.43.0


From a33ca74e4d7a9e86f233a96abeb64bc25d39f057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:24 +0000
Subject: [PATCH 10/59] fix: termination ripples at single points, and their
 Jacobian on coarse grids

---
 src/diffpy/srmise/peaks/terminationripples.py | 22 ++++++++++++++-----
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/diffpy/srmise/peaks/terminationripples.py b/src/diffpy/srmise/peaks/terminationripples.py
index 315e02a..d1287d3 100644
--- a/src/diffpy/srmise/peaks/terminationripples.py
+++ b/src/diffpy/srmise/peaks/terminationripples.py
@@ -232,30 +232,36 @@ class TerminationRipples(PeakFunction):
 
         # normally r will be a sequence, but also allow single numeric values
         try:
+            dr_super = 2 * np.pi / (self.supersample * self.qmax)
             if len(r) > 1:
                 dr = (r[-1] - r[0]) / (len(r) - 1)
             else:
                 # dr is ad hoc if r is a single point
-                dr = 2 * np.pi / (self.supersample * self.qmax)
+                dr = dr_super
+            # Same grid as used in value(), so this is the derivative of value().
+            segments = int(np.ceil(dr / dr_super))
+            dr_segmented = dr / segments
 
             if rng is None:
                 rng = slice(0, len(r))
             rpart = r[rng]
-            (ext_r, ext_slice) = self.extend_grid(rpart, dr)
+            if segments > 1:
+                rpart = np.arange(rpart[0], rpart[-1] + dr_segmented / 2, dr_segmented)
+            (ext_r, ext_slice) = self.extend_grid(rpart, dr_segmented)
             jac = self._jacobianraw(peak.pars, ext_r, peak.free)
             output = [None for j in jac]
             for idx in range(len(output)):
                 if jac[idx] is not None:
-                    jac[idx] = self.cut_freq(jac[idx], dr)
+                    jac[idx] = self.cut_freq(jac[idx], dr_segmented)
                     output[idx] = r * 0.0
-                    output[idx][rng] = jac[idx][ext_slice]
+                    output[idx][rng] = jac[idx][ext_slice][::segments]
             return output
         except TypeError:
             # dr is ad hoc if r is a single point.
             dr = 2 * np.pi / (self.supersample * self.qmax)
             (ext_r, ext_slice) = self.extend_grid(np.array([r]), dr)
             jac = self._jacobianraw(peak.pars, ext_r, peak.free)
-            for idx in range(len(output)):
+            for idx in range(len(jac)):
                 if jac[idx] is not None:
                     jac[idx] = self.cut_freq(jac[idx], dr)[ext_slice][0]
             return jac
@@ -316,7 +322,11 @@ class TerminationRipples(PeakFunction):
             # of sampling needed to avoid the worst of these discretization
             # issues is difficult to determine without detailed knowledge
             # of the underlying function.
-            dr = (r[-1] - r[0]) / (len(r) - 1)
+            if len(r) > 1:
+                dr = (r[-1] - r[0]) / (len(r) - 1)
+            else:
+                # dr is ad hoc if r is a single point.
+                dr = dr_super
             segments = int(np.ceil(dr / dr_super))
             dr_segmented = dr / segments
 
-- 
2.43.0


From 9e70aa7db4aecc6fc23b4ec753a128649775e6ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:45 +0000
Subject: [PATCH 11/59] fix: parameter count of arbitrary baselines and
 evaluation without a Jacobian routine

---
 src/diffpy/srmise/baselines/arbitrary.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/diffpy/srmise/baselines/arbitrary.py b/src/diffpy/srmise/baselines/arbitrary.py
index d0f8c99..5b656f2 100644
--- a/src/diffpy/srmise/baselines/arbitrary.py
+++ b/src/diffpy/srmise/baselines/arbitrary.py
@@ -68,7 +68,7 @@ class Arbitrary(BaselineFunction):
         # Define parameterdict
         # e.g. {"a_0":0, "a_1":1, "a_2":2, "a_3":3} if npars is 4.
         parameterdict = {}
-        for d in range(testnpars + 1):
+        for d in range(testnpars):
             parameterdict["a_" + str(d)] = d
         formats = ["internal"]
         default_formats = {
@@ -164,7 +164,7 @@ class Arbitrary(BaselineFunction):
         """
         nfree = None
         if self.jacobianf is None:
-            nfree = (pars is True).sum()
+            nfree = np.sum(free)
             if nfree != 0:
                 emsg = "No jacobian routine provided to Arbitrary."
                 raise NotImplementedError(emsg)
-- 
2.43.0


From c995e2e634bf62ef490e6c4f117f5792ae8acd3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:03 +0000
Subject: [PATCH 12/59] fix: covariance transformation by G V G^T, also of the
 baseline alone

---
 src/diffpy/srmise/modelcluster.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/diffpy/srmise/modelcluster.py b/src/diffpy/srmise/modelcluster.py
index c1a64c5..3f1594c 100644
--- a/src/diffpy/srmise/modelcluster.py
+++ b/src/diffpy/srmise/modelcluster.py
@@ -173,13 +173,13 @@ class ModelCovariance(object):
             if kwds["parts"] == "peaks":
                 parts = range(len(self.model) - 1)
             elif kwds["parts"] == "baseline":
-                parts = [-1]
+                parts = [len(self.model) - 1]
             else:
                 parts = kwds["parts"]
         else:
             parts = range(len(self.model))
 
-        # Calculate V_y = G Transpose(V_x) G
+        # Calculate V_y = G V_x Transpose(G)
         # where V_y is the covariance matrix in terms of the parameterization y,
         # V_x is the current covariance matrix, and G is the gradient matrix of
         # the variable transformation x->y.  That is, G_ij = dy_i/dx_j.
@@ -223,7 +223,7 @@ class ModelCovariance(object):
             g[start:stop, start:stop] = subg
 
         g = np.matrix(g)
-        self.cov = np.array(g * np.matrix(self.cov).transpose() * g)
+        self.cov = np.array(g * np.matrix(self.cov) * g.transpose())
 
         return
 
-- 
2.43.0


From 59156dc4edaec22b5d7e18d77d8491223d5866dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:18 +0000
Subject: [PATCH 13/59] fix: count the data points actually fitted, and leave
 the covariance of a singular fit undefined

---
 src/diffpy/srmise/modelparts.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/diffpy/srmise/modelparts.py b/src/diffpy/srmise/modelparts.py
index d4d17ae..45600bf 100644
--- a/src/diffpy/srmise/modelparts.py
+++ b/src/diffpy/srmise/modelparts.py
@@ -94,13 +94,17 @@ class ModelParts(list):
         -------
         None
         """
+        if range is None:
+            range = slice(None)
+
         freepars = self.unpack_freepars()
-        if len(freepars) >= len(r):
+        npoints = len(r[range])
+        if len(freepars) >= npoints:
             emsg = (
                 "Cannot fit model with "
                 + str(len(freepars))
                 + " free parametersbut only "
-                + str(len(r))
+                + str(npoints)
                 + " data points."
             )
             raise SrMiseFitError(emsg)
@@ -109,9 +113,6 @@ class ModelParts(list):
             # raise SrMiseFitError(emsg)
             return
 
-        if range is None:
-            range = slice(None)
-
         args = (r, y, y_error, range)
 
         if srmiselog.liveplots:
@@ -210,8 +211,12 @@ class ModelParts(list):
         if cov is not None:
             pcov = f[1]
             fvec = f[2]["fvec"]
-            dof = len(r) - len(freepars)
-            cov.setcovariance(self, pcov * np.sum(fvec**2) / dof)
+            dof = npoints - len(freepars)
+            if pcov is None:
+                # Singular matrix, so the covariance is undefined.
+                cov.clear()
+            else:
+                cov.setcovariance(self, pcov * np.sum(fvec**2) / dof)
             try:
                 cov.transform(in_format="internal", out_format=cov_format)
             except SrMiseUndefinedCovarianceError:
-- 
2.43.0


From cea74bb70a9cb82597043ce9135dcbd5a0dbba95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:32 +0000
Subject: [PATCH 14/59] fix: parameters given as integers are kept as floating
 point numbers

---
 src/diffpy/srmise/baselines/arbitrary.py     | 2 +-
 src/diffpy/srmise/baselines/fromsequence.py  | 2 +-
 src/diffpy/srmise/baselines/nanospherical.py | 2 +-
 src/diffpy/srmise/baselines/polynomial.py    | 2 +-
 src/diffpy/srmise/modelparts.py              | 2 +-
 src/diffpy/srmise/peaks/gaussian.py          | 2 +-
 src/diffpy/srmise/peaks/gaussianoverr.py     | 2 +-
 7 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/diffpy/srmise/baselines/arbitrary.py b/src/diffpy/srmise/baselines/arbitrary.py
index 5b656f2..8150530 100644
--- a/src/diffpy/srmise/baselines/arbitrary.py
+++ b/src/diffpy/srmise/baselines/arbitrary.py
@@ -207,7 +207,7 @@ class Arbitrary(BaselineFunction):
         numpy.ndarray
             The standard output of transformed parameters
         """
-        temp = np.array(pars)
+        temp = np.array(pars, dtype=float)
 
         # Convert to intermediate format "internal"
         if in_format == "internal":
diff --git a/src/diffpy/srmise/baselines/fromsequence.py b/src/diffpy/srmise/baselines/fromsequence.py
index 6333977..1aaa8d8 100644
--- a/src/diffpy/srmise/baselines/fromsequence.py
+++ b/src/diffpy/srmise/baselines/fromsequence.py
@@ -180,7 +180,7 @@ class FromSequence(BaselineFunction):
         array-like
             The sequence of parameters converted to out_format
         """
-        temp = np.array(pars)
+        temp = np.array(pars, dtype=float)
 
         # Convert to intermediate format "internal"
         if in_format == "internal":
diff --git a/src/diffpy/srmise/baselines/nanospherical.py b/src/diffpy/srmise/baselines/nanospherical.py
index 0e2a02e..79b3556 100644
--- a/src/diffpy/srmise/baselines/nanospherical.py
+++ b/src/diffpy/srmise/baselines/nanospherical.py
@@ -205,7 +205,7 @@ class NanoSpherical(BaselineFunction):
         array-like
             The transformed parameter values with out_format.
         """
-        temp = np.array(pars)
+        temp = np.array(pars, dtype=float)
 
         # Convert to intermediate format "internal"
         if in_format == "internal":
diff --git a/src/diffpy/srmise/baselines/polynomial.py b/src/diffpy/srmise/baselines/polynomial.py
index 3fbfd6a..d981b2e 100644
--- a/src/diffpy/srmise/baselines/polynomial.py
+++ b/src/diffpy/srmise/baselines/polynomial.py
@@ -184,7 +184,7 @@ class Polynomial(BaselineFunction):
         array-like
             The transformed parameters in out_format
         """
-        temp = np.array(pars)
+        temp = np.array(pars, dtype=float)
 
         # Convert to intermediate format "internal"
         if in_format == "internal":
diff --git a/src/diffpy/srmise/modelparts.py b/src/diffpy/srmise/modelparts.py
index 45600bf..d7e7030 100644
--- a/src/diffpy/srmise/modelparts.py
+++ b/src/diffpy/srmise/modelparts.py
@@ -532,7 +532,7 @@ class ModelPart(object):
         if len(pars) != owner.npars:
             emsg = "The length of pars must equal the number of parameters " + "specified by the model part owner."
             raise ValueError(emsg)
-        self.pars = np.array(pars[:])  # pars[:] in case pars is a ModelPart
+        self.pars = np.array(pars[:], dtype=float)  # pars[:] in case pars is a ModelPart
 
         if free is None:
             self.free = np.array([True for p in pars], dtype=bool)
diff --git a/src/diffpy/srmise/peaks/gaussian.py b/src/diffpy/srmise/peaks/gaussian.py
index 10c5e50..15053f2 100644
--- a/src/diffpy/srmise/peaks/gaussian.py
+++ b/src/diffpy/srmise/peaks/gaussian.py
@@ -387,7 +387,7 @@ class Gaussian(PeakFunction):
         array_like
             The transformed parameters in the `out_format`.
         """
-        temp = np.array(pars)
+        temp = np.array(pars, dtype=float)
 
         # Do I need to change anything?  The internal parameters may need to be
         # placed into the preferred range, even though their interpretation does
diff --git a/src/diffpy/srmise/peaks/gaussianoverr.py b/src/diffpy/srmise/peaks/gaussianoverr.py
index c12a175..544de9c 100644
--- a/src/diffpy/srmise/peaks/gaussianoverr.py
+++ b/src/diffpy/srmise/peaks/gaussianoverr.py
@@ -401,7 +401,7 @@ class GaussianOverR(PeakFunction):
         array_like
             The transformed parameters in the `out_format`.
         """
-        temp = np.array(pars)
+        temp = np.array(pars, dtype=float)
 
         # Do I need to change anything?  The internal parameters may need to be
         # placed into the preferred range, even though their interpretation does
-- 
2.43.0


From 695f9de70d3e55b1a29299cc3918e9df326dbfd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:57 +0000
Subject: [PATCH 15/59] fix: matching a group of peaks restores it when the
 second attempt breaks down

---
 src/diffpy/srmise/peaks/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/peaks/base.py b/src/diffpy/srmise/peaks/base.py
index da00cc1..983943d 100644
--- a/src/diffpy/srmise/peaks/base.py
+++ b/src/diffpy/srmise/peaks/base.py
@@ -188,7 +188,7 @@ class Peaks(ModelParts):
 
             # Second attempt at scaling peaks.
             if not all_scaled and fixed_height < y and fixed_height < height:
-                self[:] = orig[:]
+                self[:] = orig.copy()[:]
                 any_scaled = False
                 scale = (y - fixed_height) / (height - fixed_height)
                 for peak, s in zip(self, scaled):
-- 
2.43.0


From b5137d1cc5e1299b7ac42177f480c94b23096fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:16 +0000
Subject: [PATCH 16/59] fix: sorting peaks honours reverse

---
 src/diffpy/srmise/peaks/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/diffpy/srmise/peaks/base.py b/src/diffpy/srmise/peaks/base.py
index 983943d..301ecfd 100644
--- a/src/diffpy/srmise/peaks/base.py
+++ b/src/diffpy/srmise/peaks/base.py
@@ -206,6 +206,8 @@ class Peaks(ModelParts):
         """Sort peaks in order specified by key."""
         keypars = np.array([p[key] for p in self])
         order = keypars.argsort()
+        if reverse:
+            order = order[::-1]
         self[:] = [self[idx] for idx in order]
         return
 
-- 
2.43.0


From dcbeff2a467407119db574956f2638b7398086de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:44 +0000
Subject: [PATCH 17/59] fix: a failing fit without Jacobian is reported as a
 fit error like any other

---
 src/diffpy/srmise/modelparts.py | 45 +++++++++++++++++----------------
 1 file changed, 23 insertions(+), 22 deletions(-)

diff --git a/src/diffpy/srmise/modelparts.py b/src/diffpy/srmise/modelparts.py
index d7e7030..68a11c2 100644
--- a/src/diffpy/srmise/modelparts.py
+++ b/src/diffpy/srmise/modelparts.py
@@ -132,28 +132,29 @@ class ModelParts(list):
             plt.ion()
 
         try:
-            f = leastsq(
-                self.residual,  # minimize this function
-                freepars,  # initial parameters
-                args=args,  # arguments to residual, residual_jacobian
-                Dfun=self.residual_jacobian,  # explicit Jacobian
-                col_deriv=True,  # order of derivatives in Jacobian
-                full_output=True,
-                maxfev=ntrials,
-            )
-        except NotImplementedError:
-            # TODO: Figure out if is worth checking for residual_jacobian
-            # before leastsq().  This exception will either occur almost never
-            # or extremely frequently, and the extra evaluations will add up.
-            logger.info("One or more functions do not define residual_jacobian().")
-            f = leastsq(
-                self.residual,  # minimize this function
-                freepars,  # initial parameters
-                args=args,  # arguments to residual
-                col_deriv=True,  # order of derivatives in Jacobian
-                full_output=True,
-                maxfev=ntrials,
-            )
+            try:
+                f = leastsq(
+                    self.residual,  # minimize this function
+                    freepars,  # initial parameters
+                    args=args,  # arguments to residual, residual_jacobian
+                    Dfun=self.residual_jacobian,  # explicit Jacobian
+                    col_deriv=True,  # order of derivatives in Jacobian
+                    full_output=True,
+                    maxfev=ntrials,
+                )
+            except NotImplementedError:
+                # TODO: Figure out if is worth checking for residual_jacobian
+                # before leastsq().  This exception will either occur almost never
+                # or extremely frequently, and the extra evaluations will add up.
+                logger.info("One or more functions do not define residual_jacobian().")
+                f = leastsq(
+                    self.residual,  # minimize this function
+                    freepars,  # initial parameters
+                    args=args,  # arguments to residual
+                    col_deriv=True,  # order of derivatives in Jacobian
+                    full_output=True,
+                    maxfev=ntrials,
+                )
         except Exception:
             # Sadly, KeyboardInterrupt, etc. is reraised as minpack.error
             # Not much I can do about that, though.
-- 
2.43.0


From a688cb903793bd888703e7ffe08aaa1280185684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:44 +0000
Subject: [PATCH 18/59] fix: clusters over the whole data range can change
 their slice

---
 src/diffpy/srmise/modelcluster.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/diffpy/srmise/modelcluster.py b/src/diffpy/srmise/modelcluster.py
index 3f1594c..250cf28 100644
--- a/src/diffpy/srmise/modelcluster.py
+++ b/src/diffpy/srmise/modelcluster.py
@@ -910,13 +910,15 @@ class ModelCluster(object):
         if old_slice is None:
             self.never_fit = max(y_cluster_nobl - self.error_cluster) < 0
         else:
+            start, stop, _ = new_slice.indices(len(self.r_data))
+            old_start, old_stop, _ = old_slice.indices(len(self.r_data))
             # check if slice has expanded on the left
-            if self.never_fit and self.slice.start < old_slice.start:
-                left_slice = slice(self.slice.start, old_slice.start)
+            if self.never_fit and start < old_start:
+                left_slice = slice(start, old_start)
                 self.never_fit = max(y_data_nobl[left_slice] - self.y_error[left_slice]) < 0
             # check if slice has expanded on the right
-            if self.never_fit and self.slice.stop > old_slice.stop:
-                right_slice = slice(old_slice.stop, self.slice.stop)
+            if self.never_fit and stop > old_stop:
+                right_slice = slice(old_stop, stop)
                 self.never_fit = max(y_data_nobl[right_slice] - self.y_error[right_slice]) < 0
 
         return
-- 
2.43.0


From 516a478ce2747e3aa39378e96542261ef5f39a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:44 +0000
Subject: [PATCH 19/59] fix: a peak at the last point of a cluster is inside it

---
 src/diffpy/srmise/modelcluster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/modelcluster.py b/src/diffpy/srmise/modelcluster.py
index 250cf28..a60ccf6 100644
--- a/src/diffpy/srmise/modelcluster.py
+++ b/src/diffpy/srmise/modelcluster.py
@@ -1176,7 +1176,7 @@ class ModelCluster(object):
         # Find peaks located outside the cluster
         pos = np.array([p["position"] for p in self.model])
         left_idx = pos.searchsorted(self.r_cluster[0])
-        right_idx = pos.searchsorted(self.r_cluster[-1])
+        right_idx = pos.searchsorted(self.r_cluster[-1], side="right")
         outside_idx = list(range(0, left_idx))
         outside_idx.extend(range(right_idx, len(self.model)))
         # inside_idx = range(left_idx, right_idx)
-- 
2.43.0


From ff9f76ba2d32f625bdb144ee6b4970ed1c3b75f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:44 +0000
Subject: [PATCH 20/59] fix: reduce_to compares the data with peaks and
 baseline

---
 src/diffpy/srmise/modelcluster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/modelcluster.py b/src/diffpy/srmise/modelcluster.py
index a60ccf6..99c569d 100644
--- a/src/diffpy/srmise/modelcluster.py
+++ b/src/diffpy/srmise/modelcluster.py
@@ -1245,7 +1245,7 @@ class ModelCluster(object):
             Return ModelEvaluator instance if fit changed, otherwise None.
         """
         # No reduction necessary
-        if self.model.value(x) < y:
+        if self.value(x) < y:
             logger.debug("reduce_to: No reduction necessary.")
             return None
         orig_model = self.model.copy()
-- 
2.43.0


From 7ff4072b9a6ca34d4abadc4e350e7e31f7a99ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:44 +0000
Subject: [PATCH 21/59] fix: adding external peaks leaves the data shared with
 other clusters alone

---
 src/diffpy/srmise/modelcluster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/modelcluster.py b/src/diffpy/srmise/modelcluster.py
index 99c569d..d60c51f 100644
--- a/src/diffpy/srmise/modelcluster.py
+++ b/src/diffpy/srmise/modelcluster.py
@@ -527,7 +527,7 @@ class ModelCluster(object):
         None
         """
         self.replacepeaks(peaks)
-        self.y_data += peaks.value(self.r_data)
+        self.y_data = self.y_data + peaks.value(self.r_data)
         self.y_cluster = self.y_data[self.slice]
 
     def writestr(self, **kwds):
-- 
2.43.0


From d8881e68a3609972f4cefa866b99aa6838126858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:44 +0000
Subject: [PATCH 22/59] fix: augmenting keeps the best model found, also with
 peaks that are not removable

---
 src/diffpy/srmise/modelcluster.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/diffpy/srmise/modelcluster.py b/src/diffpy/srmise/modelcluster.py
index d60c51f..a272fa5 100644
--- a/src/diffpy/srmise/modelcluster.py
+++ b/src/diffpy/srmise/modelcluster.py
@@ -1421,12 +1421,13 @@ class ModelCluster(object):
         while len(source_model) > 0:
             test_models = [best_model.copy() for s in source_model]
             for t, s in zip(test_models, source_model):
-                t.append(s)
+                t.append(s.copy())
             test_quals = np.array([None for t in test_models])
 
             for i in range(len(test_models)):
                 self.model = test_models[i]
                 self.fit()
+                test_models[i] = self.model  # fit() may have reverted
                 test_quals[i] = self.quality()
 
             args = test_quals.argsort()
@@ -1436,11 +1437,12 @@ class ModelCluster(object):
                 del source_model[args[-1]]
             else:
                 break  # Best possible model has been found.
-        self.replacepeaks(best_model, slice(len(self.model)))
+        self.model = best_model
+        self.model.sort(key="position")
 
         # TODO: Do I need this? If test_model contains peaks
         # by reference, the fit peaks will change as well.
-        self.fit()
+        self.fit(estimate=False)
         msg = [
             "Best model after fit is:",
             "%s",
-- 
2.43.0


From 4c11093b3e4d3671cb16db8f0f12cc596ef49e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:57 +0000
Subject: [PATCH 23/59] fix: pruning continues with the reverted peaks when a
 test fit fails

---
 src/diffpy/srmise/modelcluster.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/diffpy/srmise/modelcluster.py b/src/diffpy/srmise/modelcluster.py
index a272fa5..7713078 100644
--- a/src/diffpy/srmise/modelcluster.py
+++ b/src/diffpy/srmise/modelcluster.py
@@ -1579,6 +1579,7 @@ class ModelCluster(object):
                     logger.debug("\n".join(msg), i, best_model[i], prune_mc.model)
 
                     prune_mc.fit(ntrials=int(np.sqrt(len(y)) + 50), estimate=False)
+                    check_models[i] = prune_mc.model  # fit() may have reverted
 
                     qual = prune_mc.quality(kshift=addpars)
                     check_qual = np.append(check_qual, qual)
-- 
2.43.0


From 8884ca3b39e6354fa5e49402f621314d603acaf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:17 +0000
Subject: [PATCH 24/59] fix: fitting an empty cluster reports nothing when no
 peak can be estimated

---
 src/diffpy/srmise/modelcluster.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/modelcluster.py b/src/diffpy/srmise/modelcluster.py
index 7713078..db120c5 100644
--- a/src/diffpy/srmise/modelcluster.py
+++ b/src/diffpy/srmise/modelcluster.py
@@ -1050,8 +1050,10 @@ class ModelCluster(object):
             # Attempt to add a first peak to the cluster
             if estimate:
                 try:
-                    self.estimatepeak()
+                    estimated = self.estimatepeak()
                 except SrMiseEstimationError:
+                    estimated = False
+                if not estimated:
                     logger.info("Fit: No model to fit, estimation not possible.")
                     return
             else:
-- 
2.43.0


From 2ac853c787863a8ced233a9f5d3ccdea91764305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:07 +0000
Subject: [PATCH 25/59] fix: joined peaks are matched to the data without
 baseline

---
 src/diffpy/srmise/modelcluster.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/diffpy/srmise/modelcluster.py b/src/diffpy/srmise/modelcluster.py
index db120c5..f4d9f4e 100644
--- a/src/diffpy/srmise/modelcluster.py
+++ b/src/diffpy/srmise/modelcluster.py
@@ -859,6 +859,8 @@ class ModelCluster(object):
                         del new_model[i]
 
             # Likely to improve any future fitting
+            if m1.baseline is not None:
+                border_y = border_y - m1.valuebl(border_x)
             new_model.match_at(border_x, border_y)
         elif len(m1.model) > 0:
             new_model = m1.model.copy()
-- 
2.43.0


From 7c6d2c791febf2aebd8edf3bedf81654af976a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:52 +0000
Subject: [PATCH 26/59] fix: completing a partial range leaves the caller's
 sequence alone

---
 src/diffpy/srmise/peakextraction.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/diffpy/srmise/peakextraction.py b/src/diffpy/srmise/peakextraction.py
index 48e3419..b418d2a 100644
--- a/src/diffpy/srmise/peakextraction.py
+++ b/src/diffpy/srmise/peakextraction.py
@@ -222,10 +222,11 @@ class PeakExtraction(object):
         if self.rng is None or "rng" in args:
             self.rng = [self.x[0], self.x[-1]]
         else:
+            # Never modify the sequence given by the user.
             if self.rng[0] is None:
-                self.rng[0] = self.x[0]
+                self.rng = [self.x[0], self.rng[1]]
             if self.rng[1] is None:
-                self.rng[1] = self.x[-1]
+                self.rng = [self.rng[0], self.x[-1]]
 
         # Set baseline where the type is given, but parameters must be estimated.
         if hasattr(self.baseline, "estimate_parameters"):
-- 
2.43.0


From 0898940c52d254fde15392f0959694b20364574a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:52 +0000
Subject: [PATCH 27/59] fix: qmax determined from previous data is not kept for
 new data

---
 src/diffpy/srmise/pdfpeakextraction.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/diffpy/srmise/pdfpeakextraction.py b/src/diffpy/srmise/pdfpeakextraction.py
index 3744bb8..e36f44a 100644
--- a/src/diffpy/srmise/pdfpeakextraction.py
+++ b/src/diffpy/srmise/pdfpeakextraction.py
@@ -100,6 +100,7 @@ class PDFPeakExtraction(PeakExtraction):
             The y-coordinates of the data.
         """
         PeakExtraction.setdata(self, x, y, dx, dy)
+        self.qmax_fromdata = None
         try:
             self.qmax_fromdata = find_qmax(self.x, self.y)[0]
         except Exception:
-- 
2.43.0


From ce7fedc7b51bba8aa30b21b59f8b3b4141211c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:05 +0000
Subject: [PATCH 28/59] fix: saved extractions and traces are read as text

---
 src/diffpy/srmise/peakextraction.py | 3 ++-
 src/diffpy/srmise/srmiselog.py      | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/diffpy/srmise/peakextraction.py b/src/diffpy/srmise/peakextraction.py
index b418d2a..53ed3b2 100644
--- a/src/diffpy/srmise/peakextraction.py
+++ b/src/diffpy/srmise/peakextraction.py
@@ -317,7 +317,8 @@ class PeakExtraction(object):
         self
         """
         try:
-            self.readstr(open(filename, "rb").read())
+            with open(filename) as f:
+                self.readstr(f.read())
         except SrMiseDataFormatError as err:
             logger.exception("")
             basename = os.path.basename(filename)
diff --git a/src/diffpy/srmise/srmiselog.py b/src/diffpy/srmise/srmiselog.py
index d5fcd6f..05eddaf 100644
--- a/src/diffpy/srmise/srmiselog.py
+++ b/src/diffpy/srmise/srmiselog.py
@@ -247,7 +247,8 @@ class TracePeaks(object):
         "recursion" - The recursion level of mc
         """
         try:
-            return self.readstr(open(filename, "rb").read())
+            with open(filename) as f:
+                return self.readstr(f.read())
         except SrMiseDataFormatError as err:
             logger.exception("")
             basename = os.path.basename(filename)
-- 
2.43.0


From 17844953febabbe99a0c1ab402636bd2b34544cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:05 +0000
Subject: [PATCH 29/59] fix: effective uncertainties are found when reading an
 extraction

---
 src/diffpy/srmise/peakextraction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/peakextraction.py b/src/diffpy/srmise/peakextraction.py
index 53ed3b2..7a10cf6 100644
--- a/src/diffpy/srmise/peakextraction.py
+++ b/src/diffpy/srmise/peakextraction.py
@@ -388,7 +388,7 @@ class PeakExtraction(object):
         res = re.search(r"\bdy\b", start_data_info)
         if res:
             hasdy = True
-        res = re.search(r"\edy\b", start_data_info)
+        res = re.search(r"\bedy\b", start_data_info)
         if res:
             hasedy = True
 
-- 
2.43.0


From 1e7e988df4c7c77aa97c182176796494d254b8e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:05 +0000
Subject: [PATCH 30/59] fix: model evaluators, or their absence, can be read
 back

---
 src/diffpy/srmise/modelcluster.py             | 6 +++++-
 src/diffpy/srmise/modelevaluators/__init__.py | 3 +++
 src/diffpy/srmise/peakextraction.py           | 6 +++++-
 3 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/diffpy/srmise/modelcluster.py b/src/diffpy/srmise/modelcluster.py
index f4d9f4e..2db37aa 100644
--- a/src/diffpy/srmise/modelcluster.py
+++ b/src/diffpy/srmise/modelcluster.py
@@ -714,7 +714,11 @@ class ModelCluster(object):
         res = re.search(r"^ModelEvaluator=(.*)$", header, re.M)
         __import__("diffpy.srmise.modelevaluators")
         module = sys.modules["diffpy.srmise.modelevaluators"]
-        error_method = getattr(module, res.groups()[0].strip())
+        error_method = res.groups()[0].strip()
+        if error_method == "None":
+            error_method = None
+        else:
+            error_method = getattr(module, error_method)
 
         # slice
         res = re.search(r"^slice=(.*)$", header, re.M)
diff --git a/src/diffpy/srmise/modelevaluators/__init__.py b/src/diffpy/srmise/modelevaluators/__init__.py
index 0efb8dc..be0297c 100644
--- a/src/diffpy/srmise/modelevaluators/__init__.py
+++ b/src/diffpy/srmise/modelevaluators/__init__.py
@@ -13,3 +13,6 @@
 ##############################################################################
 
 # __init__.py file for modelevalutors module
+
+from diffpy.srmise.modelevaluators.aic import AIC  # noqa: F401
+from diffpy.srmise.modelevaluators.aicc import AICc  # noqa: F401
diff --git a/src/diffpy/srmise/peakextraction.py b/src/diffpy/srmise/peakextraction.py
index 7a10cf6..42776ee 100644
--- a/src/diffpy/srmise/peakextraction.py
+++ b/src/diffpy/srmise/peakextraction.py
@@ -467,7 +467,11 @@ class PeakExtraction(object):
         res = re.search(r"^ModelEvaluator=(.*)$", srmisemetadata, re.M)
         __import__("diffpy.srmise.modelevaluators")
         module = sys.modules["diffpy.srmise.modelevaluators"]
-        self.error_method = getattr(module, res.groups()[0].strip())
+        error_method = res.groups()[0].strip()
+        if error_method == "None":
+            self.error_method = None
+        else:
+            self.error_method = getattr(module, error_method)
 
         # range
         res = re.search(r"^Range=(.*)$", srmisemetadata, re.M)
-- 
2.43.0


From 148edda73757d4a893abeeac524c5c3238c924c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:05 +0000
Subject: [PATCH 31/59] fix: the clustering resolution is saved exactly, also
 if unset

---
 src/diffpy/srmise/peakextraction.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/diffpy/srmise/peakextraction.py b/src/diffpy/srmise/peakextraction.py
index 42776ee..c2280fc 100644
--- a/src/diffpy/srmise/peakextraction.py
+++ b/src/diffpy/srmise/peakextraction.py
@@ -458,10 +458,12 @@ class PeakExtraction(object):
             self.pf = [safepf[i] for i in self.pf]
 
         # cres
-        rx = {"f": r"[-+]?(\d+(\.\d*)?|\d*\.\d+)([eE][-+]?\d+)?"}
-        regexp = r"\bcres *= *(%(f)s)\b" % rx
-        res = re.search(regexp, srmisemetadata, re.I)
-        self.cres = float(res.groups()[0])
+        res = re.search(r"^cres *= *(.*)$", srmisemetadata, re.M | re.I)
+        cres = res.groups()[0].strip()
+        if cres == "None":
+            self.cres = None
+        else:
+            self.cres = float(cres)
 
         # error_method
         res = re.search(r"^ModelEvaluator=(.*)$", srmisemetadata, re.M)
@@ -651,7 +653,10 @@ class PeakExtraction(object):
             lines.append("pf=%s" % repr([safepf.index(p) for p in self.pf]))
 
         # Clustering resolution
-        lines.append("cres=%g" % self.cres)
+        if self.cres is None:
+            lines.append("cres=None")
+        else:
+            lines.append("cres=%s" % repr(float(self.cres)))
         # Model evaluator
         if self.error_method is None:
             lines.append("ModelEvaluator=None")
-- 
2.43.0


From 36127683cb132875330a81047be3db09fb5dfff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:05 +0000
Subject: [PATCH 32/59] fix: extractions without metadata of their own can be
 saved and read

---
 src/diffpy/srmise/peakextraction.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/diffpy/srmise/peakextraction.py b/src/diffpy/srmise/peakextraction.py
index c2280fc..ffa7151 100644
--- a/src/diffpy/srmise/peakextraction.py
+++ b/src/diffpy/srmise/peakextraction.py
@@ -718,10 +718,10 @@ class PeakExtraction(object):
 
     def writemetadata(self):
         """Return string for metadata not defined by srmise class."""
-        return
+        return ""
 
-    def readmetadata(self):
-        """Return string for metadata not defined by srmise class."""
+    def readmetadata(self, metastr):
+        """Read metadata not defined by srmise class from string."""
         return
 
     def writesummary(self):
-- 
2.43.0


From 0c9d95e80093141b094572ab0357a58dcf904e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:05 +0000
Subject: [PATCH 33/59] fix: clusters without baseline or peak functions can be
 written

---
 src/diffpy/srmise/modelcluster.py      | 7 +++++--
 src/diffpy/srmise/pdfpeakextraction.py | 3 ++-
 src/diffpy/srmise/peakextraction.py    | 3 ++-
 3 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/diffpy/srmise/modelcluster.py b/src/diffpy/srmise/modelcluster.py
index 2db37aa..5e00f32 100644
--- a/src/diffpy/srmise/modelcluster.py
+++ b/src/diffpy/srmise/modelcluster.py
@@ -545,7 +545,8 @@ class ModelCluster(object):
             writepf = False
         else:
             pfbaselist = [p.owner() for p in self.model]
-            pfbaselist.extend(self.peak_funcs)
+            if self.peak_funcs is not None:
+                pfbaselist.extend(self.peak_funcs)
             pfbaselist = list(set(pfbaselist))
             pfbaselist = BaseFunction.safefunctionlist(pfbaselist)
             writepf = True
@@ -554,7 +555,9 @@ class ModelCluster(object):
             blfbaselist = kwds["blfbaselist"]
             writeblf = False
         else:
-            blfbaselist = BaseFunction.safefunctionlist([self.baseline.owner()])
+            blfbaselist = []
+            if self.baseline is not None:
+                blfbaselist = BaseFunction.safefunctionlist([self.baseline.owner()])
             writeblf = True
 
         lines = []
diff --git a/src/diffpy/srmise/pdfpeakextraction.py b/src/diffpy/srmise/pdfpeakextraction.py
index e36f44a..9d307c5 100644
--- a/src/diffpy/srmise/pdfpeakextraction.py
+++ b/src/diffpy/srmise/pdfpeakextraction.py
@@ -855,7 +855,8 @@ class PDFPeakExtraction(PeakExtraction):
             else:  # should be a ModelPart
                 allbf.append(self.baseline.owner())
         if self.extracted is not None:
-            allpf.extend(self.extracted.peak_funcs)
+            if self.extracted.peak_funcs is not None:
+                allpf.extend(self.extracted.peak_funcs)
             allpf.extend([p.owner() for p in self.extracted.model])
             if self.extracted.baseline is not None:
                 allbf.append(self.extracted.baseline.owner())
diff --git a/src/diffpy/srmise/peakextraction.py b/src/diffpy/srmise/peakextraction.py
index ffa7151..a72f3f3 100644
--- a/src/diffpy/srmise/peakextraction.py
+++ b/src/diffpy/srmise/peakextraction.py
@@ -605,7 +605,8 @@ class PeakExtraction(object):
             else:  # should be a ModelPart
                 allbf.append(self.baseline.owner())
         if self.extracted is not None:
-            allpf.extend(self.extracted.peak_funcs)
+            if self.extracted.peak_funcs is not None:
+                allpf.extend(self.extracted.peak_funcs)
             allpf.extend([p.owner() for p in self.extracted.model])
             if self.extracted.baseline is not None:
                 allbf.append(self.extracted.baseline.owner())
-- 
2.43.0


From b0cd6d66706c9514bd5ad1be3ffad2b3755b9a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:05 +0000
Subject: [PATCH 34/59] fix: corrupt text of an extraction is refused as such

---
 src/diffpy/srmise/basefunction.py   | 25 +++++++++++++++++++++++--
 src/diffpy/srmise/baselines/base.py |  5 +++--
 src/diffpy/srmise/modelcluster.py   |  4 +++-
 src/diffpy/srmise/peakextraction.py |  5 ++++-
 src/diffpy/srmise/peaks/base.py     |  5 +++--
 5 files changed, 36 insertions(+), 8 deletions(-)

diff --git a/src/diffpy/srmise/basefunction.py b/src/diffpy/srmise/basefunction.py
index 861a85d..5b040af 100644
--- a/src/diffpy/srmise/basefunction.py
+++ b/src/diffpy/srmise/basefunction.py
@@ -15,17 +15,37 @@
 srmise.
 """
 
+import functools
 import logging
 import re
 import sys
 
 import numpy as np
 
-from diffpy.srmise.srmiseerrors import SrMiseDataFormatError
+from diffpy.srmise.srmiseerrors import SrMiseDataFormatError, SrMiseError
 
 logger = logging.getLogger("diffpy.srmise")
 
 
+def textreader(reader):
+    """Decorator for functions which read text.
+
+    Whatever goes wrong while reading means that the text is corrupt, and
+    raises SrMiseDataFormatError.
+    """
+
+    @functools.wraps(reader)
+    def wrapper(*args, **kwds):
+        try:
+            return reader(*args, **kwds)
+        except SrMiseError:
+            raise
+        except Exception as err:
+            raise SrMiseDataFormatError("Invalid or missing data: %s" % err) from err
+
+    return wrapper
+
+
 class BaseFunction(object):
     """Base class for mathematical functions which model numeric
     sequences.
@@ -434,6 +454,7 @@ class BaseFunction(object):
         return datastring
 
     @staticmethod
+    @textreader
     def factory(functionstr, baselist):
         """Instantiate a BaseFunction (or any subclass) from a string.
 
@@ -487,7 +508,7 @@ class BaseFunction(object):
         # Correctly initialize the base function, if one exists.
         if pdict["base"] is not None:
             idx = pdict["base"]
-            if idx > len(baselist):
+            if idx < 0 or idx >= len(baselist):
                 emsg = "Dependent base function not in baselist."
                 raise ValueError(emsg)
             pdict["base"] = baselist[idx]
diff --git a/src/diffpy/srmise/baselines/base.py b/src/diffpy/srmise/baselines/base.py
index fabf835..96b53f1 100644
--- a/src/diffpy/srmise/baselines/base.py
+++ b/src/diffpy/srmise/baselines/base.py
@@ -16,7 +16,7 @@ import logging
 
 import numpy as np
 
-from diffpy.srmise.basefunction import BaseFunction
+from diffpy.srmise.basefunction import BaseFunction, textreader
 from diffpy.srmise.modelparts import ModelPart
 from diffpy.srmise.srmiseerrors import SrMiseDataFormatError
 
@@ -162,6 +162,7 @@ class Baseline(ModelPart):
         ModelPart.__init__(self, owner, pars, free, removable, static_owner)
 
     @staticmethod
+    @textreader
     def factory(baselinestr, ownerlist):
         """Instantiate a Peak from a string.
 
@@ -190,7 +191,7 @@ class Baseline(ModelPart):
 
         # Correctly initialize the base function, if one exists.
         idx = pdict["owner"]
-        if idx > len(ownerlist):
+        if idx < 0 or idx >= len(ownerlist):
             emsg = "Dependent base function not in ownerlist."
             raise ValueError(emsg)
         pdict["owner"] = ownerlist[idx]
diff --git a/src/diffpy/srmise/modelcluster.py b/src/diffpy/srmise/modelcluster.py
index 5e00f32..8e5ee1f 100644
--- a/src/diffpy/srmise/modelcluster.py
+++ b/src/diffpy/srmise/modelcluster.py
@@ -26,6 +26,7 @@ import sys
 import numpy as np
 
 from diffpy.srmise import srmiselog
+from diffpy.srmise.basefunction import textreader
 from diffpy.srmise.baselines.base import Baseline
 from diffpy.srmise.modelparts import ModelParts
 from diffpy.srmise.peaks.base import Peak, Peaks
@@ -611,6 +612,7 @@ class ModelCluster(object):
         return datastring
 
     @staticmethod
+    @textreader
     def factory(mcstr, **kwds):
         """Create ModelCluster from string.
 
@@ -767,7 +769,7 @@ class ModelCluster(object):
                 for a, v in zip(arrays, line.split()):
                     a.append(float(v))
         except (ValueError, IndexError) as err:
-            raise SrMiseDataFormatError(err)
+            raise SrMiseDataFormatError(str(err))
         if hasr:
             r_data = np.array(r_data)
         if hasy:
diff --git a/src/diffpy/srmise/peakextraction.py b/src/diffpy/srmise/peakextraction.py
index a72f3f3..5cb37ad 100644
--- a/src/diffpy/srmise/peakextraction.py
+++ b/src/diffpy/srmise/peakextraction.py
@@ -21,6 +21,7 @@ import matplotlib.pyplot as plt
 import numpy as np
 
 from diffpy.srmise import srmiselog
+from diffpy.srmise.basefunction import textreader
 from diffpy.srmise.baselines.base import Baseline
 from diffpy.srmise.dataclusters import DataClusters
 from diffpy.srmise.modelcluster import ModelCluster, ModelCovariance
@@ -329,6 +330,7 @@ class PeakExtraction(object):
             raise SrMiseFileError(emsg)
         return self
 
+    @textreader
     def readstr(self, datastring):
         """Initialize members from string.
 
@@ -512,10 +514,11 @@ class PeakExtraction(object):
             self.effective_dy = None
         # raise SrMiseDataFormatError if something goes wrong
         try:
-            for line in start_data.split("\n"):
+            for line in start_data.splitlines():
                 split_line = line.split()
                 if len(arrays) != len(split_line):
                     emsg = "Number of value fields does not match that given by '%s'" % start_data_info
+                    raise IndexError(emsg)
                 for a, v in zip(arrays, line.split()):
                     a.append(float(v))
         except (ValueError, IndexError) as err:
diff --git a/src/diffpy/srmise/peaks/base.py b/src/diffpy/srmise/peaks/base.py
index 301ecfd..ed311da 100644
--- a/src/diffpy/srmise/peaks/base.py
+++ b/src/diffpy/srmise/peaks/base.py
@@ -16,7 +16,7 @@ import logging
 
 import numpy as np
 
-from diffpy.srmise.basefunction import BaseFunction
+from diffpy.srmise.basefunction import BaseFunction, textreader
 from diffpy.srmise.modelparts import ModelPart, ModelParts
 from diffpy.srmise.srmiseerrors import SrMiseDataFormatError, SrMiseScalingError
 
@@ -273,6 +273,7 @@ class Peak(ModelPart):
         return True
 
     @staticmethod
+    @textreader
     def factory(peakstr, ownerlist):
         """Instantiate a Peak from a string.
 
@@ -299,7 +300,7 @@ class Peak(ModelPart):
 
         # Correctly initialize the base function, if one exists.
         idx = pdict["owner"]
-        if idx > len(ownerlist):
+        if idx < 0 or idx >= len(ownerlist):
             emsg = "Dependent base function not in ownerlist."
             raise ValueError(emsg)
         pdict["owner"] = ownerlist[idx]
-- 
2.43.0


From 4f4b9b0a944138709850ecaff94d13a4b9e1b165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:05 +0000
Subject: [PATCH 35/59] fix: a trace is read with its own counter and recursion
 level

---
 src/diffpy/srmise/srmiselog.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/diffpy/srmise/srmiselog.py b/src/diffpy/srmise/srmiselog.py
index 05eddaf..86bacb8 100644
--- a/src/diffpy/srmise/srmiselog.py
+++ b/src/diffpy/srmise/srmiselog.py
@@ -42,6 +42,8 @@ import logging
 import os.path
 import re
 
+import numpy as np  # noqa: F401, names in traces
+
 from diffpy.srmise.srmiseerrors import SrMiseDataFormatError, SrMiseFileError, SrMiseLogError
 
 # Default settings ###
@@ -297,14 +299,14 @@ class TracePeaks(object):
 
         res = re.search(r"^recursion=(.*)$", header, re.M)
         if res:
-            eval(res.groups()[0].strip())
+            recursion = eval(res.groups()[0].strip())
         else:
             emsg = "Required field 'recursion' not found."
             raise SrMiseDataFormatError(emsg)
 
         res = re.search(r"^counter=(.*)$", header, re.M)
         if res:
-            eval(res.groups()[0].strip())
+            counter = eval(res.groups()[0].strip())
         else:
             emsg = "Required field 'counter' not found."
             raise SrMiseDataFormatError(emsg)
@@ -312,8 +314,8 @@ class TracePeaks(object):
         return {
             "mc": mc,
             "clusters": clusters,
-            "recursion": self.recursion,
-            "counter": self.counter,
+            "recursion": recursion,
+            "counter": counter,
         }
 
     def pushr(self):
-- 
2.43.0


From 0375d0c341810a4d5dcae17f4211eb61da8ba914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:05 +0000
Subject: [PATCH 36/59] fix: sequences are read from the first character of
 their data

---
 src/diffpy/srmise/baselines/fromsequence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/baselines/fromsequence.py b/src/diffpy/srmise/baselines/fromsequence.py
index 1aaa8d8..f338842 100644
--- a/src/diffpy/srmise/baselines/fromsequence.py
+++ b/src/diffpy/srmise/baselines/fromsequence.py
@@ -262,7 +262,7 @@ class FromSequence(BaselineFunction):
 
         res = re.search(rb"^[^#]", datastring, re.M)
         if res:
-            datastring = datastring[res.end() :].strip()
+            datastring = datastring[res.start() :].strip()
 
         x = []
         y = []
-- 
2.43.0


From 2ab4d1659d16ee86af97a7a95bcd5424392e7940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:05 +0000
Subject: [PATCH 37/59] fix: copies of a data set keep its particle diameter

---
 src/diffpy/srmise/pdfdataset.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/diffpy/srmise/pdfdataset.py b/src/diffpy/srmise/pdfdataset.py
index 3965fe3..ba0dd65 100644
--- a/src/diffpy/srmise/pdfdataset.py
+++ b/src/diffpy/srmise/pdfdataset.py
@@ -438,6 +438,7 @@ class PDFDataSet(PDFComponent):
             "qmax",
             "qdamp",
             "qbroad",
+            "spdiameter",
             "dscale",
             "rmin",
             "rmax",
-- 
2.43.0


From 367728723b2b3c019fd451c3a38d000fc5398a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:52 +0000
Subject: [PATCH 38/59] fix: saved criteria can be loaded

---
 src/diffpy/srmise/multimodelselection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/multimodelselection.py b/src/diffpy/srmise/multimodelselection.py
index 91cd34c..4e00647 100644
--- a/src/diffpy/srmise/multimodelselection.py
+++ b/src/diffpy/srmise/multimodelselection.py
@@ -163,7 +163,7 @@ class MultimodelSelection(PeakStability):
         em = self.ppe.error_method
 
         self.aics = aics_in
-        self.dgs = np.sort(aics_in.keys())
+        self.dgs = np.sort(list(aics_in))
 
         for i, dg in enumerate(self.dgs):
             self.dgs_idx[dg] = i
-- 
2.43.0


From dffe5e549b32201fddab9022f2bf6bc023f541dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:52 +0000
Subject: [PATCH 39/59] fix: best uncertainties of a class are those among the
 given ones

---
 src/diffpy/srmise/multimodelselection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/multimodelselection.py b/src/diffpy/srmise/multimodelselection.py
index 4e00647..36c6af0 100644
--- a/src/diffpy/srmise/multimodelselection.py
+++ b/src/diffpy/srmise/multimodelselection.py
@@ -544,7 +544,7 @@ class MultimodelSelection(PeakStability):
         if dgs is None:
             dgs = self.dgs
         bestdgs = []
-        for dg in self.dgs:
+        for dg in dgs:
             if self.sortedclassprobs[dg][-1] == cls:
                 bestdgs.append(dg)
         return bestdgs
-- 
2.43.0


From 1656b0ec31bdb11f44ad94ba0a0e0c7d72cb8a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:52 +0000
Subject: [PATCH 40/59] fix: results are loaded if the baseline is a function

---
 src/diffpy/srmise/peakstability.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/peakstability.py b/src/diffpy/srmise/peakstability.py
index 77e3928..4e902ae 100644
--- a/src/diffpy/srmise/peakstability.py
+++ b/src/diffpy/srmise/peakstability.py
@@ -60,7 +60,7 @@ class PeakStability:
                 if r[2] is not None:
                     kwds = r[2]
                     if hasattr(bl, "estimate_parameters"):
-                        r[2] = bl.actualize(default_input="internal", **kwds)
+                        r[2] = bl.actualize(in_format="internal", **kwds)
                     else:
                         r[2] = bl.owner().actualize(in_format="internal", **kwds)
         finally:
-- 
2.43.0


From 51c8aa12cd1a88c16a61b8d6a38f1f949b36e7f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:52 +0000
Subject: [PATCH 41/59] fix: results saved before any run can be loaded

---
 src/diffpy/srmise/peakstability.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/peakstability.py b/src/diffpy/srmise/peakstability.py
index 4e902ae..8812848 100644
--- a/src/diffpy/srmise/peakstability.py
+++ b/src/diffpy/srmise/peakstability.py
@@ -66,7 +66,7 @@ class PeakStability:
         finally:
             in_s.close()
 
-        self.setcurrent(0)
+        self.setcurrent(0 if self.results else None)
 
     def save(self, filename):
         try:
-- 
2.43.0


From 7201a43d49bc8ec782eae59fd99551345992791c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:30 +0000
Subject: [PATCH 42/59] fix: the uncertainty can be requested by its documented
 name

---
 src/diffpy/srmise/multimodelselection.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/multimodelselection.py b/src/diffpy/srmise/multimodelselection.py
index 36c6af0..acc0468 100644
--- a/src/diffpy/srmise/multimodelselection.py
+++ b/src/diffpy/srmise/multimodelselection.py
@@ -918,7 +918,8 @@ class MultimodelSelection(PeakStability):
         fdict = {
             "aic": self.get_aic,
             "class": self.get_class,
-            "dg": lambda x: x,
+            "dg": lambda dG, **kwds: dG,
+            "dG": lambda dG, **kwds: dG,
             "model": self.get_model,
             "nfree": self.get_nfree,
             "prob": self.get_prob,
-- 
2.43.0


From b8a8f0fa26af55d0b16c69e8fc4a89593a9df59b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:25 +0000
Subject: [PATCH 43/59] fix: --no-nyquist and --no-scale take effect

---
 src/diffpy/srmise/applications/extract.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/diffpy/srmise/applications/extract.py b/src/diffpy/srmise/applications/extract.py
index 3dd4eaa..f0a5753 100755
--- a/src/diffpy/srmise/applications/extract.py
+++ b/src/diffpy/srmise/applications/extract.py
@@ -569,11 +569,11 @@ def main():
             pdict["rng"] = list(options.rng)
         if options.qmax:
             pdict["qmax"] = options.qmax if options.qmax == "automatic" else float(options.qmax)
-        if options.nyquist:
+        if options.nyquist is not None:
             pdict["nyquist"] = options.nyquist
         if options.supersample:
             pdict["supersample"] = options.supersample
-        if options.scale:
+        if options.scale is not None:
             pdict["scale"] = options.scale
         if options.modelevaluator:
             pdict["error_method"] = options.modelevaluator
-- 
2.43.0


From 25f54cca5951d33bd19b077a2604297330feb12f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:25 +0000
Subject: [PATCH 44/59] fix: uncertainty as fraction of the data's range works
 with numpy 2

---
 src/diffpy/srmise/applications/extract.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/applications/extract.py b/src/diffpy/srmise/applications/extract.py
index f0a5753..65131f5 100755
--- a/src/diffpy/srmise/applications/extract.py
+++ b/src/diffpy/srmise/applications/extract.py
@@ -562,7 +562,7 @@ def main():
         elif options.dg_mode == "max-fraction":
             pdict["effective_dy"] = options.dg * ext.y.max() * np.ones(len(ext.x))
         elif options.dg_mode == "ptp-fraction":
-            pdict["effective_dy"] = options.dg * ext.y.ptp() * np.ones(len(ext.y))
+            pdict["effective_dy"] = options.dg * np.ptp(ext.y) * np.ones(len(ext.y))
         elif options.dg_mode == "dG-fraction":
             pdict["effective_dy"] = options.dg * ext.dy
         if options.rng:
-- 
2.43.0


From 38adf4cfd0b03c2b739919fbc85afdeb7c73be99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:25 +0000
Subject: [PATCH 45/59] fix: data without uncertainties get the documented
 default uncertainty

---
 src/diffpy/srmise/applications/extract.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/applications/extract.py b/src/diffpy/srmise/applications/extract.py
index 65131f5..b729139 100755
--- a/src/diffpy/srmise/applications/extract.py
+++ b/src/diffpy/srmise/applications/extract.py
@@ -551,7 +551,7 @@ def main():
         if options.dg_mode is None:
             if options.dg:
                 options.dg_mode = "absolute"
-            elif ext.dy is None:
+            elif ext.dy is None or not np.all(ext.dy > 0):
                 options.dg_mode = "max-fraction"
             else:
                 options.dg_mode = "dG-fraction"
-- 
2.43.0


From ff1c308521fb476af37a280db03151ace8104aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:25 +0000
Subject: [PATCH 46/59] fix: --pf and --me find peak functions and model
 evaluators

---
 src/diffpy/srmise/applications/extract.py | 33 +++++++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/src/diffpy/srmise/applications/extract.py b/src/diffpy/srmise/applications/extract.py
index b729139..044e0a3 100755
--- a/src/diffpy/srmise/applications/extract.py
+++ b/src/diffpy/srmise/applications/extract.py
@@ -33,6 +33,27 @@ def _baseline_namespace():
     }
 
 
+def _peak_namespace():
+    """Return the peak functions supported by the CLI."""
+    from diffpy.srmise.peaks.gaussian import Gaussian
+    from diffpy.srmise.peaks.gaussianoverr import GaussianOverR
+    from diffpy.srmise.peaks.terminationripples import TerminationRipples
+
+    return {
+        "Gaussian": Gaussian,
+        "GaussianOverR": GaussianOverR,
+        "TerminationRipples": TerminationRipples,
+    }
+
+
+def _modelevaluator_namespace():
+    """Return the model evaluators supported by the CLI."""
+    from diffpy.srmise.modelevaluators.aic import AIC
+    from diffpy.srmise.modelevaluators.aicc import AICc
+
+    return {"AIC": AIC, "AICc": AICc}
+
+
 def main():
     """Default SrMise entry-point."""
     usage = (
@@ -447,7 +468,11 @@ def main():
 
     if options.peakfunction:
         try:
-            options.peakfunction = eval("peaks." + options.peakfunction)
+            options.peakfunction = eval(
+                options.peakfunction,
+                {"__builtins__": {}},
+                _peak_namespace(),
+            )
         except Exception as err:
             print(err)
             print(
@@ -463,7 +488,11 @@ def main():
 
     if options.modelevaluator:
         try:
-            options.modelevaluator = eval("modelevaluators." + options.modelevaluator)
+            options.modelevaluator = eval(
+                options.modelevaluator,
+                {"__builtins__": {}},
+                _modelevaluator_namespace(),
+            )
         except Exception as err:
             print(err)
             print(
-- 
2.43.0


From 41cc9c9b4fe5f6c46e9dbf46e8dac18e51572057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:25 +0000
Subject: [PATCH 47/59] fix: --bsrmise works with files saved without
 extraction

---
 src/diffpy/srmise/applications/extract.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/applications/extract.py b/src/diffpy/srmise/applications/extract.py
index 044e0a3..faf9ee5 100755
--- a/src/diffpy/srmise/applications/extract.py
+++ b/src/diffpy/srmise/applications/extract.py
@@ -516,7 +516,10 @@ def main():
         # use baseline from existing file
         blext = PDFPeakExtraction()
         blext.read(options.bsrmise)
-        options.baseline = blext.extracted.baseline
+        if blext.extracted is not None:
+            options.baseline = blext.extracted.baseline
+        else:
+            options.baseline = blext.baseline
     elif options.bpoly0:
         from diffpy.srmise.baselines.polynomial import Polynomial
 
-- 
2.43.0


From febd16dfd1385e280aa134657d85a23c27a07527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:41 +0000
Subject: [PATCH 48/59] fix: --bseq takes effect (its baseline has no
 parameters)

---
 src/diffpy/srmise/applications/extract.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/applications/extract.py b/src/diffpy/srmise/applications/extract.py
index faf9ee5..7f2e553 100755
--- a/src/diffpy/srmise/applications/extract.py
+++ b/src/diffpy/srmise/applications/extract.py
@@ -576,7 +576,7 @@ def main():
         pdict = {}
         if options.peakfunction:
             pdict["pf"] = [options.peakfunction]
-        if options.baseline:
+        if options.baseline is not None:
             pdict["baseline"] = options.baseline
         if options.cres:
             pdict["cres"] = options.cres
-- 
2.43.0


From 46dba3fb3aed9b20187838a3b888c326d4c668a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:52 +0000
Subject: [PATCH 49/59] fix: a result or summary that cannot be written no
 longer ends the program

---
 src/diffpy/srmise/applications/extract.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/diffpy/srmise/applications/extract.py b/src/diffpy/srmise/applications/extract.py
index 7f2e553..95dda1e 100755
--- a/src/diffpy/srmise/applications/extract.py
+++ b/src/diffpy/srmise/applications/extract.py
@@ -464,7 +464,7 @@ def main():
     srmiselog.setlevel(options.verbosity)
 
     from diffpy.srmise.pdfpeakextraction import PDFPeakExtraction
-    from diffpy.srmise.srmiseerrors import SrMiseDataFormatError, SrMiseFileError
+    from diffpy.srmise.srmiseerrors import SrMiseDataFormatError, SrMiseError, SrMiseFileError
 
     if options.peakfunction:
         try:
@@ -624,14 +624,14 @@ def main():
         if options.savefile:
             try:
                 ext.write(options.savefile)
-            except SrMiseFileError as err:
+            except (SrMiseError, OSError) as err:
                 print(err)
                 print("Could not save result to '%s'." % options.savefile)
 
         if options.pwafile:
             try:
                 ext.writepwa(options.pwafile)
-            except SrMiseFileError as err:
+            except (SrMiseError, OSError) as err:
                 print(err)
                 print("Could not save pwa summary to '%s'." % options.pwafile)
 
-- 
2.43.0


From 1fa662cff2d9a13c45a98df13ccaccd988212b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:52 +0000
Subject: [PATCH 50/59] fix: an extraction no longer fits the given baseline
 itself

---
 src/diffpy/srmise/peakextraction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/peakextraction.py b/src/diffpy/srmise/peakextraction.py
index 5cb37ad..5f4c020 100644
--- a/src/diffpy/srmise/peakextraction.py
+++ b/src/diffpy/srmise/peakextraction.py
@@ -847,7 +847,7 @@ class PeakExtraction(object):
 
         # Make sure all required extraction variables have some value
         self.defaultvars()
-        bl = self.baseline
+        bl = self.baseline.copy()
 
         # Copy initial_peaks
         # While it would be nice to integrate them into extracted model naturally
-- 
2.43.0


From 4fe351f2ba11f77417d8efcdaa015fde074c3e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:52 +0000
Subject: [PATCH 51/59] fix: peaks can be added when there are none yet

---
 src/diffpy/srmise/peakextraction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/peakextraction.py b/src/diffpy/srmise/peakextraction.py
index 5f4c020..9f06532 100644
--- a/src/diffpy/srmise/peakextraction.py
+++ b/src/diffpy/srmise/peakextraction.py
@@ -824,7 +824,7 @@ class PeakExtraction(object):
             self.extracted.replacepeaks(peaks)
         else:
             if self.initial_peaks is None:
-                self.setvars("initial_peaks")
+                self.initial_peaks = Peaks()
             self.initial_peaks.extend(peaks)
             self.initial_peaks.sort(key="position")
 
-- 
2.43.0


From f1d40cee35ad3b9cd30f152befb26f7053394a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:41 +0000
Subject: [PATCH 52/59] fix: clusters whose peaks come from outside are fit

---
 src/diffpy/srmise/modelcluster.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/diffpy/srmise/modelcluster.py b/src/diffpy/srmise/modelcluster.py
index 8e5ee1f..7ce87aa 100644
--- a/src/diffpy/srmise/modelcluster.py
+++ b/src/diffpy/srmise/modelcluster.py
@@ -530,6 +530,9 @@ class ModelCluster(object):
         self.replacepeaks(peaks)
         self.y_data = self.y_data + peaks.value(self.r_data)
         self.y_cluster = self.y_data[self.slice]
+        # The peaks may rise above the error threshold.
+        if self.never_fit:
+            self.never_fit = max(self.y_cluster - self.valuebl() - self.error_cluster) < 0
 
     def writestr(self, **kwds):
         """Return partial string representation.
-- 
2.43.0


From 99601c2aaf26062e89b84c1fe62663a284fe34b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:49 +0000
Subject: [PATCH 53/59] fix: PeakExtraction.plot passes its keywords to
 plottable

---
 src/diffpy/srmise/peakextraction.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/diffpy/srmise/peakextraction.py b/src/diffpy/srmise/peakextraction.py
index 9f06532..9a4a9ff 100644
--- a/src/diffpy/srmise/peakextraction.py
+++ b/src/diffpy/srmise/peakextraction.py
@@ -283,7 +283,7 @@ class PeakExtraction(object):
         """
         plt.clf()
         if self.extracted is not None:
-            plt.plot(*self.extracted.plottable(kwds))
+            plt.plot(*self.extracted.plottable(**kwds))
         else:
 
             # Make sure all required extraction variables have some value
@@ -303,7 +303,7 @@ class PeakExtraction(object):
                 self.error_method,
                 self.pf,
             )
-            plt.plot(*mcluster.plottable(kwds))
+            plt.plot(*mcluster.plottable(**kwds))
 
     def read(self, filename):
         """Load PeakExtraction object from file.
-- 
2.43.0


From 7839b862230dae9f0b4fe42a52c57e40ec90231f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:49 +0000
Subject: [PATCH 54/59] fix: animations of models show each model whole, and
 change none

---
 src/diffpy/srmise/multimodelselection.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/diffpy/srmise/multimodelselection.py b/src/diffpy/srmise/multimodelselection.py
index acc0468..3b24bd2 100644
--- a/src/diffpy/srmise/multimodelselection.py
+++ b/src/diffpy/srmise/multimodelselection.py
@@ -236,15 +236,14 @@ class MultimodelSelection(PeakStability):
         for dg in self.dgs[1:]:
             plt.ioff()
             line.set_ydata(self.aicprobs[dg])
-            vline.set_xdata(dg)
+            vline.set_xdata([dg, dg])
             if self.sortedprobs[dg][-1] != best_idx:
                 best_idx = self.sortedprobs[dg][-1]
-                s = slice(0, len(self.ppe.extracted.model))
-                self.ppe.extracted.replacepeaks(self.results[best_idx][1], s)
+                self.setcurrent(best_idx)
                 plt.cla()
                 plt.plot(*self.ppe.extracted.plottable())
-            dot.set_xdata(self.dgs[best_idx])
-            dot.set_ydata(self.aicprobs[dg][best_idx])
+            dot.set_xdata([self.dgs[best_idx]])
+            dot.set_ydata([self.aicprobs[dg][best_idx]])
             plt.ion()
             plt.draw()
             if step:
@@ -277,7 +276,7 @@ class MultimodelSelection(PeakStability):
         arrow_right = arrow_left + 0.05 * arrow_left
         (line,) = plt.plot(range(len(self.classes)), self.classprobs[self.dgs[0]])
         (dot,) = plt.plot(
-            self.dgs[best_idx],
+            bestclass_idx,
             self.classprobs[self.dgs[0]][bestclass_idx],
             "ro",
         )
@@ -310,16 +309,16 @@ class MultimodelSelection(PeakStability):
             if self.sortedclassprobs[dg][-1] != bestclass_idx:
                 bestclass_idx = self.sortedclassprobs[dg][-1]
                 best_idx = self.sortedclasses[dg][bestclass_idx][-1]
-                s = slice(0, len(tempcluster.model))
-                tempcluster.replacepeaks(self.results[best_idx][1], s)
+                self.setcurrent(best_idx)
+                tempcluster = ModelCluster(self.ppe.extracted)
                 plt.cla()
                 val = tempcluster.plottable()
                 minval = np.min(val[1::2])
                 [r, res] = tempcluster.plottable_residual()
                 plt.plot(*val)
                 plt.plot(r, minval - np.max(res) + res)
-            dot.set_xdata(bestclass_idx)
-            dot.set_ydata(self.classprobs[dg][bestclass_idx])
+            dot.set_xdata([bestclass_idx])
+            dot.set_ydata([self.classprobs[dg][bestclass_idx]])
             plt.ion()
             plt.draw()
             if step:
-- 
2.43.0


From 8ab3a2a12d42e099261be200cd147922588581f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:49 +0000
Subject: [PATCH 55/59] fix: positions to compare are read from text, the first
 included

---
 src/diffpy/srmise/applications/plot.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/diffpy/srmise/applications/plot.py b/src/diffpy/srmise/applications/plot.py
index b4d28c0..0bb6111 100755
--- a/src/diffpy/srmise/applications/plot.py
+++ b/src/diffpy/srmise/applications/plot.py
@@ -560,7 +560,8 @@ def readcompare(filename):
     """
     # TODO: Make this safer
     try:
-        datastring = open(filename, "rb").read()
+        with open(filename) as f:
+            datastring = f.read()
     except Exception as err:
         raise err
 
@@ -568,7 +569,7 @@ def readcompare(filename):
 
     res = re.search(r"^[^#]", datastring, re.M)
     if res:
-        datastring = datastring[res.end() :].strip()
+        datastring = datastring[res.start() :].strip()
 
     distances = []
 
-- 
2.43.0


From aa2b05425717a266cd27464eb859c65080be4622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:49 +0000
Subject: [PATCH 56/59] fix: stored traces do not share peaks with the
 extraction

---
 src/diffpy/srmise/srmiselog.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/srmiselog.py b/src/diffpy/srmise/srmiselog.py
index 86bacb8..a0a6cfc 100644
--- a/src/diffpy/srmise/srmiselog.py
+++ b/src/diffpy/srmise/srmiselog.py
@@ -207,7 +207,7 @@ class TracePeaks(object):
         for m in args:
             clusters.append(m.slice)
         for m in args[1:]:
-            mc.replacepeaks(m.model)
+            mc.replacepeaks(m.model.copy())
         return {
             "mc": mc,
             "clusters": clusters,
-- 
2.43.0


From f22c0e3a955f27429bf32f2bed9b34cfd6578c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:49 +0000
Subject: [PATCH 57/59] fix: file logs receive messages of the level asked for

---
 src/diffpy/srmise/srmiselog.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/srmiselog.py b/src/diffpy/srmise/srmiselog.py
index a0a6cfc..1cb145d 100644
--- a/src/diffpy/srmise/srmiselog.py
+++ b/src/diffpy/srmise/srmiselog.py
@@ -88,10 +88,10 @@ def addfilelog(filename, level=defaultlevel, format=defaultformat):
     """
     global fh
     fh = logging.FileHandler(filename)
-    fh.setLevel(level)
     formatter = logging.Formatter(format)
     fh.setFormatter(formatter)
     logger.addHandler(fh)
+    setfilelevel(level)
 
 
 def setfilelevel(level):
-- 
2.43.0


From 627d2f11e4ceee468f4660003804ac59442927c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:04 +0000
Subject: [PATCH 58/59] fix: class probabilities are plotted

---
 src/diffpy/srmise/multimodelselection.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/diffpy/srmise/multimodelselection.py b/src/diffpy/srmise/multimodelselection.py
index 3b24bd2..2199b15 100644
--- a/src/diffpy/srmise/multimodelselection.py
+++ b/src/diffpy/srmise/multimodelselection.py
@@ -611,7 +611,7 @@ class MultimodelSelection(PeakStability):
         "cbaxis" - The colorbar axis, if it exists.
         "cb" - The colorbar, if it exists.
         """
-        from matplotlib import cm, colorbar, colors
+        from matplotlib import colorbar, colors
         from matplotlib.collections import PolyCollection
 
         fig = kwds.pop("figure", plt.gcf())
@@ -626,13 +626,13 @@ class MultimodelSelection(PeakStability):
         probfilter = kwds.pop("probfilter", [0.0, 1.0])
         class_size = kwds.pop("class_size", "number")
         norm = kwds.pop("norm", "auto")
-        cmap = kwds.pop("cmap", cm.get_cmap("jet"))
-        highlight_cmap = kwds.pop("highlight_cmap", cm.get_cmap("gray"))
+        cmap = plt.get_cmap(kwds.pop("cmap", "jet"))
+        highlight_cmap = plt.get_cmap(kwds.pop("highlight_cmap", "gray"))
         title = kwds.pop("title", True)
         p_alpha = kwds.pop("p_alpha", 0.7)
         scale = kwds.pop("scale", 1.0)
 
-        xs = dGs * scale
+        xs = np.array(dGs) * scale
         verts = []
         zs = []
         zlabels = []
@@ -645,7 +645,7 @@ class MultimodelSelection(PeakStability):
                     (xs[0], 0),
                     (xs[-1], 0),
                 )  # points to close the vertices
-                verts.append(np.concatenate([[p0], zip(xs, ys), [p1], [p0]]))
+                verts.append(np.concatenate([[p0], list(zip(xs, ys)), [p1], [p0]]))
                 zlabels.append(i)
 
         #  Define face colors
@@ -691,7 +691,7 @@ class MultimodelSelection(PeakStability):
         for dG, ci in zip(highlight, color_idx):
             for z_logical, z_plot in zip(zlabels, zs):
                 ax.plot(
-                    [dG, dG],
+                    [dG * scale, dG * scale],
                     [z_plot, z_plot],
                     [0, self.classprobs[dG][z_logical]],
                     color=highlight_cmap(ci),
-- 
2.43.0


From f9a9d78691a006f1287d6dd783504263a20b7eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:31 +0000
Subject: [PATCH 59/59] fix: errors leave the tracer as it was

---
 src/diffpy/srmise/modelcluster.py      |  1 +
 src/diffpy/srmise/pdfpeakextraction.py |  1 +
 src/diffpy/srmise/peakextraction.py    |  1 +
 src/diffpy/srmise/srmiselog.py         | 19 +++++++++++++++++++
 4 files changed, 22 insertions(+)

diff --git a/src/diffpy/srmise/modelcluster.py b/src/diffpy/srmise/modelcluster.py
index 7ce87aa..92aab00 100644
--- a/src/diffpy/srmise/modelcluster.py
+++ b/src/diffpy/srmise/modelcluster.py
@@ -1480,6 +1480,7 @@ class ModelCluster(object):
             ]
         )
 
+    @srmiselog.traced
     def prune(self):
         """Remove peaks until model quality no longer improves.
 
diff --git a/src/diffpy/srmise/pdfpeakextraction.py b/src/diffpy/srmise/pdfpeakextraction.py
index 9d307c5..af47d53 100644
--- a/src/diffpy/srmise/pdfpeakextraction.py
+++ b/src/diffpy/srmise/pdfpeakextraction.py
@@ -332,6 +332,7 @@ class PDFPeakExtraction(PeakExtraction):
         else:
             return 1.0
 
+    @srmiselog.traced
     def extract(self, **kwds):
         """Extract peaks from the PDF. Returns ModelCovariance instance
         summarizing results.
diff --git a/src/diffpy/srmise/peakextraction.py b/src/diffpy/srmise/peakextraction.py
index 9a4a9ff..1a1ff1f 100644
--- a/src/diffpy/srmise/peakextraction.py
+++ b/src/diffpy/srmise/peakextraction.py
@@ -828,6 +828,7 @@ class PeakExtraction(object):
             self.initial_peaks.extend(peaks)
             self.initial_peaks.sort(key="position")
 
+    @srmiselog.traced
     def extract_single(self, recursion_depth=1):
         """Find ModelCluster with peaks extracted from data. Return
         ModelCovariance instance at top level.
diff --git a/src/diffpy/srmise/srmiselog.py b/src/diffpy/srmise/srmiselog.py
index 1cb145d..12ca7d4 100644
--- a/src/diffpy/srmise/srmiselog.py
+++ b/src/diffpy/srmise/srmiselog.py
@@ -38,6 +38,7 @@ setlevel: Set logging level of default logger.
 gettracer: Get a TracePeaks instance for tracing peak extraction.
 """
 
+import functools
 import logging
 import os.path
 import re
@@ -359,6 +360,24 @@ class TracePeaks(object):
 # End of class TracePeaks
 
 
+def traced(function):
+    """Decorate a tracer-aware function so that an error leaves the tracer's
+    levels as they were on entry.
+    """
+
+    @functools.wraps(function)
+    def wrapper(*args, **kwds):
+        t = tracer
+        call, recursion = t.call, t.recursion
+        try:
+            return function(*args, **kwds)
+        except BaseException:
+            t.call, t.recursion = call, recursion
+            raise
+
+    return wrapper
+
+
 def settracer(**kwds):
     global tracer
     tracer = TracePeaks(**kwds)
-- 
2.43.0

