From 34070d0294f889fa34b34720103f7af0052d9667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:31 +0000
Subject: [PATCH 01/80] fix: nearest cluster lookup by coordinate outside or
 between data points

find_nearest_cluster2() raised IndexError right of the data, looked up index
-1 at or left of the first point, and never considered the left neighbour of
an interior coordinate.
---
 src/diffpy/srmise/dataclusters.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/diffpy/srmise/dataclusters.py b/src/diffpy/srmise/dataclusters.py
index c79d5fb..529ce36 100644
--- a/src/diffpy/srmise/dataclusters.py
+++ b/src/diffpy/srmise/dataclusters.py
@@ -255,8 +255,12 @@ class DataClusters:
             raise Exception("Cannot cluster next point while status is INIT.")
 
         idx = np.searchsorted(self.x, x)
-        if idx > 0 or idx >= len(self.x):
-            return self.find_nearest_cluster(idx)
+        if idx == 0:
+            # x is at or left of the first point
+            return self.find_nearest_cluster(0)
+        elif idx >= len(self.x):
+            # x is right of the last point
+            return self.find_nearest_cluster(len(self.x) - 1)
         else:
             # Choose adjacent index nearest to x
             if (self.x[idx] - x) < (x - self.x[idx - 1]):
-- 
2.43.0


From f4108c635cec1becb5386d44c045d27736ff552f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:46 +0000
Subject: [PATCH 02/80] fix: adjacency groups of different size, and atomic
 cluster combination

find_adjacent_clusters() and combine_clusters() built ragged numpy arrays and
raised ValueError whenever groups differ in size.  combine_clusters() also
raised IndexError while formatting an error, and applied earlier groups before
rejecting a later one.
---
 src/diffpy/srmise/dataclusters.py | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/src/diffpy/srmise/dataclusters.py b/src/diffpy/srmise/dataclusters.py
index 529ce36..414b2e2 100644
--- a/src/diffpy/srmise/dataclusters.py
+++ b/src/diffpy/srmise/dataclusters.py
@@ -361,42 +361,42 @@ class DataClusters:
         None
         """
         # Ensure that the same clusters aren't combined multiple times.
-        combine_flat = np.array(combine).ravel()
+        combine_flat = [i for c in combine for i in c]
         if len(combine_flat) != len(np.unique(combine_flat)):
             raise ValueError("Cannot combine a single cluster multiple times.")
 
         for c in combine:
             # Test that all clusters are contiguous and adjacent
-            first = c[0]
-            for i in range(c[0], c[-1]):
-                if c[i + 1 - first] - 1 != c[i - first]:
+            for left, right in zip(c[:-1], c[1:]):
+                if right - 1 != left:
                     raise ValueError(
                         "".join(
                             [
                                 "Clusters  ",
-                                str(c[i]),
+                                str(left),
                                 " and ",
-                                str(c[i + 1]),
+                                str(right),
                                 " are not contiguous and/or increasing.",
                             ]
                         )
                     )
-                if self.clusters[i + 1, 0] - self.clusters[i, 1] != 1:
+                if self.clusters[right, 0] - self.clusters[left, 1] != 1:
                     raise ValueError(
                         "".join(
                             [
                                 "Clusters  ",
-                                str(c[i]),
+                                str(left),
                                 " and ",
-                                str(c[i + 1]),
+                                str(right),
                                 " have unclustered points between them.",
                             ]
                         )
                     )
 
-            # update cluster endpoints
+        # update cluster endpoints
+        for c in combine:
             self.clusters[c[0], 1] = self.clusters[c[-1], 1]
-        todelete = np.array([c[1:] for c in combine]).ravel()
+        todelete = np.array([i for c in combine for i in c[1:]], dtype=int)
         self.clusters = np.delete(self.clusters, todelete, 0)
 
     def find_adjacent_clusters(self):
@@ -433,6 +433,11 @@ class DataClusters:
             if right_idx > left_idx:
                 adj.append(range(left_idx, right_idx + 1))
             left_idx = right_idx + 1  # set for next possible left_idx
+        if len(set(len(a) for a in adj)) > 1:
+            # Groups of different size do not form a rectangular array.
+            ragged = np.empty(len(adj), dtype=object)
+            ragged[:] = [np.array(a) for a in adj]
+            return ragged
         return np.array(adj)
 
     def cut(self, idx):
-- 
2.43.0


From c8372916f24c0abb629106ba311b77981c8f01f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:47 +0000
Subject: [PATCH 03/80] fix: cluster_boundaries() returns (x, y) pairs, also at
 the first point

np.unique() without an axis flattened the pairs, and a cluster starting at the
first point averaged an empty slice to NaN.
---
 src/diffpy/srmise/dataclusters.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/diffpy/srmise/dataclusters.py b/src/diffpy/srmise/dataclusters.py
index 414b2e2..3f820ba 100644
--- a/src/diffpy/srmise/dataclusters.py
+++ b/src/diffpy/srmise/dataclusters.py
@@ -459,13 +459,14 @@ class DataClusters:
         """Return sequence with (x,y) of all cluster boundaries."""
         boundaries = []
         for cluster in self.clusters:
-            xlo = np.mean(self.x[cluster[0] - 1 : cluster[0] + 1])
-            ylo = np.mean(self.y[cluster[0] - 1 : cluster[0] + 1])
+            lo = max(cluster[0] - 1, 0)
+            xlo = np.mean(self.x[lo : cluster[0] + 1])
+            ylo = np.mean(self.y[lo : cluster[0] + 1])
             xhi = np.mean(self.x[cluster[1] : cluster[1] + 2])
             yhi = np.mean(self.y[cluster[1] : cluster[1] + 2])
             boundaries.append((xlo, ylo))
             boundaries.append((xhi, yhi))
-        return np.unique(boundaries)
+        return np.unique(boundaries, axis=0)
 
     def plot(self, *args, **kwds):
         """Plot the data with vertical lines at the cluster divisions.
-- 
2.43.0


From 6db438c8b3e68dd34267f725d084d08897d0117c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:10 +0000
Subject: [PATCH 04/80] fix: Polynomial jacobian follows the order of its
 parameters

pars[idx] is the coefficient of r^(degree-idx), but the derivative returned
for it was r^idx, so fits of any polynomial baseline of degree >= 1 used the
wrong gradient.
---
 src/diffpy/srmise/baselines/polynomial.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/diffpy/srmise/baselines/polynomial.py b/src/diffpy/srmise/baselines/polynomial.py
index df0f379..54d3c14 100644
--- a/src/diffpy/srmise/baselines/polynomial.py
+++ b/src/diffpy/srmise/baselines/polynomial.py
@@ -157,10 +157,10 @@ class Polynomial(BaselineFunction):
             return jacobian
 
         # The partial derivative with respect to the nth coefficient of a
-        # polynomial is just x^nth.
+        # polynomial is just x^nth.  Note pars[idx] = a_(degree-idx).
         for idx in range(self.npars):
             if free[idx]:
-                jacobian[idx] = np.power(r, idx)
+                jacobian[idx] = np.power(r, self.degree - idx)
         return jacobian
 
     def _transform_parametersraw(self, pars, in_format, out_format):
-- 
2.43.0


From ef0c05cdeea29a524b2a66c6fca2bd4ba987155e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:10 +0000
Subject: [PATCH 05/80] fix: NanoSpherical with negative scale or radius

A negative radius, documented as equivalent to its positive value, gave an
empty domain, and the derivative in scale used the sign of the radius.
---
 src/diffpy/srmise/baselines/nanospherical.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/diffpy/srmise/baselines/nanospherical.py b/src/diffpy/srmise/baselines/nanospherical.py
index c788b6b..0e2a02e 100644
--- a/src/diffpy/srmise/baselines/nanospherical.py
+++ b/src/diffpy/srmise/baselines/nanospherical.py
@@ -115,7 +115,7 @@ class NanoSpherical(BaselineFunction):
             return jacobian
 
         if np.isscalar(r):
-            if r <= 0.0 or r >= 2.0 * pars[1]:
+            if r <= 0.0 or r >= 2.0 * np.abs(pars[1]):
                 if free[0]:
                     jacobian[0] = 0.0
                 if free[1]:
@@ -152,13 +152,12 @@ class NanoSpherical(BaselineFunction):
         array-like
             The partial Jacobian of the nanoparticle baseline wrt scale without bounds checking.
         """
-        np.abs(pars[0])
         R = np.abs(pars[1])
         rdivR = r / R
         # From abs'(s) in derivative, which is equivalent to sign(s) except at 0 where it
         # is undefined. Since s=0 is equivalent to the absence of a nanoparticle, sign will
         # be fine.
-        sign = np.sign(pars[1])
+        sign = np.sign(pars[0])
         return -sign * r * (1 - (3.0 / 4.0) * rdivR + (1.0 / 16.0) * rdivR**3)
 
     def _jacobianrawradius(self, pars, r):
@@ -247,7 +246,7 @@ class NanoSpherical(BaselineFunction):
             emsg = "Argument pars must have " + str(self.npars) + " elements."
             raise ValueError(emsg)
         if np.isscalar(r):
-            if r <= 0.0 or r >= 2.0 * pars[1]:
+            if r <= 0.0 or r >= 2.0 * np.abs(pars[1]):
                 return 0.0
             else:
                 return self._valueraw2(pars, r)
@@ -296,7 +295,7 @@ class NanoSpherical(BaselineFunction):
             The slice object for which r > 0 and r < twice the radius
         """
         low = r.searchsorted(0.0, side="right")
-        high = r.searchsorted(2.0 * pars[1], side="left")
+        high = r.searchsorted(2.0 * np.abs(pars[1]), side="left")
         return slice(low, high)
 
     def getmodule(self):
-- 
2.43.0


From 582e7f57def070bae8cfa73d8128512e81347610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:20 +0000
Subject: [PATCH 06/80] fix: Arbitrary baseline parameter count and missing
 jacobian

Arbitrary(npars=n) declared n+1 parameters, and without a jacobian function
raised AttributeError instead of NotImplementedError, which fitting relies on
to fall back to a numerical derivative.
---
 src/diffpy/srmise/baselines/arbitrary.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/diffpy/srmise/baselines/arbitrary.py b/src/diffpy/srmise/baselines/arbitrary.py
index d0f8c99..5b656f2 100644
--- a/src/diffpy/srmise/baselines/arbitrary.py
+++ b/src/diffpy/srmise/baselines/arbitrary.py
@@ -68,7 +68,7 @@ class Arbitrary(BaselineFunction):
         # Define parameterdict
         # e.g. {"a_0":0, "a_1":1, "a_2":2, "a_3":3} if npars is 4.
         parameterdict = {}
-        for d in range(testnpars + 1):
+        for d in range(testnpars):
             parameterdict["a_" + str(d)] = d
         formats = ["internal"]
         default_formats = {
@@ -164,7 +164,7 @@ class Arbitrary(BaselineFunction):
         """
         nfree = None
         if self.jacobianf is None:
-            nfree = (pars is True).sum()
+            nfree = np.sum(free)
             if nfree != 0:
                 emsg = "No jacobian routine provided to Arbitrary."
                 raise NotImplementedError(emsg)
-- 
2.43.0


From 81538d4bd0d3cb8ac923bd250963a8f589eac18c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:46 +0000
Subject: [PATCH 07/80] fix: FromSequence file reading dropped the first
 character of the data

---
 src/diffpy/srmise/baselines/fromsequence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/baselines/fromsequence.py b/src/diffpy/srmise/baselines/fromsequence.py
index 6333977..e8f38c2 100644
--- a/src/diffpy/srmise/baselines/fromsequence.py
+++ b/src/diffpy/srmise/baselines/fromsequence.py
@@ -262,7 +262,7 @@ class FromSequence(BaselineFunction):
 
         res = re.search(rb"^[^#]", datastring, re.M)
         if res:
-            datastring = datastring[res.end() :].strip()
+            datastring = datastring[res.start() :].strip()
 
         x = []
         y = []
-- 
2.43.0


From a6ee850b35d2fe429f010bd39a7a15cd42591323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:46 +0000
Subject: [PATCH 08/80] fix: TerminationRipples evaluated at a single point

The scalar jacobian used an undefined variable, and the value over a sequence
of length one divided by zero.
---
 src/diffpy/srmise/peaks/terminationripples.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/diffpy/srmise/peaks/terminationripples.py b/src/diffpy/srmise/peaks/terminationripples.py
index 315e02a..b352cc5 100644
--- a/src/diffpy/srmise/peaks/terminationripples.py
+++ b/src/diffpy/srmise/peaks/terminationripples.py
@@ -255,7 +255,7 @@ class TerminationRipples(PeakFunction):
             dr = 2 * np.pi / (self.supersample * self.qmax)
             (ext_r, ext_slice) = self.extend_grid(np.array([r]), dr)
             jac = self._jacobianraw(peak.pars, ext_r, peak.free)
-            for idx in range(len(output)):
+            for idx in range(len(jac)):
                 if jac[idx] is not None:
                     jac[idx] = self.cut_freq(jac[idx], dr)[ext_slice][0]
             return jac
@@ -316,7 +316,11 @@ class TerminationRipples(PeakFunction):
             # of sampling needed to avoid the worst of these discretization
             # issues is difficult to determine without detailed knowledge
             # of the underlying function.
-            dr = (r[-1] - r[0]) / (len(r) - 1)
+            if len(r) > 1:
+                dr = (r[-1] - r[0]) / (len(r) - 1)
+            else:
+                # dr is ad hoc if r is a single point
+                dr = dr_super
             segments = int(np.ceil(dr / dr_super))
             dr_segmented = dr / segments
 
-- 
2.43.0


From 5634a552898941bc37adb33099e795262c482143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:46 +0000
Subject: [PATCH 09/80] fix: index one past the list of functions is an invalid
 reference

---
 src/diffpy/srmise/basefunction.py   | 2 +-
 src/diffpy/srmise/baselines/base.py | 2 +-
 src/diffpy/srmise/peaks/base.py     | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/diffpy/srmise/basefunction.py b/src/diffpy/srmise/basefunction.py
index 861a85d..dbb0328 100644
--- a/src/diffpy/srmise/basefunction.py
+++ b/src/diffpy/srmise/basefunction.py
@@ -487,7 +487,7 @@ class BaseFunction(object):
         # Correctly initialize the base function, if one exists.
         if pdict["base"] is not None:
             idx = pdict["base"]
-            if idx > len(baselist):
+            if idx >= len(baselist):
                 emsg = "Dependent base function not in baselist."
                 raise ValueError(emsg)
             pdict["base"] = baselist[idx]
diff --git a/src/diffpy/srmise/baselines/base.py b/src/diffpy/srmise/baselines/base.py
index fabf835..3ce3962 100644
--- a/src/diffpy/srmise/baselines/base.py
+++ b/src/diffpy/srmise/baselines/base.py
@@ -190,7 +190,7 @@ class Baseline(ModelPart):
 
         # Correctly initialize the base function, if one exists.
         idx = pdict["owner"]
-        if idx > len(ownerlist):
+        if idx >= len(ownerlist):
             emsg = "Dependent base function not in ownerlist."
             raise ValueError(emsg)
         pdict["owner"] = ownerlist[idx]
diff --git a/src/diffpy/srmise/peaks/base.py b/src/diffpy/srmise/peaks/base.py
index 7e57c10..40fb4e2 100644
--- a/src/diffpy/srmise/peaks/base.py
+++ b/src/diffpy/srmise/peaks/base.py
@@ -297,7 +297,7 @@ class Peak(ModelPart):
 
         # Correctly initialize the base function, if one exists.
         idx = pdict["owner"]
-        if idx > len(ownerlist):
+        if idx >= len(ownerlist):
             emsg = "Dependent base function not in ownerlist."
             raise ValueError(emsg)
         pdict["owner"] = ownerlist[idx]
-- 
2.43.0


From 7cb48c772ff65acdde492f9b320f1feee190369c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:56 +0000
Subject: [PATCH 10/80] fix: integer parameters of a model part are not
 truncated when updated

---
 src/diffpy/srmise/modelparts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/modelparts.py b/src/diffpy/srmise/modelparts.py
index d4d17ae..cae8a61 100644
--- a/src/diffpy/srmise/modelparts.py
+++ b/src/diffpy/srmise/modelparts.py
@@ -527,7 +527,7 @@ class ModelPart(object):
         if len(pars) != owner.npars:
             emsg = "The length of pars must equal the number of parameters " + "specified by the model part owner."
             raise ValueError(emsg)
-        self.pars = np.array(pars[:])  # pars[:] in case pars is a ModelPart
+        self.pars = np.array(pars[:], dtype=float)  # pars[:] in case pars is a ModelPart
 
         if free is None:
             self.free = np.array([True for p in pars], dtype=bool)
-- 
2.43.0


From 097e00bd6a505960c82cdd9f807b8d128c61b3d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:56 +0000
Subject: [PATCH 11/80] fix: fit over part of the data counts only the points
 in that range

---
 src/diffpy/srmise/modelparts.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/diffpy/srmise/modelparts.py b/src/diffpy/srmise/modelparts.py
index cae8a61..f47fb98 100644
--- a/src/diffpy/srmise/modelparts.py
+++ b/src/diffpy/srmise/modelparts.py
@@ -94,13 +94,17 @@ class ModelParts(list):
         -------
         None
         """
+        if range is None:
+            range = slice(None)
+        npoints = len(r[range])  # number of points actually fit
+
         freepars = self.unpack_freepars()
-        if len(freepars) >= len(r):
+        if len(freepars) >= npoints:
             emsg = (
                 "Cannot fit model with "
                 + str(len(freepars))
-                + " free parametersbut only "
-                + str(len(r))
+                + " free parameters but only "
+                + str(npoints)
                 + " data points."
             )
             raise SrMiseFitError(emsg)
@@ -109,9 +113,6 @@ class ModelParts(list):
             # raise SrMiseFitError(emsg)
             return
 
-        if range is None:
-            range = slice(None)
-
         args = (r, y, y_error, range)
 
         if srmiselog.liveplots:
@@ -210,7 +211,7 @@ class ModelParts(list):
         if cov is not None:
             pcov = f[1]
             fvec = f[2]["fvec"]
-            dof = len(r) - len(freepars)
+            dof = npoints - len(freepars)
             cov.setcovariance(self, pcov * np.sum(fvec**2) / dof)
             try:
                 cov.transform(in_format="internal", out_format=cov_format)
@@ -369,6 +370,8 @@ class ModelParts(list):
         """Return array of all free parameters."""
         # To check: ravel() sometimes returns a reference and othertimes a copy.
         #          Do I need to use flatten() instead?
+        if len(self) == 0:
+            return np.array([])
         return np.concatenate([p.compress() for p in self]).ravel()
 
     def covariance(self, format="internal", **kwds):
-- 
2.43.0


From 3b2936ae3b18a97c69b02160b682445313d78f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:56 +0000
Subject: [PATCH 12/80] fix: covariance transformation of the baseline part and
 of coupled parameters

---
 src/diffpy/srmise/modelcluster.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/diffpy/srmise/modelcluster.py b/src/diffpy/srmise/modelcluster.py
index c1a64c5..bd61a3c 100644
--- a/src/diffpy/srmise/modelcluster.py
+++ b/src/diffpy/srmise/modelcluster.py
@@ -92,7 +92,7 @@ class ModelCovariance(object):
         """
         tempcov = np.array(cov)
 
-        if tempcov.shape[0] != tempcov.shape[1]:
+        if tempcov.ndim != 2 or tempcov.shape[0] != tempcov.shape[1]:
             emsg = "Parameter 'cov' must be a square matrix."
             raise ValueError(emsg)
 
@@ -104,6 +104,7 @@ class ModelCovariance(object):
             ]
             raise ValueError("".join(emsg))
 
+        self.clear()
         self.model = model.copy()
 
         # The free/fixed status of every parameter in the model
@@ -173,13 +174,13 @@ class ModelCovariance(object):
             if kwds["parts"] == "peaks":
                 parts = range(len(self.model) - 1)
             elif kwds["parts"] == "baseline":
-                parts = [-1]
+                parts = [len(self.model) - 1]
             else:
                 parts = kwds["parts"]
         else:
             parts = range(len(self.model))
 
-        # Calculate V_y = G Transpose(V_x) G
+        # Calculate V_y = G V_x Transpose(G)
         # where V_y is the covariance matrix in terms of the parameterization y,
         # V_x is the current covariance matrix, and G is the gradient matrix of
         # the variable transformation x->y.  That is, G_ij = dy_i/dx_j.
@@ -223,7 +224,7 @@ class ModelCovariance(object):
             g[start:stop, start:stop] = subg
 
         g = np.matrix(g)
-        self.cov = np.array(g * np.matrix(self.cov).transpose() * g)
+        self.cov = np.array(g * np.matrix(self.cov) * g.transpose())
 
         return
 
-- 
2.43.0


From 0fc2f3bd7b2350a2310a635a0d23d004abfd8369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:13 +0000
Subject: [PATCH 13/80] fix: a singular fit leaves the covariance undefined
 instead of failing

---
 src/diffpy/srmise/modelparts.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/modelparts.py b/src/diffpy/srmise/modelparts.py
index f47fb98..ab7dfeb 100644
--- a/src/diffpy/srmise/modelparts.py
+++ b/src/diffpy/srmise/modelparts.py
@@ -212,8 +212,12 @@ class ModelParts(list):
             pcov = f[1]
             fvec = f[2]["fvec"]
             dof = npoints - len(freepars)
-            cov.setcovariance(self, pcov * np.sum(fvec**2) / dof)
             try:
+                if pcov is None:
+                    # singular matrix encountered
+                    cov.clear()
+                else:
+                    cov.setcovariance(self, pcov * np.sum(fvec**2) / dof)
                 cov.transform(in_format="internal", out_format=cov_format)
             except SrMiseUndefinedCovarianceError:
                 logger.warning("Covariance not defined.  Fit may not have converged.")
-- 
2.43.0


From a51607c4573f89e55c7ce9d351a8cbe90c5d4ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:12 +0000
Subject: [PATCH 14/80] fix: peaks which cannot be scaled are left unchanged by
 match_at()

---
 src/diffpy/srmise/peaks/base.py          | 6 +++---
 src/diffpy/srmise/peaks/gaussian.py      | 3 +++
 src/diffpy/srmise/peaks/gaussianoverr.py | 6 +++++-
 3 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/diffpy/srmise/peaks/base.py b/src/diffpy/srmise/peaks/base.py
index 40fb4e2..2fc8a9d 100644
--- a/src/diffpy/srmise/peaks/base.py
+++ b/src/diffpy/srmise/peaks/base.py
@@ -188,10 +188,10 @@ class Peaks(ModelParts):
 
             # Second attempt at scaling peaks.
             if not all_scaled and fixed_height < y and fixed_height < height:
-                self[:] = orig[:]
+                self[:] = orig.copy()
                 any_scaled = False
                 scale = (y - fixed_height) / (height - fixed_height)
-                for peak, s in (self, scaled):
+                for peak, s in zip(self, scaled):
                     if s:
                         # "or" is short-circuited, so scale_at() must be first
                         # to guarantee it is called.
@@ -260,7 +260,7 @@ class Peak(ModelPart):
         try:
             adj_pars = self._owner.scale_at(self.pars, x, scale)
         except SrMiseScalingError as err:
-            logger.debug("Cannot scale peak:", err)
+            logger.debug("Cannot scale peak: %s", err)
             return False
 
         # Check if a fixed parameter was changed.
diff --git a/src/diffpy/srmise/peaks/gaussian.py b/src/diffpy/srmise/peaks/gaussian.py
index 2c9b713..9b19305 100644
--- a/src/diffpy/srmise/peaks/gaussian.py
+++ b/src/diffpy/srmise/peaks/gaussian.py
@@ -227,6 +227,9 @@ class Gaussian(PeakFunction):
 
         # the semi-nasty algebra reduces to something nice
         mu2 = mu1
+        if x == mu1 or not 2 * np.log(ratio) * sigma1**2 / (x - mu1) ** 2 + 1 > 0:
+            emsg = "".join(["Cannot scale by ", str(scale), "."])
+            raise SrMiseScalingError(emsg)
         area2 = np.sqrt(area1**2 / (2 * np.log(ratio) * sigma1**2 / (x - mu1) ** 2 + 1))
         sigma2 = sigma1 * area2 / area1
 
diff --git a/src/diffpy/srmise/peaks/gaussianoverr.py b/src/diffpy/srmise/peaks/gaussianoverr.py
index c47191a..d491b3b 100644
--- a/src/diffpy/srmise/peaks/gaussianoverr.py
+++ b/src/diffpy/srmise/peaks/gaussianoverr.py
@@ -235,7 +235,11 @@ class GaussianOverR(PeakFunction):
         log_ratio_prime = np.log(ratio) + (x - rmax) * (x - 2 * mu1 + rmax) / (2 * sigma1**2)
 
         # the semi-nasty algebra reduces to something nice
-        sigma2 = np.sqrt(0.5 * rmax * (x - rmax) ** 2 / (x - rmax + rmax * log_ratio_prime))
+        sigma2sq = 0.5 * rmax * (x - rmax) ** 2 / (x - rmax + rmax * log_ratio_prime)
+        if not sigma2sq > 0:
+            emsg = "".join(["Cannot scale by ", str(scale), "."])
+            raise SrMiseScalingError(emsg)
+        sigma2 = np.sqrt(sigma2sq)
         mu2 = (sigma2**2 + rmax**2) / rmax
         area2 = (
             area1
-- 
2.43.0


From 67aee7c92831cee8d3bf6bfa5aa9db684c21cdb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:12 +0000
Subject: [PATCH 15/80] fix: prune() keeps the model whose quality was
 evaluated

---
 src/diffpy/srmise/modelcluster.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/modelcluster.py b/src/diffpy/srmise/modelcluster.py
index bd61a3c..96dfc06 100644
--- a/src/diffpy/srmise/modelcluster.py
+++ b/src/diffpy/srmise/modelcluster.py
@@ -1530,6 +1530,10 @@ class ModelCluster(object):
                 else:
                     check_models.append(None)
 
+            # cleanfit() may have removed every other removable peak
+            if check_models.count(None) == len(check_models):
+                break
+
             # Check the ith model
             # Use orig_model for initial parameters of each fit, but best_model for the parameters
             # of those peaks not being fit.  This means we are always fitting to the best y data
@@ -1551,7 +1555,11 @@ class ModelCluster(object):
                     ]
                     logger.debug("\n".join(msg), len(check_models), len(best_model), i)
 
-                    addpars = best_model.npars() - check_models[i].npars() - best_model[i].npars(count_fixed=False)
+                    addpars = (
+                        best_model.npars(count_fixed=False)
+                        - check_models[i].npars(count_fixed=False)
+                        - best_model[i].npars(count_fixed=False)
+                    )
 
                     # Remove contribution of (effectively) fixed peaks
                     y = np.array(y_nobl)
@@ -1576,6 +1584,8 @@ class ModelCluster(object):
                     logger.debug("\n".join(msg), i, best_model[i], prune_mc.model)
 
                     prune_mc.fit(ntrials=int(np.sqrt(len(y)) + 50), estimate=False)
+                    # fit() may have restored a copy of the initial model
+                    check_models[i] = prune_mc.model
 
                     qual = prune_mc.quality(kshift=addpars)
                     check_qual = np.append(check_qual, qual)
-- 
2.43.0


From d36674e0c918e5c659432794575608fd4df3973f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:12 +0000
Subject: [PATCH 16/80] fix: augment() keeps the model whose quality was
 evaluated

---
 src/diffpy/srmise/modelcluster.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/diffpy/srmise/modelcluster.py b/src/diffpy/srmise/modelcluster.py
index 96dfc06..9a513ca 100644
--- a/src/diffpy/srmise/modelcluster.py
+++ b/src/diffpy/srmise/modelcluster.py
@@ -1426,6 +1426,8 @@ class ModelCluster(object):
             for i in range(len(test_models)):
                 self.model = test_models[i]
                 self.fit()
+                # fit() may have restored a copy of the initial model
+                test_models[i] = self.model
                 test_quals[i] = self.quality()
 
             args = test_quals.argsort()
@@ -1435,11 +1437,12 @@ class ModelCluster(object):
                 del source_model[args[-1]]
             else:
                 break  # Best possible model has been found.
-        self.replacepeaks(best_model, slice(len(self.model)))
+        self.model = best_model
+        self.model.sort(key="position")
 
         # TODO: Do I need this? If test_model contains peaks
         # by reference, the fit peaks will change as well.
-        self.fit()
+        self.fit(estimate=False)
         msg = [
             "Best model after fit is:",
             "%s",
-- 
2.43.0


From cdc98bacae92edf6a1db65a9a8371d33c1c6cd49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:12 +0000
Subject: [PATCH 17/80] fix: a stored trace does not change as extraction
 continues

---
 src/diffpy/srmise/modelcluster.py | 3 ++-
 src/diffpy/srmise/srmiselog.py    | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/diffpy/srmise/modelcluster.py b/src/diffpy/srmise/modelcluster.py
index 9a513ca..f1ad043 100644
--- a/src/diffpy/srmise/modelcluster.py
+++ b/src/diffpy/srmise/modelcluster.py
@@ -528,7 +528,8 @@ class ModelCluster(object):
         None
         """
         self.replacepeaks(peaks)
-        self.y_data += peaks.value(self.r_data)
+        # y_data may be shared with other clusters
+        self.y_data = self.y_data + peaks.value(self.r_data)
         self.y_cluster = self.y_data[self.slice]
 
     def writestr(self, **kwds):
diff --git a/src/diffpy/srmise/srmiselog.py b/src/diffpy/srmise/srmiselog.py
index d5fcd6f..4e31f8b 100644
--- a/src/diffpy/srmise/srmiselog.py
+++ b/src/diffpy/srmise/srmiselog.py
@@ -205,7 +205,7 @@ class TracePeaks(object):
         for m in args:
             clusters.append(m.slice)
         for m in args[1:]:
-            mc.replacepeaks(m.model)
+            mc.replacepeaks(m.model.copy())
         return {
             "mc": mc,
             "clusters": clusters,
-- 
2.43.0


From 066543c58080a6ca16a100acf38a5dfe3d78b82b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:12 +0000
Subject: [PATCH 18/80] fix: join_adjacent() removes out of order peaks on the
 wrong side of the border

---
 src/diffpy/srmise/modelcluster.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/modelcluster.py b/src/diffpy/srmise/modelcluster.py
index f1ad043..deeb2e9 100644
--- a/src/diffpy/srmise/modelcluster.py
+++ b/src/diffpy/srmise/modelcluster.py
@@ -852,10 +852,12 @@ class ModelCluster(object):
             # border_x are removed.  The highly unlikely case of two peaks
             # exactly at the border is also handled.
             for i in reversed(range(len(new_model))):
+                if not new_model[i].removable:
+                    continue
                 if new_model[i]["position"] == border_x and i > 0 and new_model[i - 1]["position"] == border_x:
                     del new_model[i]
                 elif new_ids[i] != i:
-                    if (new_model[i]["position"] > border_x and new_ids[i] < len(left.model)) and (
+                    if (new_model[i]["position"] > border_x and new_ids[i] < len(left.model)) or (
                         new_model[i]["position"] < border_x and new_ids[i] >= len(left.model)
                     ):
                         del new_model[i]
-- 
2.43.0


From bd77b7dae805b1e5e8793e6b5a46b1f24794a9c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:12 +0000
Subject: [PATCH 19/80] fix: writing a ModelCluster without a baseline

---
 src/diffpy/srmise/modelcluster.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/modelcluster.py b/src/diffpy/srmise/modelcluster.py
index deeb2e9..6adb57b 100644
--- a/src/diffpy/srmise/modelcluster.py
+++ b/src/diffpy/srmise/modelcluster.py
@@ -556,7 +556,9 @@ class ModelCluster(object):
             blfbaselist = kwds["blfbaselist"]
             writeblf = False
         else:
-            blfbaselist = BaseFunction.safefunctionlist([self.baseline.owner()])
+            blfbaselist = []
+            if self.baseline is not None:
+                blfbaselist = BaseFunction.safefunctionlist([self.baseline.owner()])
             writeblf = True
 
         lines = []
-- 
2.43.0


From 9be3f99d25799c49d9e5028d1cb25c06412b3452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:12 +0000
Subject: [PATCH 20/80] fix: extraction does not change the initial peaks and
 baseline it was given

---
 src/diffpy/srmise/peakextraction.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/diffpy/srmise/peakextraction.py b/src/diffpy/srmise/peakextraction.py
index 48e3419..b7a4c14 100644
--- a/src/diffpy/srmise/peakextraction.py
+++ b/src/diffpy/srmise/peakextraction.py
@@ -832,7 +832,7 @@ class PeakExtraction(object):
 
         # Make sure all required extraction variables have some value
         self.defaultvars()
-        bl = self.baseline
+        bl = self.baseline.copy()
 
         # Copy initial_peaks
         # While it would be nice to integrate them into extracted model naturally
@@ -1382,8 +1382,8 @@ class PeakExtraction(object):
 
         # Set up ModelCluster
         ext = ModelCluster(
-            self.initial_peaks,
-            self.baseline,
+            self.initial_peaks.copy(),
+            self.baseline.copy(),
             x,
             y,
             dy,
-- 
2.43.0


From a2c045f3921a1d79c553a12d079e7c3faa17b80a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:16 +0000
Subject: [PATCH 21/80] fix: a partially defined range is completed in a copy
 of the given sequence

---
 src/diffpy/srmise/peakextraction.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/diffpy/srmise/peakextraction.py b/src/diffpy/srmise/peakextraction.py
index b7a4c14..1428807 100644
--- a/src/diffpy/srmise/peakextraction.py
+++ b/src/diffpy/srmise/peakextraction.py
@@ -222,6 +222,7 @@ class PeakExtraction(object):
         if self.rng is None or "rng" in args:
             self.rng = [self.x[0], self.x[-1]]
         else:
+            self.rng = list(self.rng)
             if self.rng[0] is None:
                 self.rng[0] = self.x[0]
             if self.rng[1] is None:
-- 
2.43.0


From c5ca3287821cdcd50657da5609cc8edf3235cdd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:06 +0000
Subject: [PATCH 22/80] fix: saved peak extractions can be read

---
 src/diffpy/srmise/modelcluster.py             |  5 ++-
 src/diffpy/srmise/modelevaluators/__init__.py |  5 +++
 src/diffpy/srmise/peakextraction.py           | 31 ++++++++++++-------
 3 files changed, 29 insertions(+), 12 deletions(-)

diff --git a/src/diffpy/srmise/modelcluster.py b/src/diffpy/srmise/modelcluster.py
index 6adb57b..fe1af52 100644
--- a/src/diffpy/srmise/modelcluster.py
+++ b/src/diffpy/srmise/modelcluster.py
@@ -718,7 +718,10 @@ class ModelCluster(object):
         res = re.search(r"^ModelEvaluator=(.*)$", header, re.M)
         __import__("diffpy.srmise.modelevaluators")
         module = sys.modules["diffpy.srmise.modelevaluators"]
-        error_method = getattr(module, res.groups()[0].strip())
+        if res.groups()[0].strip() == "None":
+            error_method = None
+        else:
+            error_method = getattr(module, res.groups()[0].strip())
 
         # slice
         res = re.search(r"^slice=(.*)$", header, re.M)
diff --git a/src/diffpy/srmise/modelevaluators/__init__.py b/src/diffpy/srmise/modelevaluators/__init__.py
index 0efb8dc..c82f934 100644
--- a/src/diffpy/srmise/modelevaluators/__init__.py
+++ b/src/diffpy/srmise/modelevaluators/__init__.py
@@ -13,3 +13,8 @@
 ##############################################################################
 
 # __init__.py file for modelevalutors module
+
+from diffpy.srmise.modelevaluators.aic import AIC
+from diffpy.srmise.modelevaluators.aicc import AICc
+
+__all__ = ["AIC", "AICc"]
diff --git a/src/diffpy/srmise/peakextraction.py b/src/diffpy/srmise/peakextraction.py
index 1428807..4894246 100644
--- a/src/diffpy/srmise/peakextraction.py
+++ b/src/diffpy/srmise/peakextraction.py
@@ -317,7 +317,8 @@ class PeakExtraction(object):
         self
         """
         try:
-            self.readstr(open(filename, "rb").read())
+            with open(filename, "r") as f:
+                self.readstr(f.read())
         except SrMiseDataFormatError as err:
             logger.exception("")
             basename = os.path.basename(filename)
@@ -360,6 +361,9 @@ class PeakExtraction(object):
         if res:
             results = datastring[res.end() :].strip()
             header = datastring[: res.start()]
+        else:
+            emsg = "Required section 'Results' not found."
+            raise SrMiseDataFormatError(emsg)
 
         # find data section, and what information it contains
         res = re.search(r"^#+ start data\s*(?:#.*\s+)*", header, re.M)
@@ -387,7 +391,7 @@ class PeakExtraction(object):
         res = re.search(r"\bdy\b", start_data_info)
         if res:
             hasdy = True
-        res = re.search(r"\edy\b", start_data_info)
+        res = re.search(r"\bedy\b", start_data_info)
         if res:
             hasedy = True
 
@@ -457,16 +461,17 @@ class PeakExtraction(object):
             self.pf = [safepf[i] for i in self.pf]
 
         # cres
-        rx = {"f": r"[-+]?(\d+(\.\d*)?|\d*\.\d+)([eE][-+]?\d+)?"}
-        regexp = r"\bcres *= *(%(f)s)\b" % rx
-        res = re.search(regexp, srmisemetadata, re.I)
-        self.cres = float(res.groups()[0])
+        res = re.search(r"^cres=(.*)$", srmisemetadata, re.M)
+        self.cres = eval(res.groups()[0].strip())
 
         # error_method
         res = re.search(r"^ModelEvaluator=(.*)$", srmisemetadata, re.M)
         __import__("diffpy.srmise.modelevaluators")
         module = sys.modules["diffpy.srmise.modelevaluators"]
-        self.error_method = getattr(module, res.groups()[0].strip())
+        if res.groups()[0].strip() == "None":
+            self.error_method = None
+        else:
+            self.error_method = getattr(module, res.groups()[0].strip())
 
         # range
         res = re.search(r"^Range=(.*)$", srmisemetadata, re.M)
@@ -509,6 +514,7 @@ class PeakExtraction(object):
                 split_line = line.split()
                 if len(arrays) != len(split_line):
                     emsg = "Number of value fields does not match that given by '%s'" % start_data_info
+                    raise IndexError(emsg)
                 for a, v in zip(arrays, line.split()):
                     a.append(float(v))
         except (ValueError, IndexError) as err:
@@ -646,7 +652,10 @@ class PeakExtraction(object):
             lines.append("pf=%s" % repr([safepf.index(p) for p in self.pf]))
 
         # Clustering resolution
-        lines.append("cres=%g" % self.cres)
+        if self.cres is None:
+            lines.append("cres=None")
+        else:
+            lines.append("cres=%g" % self.cres)
         # Model evaluator
         if self.error_method is None:
             lines.append("ModelEvaluator=None")
@@ -708,10 +717,10 @@ class PeakExtraction(object):
 
     def writemetadata(self):
         """Return string for metadata not defined by srmise class."""
-        return
+        return ""
 
-    def readmetadata(self):
-        """Return string for metadata not defined by srmise class."""
+    def readmetadata(self, metastr):
+        """Read metadata not defined by srmise class from string."""
         return
 
     def writesummary(self):
-- 
2.43.0


From 428ba24b88476a32a11d0c55c4b7048bad667877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:31 +0000
Subject: [PATCH 23/80] fix: saved traces can be read

---
 src/diffpy/srmise/srmiselog.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/diffpy/srmise/srmiselog.py b/src/diffpy/srmise/srmiselog.py
index 4e31f8b..7fa3c7d 100644
--- a/src/diffpy/srmise/srmiselog.py
+++ b/src/diffpy/srmise/srmiselog.py
@@ -42,6 +42,8 @@ import logging
 import os.path
 import re
 
+import numpy as np  # noqa: F401 (needed to evaluate saved slices)
+
 from diffpy.srmise.srmiseerrors import SrMiseDataFormatError, SrMiseFileError, SrMiseLogError
 
 # Default settings ###
@@ -247,7 +249,8 @@ class TracePeaks(object):
         "recursion" - The recursion level of mc
         """
         try:
-            return self.readstr(open(filename, "rb").read())
+            with open(filename, "r") as f:
+                return self.readstr(f.read())
         except SrMiseDataFormatError as err:
             logger.exception("")
             basename = os.path.basename(filename)
@@ -296,14 +299,14 @@ class TracePeaks(object):
 
         res = re.search(r"^recursion=(.*)$", header, re.M)
         if res:
-            eval(res.groups()[0].strip())
+            recursion = eval(res.groups()[0].strip())
         else:
             emsg = "Required field 'recursion' not found."
             raise SrMiseDataFormatError(emsg)
 
         res = re.search(r"^counter=(.*)$", header, re.M)
         if res:
-            eval(res.groups()[0].strip())
+            counter = eval(res.groups()[0].strip())
         else:
             emsg = "Required field 'counter' not found."
             raise SrMiseDataFormatError(emsg)
@@ -311,8 +314,8 @@ class TracePeaks(object):
         return {
             "mc": mc,
             "clusters": clusters,
-            "recursion": self.recursion,
-            "counter": self.counter,
+            "recursion": recursion,
+            "counter": counter,
         }
 
     def pushr(self):
-- 
2.43.0


From 518460cb85d6641a977cefa8e4cc97f2347c615a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:32 +0000
Subject: [PATCH 24/80] fix: load peak stability results with a baseline
 function

---
 src/diffpy/srmise/peakstability.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/peakstability.py b/src/diffpy/srmise/peakstability.py
index 77e3928..4e902ae 100644
--- a/src/diffpy/srmise/peakstability.py
+++ b/src/diffpy/srmise/peakstability.py
@@ -60,7 +60,7 @@ class PeakStability:
                 if r[2] is not None:
                     kwds = r[2]
                     if hasattr(bl, "estimate_parameters"):
-                        r[2] = bl.actualize(default_input="internal", **kwds)
+                        r[2] = bl.actualize(in_format="internal", **kwds)
                     else:
                         r[2] = bl.owner().actualize(in_format="internal", **kwds)
         finally:
-- 
2.43.0


From fcc13389ede9fc5fff8e5e7d2872baa08e24e551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:32 +0000
Subject: [PATCH 25/80] fix: multimodel selection queries and reloading of AICs

---
 src/diffpy/srmise/multimodelselection.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/diffpy/srmise/multimodelselection.py b/src/diffpy/srmise/multimodelselection.py
index 91cd34c..9c6b8c6 100644
--- a/src/diffpy/srmise/multimodelselection.py
+++ b/src/diffpy/srmise/multimodelselection.py
@@ -81,6 +81,8 @@ class MultimodelSelection(PeakStability):
         """
         aics_out = {}  # Version of self.aics that holds only the statistic, not the AIC object.
         self.dgs = np.array(dgs)
+        self.dgs_idx = {}
+        self.aics = {}
         for i, dg in enumerate(self.dgs):
             self.dgs_idx[dg] = i
             self.aics[dg] = []
@@ -163,7 +165,8 @@ class MultimodelSelection(PeakStability):
         em = self.ppe.error_method
 
         self.aics = aics_in
-        self.dgs = np.sort(aics_in.keys())
+        self.dgs = np.sort(list(aics_in.keys()))
+        self.dgs_idx = {}
 
         for i, dg in enumerate(self.dgs):
             self.dgs_idx[dg] = i
@@ -544,7 +547,7 @@ class MultimodelSelection(PeakStability):
         if dgs is None:
             dgs = self.dgs
         bestdgs = []
-        for dg in self.dgs:
+        for dg in dgs:
             if self.sortedclassprobs[dg][-1] == cls:
                 bestdgs.append(dg)
         return bestdgs
@@ -918,7 +921,7 @@ class MultimodelSelection(PeakStability):
         fdict = {
             "aic": self.get_aic,
             "class": self.get_class,
-            "dg": lambda x: x,
+            "dG": lambda x, **kwds: x,
             "model": self.get_model,
             "nfree": self.get_nfree,
             "prob": self.get_prob,
-- 
2.43.0


From c2cb8847dfb5798c902440d5c1c73c8db95193ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:32 +0000
Subject: [PATCH 26/80] fix: copying a PDF dataset keeps its spdiameter

---
 src/diffpy/srmise/pdfdataset.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/diffpy/srmise/pdfdataset.py b/src/diffpy/srmise/pdfdataset.py
index 3965fe3..ba0dd65 100644
--- a/src/diffpy/srmise/pdfdataset.py
+++ b/src/diffpy/srmise/pdfdataset.py
@@ -438,6 +438,7 @@ class PDFDataSet(PDFComponent):
             "qmax",
             "qdamp",
             "qbroad",
+            "spdiameter",
             "dscale",
             "rmin",
             "rmax",
-- 
2.43.0


From b1d4a8804f848815dac53aaad5333d729bc44497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:32 +0000
Subject: [PATCH 27/80] fix: keywords of PeakExtraction.plot()

---
 src/diffpy/srmise/peakextraction.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/diffpy/srmise/peakextraction.py b/src/diffpy/srmise/peakextraction.py
index 4894246..dd214df 100644
--- a/src/diffpy/srmise/peakextraction.py
+++ b/src/diffpy/srmise/peakextraction.py
@@ -282,7 +282,7 @@ class PeakExtraction(object):
         """
         plt.clf()
         if self.extracted is not None:
-            plt.plot(*self.extracted.plottable(kwds))
+            plt.plot(*self.extracted.plottable(**kwds))
         else:
 
             # Make sure all required extraction variables have some value
@@ -302,7 +302,7 @@ class PeakExtraction(object):
                 self.error_method,
                 self.pf,
             )
-            plt.plot(*mcluster.plottable(kwds))
+            plt.plot(*mcluster.plottable(**kwds))
 
     def read(self, filename):
         """Load PeakExtraction object from file.
-- 
2.43.0


From fca5b314c4987e8d17423c49ba3063b2bd953647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:37 +0000
Subject: [PATCH 28/80] fix: --pf and --me options of srmise could never be
 used

---
 src/diffpy/srmise/applications/extract.py | 33 +++++++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/src/diffpy/srmise/applications/extract.py b/src/diffpy/srmise/applications/extract.py
index 3dd4eaa..ac7d49a 100755
--- a/src/diffpy/srmise/applications/extract.py
+++ b/src/diffpy/srmise/applications/extract.py
@@ -33,6 +33,27 @@ def _baseline_namespace():
     }
 
 
+def _peak_namespace():
+    """Return the peak functions supported by the CLI."""
+    from diffpy.srmise.peaks.gaussian import Gaussian
+    from diffpy.srmise.peaks.gaussianoverr import GaussianOverR
+    from diffpy.srmise.peaks.terminationripples import TerminationRipples
+
+    return {
+        "Gaussian": Gaussian,
+        "GaussianOverR": GaussianOverR,
+        "TerminationRipples": TerminationRipples,
+    }
+
+
+def _modelevaluator_namespace():
+    """Return the model evaluators supported by the CLI."""
+    from diffpy.srmise.modelevaluators.aic import AIC
+    from diffpy.srmise.modelevaluators.aicc import AICc
+
+    return {"AIC": AIC, "AICc": AICc}
+
+
 def main():
     """Default SrMise entry-point."""
     usage = (
@@ -447,7 +468,11 @@ def main():
 
     if options.peakfunction:
         try:
-            options.peakfunction = eval("peaks." + options.peakfunction)
+            options.peakfunction = eval(
+                options.peakfunction,
+                {"__builtins__": {}},
+                _peak_namespace(),
+            )
         except Exception as err:
             print(err)
             print(
@@ -463,7 +488,11 @@ def main():
 
     if options.modelevaluator:
         try:
-            options.modelevaluator = eval("modelevaluators." + options.modelevaluator)
+            options.modelevaluator = eval(
+                options.modelevaluator,
+                {"__builtins__": {}},
+                _modelevaluator_namespace(),
+            )
         except Exception as err:
             print(err)
             print(
-- 
2.43.0


From 7b930d9098c1f93a282d16c2fdfe6729f86848ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:37 +0000
Subject: [PATCH 29/80] fix: --bseq, --no-nyquist and --no-scale options of
 srmise were ignored

---
 src/diffpy/srmise/applications/extract.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/diffpy/srmise/applications/extract.py b/src/diffpy/srmise/applications/extract.py
index ac7d49a..219bfba 100755
--- a/src/diffpy/srmise/applications/extract.py
+++ b/src/diffpy/srmise/applications/extract.py
@@ -573,7 +573,7 @@ def main():
         pdict = {}
         if options.peakfunction:
             pdict["pf"] = [options.peakfunction]
-        if options.baseline:
+        if options.baseline is not None:
             pdict["baseline"] = options.baseline
         if options.cres:
             pdict["cres"] = options.cres
@@ -598,11 +598,11 @@ def main():
             pdict["rng"] = list(options.rng)
         if options.qmax:
             pdict["qmax"] = options.qmax if options.qmax == "automatic" else float(options.qmax)
-        if options.nyquist:
+        if options.nyquist is not None:
             pdict["nyquist"] = options.nyquist
         if options.supersample:
             pdict["supersample"] = options.supersample
-        if options.scale:
+        if options.scale is not None:
             pdict["scale"] = options.scale
         if options.modelevaluator:
             pdict["error_method"] = options.modelevaluator
-- 
2.43.0


From e55a69b992ed0d10b3ab5dabbbe14326e885c361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:37 +0000
Subject: [PATCH 30/80] fix: srmise uncertainty modes when the PDF reports
 none, and with ptp-fraction

---
 src/diffpy/srmise/applications/extract.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/diffpy/srmise/applications/extract.py b/src/diffpy/srmise/applications/extract.py
index 219bfba..705c30d 100755
--- a/src/diffpy/srmise/applications/extract.py
+++ b/src/diffpy/srmise/applications/extract.py
@@ -580,7 +580,7 @@ def main():
         if options.dg_mode is None:
             if options.dg:
                 options.dg_mode = "absolute"
-            elif ext.dy is None:
+            elif ext.dy is None or not np.all(ext.dy > 0):
                 options.dg_mode = "max-fraction"
             else:
                 options.dg_mode = "dG-fraction"
@@ -591,7 +591,7 @@ def main():
         elif options.dg_mode == "max-fraction":
             pdict["effective_dy"] = options.dg * ext.y.max() * np.ones(len(ext.x))
         elif options.dg_mode == "ptp-fraction":
-            pdict["effective_dy"] = options.dg * ext.y.ptp() * np.ones(len(ext.y))
+            pdict["effective_dy"] = options.dg * np.ptp(ext.y) * np.ones(len(ext.y))
         elif options.dg_mode == "dG-fraction":
             pdict["effective_dy"] = options.dg * ext.dy
         if options.rng:
-- 
2.43.0


From dcfba934e4400e0c179b1ccfa95aa2f17ae08d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:32 +0000
Subject: [PATCH 31/80] fix: srmise comparison file of plot application is text
 and its first distance is kept

---
 src/diffpy/srmise/applications/plot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/diffpy/srmise/applications/plot.py b/src/diffpy/srmise/applications/plot.py
index b4d28c0..dfa446e 100755
--- a/src/diffpy/srmise/applications/plot.py
+++ b/src/diffpy/srmise/applications/plot.py
@@ -560,7 +560,7 @@ def readcompare(filename):
     """
     # TODO: Make this safer
     try:
-        datastring = open(filename, "rb").read()
+        datastring = open(filename, "r").read()
     except Exception as err:
         raise err
 
@@ -568,7 +568,7 @@ def readcompare(filename):
 
     res = re.search(r"^[^#]", datastring, re.M)
     if res:
-        datastring = datastring[res.end() :].strip()
+        datastring = datastring[res.start() :].strip()
 
     distances = []
 
-- 
2.43.0


From 60ec16721849868463eea3ef1f473b064653cd5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:46 +0000
Subject: [PATCH 32/80] fix: too few free parameters are refused instead of
 broadcast

---
 src/diffpy/srmise/modelparts.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/diffpy/srmise/modelparts.py b/src/diffpy/srmise/modelparts.py
index ab7dfeb..f153b85 100644
--- a/src/diffpy/srmise/modelparts.py
+++ b/src/diffpy/srmise/modelparts.py
@@ -629,8 +629,8 @@ class ModelPart(object):
         """
         numfree = self.npars(count_fixed=False)
         if len(freepars) < numfree:
-            pass  # raise "freepars does not have enough elements to
-            # update every unheld parameter."
+            emsg = "Argument freepars does not have enough elements to update every free parameter."
+            raise ValueError(emsg)
         # TODO: Check if I need to make copies here, or if references
         #       to parameters are safe.
         self.pars[self.free] = freepars[:numfree]
-- 
2.43.0


From 2d565f77bc4b47d186f2dbf72a658738ef4f6712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:19 +0000
Subject: [PATCH 33/80] fix: jacobian of the Gaussian peak function always
 failed

---
 src/diffpy/srmise/peaks/gaussian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/peaks/gaussian.py b/src/diffpy/srmise/peaks/gaussian.py
index 9b19305..75acc99 100644
--- a/src/diffpy/srmise/peaks/gaussian.py
+++ b/src/diffpy/srmise/peaks/gaussian.py
@@ -275,7 +275,7 @@ class Gaussian(PeakFunction):
             Only columns corresponding to `True` values in `free` are computed.
         """
         jacobian = [None, None, None]
-        if (free is False).sum() == self.npars:
+        if np.sum(np.logical_not(free)) == self.npars:
             return jacobian
 
         # Optimization
-- 
2.43.0


From 22a233fb49ba29cf0c38683b807676dac7f0c117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:10 +0000
Subject: [PATCH 34/80] fix: uncertainties of the Gaussian peak function follow
 a change of format

---
 src/diffpy/srmise/peaks/gaussian.py | 54 +++++++++++++++++++++++++++++
 1 file changed, 54 insertions(+)

diff --git a/src/diffpy/srmise/peaks/gaussian.py b/src/diffpy/srmise/peaks/gaussian.py
index 75acc99..652d677 100644
--- a/src/diffpy/srmise/peaks/gaussian.py
+++ b/src/diffpy/srmise/peaks/gaussian.py
@@ -308,6 +308,60 @@ class Gaussian(PeakFunction):
                 jacobian[2] = -exp_p
         return jacobian
 
+    def _transform_derivativesraw(self, pars, in_format, out_format):
+        """Return gradient matrix for the pars converted from in_format
+        to out_format.
+
+        Parameters
+        ----------
+        pars: Sequence of parameters
+        in_format: A format defined for this class
+        out_format: A format defined for this class
+
+        Defined Formats
+        internal: [position, parameterized width-squared, area]
+        pwa: [position, full width at half maximum, area]
+        mu_sigma_area: [mu, sigma, area]
+        """
+        # With these three formats only the width-related parameter changes.
+        # Therefore the gradient matrix is the identity matrix with the possible
+        # exception of the element at [1,1].
+        g = np.identity(self.npars)
+
+        if in_format == out_format:
+            return g
+
+        if in_format == "internal":
+            if out_format == "pwa":
+                g[1, 1] = self.maxwidth / (2 * np.sqrt(2)) * np.cos(pars[1]) / np.sqrt(1 + np.sin(pars[1]))
+            elif out_format == "mu_sigma_area":
+                g[1, 1] = (
+                    self.maxwidth
+                    / (2 * np.sqrt(2) * self.sigma2fwhm)
+                    * np.cos(pars[1])
+                    / np.sqrt(1 + np.sin(pars[1]))
+                )
+            else:
+                raise ValueError("Argument 'out_format' must be one of %s." % self.parformats)
+        elif in_format == "pwa":
+            if out_format == "internal":
+                g[1, 1] = 2 / np.sqrt(self.maxwidth**2 - pars[1] ** 2)
+            elif out_format == "mu_sigma_area":
+                g[1, 1] = 1 / self.sigma2fwhm
+            else:
+                raise ValueError("Argument 'out_format' must be one of %s." % self.parformats)
+        elif in_format == "mu_sigma_area":
+            if out_format == "internal":
+                g[1, 1] = 2 * self.sigma2fwhm / np.sqrt(self.maxwidth**2 - (self.sigma2fwhm * pars[1]) ** 2)
+            elif out_format == "pwa":
+                g[1, 1] = self.sigma2fwhm
+            else:
+                raise ValueError("Argument 'out_format' must be one of %s." % self.parformats)
+        else:
+            raise ValueError("Argument 'in_format' must be one of %s." % self.parformats)
+
+        return g
+
     def _transform_parametersraw(self, pars, in_format, out_format):
         """Convert parameter values from one format to another.
 
-- 
2.43.0


From a37bfb5745172351f956dcec6191cd731cb3968c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:57 +0000
Subject: [PATCH 35/80] fix: reduce_to() compares the value of model and
 baseline

---
 src/diffpy/srmise/modelcluster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/modelcluster.py b/src/diffpy/srmise/modelcluster.py
index fe1af52..2a51878 100644
--- a/src/diffpy/srmise/modelcluster.py
+++ b/src/diffpy/srmise/modelcluster.py
@@ -1252,7 +1252,7 @@ class ModelCluster(object):
             Return ModelEvaluator instance if fit changed, otherwise None.
         """
         # No reduction necessary
-        if self.model.value(x) < y:
+        if self.value(x) < y:
             logger.debug("reduce_to: No reduction necessary.")
             return None
         orig_model = self.model.copy()
-- 
2.43.0


From 1222eab769cbe0464c7aef4da59f0fc00047d4d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:37 +0000
Subject: [PATCH 36/80] fix: supersample can be unset like every other
 extraction variable

---
 src/diffpy/srmise/pdfpeakextraction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/pdfpeakextraction.py b/src/diffpy/srmise/pdfpeakextraction.py
index 3744bb8..390cbe9 100644
--- a/src/diffpy/srmise/pdfpeakextraction.py
+++ b/src/diffpy/srmise/pdfpeakextraction.py
@@ -181,7 +181,7 @@ class PDFPeakExtraction(PeakExtraction):
                     emsg = "Qmax could not be automatically determined."
                     raise SrMiseQmaxError(emsg)
         if "supersample" in kwds:
-            if kwds["supersample"] < 1.0:
+            if kwds["supersample"] is not None and kwds["supersample"] < 1.0:
                 emsg = "Supersample must be a value greater than 1."
                 raise ValueError(emsg)
         PeakExtraction.setvars(self, quiet, **kwds)
-- 
2.43.0


From b9b002b180be4798f251a0da51c1f899cbc335dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:50 +0000
Subject: [PATCH 37/80] fix: new data do not keep the qmax found in earlier
 data

When qmax could not be determined from newly set data, the value found in
the previous data was kept and used as default.
---
 src/diffpy/srmise/pdfpeakextraction.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/diffpy/srmise/pdfpeakextraction.py b/src/diffpy/srmise/pdfpeakextraction.py
index 390cbe9..b652e34 100644
--- a/src/diffpy/srmise/pdfpeakextraction.py
+++ b/src/diffpy/srmise/pdfpeakextraction.py
@@ -100,6 +100,7 @@ class PDFPeakExtraction(PeakExtraction):
             The y-coordinates of the data.
         """
         PeakExtraction.setdata(self, x, y, dx, dy)
+        self.qmax_fromdata = None
         try:
             self.qmax_fromdata = find_qmax(self.x, self.y)[0]
         except Exception:
-- 
2.43.0


From e0fe3ac7cc7a4afbcb31071fc7995f8827b34f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:12 +0000
Subject: [PATCH 38/80] fix: resetting the tracer empties its trace

reset_trace() assigned to an attribute nothing else uses, so the steps
stored before remained in the trace and mixed with later ones.
---
 src/diffpy/srmise/srmiselog.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/srmiselog.py b/src/diffpy/srmise/srmiselog.py
index 7fa3c7d..6560469 100644
--- a/src/diffpy/srmise/srmiselog.py
+++ b/src/diffpy/srmise/srmiselog.py
@@ -344,7 +344,7 @@ class TracePeaks(object):
         self.call = 0
         self.counter = 0
         self.recursion = 0
-        self.stored = []
+        self.trace = []
 
     # filter property
     def setfilter(self, filter):
-- 
2.43.0


From 258c92625ed7523efb183838fd436a5bdf240300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:12 +0000
Subject: [PATCH 39/80] fix: addfilelog() honours its level

Level names such as 'debug' were refused although documented, and levels
below that of the logger had no effect because it, unlike in setfilelevel(),
was not lowered.
---
 src/diffpy/srmise/srmiselog.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/diffpy/srmise/srmiselog.py b/src/diffpy/srmise/srmiselog.py
index 6560469..2749cab 100644
--- a/src/diffpy/srmise/srmiselog.py
+++ b/src/diffpy/srmise/srmiselog.py
@@ -87,11 +87,14 @@ def addfilelog(filename, level=defaultlevel, format=defaultformat):
     format: A string defining format of output messages conforming to logging package.
     """
     global fh
-    fh = logging.FileHandler(filename)
-    fh.setLevel(level)
+    level = LEVELS.get(level, level)
+    handler = logging.FileHandler(filename)
+    handler.setLevel(level)
     formatter = logging.Formatter(format)
-    fh.setFormatter(formatter)
-    logger.addHandler(fh)
+    handler.setFormatter(formatter)
+    logger.addHandler(handler)
+    fh = handler
+    setfilelevel(level)
 
 
 def setfilelevel(level):
-- 
2.43.0


From bae570aad45c1e5b089bcb46e5991d725cdb556f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:12 +0000
Subject: [PATCH 40/80] fix: logging level 0 shows all messages

A logger of level 0 takes that of the root logger, so asking for everything
suppressed all but warnings.
---
 src/diffpy/srmise/srmiselog.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/diffpy/srmise/srmiselog.py b/src/diffpy/srmise/srmiselog.py
index 2749cab..3e32105 100644
--- a/src/diffpy/srmise/srmiselog.py
+++ b/src/diffpy/srmise/srmiselog.py
@@ -77,6 +77,13 @@ liveplots = False
 wait = False
 
 
+def _lowerlevel(level):
+    """Have the logger pass on messages of the given level, if it does not already."""
+    if level < logger.getEffectiveLevel():
+        # level 0 would defer to the root logger
+        logger.setLevel(max(level, 1))
+
+
 def addfilelog(filename, level=defaultlevel, format=defaultformat):
     """Log output from diffpy.srmise in specified file.
 
@@ -108,8 +115,7 @@ def setfilelevel(level):
     if fh is not None:
         level = LEVELS.get(level, level)
         fh.setLevel(level)
-        if level < logger.getEffectiveLevel():
-            logger.setLevel(level)
+        _lowerlevel(level)
     else:
         emsg = "File handler does not exist, cannot set its level."
         raise SrMiseLogError(emsg)
@@ -125,8 +131,7 @@ def setlevel(level):
     global ch
     level = LEVELS.get(level, level)
     ch.setLevel(level)
-    if level < logger.getEffectiveLevel():
-        logger.setLevel(level)
+    _lowerlevel(level)
 
 
 def liveplotting(lp, w=False):
-- 
2.43.0


From 0d7a61da083ab7f68071a567e1bb6f6107455336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:11 +0000
Subject: [PATCH 41/80] fix: refuse negative references to functions in text

A negative index was taken to count from the end of the list of functions
instead of being refused like any other index outside it.
---
 src/diffpy/srmise/basefunction.py   | 2 +-
 src/diffpy/srmise/baselines/base.py | 2 +-
 src/diffpy/srmise/peaks/base.py     | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/diffpy/srmise/basefunction.py b/src/diffpy/srmise/basefunction.py
index dbb0328..159b2f1 100644
--- a/src/diffpy/srmise/basefunction.py
+++ b/src/diffpy/srmise/basefunction.py
@@ -487,7 +487,7 @@ class BaseFunction(object):
         # Correctly initialize the base function, if one exists.
         if pdict["base"] is not None:
             idx = pdict["base"]
-            if idx >= len(baselist):
+            if not 0 <= idx < len(baselist):
                 emsg = "Dependent base function not in baselist."
                 raise ValueError(emsg)
             pdict["base"] = baselist[idx]
diff --git a/src/diffpy/srmise/baselines/base.py b/src/diffpy/srmise/baselines/base.py
index 3ce3962..a73d12e 100644
--- a/src/diffpy/srmise/baselines/base.py
+++ b/src/diffpy/srmise/baselines/base.py
@@ -190,7 +190,7 @@ class Baseline(ModelPart):
 
         # Correctly initialize the base function, if one exists.
         idx = pdict["owner"]
-        if idx >= len(ownerlist):
+        if not 0 <= idx < len(ownerlist):
             emsg = "Dependent base function not in ownerlist."
             raise ValueError(emsg)
         pdict["owner"] = ownerlist[idx]
diff --git a/src/diffpy/srmise/peaks/base.py b/src/diffpy/srmise/peaks/base.py
index 2fc8a9d..597defe 100644
--- a/src/diffpy/srmise/peaks/base.py
+++ b/src/diffpy/srmise/peaks/base.py
@@ -297,7 +297,7 @@ class Peak(ModelPart):
 
         # Correctly initialize the base function, if one exists.
         idx = pdict["owner"]
-        if idx >= len(ownerlist):
+        if not 0 <= idx < len(ownerlist):
             emsg = "Dependent base function not in ownerlist."
             raise ValueError(emsg)
         pdict["owner"] = ownerlist[idx]
-- 
2.43.0


From 24ba4605dd272f6753923dd386f758613ac3759d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:54 +0000
Subject: [PATCH 42/80] fix: refuse every malformed extraction with a format
 error

Apart from a few cases, text lacking a section or a field, or with invalid
values in it, failed with whatever error it happened to cause, for example
UnboundLocalError, which read() does not report as a corrupted file.
---
 src/diffpy/srmise/peakextraction.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/diffpy/srmise/peakextraction.py b/src/diffpy/srmise/peakextraction.py
index dd214df..97b277a 100644
--- a/src/diffpy/srmise/peakextraction.py
+++ b/src/diffpy/srmise/peakextraction.py
@@ -337,6 +337,17 @@ class PeakExtraction(object):
         datastring : array-like
             The raw data to read
         """
+        try:
+            self._readstr(datastring)
+        except SrMiseDataFormatError:
+            raise
+        except Exception as err:
+            # Missing sections and fields, unknown functions, invalid values...
+            emsg = "Malformed or incomplete data: %s: %s" % (type(err).__name__, err)
+            raise SrMiseDataFormatError(emsg)
+
+    def _readstr(self, datastring):
+        """Initialize members from string."""
         from diffpy.srmise.basefunction import BaseFunction
 
         self.clear()
-- 
2.43.0


From 965b19e648bfdf74cca91d58d0baf145978a21bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:50 +0000
Subject: [PATCH 43/80] fix: give the reason of a malformed model cluster as
 text

---
 src/diffpy/srmise/modelcluster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/modelcluster.py b/src/diffpy/srmise/modelcluster.py
index 2a51878..5b6e895 100644
--- a/src/diffpy/srmise/modelcluster.py
+++ b/src/diffpy/srmise/modelcluster.py
@@ -767,7 +767,7 @@ class ModelCluster(object):
                 for a, v in zip(arrays, line.split()):
                     a.append(float(v))
         except (ValueError, IndexError) as err:
-            raise SrMiseDataFormatError(err)
+            raise SrMiseDataFormatError(str(err))
         if hasr:
             r_data = np.array(r_data)
         if hasy:
-- 
2.43.0


From 1a78055078f9fa2f52192faaced2850f11d06c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:01 +0000
Subject: [PATCH 44/80] fix: refuse a PDF file that is not text with a file
 error

---
 src/diffpy/srmise/pdfdataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/pdfdataset.py b/src/diffpy/srmise/pdfdataset.py
index ba0dd65..848bbe6 100644
--- a/src/diffpy/srmise/pdfdataset.py
+++ b/src/diffpy/srmise/pdfdataset.py
@@ -206,7 +206,7 @@ class PDFDataSet(PDFComponent):
             with open(filename, "rb") as file:
                 file_content = file.read().decode("utf-8")
             self.readStr(file_content)
-        except PDFDataFormatError as err:
+        except (PDFDataFormatError, UnicodeDecodeError) as err:
             basename = os.path.basename(filename)
             emsg = ("Could not open '%s' due to unsupported file format " + "or corrupted data. [%s]") % (
                 basename,
-- 
2.43.0


From 37240b2e206bab899d17c440ff2a64b334fe669b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:57 +0000
Subject: [PATCH 45/80] fix: select a copy of a stability result so that later
 work leaves the record alone

---
 src/diffpy/srmise/peakstability.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/diffpy/srmise/peakstability.py b/src/diffpy/srmise/peakstability.py
index 4e902ae..1258f62 100644
--- a/src/diffpy/srmise/peakstability.py
+++ b/src/diffpy/srmise/peakstability.py
@@ -145,9 +145,11 @@ class PeakStability:
             result = self.results[idx]
             self.ppe.setvars(quiet=True, effective_dy=result[0] * np.ones(len(self.ppe.x)))
             (r, y, dr, dy) = self.ppe.resampledata(result[3])
+            # Later work on the active model must not alter the record.
+            bl = None if result[2] is None else result[2].copy()
             self.ppe.extracted = ModelCluster(
-                result[1],
-                result[2],
+                result[1].copy(),
+                bl,
                 r,
                 y,
                 dy,
-- 
2.43.0


From 4fa7f896e8bc0a73553afff08394b92b092ced6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:57 +0000
Subject: [PATCH 46/80] fix: record copies of the extracted model and baseline
 in a stability run

---
 src/diffpy/srmise/peakstability.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/peakstability.py b/src/diffpy/srmise/peakstability.py
index 1258f62..7d0e275 100644
--- a/src/diffpy/srmise/peakstability.py
+++ b/src/diffpy/srmise/peakstability.py
@@ -215,7 +215,10 @@ class PeakStability:
             dr = (self.ppe.extracted.r_cluster[-1] - self.ppe.extracted.r_cluster[0]) / (
                 len(self.ppe.extracted.r_cluster) - 1
             )
-            self.results.append([e, self.ppe.extracted.model, self.ppe.extracted.baseline, dr])
+            bl = self.ppe.extracted.baseline
+            if bl is not None:
+                bl = bl.copy()
+            self.results.append([e, self.ppe.extracted.model.copy(), bl, dr])
 
         for e, r, bl, dr in self.results:
             print("---- Results for uncertainty %s ----" % e)
-- 
2.43.0


From f6adb3fe21561930a63913632e6061b9e5106d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:57 +0000
Subject: [PATCH 47/80] fix: load a stability series without results

---
 src/diffpy/srmise/peakstability.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/peakstability.py b/src/diffpy/srmise/peakstability.py
index 7d0e275..2249a2e 100644
--- a/src/diffpy/srmise/peakstability.py
+++ b/src/diffpy/srmise/peakstability.py
@@ -66,7 +66,7 @@ class PeakStability:
         finally:
             in_s.close()
 
-        self.setcurrent(0)
+        self.setcurrent(0 if self.results else None)
 
     def save(self, filename):
         try:
-- 
2.43.0


From 54a6a6b36e12df7b5bf9809f65940430f88d215d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:30 +0000
Subject: [PATCH 48/80] fix: convert integer peak parameters without truncation

---
 src/diffpy/srmise/peaks/gaussian.py      | 2 +-
 src/diffpy/srmise/peaks/gaussianoverr.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/diffpy/srmise/peaks/gaussian.py b/src/diffpy/srmise/peaks/gaussian.py
index 652d677..59cf78e 100644
--- a/src/diffpy/srmise/peaks/gaussian.py
+++ b/src/diffpy/srmise/peaks/gaussian.py
@@ -387,7 +387,7 @@ class Gaussian(PeakFunction):
         array_like
             The transformed parameters in the `out_format`.
         """
-        temp = np.array(pars)
+        temp = np.array(pars, dtype=float)
 
         # Do I need to change anything?  The internal parameters may need to be
         # placed into the preferred range, even though their interpretation does
diff --git a/src/diffpy/srmise/peaks/gaussianoverr.py b/src/diffpy/srmise/peaks/gaussianoverr.py
index d491b3b..ee8c0e0 100644
--- a/src/diffpy/srmise/peaks/gaussianoverr.py
+++ b/src/diffpy/srmise/peaks/gaussianoverr.py
@@ -401,7 +401,7 @@ class GaussianOverR(PeakFunction):
         array_like
             The transformed parameters in the `out_format`.
         """
-        temp = np.array(pars)
+        temp = np.array(pars, dtype=float)
 
         # Do I need to change anything?  The internal parameters may need to be
         # placed into the preferred range, even though their interpretation does
-- 
2.43.0


From 5554be48546c3bba86b22520aec08211e767bf2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:41 +0000
Subject: [PATCH 49/80] fix: evaluate a sequence baseline over no points

---
 src/diffpy/srmise/baselines/fromsequence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/baselines/fromsequence.py b/src/diffpy/srmise/baselines/fromsequence.py
index e8f38c2..0a9549e 100644
--- a/src/diffpy/srmise/baselines/fromsequence.py
+++ b/src/diffpy/srmise/baselines/fromsequence.py
@@ -222,7 +222,7 @@ class FromSequence(BaselineFunction):
                     [self.minx, self.maxx],
                 )
         except (IndexError, TypeError):
-            if r < self.minx or r > self.maxx:
+            if np.size(r) > 0 and (r < self.minx or r > self.maxx):
                 logger.warning(
                     "Warning: Evaluating interpolating function at %s, outside safe range of %s.",
                     r,
-- 
2.43.0


From 2c5ea6d2b63170f62decce6f189f479ec8d235ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:42 +0000
Subject: [PATCH 50/80] fix: convert a peak of the largest width back from
 mu_sigma_area

---
 src/diffpy/srmise/peaks/gaussian.py      | 2 ++
 src/diffpy/srmise/peaks/gaussianoverr.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/diffpy/srmise/peaks/gaussian.py b/src/diffpy/srmise/peaks/gaussian.py
index 59cf78e..6fa69e5 100644
--- a/src/diffpy/srmise/peaks/gaussian.py
+++ b/src/diffpy/srmise/peaks/gaussian.py
@@ -415,6 +415,8 @@ class Gaussian(PeakFunction):
             temp[1] = np.arcsin(2.0 * temp[1] ** 2 / self.maxwidth**2 - 1.0)
         elif in_format == "mu_sigma_area":
             fwhm = temp[1] * self.sigma2fwhm
+            if self.maxwidth < fwhm <= self.maxwidth * (1 + 1e-12):
+                fwhm = self.maxwidth  # exceeds maxwidth by rounding only
             if fwhm > self.maxwidth:
                 emsg = "Width %s (FWHM) greater than maximum allowed width %s" % (
                     fwhm,
diff --git a/src/diffpy/srmise/peaks/gaussianoverr.py b/src/diffpy/srmise/peaks/gaussianoverr.py
index ee8c0e0..019043e 100644
--- a/src/diffpy/srmise/peaks/gaussianoverr.py
+++ b/src/diffpy/srmise/peaks/gaussianoverr.py
@@ -429,6 +429,8 @@ class GaussianOverR(PeakFunction):
             temp[1] = np.arcsin(2.0 * temp[1] ** 2 / self.maxwidth**2 - 1.0)
         elif in_format == "mu_sigma_area":
             fwhm = temp[1] * self.sigma2fwhm
+            if self.maxwidth < fwhm <= self.maxwidth * (1 + 1e-12):
+                fwhm = self.maxwidth  # exceeds maxwidth by rounding only
             if fwhm > self.maxwidth:
                 emsg = "Width %s (FWHM) greater than maximum allowed width %s" % (
                     fwhm,
-- 
2.43.0


From 156f9d30dc8837f226b7d196e211672a60d874f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:52 +0000
Subject: [PATCH 51/80] fix: do not ignore a resolution or supersampling of
 zero on the command line

---
 src/diffpy/srmise/applications/extract.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/diffpy/srmise/applications/extract.py b/src/diffpy/srmise/applications/extract.py
index 705c30d..9944c3b 100755
--- a/src/diffpy/srmise/applications/extract.py
+++ b/src/diffpy/srmise/applications/extract.py
@@ -575,7 +575,7 @@ def main():
             pdict["pf"] = [options.peakfunction]
         if options.baseline is not None:
             pdict["baseline"] = options.baseline
-        if options.cres:
+        if options.cres is not None:
             pdict["cres"] = options.cres
         if options.dg_mode is None:
             if options.dg:
@@ -600,7 +600,7 @@ def main():
             pdict["qmax"] = options.qmax if options.qmax == "automatic" else float(options.qmax)
         if options.nyquist is not None:
             pdict["nyquist"] = options.nyquist
-        if options.supersample:
+        if options.supersample is not None:
             pdict["supersample"] = options.supersample
         if options.scale is not None:
             pdict["scale"] = options.scale
-- 
2.43.0


From 078d522f3d0a37727fb28e28a727ffa3bcfcd62d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:00 +0000
Subject: [PATCH 52/80] fix: covariance of a fit describes the parts which the
 fit leaves behind, in their order

---
 src/diffpy/srmise/modelcluster.py | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/src/diffpy/srmise/modelcluster.py b/src/diffpy/srmise/modelcluster.py
index 5b6e895..cb0ffd0 100644
--- a/src/diffpy/srmise/modelcluster.py
+++ b/src/diffpy/srmise/modelcluster.py
@@ -138,6 +138,23 @@ class ModelCovariance(object):
                             rawj += 1
                     rawi += 1
 
+    def selectparts(self, parts):
+        """Keep only the specified model parts, in the order given.
+
+        Parameters
+        ----------
+        parts : sequence of int
+            Indices of the model parts to keep.
+        """
+        if self.cov is None:
+            return
+        if len(parts) == 0:
+            self.clear()
+            return
+        idx = np.concatenate([self.mmap[i] for i in parts])
+        model = self.model
+        self.setcovariance(type(model)([model[i] for i in parts]), np.array(self.cov)[np.ix_(idx, idx)])
+
     def transform(self, in_format, out_format, **kwds):
         """Transform parameters and covariance matrix under specified
         change of variables.
@@ -1081,6 +1098,7 @@ class ModelCluster(object):
             y_datafit = self.y_data - self.valuebl(self.r_data)
             fmodel = self.model
 
+        orig_pars = [np.array(m.pars) for m in fmodel]
         try:
             fmodel.fit(
                 self.r_data,
@@ -1100,6 +1118,7 @@ class ModelCluster(object):
             self.baseline = orig_baseline
             return None
 
+        fitted = list(fmodel)
         if fitbaseline and self.baseline is not None and self.baseline.npars(count_fixed=False) > 0:
             self.model = Peaks(fmodel[:-1])
             self.baseline = fmodel[-1]
@@ -1125,6 +1144,9 @@ class ModelCluster(object):
 
             self.model = orig_model
             self.baseline = orig_baseline
+            if cov is not None and not all(np.allclose(m.pars, p) for m, p in zip(fitted, orig_pars)):
+                # The covariance of the abandoned fit does not describe the original model.
+                cov.clear()
             return None
 
         # Short version: When justify=True a single peak is no longer fit
@@ -1148,7 +1170,14 @@ class ModelCluster(object):
 
                 self.model = orig_model
                 self.baseline = orig_baseline
+                if cov is not None:
+                    cov.clear()
                 return None
+
+        if cov is not None:
+            # The covariance follows the parts which remain, in their new order.
+            kept = list(self.model) + [m for m in fitted if m is self.baseline]
+            cov.selectparts([i for k in kept for i, m in enumerate(fitted) if m is k])
         return new_qual
 
     def contingent_fit(self, minpoints, growth_threshold):
-- 
2.43.0


From df6c2086302fb296d25c44eeab73b1afe91f03a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:07 +0000
Subject: [PATCH 53/80] fix: peaks stay in order when the fit after pruning is
 refused

---
 src/diffpy/srmise/modelcluster.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/diffpy/srmise/modelcluster.py b/src/diffpy/srmise/modelcluster.py
index cb0ffd0..ef4e0db 100644
--- a/src/diffpy/srmise/modelcluster.py
+++ b/src/diffpy/srmise/modelcluster.py
@@ -1662,6 +1662,7 @@ class ModelCluster(object):
                 bmtemp = best_model[:lo]
                 bmtemp.extend(check_models[newbest_qualidx])
                 bmtemp.extend(best_model[hi:])
+                bmtemp.sort()  # peaks may have moved past those which were not fit
                 prune_mc.model = bmtemp
                 prune_mc.y_data = y_nobl
                 prune_mc.y_cluster = y_nobl
-- 
2.43.0


From 8054a65b8fb433d9cce53f5d2ce518f8892d4411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:17 +0000
Subject: [PATCH 54/80] fix: peaks estimated after termination ripples were
 added lacked them

---
 src/diffpy/srmise/pdfpeakextraction.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/diffpy/srmise/pdfpeakextraction.py b/src/diffpy/srmise/pdfpeakextraction.py
index b652e34..fd8cfb1 100644
--- a/src/diffpy/srmise/pdfpeakextraction.py
+++ b/src/diffpy/srmise/pdfpeakextraction.py
@@ -441,7 +441,7 @@ class PDFPeakExtraction(PeakExtraction):
 
             from diffpy.srmise.peaks.terminationripples import TerminationRipples
 
-            owners = list(set([p.owner() for p in ext.model]))
+            owners = list(set([p.owner() for p in ext.model] + list(self.pf)))
             tfuncs = {}
             for o in owners:
                 tfuncs[o] = TerminationRipples(o, self.qmax)
@@ -457,6 +457,8 @@ class PDFPeakExtraction(PeakExtraction):
                         p.changeowner(tfuncs[p.owner()])
                 except SrMiseStaticOwnerError:
                     pass
+            # Peaks estimated from here on have termination ripples too.
+            pf = [f if isinstance(f, TerminationRipples) else tfuncs[f] for f in self.pf]
 
             # Use Nyquist sampled data if desired
             if self.nyquist:
@@ -494,7 +496,7 @@ class PDFPeakExtraction(PeakExtraction):
                         y_error2,
                         None,
                         self.error_method,
-                        self.pf,
+                        pf,
                     )
                     ext.fit()  # Clean up parameters after resampling.
 
@@ -529,7 +531,7 @@ class PDFPeakExtraction(PeakExtraction):
                     y_error1,
                     None,
                     self.error_method,
-                    self.pf,
+                    pf,
                 )
                 ext.prune()
 
-- 
2.43.0


From 9917e2f661695057643080eeaf01d304dfb4e156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:38 +0000
Subject: [PATCH 55/80] fix: plot of class probabilities failed with current
 matplotlib and Python 3, and highlights ignored the scale

---
 src/diffpy/srmise/multimodelselection.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/diffpy/srmise/multimodelselection.py b/src/diffpy/srmise/multimodelselection.py
index 9c6b8c6..eb1a611 100644
--- a/src/diffpy/srmise/multimodelselection.py
+++ b/src/diffpy/srmise/multimodelselection.py
@@ -615,7 +615,7 @@ class MultimodelSelection(PeakStability):
         "cbaxis" - The colorbar axis, if it exists.
         "cb" - The colorbar, if it exists.
         """
-        from matplotlib import cm, colorbar, colors
+        from matplotlib import colorbar, colors
         from matplotlib.collections import PolyCollection
 
         fig = kwds.pop("figure", plt.gcf())
@@ -624,14 +624,14 @@ class MultimodelSelection(PeakStability):
         kwds.copy()
 
         # Resolve keywords (title resolved later)
-        dGs = kwds.pop("dGs", self.dgs)
+        dGs = np.array(kwds.pop("dGs", self.dgs))
         highlight = kwds.pop("highlight", [])
         classes = kwds.pop("classes", range(len(self.classes)))
         probfilter = kwds.pop("probfilter", [0.0, 1.0])
         class_size = kwds.pop("class_size", "number")
         norm = kwds.pop("norm", "auto")
-        cmap = kwds.pop("cmap", cm.get_cmap("jet"))
-        highlight_cmap = kwds.pop("highlight_cmap", cm.get_cmap("gray"))
+        cmap = plt.get_cmap(kwds.pop("cmap", "jet"))
+        highlight_cmap = plt.get_cmap(kwds.pop("highlight_cmap", "gray"))
         title = kwds.pop("title", True)
         p_alpha = kwds.pop("p_alpha", 0.7)
         scale = kwds.pop("scale", 1.0)
@@ -649,7 +649,7 @@ class MultimodelSelection(PeakStability):
                     (xs[0], 0),
                     (xs[-1], 0),
                 )  # points to close the vertices
-                verts.append(np.concatenate([[p0], zip(xs, ys), [p1], [p0]]))
+                verts.append(np.concatenate([[p0], list(zip(xs, ys)), [p1], [p0]]))
                 zlabels.append(i)
 
         #  Define face colors
@@ -695,7 +695,7 @@ class MultimodelSelection(PeakStability):
         for dG, ci in zip(highlight, color_idx):
             for z_logical, z_plot in zip(zlabels, zs):
                 ax.plot(
-                    [dG, dG],
+                    [dG * scale, dG * scale],
                     [z_plot, z_plot],
                     [0, self.classprobs[dG][z_logical]],
                     color=highlight_cmap(ci),
-- 
2.43.0


From f95b342967ca6cd80c912bc7816d9df21cc150e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:38 +0000
Subject: [PATCH 56/80] fix: animations of model and class probabilities failed

---
 src/diffpy/srmise/multimodelselection.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/diffpy/srmise/multimodelselection.py b/src/diffpy/srmise/multimodelselection.py
index eb1a611..42f3414 100644
--- a/src/diffpy/srmise/multimodelselection.py
+++ b/src/diffpy/srmise/multimodelselection.py
@@ -229,9 +229,10 @@ class MultimodelSelection(PeakStability):
         plt.ion()
         plt.subplot(211)
         best_idx = self.sortedprobs[self.dgs[0]][-1]
-        (line,) = plt.plot(self.dgs, self.aicprobs[self.dgs[0]])
+        model_dgs = [result[0] for result in self.results]
+        (line,) = plt.plot(model_dgs, self.aicprobs[self.dgs[0]])
         vline = plt.axvline(self.dgs[0])
-        (dot,) = plt.plot(self.dgs[best_idx], self.aicprobs[self.dgs[0]][best_idx], "ro")
+        (dot,) = plt.plot(model_dgs[best_idx], self.aicprobs[self.dgs[0]][best_idx], "ro")
 
         plt.subplot(212)
         self.setcurrent(best_idx)
@@ -239,15 +240,14 @@ class MultimodelSelection(PeakStability):
         for dg in self.dgs[1:]:
             plt.ioff()
             line.set_ydata(self.aicprobs[dg])
-            vline.set_xdata(dg)
+            vline.set_xdata([dg, dg])
             if self.sortedprobs[dg][-1] != best_idx:
                 best_idx = self.sortedprobs[dg][-1]
-                s = slice(0, len(self.ppe.extracted.model))
-                self.ppe.extracted.replacepeaks(self.results[best_idx][1], s)
+                self.setcurrent(best_idx)
                 plt.cla()
                 plt.plot(*self.ppe.extracted.plottable())
-            dot.set_xdata(self.dgs[best_idx])
-            dot.set_ydata(self.aicprobs[dg][best_idx])
+            dot.set_xdata([model_dgs[best_idx]])
+            dot.set_ydata([self.aicprobs[dg][best_idx]])
             plt.ion()
             plt.draw()
             if step:
@@ -280,7 +280,7 @@ class MultimodelSelection(PeakStability):
         arrow_right = arrow_left + 0.05 * arrow_left
         (line,) = plt.plot(range(len(self.classes)), self.classprobs[self.dgs[0]])
         (dot,) = plt.plot(
-            self.dgs[best_idx],
+            bestclass_idx,
             self.classprobs[self.dgs[0]][bestclass_idx],
             "ro",
         )
@@ -313,16 +313,16 @@ class MultimodelSelection(PeakStability):
             if self.sortedclassprobs[dg][-1] != bestclass_idx:
                 bestclass_idx = self.sortedclassprobs[dg][-1]
                 best_idx = self.sortedclasses[dg][bestclass_idx][-1]
-                s = slice(0, len(tempcluster.model))
-                tempcluster.replacepeaks(self.results[best_idx][1], s)
+                self.setcurrent(best_idx)
+                tempcluster = ModelCluster(self.ppe.extracted)
                 plt.cla()
                 val = tempcluster.plottable()
                 minval = np.min(val[1::2])
                 [r, res] = tempcluster.plottable_residual()
                 plt.plot(*val)
                 plt.plot(r, minval - np.max(res) + res)
-            dot.set_xdata(bestclass_idx)
-            dot.set_ydata(self.classprobs[dg][bestclass_idx])
+            dot.set_xdata([bestclass_idx])
+            dot.set_ydata([self.classprobs[dg][bestclass_idx]])
             plt.ion()
             plt.draw()
             if step:
-- 
2.43.0


From b8e0bb41ffeb5b1c685ecd7a1d824acf92c9d671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:38 +0000
Subject: [PATCH 57/80] fix: summary of an extraction counted the free
 parameters of another baseline

---
 src/diffpy/srmise/pdfpeakextraction.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/diffpy/srmise/pdfpeakextraction.py b/src/diffpy/srmise/pdfpeakextraction.py
index fd8cfb1..bae134e 100644
--- a/src/diffpy/srmise/pdfpeakextraction.py
+++ b/src/diffpy/srmise/pdfpeakextraction.py
@@ -828,8 +828,8 @@ class PDFPeakExtraction(PeakExtraction):
         # Quality of fit
         lines.append("# Quality reported by ModelEvaluator: %s" % self.extracted.quality().stat)
         lines.append("# Free parameters in extracted peaks: %s" % self.extracted.model.npars(count_fixed=False))
-        if self.baseline is not None:
-            fblpars = self.baseline.npars(count_fixed=False)
+        if self.extracted.baseline is not None:
+            fblpars = self.extracted.baseline.npars(count_fixed=False)
         else:
             fblpars = 0
         lines.append("# Free parameters in baseline: %s" % fblpars)
-- 
2.43.0


From b4b01c1e02c9de4dc7f3c3ad06631d3b0e0e0f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:34 +0000
Subject: [PATCH 58/80] fix: refuse covariances of parameters the model does
 not have

A pair that is no parameter of the model was used as an index of the matrix
itself, so that covariances and correlations of other parameters were returned.
---
 src/diffpy/srmise/modelcluster.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/diffpy/srmise/modelcluster.py b/src/diffpy/srmise/modelcluster.py
index ef4e0db..028f847 100644
--- a/src/diffpy/srmise/modelcluster.py
+++ b/src/diffpy/srmise/modelcluster.py
@@ -272,8 +272,8 @@ class ModelCovariance(object):
             raise SrMiseUndefinedCovarianceError(emsg)
 
         # Map peak/parameter tuples to the proper index
-        i1 = self.pmap[i] if i in self.pmap else i
-        j1 = self.pmap[j] if j in self.pmap else j
+        i1 = self.pmap[i] if i in self.pmap else self.pmap[self.ipmap[i]]
+        j1 = self.pmap[j] if j in self.pmap else self.pmap[self.ipmap[j]]
 
         if self.cov[i1, i1] == 0.0 or self.cov[j1, j1] == 0.0:
             return 0.0  # Avoiding undefined quantities is sensible in this context.
@@ -332,8 +332,8 @@ class ModelCovariance(object):
             raise SrMiseUndefinedCovarianceError(emsg)
 
         # Map peak/parameter tuples to the proper index
-        i1 = self.pmap[i] if i in self.pmap else i
-        j1 = self.pmap[j] if j in self.pmap else j
+        i1 = self.pmap[i] if i in self.pmap else self.pmap[self.ipmap[i]]
+        j1 = self.pmap[j] if j in self.pmap else self.pmap[self.ipmap[j]]
 
         return self.cov[i1, j1]
 
-- 
2.43.0


From f50d8ee3e577eb432b7863c21ec37f4a19d53e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:11 +0000
Subject: [PATCH 59/80] fix: derivatives of rippled peaks on coarse grids

Values of peaks with termination ripples are computed on a grid fine enough
for the ripples, but derivatives were not, so that on coarse grids (the
Nyquist grid in particular) they were not the derivatives of those values.
---
 src/diffpy/srmise/peaks/terminationripples.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/diffpy/srmise/peaks/terminationripples.py b/src/diffpy/srmise/peaks/terminationripples.py
index b352cc5..87896c2 100644
--- a/src/diffpy/srmise/peaks/terminationripples.py
+++ b/src/diffpy/srmise/peaks/terminationripples.py
@@ -238,17 +238,23 @@ class TerminationRipples(PeakFunction):
                 # dr is ad hoc if r is a single point
                 dr = 2 * np.pi / (self.supersample * self.qmax)
 
+            # Sample as finely as value() does.
+            segments = int(np.ceil(dr / (2 * np.pi / (self.supersample * self.qmax))))
+            dr_segmented = dr / segments
+
             if rng is None:
                 rng = slice(0, len(r))
             rpart = r[rng]
-            (ext_r, ext_slice) = self.extend_grid(rpart, dr)
+            if segments > 1:
+                rpart = np.arange(rpart[0], rpart[-1] + dr_segmented / 2, dr_segmented)
+            (ext_r, ext_slice) = self.extend_grid(rpart, dr_segmented)
             jac = self._jacobianraw(peak.pars, ext_r, peak.free)
             output = [None for j in jac]
             for idx in range(len(output)):
                 if jac[idx] is not None:
-                    jac[idx] = self.cut_freq(jac[idx], dr)
+                    jac[idx] = self.cut_freq(jac[idx], dr_segmented)
                     output[idx] = r * 0.0
-                    output[idx][rng] = jac[idx][ext_slice]
+                    output[idx][rng] = jac[idx][ext_slice][::segments]
             return output
         except TypeError:
             # dr is ad hoc if r is a single point.
-- 
2.43.0


From dcfb1e856d1bdb742b402a041ce508fb6a210d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:03 +0000
Subject: [PATCH 60/80] fix: width guessed for a peak from equal values

The width should let the peak die down by the ends of the data, half of which
is two standard deviations as the comment says, but was 2.5 times larger than
that.
---
 src/diffpy/srmise/peaks/gaussian.py      | 2 +-
 src/diffpy/srmise/peaks/gaussianoverr.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/diffpy/srmise/peaks/gaussian.py b/src/diffpy/srmise/peaks/gaussian.py
index 6fa69e5..bb18e77 100644
--- a/src/diffpy/srmise/peaks/gaussian.py
+++ b/src/diffpy/srmise/peaks/gaussian.py
@@ -173,7 +173,7 @@ class Gaussian(PeakFunction):
             # sure the peak has died down by the time it reaches the edge of
             # the data.
             guesspars[0] = (use_r[0] + use_r[-1]) / 2
-            guesspars[1] = (use_r[-1] - use_r[0]) * 2 / (2 * np.log(2))  # cluster width/2=2*sigma
+            guesspars[1] = (use_r[-1] - use_r[0]) / 4 * self.sigma2fwhm  # cluster width/2=2*sigma
 
         if guesspars[1] > self.maxwidth:
             # account for width-limit
diff --git a/src/diffpy/srmise/peaks/gaussianoverr.py b/src/diffpy/srmise/peaks/gaussianoverr.py
index 019043e..9dc8256 100644
--- a/src/diffpy/srmise/peaks/gaussianoverr.py
+++ b/src/diffpy/srmise/peaks/gaussianoverr.py
@@ -173,7 +173,7 @@ class GaussianOverR(PeakFunction):
             # sure the peak has died down by the time it reaches the edge of
             # the data.
             guesspars[0] = (use_r[0] + use_r[-1]) / 2
-            guesspars[1] = (use_r[-1] - use_r[0]) * 2 / (2 * np.log(2))  # cluster width/2=2*sigma
+            guesspars[1] = (use_r[-1] - use_r[0]) / 4 * self.sigma2fwhm  # cluster width/2=2*sigma
 
         if guesspars[1] > self.maxwidth:
             # account for width-limit
-- 
2.43.0


From 3e6f8663bb3fe420bfeb0f2c0d732f3bb3f0b571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:45 +0000
Subject: [PATCH 61/80] fix: joining regions keeps the order of their peak
 functions

The union of sets of functions came in the order of their memory addresses,
and with it the function used to estimate further peaks, so that the same
extraction could give different results in another process.
---
 src/diffpy/srmise/modelcluster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/modelcluster.py b/src/diffpy/srmise/modelcluster.py
index 028f847..013fc19 100644
--- a/src/diffpy/srmise/modelcluster.py
+++ b/src/diffpy/srmise/modelcluster.py
@@ -891,7 +891,7 @@ class ModelCluster(object):
         else:  # Only m2 has entries, or both are empty
             new_model = m2.model.copy()
 
-        peak_funcs = list(set(m1.peak_funcs) | set(m2.peak_funcs))  # "Union"
+        peak_funcs = list(dict.fromkeys(list(m1.peak_funcs) + list(m2.peak_funcs)))  # "Union", in order
         return ModelCluster(
             new_model,
             m1.baseline,
-- 
2.43.0


From 5a7c8aad81b92d78145d99109167778539a25acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:45 +0000
Subject: [PATCH 62/80] fix: peaks of joined regions match the data above the
 baseline

Their sum at the border was matched to the data with its baseline.
---
 src/diffpy/srmise/modelcluster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/modelcluster.py b/src/diffpy/srmise/modelcluster.py
index 013fc19..563b460 100644
--- a/src/diffpy/srmise/modelcluster.py
+++ b/src/diffpy/srmise/modelcluster.py
@@ -885,7 +885,7 @@ class ModelCluster(object):
                         del new_model[i]
 
             # Likely to improve any future fitting
-            new_model.match_at(border_x, border_y)
+            new_model.match_at(border_x, border_y - left.valuebl(border_x))
         elif len(m1.model) > 0:
             new_model = m1.model.copy()
         else:  # Only m2 has entries, or both are empty
-- 
2.43.0


From 8c6f7b58c87aeae082597057a5d32dca4cd76fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:45 +0000
Subject: [PATCH 63/80] fix: whether to search a residual is judged above the
 baseline

The residual still holds the baseline, so that with one there always seemed
to be something to find.
---
 src/diffpy/srmise/peakextraction.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/diffpy/srmise/peakextraction.py b/src/diffpy/srmise/peakextraction.py
index 97b277a..c723f8d 100644
--- a/src/diffpy/srmise/peakextraction.py
+++ b/src/diffpy/srmise/peakextraction.py
@@ -1062,7 +1062,7 @@ class PeakExtraction(object):
                 min_npars = min([p.npars for p in self.pf])
                 checkrec = ModelCluster(
                     None,
-                    None,
+                    bl,
                     rec_r,
                     rec_y,
                     rec_error,
@@ -1235,7 +1235,7 @@ class PeakExtraction(object):
                     min_npars = min([p.npars for p in self.pf])
                     checkrec = ModelCluster(
                         None,
-                        None,
+                        bl,
                         rec_r1,
                         rec_y1,
                         rec_error1,
@@ -1282,7 +1282,7 @@ class PeakExtraction(object):
                 min_npars = min([p.npars for p in self.pf])
                 checkrec = ModelCluster(
                     None,
-                    None,
+                    bl,
                     rec_r2,
                     rec_y2,
                     rec_error2,
-- 
2.43.0


From e65294009d9bbbdd87d84fdff56cb002233480c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:45 +0000
Subject: [PATCH 64/80] fix: hidden peaks at an end of the data are searched
 for at that end

The index of the region was taken for that of the point which fills it to
the boundary.
---
 src/diffpy/srmise/peakextraction.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/diffpy/srmise/peakextraction.py b/src/diffpy/srmise/peakextraction.py
index c723f8d..b1d536d 100644
--- a/src/diffpy/srmise/peakextraction.py
+++ b/src/diffpy/srmise/peakextraction.py
@@ -979,8 +979,8 @@ class PeakExtraction(object):
                 full_cluster.fit(True)
 
                 # Estimate coordinate where clusters combine.
-                border_x = x[step.lastcluster_idx]
-                border_y = y[step.lastcluster_idx]
+                border_x = x[step.lastpoint_idx]
+                border_y = y[step.lastpoint_idx]
 
                 # Determine neighborhood appropriate for fitting (no larger than combined clusters)
                 if len(full_cluster.model) > 0:
-- 
2.43.0


From bea7b8f4f2324088297685550bef4eb9385a2331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:51 +0000
Subject: [PATCH 65/80] fix: a trial fit leaves the peaks still offered to
 augment() alone

---
 src/diffpy/srmise/modelcluster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/modelcluster.py b/src/diffpy/srmise/modelcluster.py
index 563b460..e3e5c21 100644
--- a/src/diffpy/srmise/modelcluster.py
+++ b/src/diffpy/srmise/modelcluster.py
@@ -1457,7 +1457,7 @@ class ModelCluster(object):
         while len(source_model) > 0:
             test_models = [best_model.copy() for s in source_model]
             for t, s in zip(test_models, source_model):
-                t.append(s)
+                t.append(s.copy())
             test_quals = np.array([None for t in test_models])
 
             for i in range(len(test_models)):
-- 
2.43.0


From bf15406f9e71f22dbd36b0aa321306f34b310449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:28 +0000
Subject: [PATCH 66/80] fix: the covariance of an abandoned fit is cleared in
 any units

---
 src/diffpy/srmise/modelcluster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/modelcluster.py b/src/diffpy/srmise/modelcluster.py
index e3e5c21..e67328c 100644
--- a/src/diffpy/srmise/modelcluster.py
+++ b/src/diffpy/srmise/modelcluster.py
@@ -1144,7 +1144,7 @@ class ModelCluster(object):
 
             self.model = orig_model
             self.baseline = orig_baseline
-            if cov is not None and not all(np.allclose(m.pars, p) for m, p in zip(fitted, orig_pars)):
+            if cov is not None and not all(np.allclose(m.pars, p, atol=0) for m, p in zip(fitted, orig_pars)):
                 # The covariance of the abandoned fit does not describe the original model.
                 cov.clear()
             return None
-- 
2.43.0


From 21e075749509867d566c5c95c25f61c2f33764d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:50:03 +0000
Subject: [PATCH 67/80] fix: data of unequal lengths replaced the data in part
 before it was refused

---
 src/diffpy/srmise/peakextraction.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/diffpy/srmise/peakextraction.py b/src/diffpy/srmise/peakextraction.py
index b1d536d..23d1295 100644
--- a/src/diffpy/srmise/peakextraction.py
+++ b/src/diffpy/srmise/peakextraction.py
@@ -121,6 +121,9 @@ class PeakExtraction(object):
         if len(x) != len(y):
             emsg = "Sequences x and y must have the same length."
             raise ValueError(emsg)
+        if (dx is not None and len(dx) != len(x)) or (dy is not None and len(dy) != len(x)):
+            emsg = "Sequences dx and dy (if present) must have the same length as x"
+            raise ValueError(emsg)
         self.x = np.array(x)
         self.y = np.array(y)
         if dx is None:
@@ -131,9 +134,6 @@ class PeakExtraction(object):
             self.dy = np.zeros(len(x))
         else:
             self.dy = np.array(dy)
-        if len(self.x) != len(self.dx) or len(self.x) != len(self.dy):
-            emsg = "Sequences dx and dy (if present) must have the same length as x"
-            raise ValueError(emsg)
         # self.defaultvars()
         return
 
-- 
2.43.0


From dc0cd6f666acf9a5ddd58fa75fa1d85e6442a3c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:50:03 +0000
Subject: [PATCH 68/80] fix: settings given along with an unknown one were
 changed although refused

---
 src/diffpy/srmise/peakextraction.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/diffpy/srmise/peakextraction.py b/src/diffpy/srmise/peakextraction.py
index 23d1295..f433b3e 100644
--- a/src/diffpy/srmise/peakextraction.py
+++ b/src/diffpy/srmise/peakextraction.py
@@ -160,15 +160,15 @@ class PeakExtraction(object):
             The sequence specifying the least and greatest x-values over which to extract peaks.
         """
         for k, v in kwds.items():
-            if k in self.extractvars:
-                if quiet:
-                    logger.debug("Setting variable %s=%s", k, v)
-                else:
-                    logger.info("Setting variable %s=%s", k, v)
-                setattr(self, k, v)
-            else:
+            if k not in self.extractvars:
                 emsg = "Invalid extraction variable: %s=%s" % (k, v)
                 raise ValueError(emsg)
+        for k, v in kwds.items():
+            if quiet:
+                logger.debug("Setting variable %s=%s", k, v)
+            else:
+                logger.info("Setting variable %s=%s", k, v)
+            setattr(self, k, v)
         self.defaultvars()
 
     def defaultvars(self, *args):
-- 
2.43.0


From 15ddf8f0f6e6c79324a6e372f9501058241198e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:50:03 +0000
Subject: [PATCH 69/80] fix: a PDF file that cannot be read discarded the
 extraction it was meant for

---
 src/diffpy/srmise/pdfpeakextraction.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/diffpy/srmise/pdfpeakextraction.py b/src/diffpy/srmise/pdfpeakextraction.py
index bae134e..22d7a5c 100644
--- a/src/diffpy/srmise/pdfpeakextraction.py
+++ b/src/diffpy/srmise/pdfpeakextraction.py
@@ -78,13 +78,15 @@ class PDFPeakExtraction(PeakExtraction):
         pdf: PDFDataSet instance or str
             The PDFDataSet instance or a PDF file name.
         """
-        self.clear()
+        filename = None
         if isinstance(pdf, PDFDataSet):
             d = pdf
         else:
             d = PDFDataSet("ForPeakExtraction")
             d.read(pdf)
-            self.filename = os.path.abspath(pdf)
+            filename = os.path.abspath(pdf)
+        self.clear()
+        self.filename = filename
         self.setdata(d.robs, d.Gobs, d.drobs, d.dGobs)
         self.qmax_reportedbypdf = d.qmax
         return
-- 
2.43.0


From aeb8005bf032ce523ec503f8975f66d7b943de57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:50:03 +0000
Subject: [PATCH 70/80] fix: reading a malformed extraction left a half-read
 one behind

---
 src/diffpy/srmise/peakextraction.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/diffpy/srmise/peakextraction.py b/src/diffpy/srmise/peakextraction.py
index f433b3e..38348c0 100644
--- a/src/diffpy/srmise/peakextraction.py
+++ b/src/diffpy/srmise/peakextraction.py
@@ -337,11 +337,14 @@ class PeakExtraction(object):
         datastring : array-like
             The raw data to read
         """
+        before = self.__dict__.copy()
         try:
             self._readstr(datastring)
         except SrMiseDataFormatError:
+            self.__dict__ = before
             raise
         except Exception as err:
+            self.__dict__ = before
             # Missing sections and fields, unknown functions, invalid values...
             emsg = "Malformed or incomplete data: %s: %s" % (type(err).__name__, err)
             raise SrMiseDataFormatError(emsg)
-- 
2.43.0


From 1b05b83396f4d39f262c2c6c7fca3aa334bd4d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:50:03 +0000
Subject: [PATCH 71/80] fix: reading malformed PDF data left a half-read data
 set behind

---
 src/diffpy/srmise/pdfdataset.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/diffpy/srmise/pdfdataset.py b/src/diffpy/srmise/pdfdataset.py
index 848bbe6..7571ab9 100644
--- a/src/diffpy/srmise/pdfdataset.py
+++ b/src/diffpy/srmise/pdfdataset.py
@@ -228,6 +228,7 @@ class PDFDataSet(PDFComponent):
         -------
         self
         """
+        before = self.__dict__.copy()
         self.clear()
         # useful regex patterns:
         rx = {"f": r"[-+]?(\d+(\.\d*)?|\d*\.\d+)([eE][-+]?\d+)?"}
@@ -335,6 +336,7 @@ class PDFDataSet(PDFComponent):
             if not has_dGobs:
                 self.dGobs = len(self.robs) * [0.0]
         except (ValueError, IndexError) as err:
+            self.__dict__ = before
             raise PDFDataFormatError(err)
         self.rmin = self.robs[0]
         self.rmax = self.robs[-1]
-- 
2.43.0


From 21fa0ef4142589c1c9269a135c785be65f6e982b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:50:03 +0000
Subject: [PATCH 72/80] fix: opening a damaged stability series replaced the
 present one in part

---
 src/diffpy/srmise/peakstability.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/diffpy/srmise/peakstability.py b/src/diffpy/srmise/peakstability.py
index 2249a2e..dc248f4 100644
--- a/src/diffpy/srmise/peakstability.py
+++ b/src/diffpy/srmise/peakstability.py
@@ -48,14 +48,14 @@ class PeakStability:
 
         in_s = open(filename, "rb")
         try:
-            (self.results, ppestr) = pickle.load(in_s)
-            self.ppe = PDFPeakExtraction()
-            self.ppe.readstr(ppestr)
+            (results, ppestr) = pickle.load(in_s)
+            ppe = PDFPeakExtraction()
+            ppe.readstr(ppestr)
 
             # Ugly kluge for the baseline, since FromSequence
             # can't pickle.
-            for r in self.results:
-                bl = self.ppe.baseline
+            for r in results:
+                bl = ppe.baseline
                 kwds = r[2]
                 if r[2] is not None:
                     kwds = r[2]
@@ -66,6 +66,7 @@ class PeakStability:
         finally:
             in_s.close()
 
+        self.results, self.ppe = results, ppe
         self.setcurrent(0 if self.results else None)
 
     def save(self, filename):
-- 
2.43.0


From f3197505c4803e0868960d62da7fe1cbb9cfc50b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:50:03 +0000
Subject: [PATCH 73/80] fix: a stability series that cannot be saved emptied
 the file it was to replace

---
 src/diffpy/srmise/peakstability.py | 36 ++++++++++++++++--------------
 1 file changed, 19 insertions(+), 17 deletions(-)

diff --git a/src/diffpy/srmise/peakstability.py b/src/diffpy/srmise/peakstability.py
index dc248f4..97b770a 100644
--- a/src/diffpy/srmise/peakstability.py
+++ b/src/diffpy/srmise/peakstability.py
@@ -74,26 +74,28 @@ class PeakStability:
             import cPickle as pickle
         except ImportError:
             import pickle
+        outstr = self.ppe.writestr()
+
+        # ugly kluge to let FromSequence pickle
+        # (it stores xyrepr() in metadict)
+        results2 = []
+        for r in self.results:
+            if r[2] is None:
+                bldict = None
+            else:
+                bldict = {
+                    "pars": r[2].pars,
+                    "free": r[2].free,
+                    "removable": r[2].removable,
+                    "static_owner": r[2].static_owner,
+                }
+            results2.append([r[0], r[1], bldict, r[3]])
+        outbytes = pickle.dumps([results2, outstr])
+
         out_s = open(filename, "wb")
         try:
             # Write to the stream
-            outstr = self.ppe.writestr()
-
-            # ugly kluge to let FromSequence pickle
-            # (it stores xyrepr() in metadict)
-            results2 = []
-            for r in self.results:
-                if r[2] is None:
-                    bldict = None
-                else:
-                    bldict = {
-                        "pars": r[2].pars,
-                        "free": r[2].free,
-                        "removable": r[2].removable,
-                        "static_owner": r[2].static_owner,
-                    }
-                results2.append([r[0], r[1], bldict, r[3]])
-            pickle.dump([results2, outstr], out_s)
+            out_s.write(outbytes)
         finally:
             out_s.close()
 
-- 
2.43.0


From f703963dff14a7274dd0fd575f1cea89798cdd16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:50:03 +0000
Subject: [PATCH 74/80] fix: choosing a result that does not exist changed
 which one is current

---
 src/diffpy/srmise/peakstability.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/peakstability.py b/src/diffpy/srmise/peakstability.py
index 97b770a..68739e9 100644
--- a/src/diffpy/srmise/peakstability.py
+++ b/src/diffpy/srmise/peakstability.py
@@ -143,9 +143,9 @@ class PeakStability:
         -------
         None
         """
+        result = self.results[idx] if idx is not None else None
         self.current = idx
         if idx is not None:
-            result = self.results[idx]
             self.ppe.setvars(quiet=True, effective_dy=result[0] * np.ones(len(self.ppe.x)))
             (r, y, dr, dy) = self.ppe.resampledata(result[3])
             # Later work on the active model must not alter the record.
-- 
2.43.0


From f87da7174278c24be46ffb8d9f435eefb53ff558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:50:03 +0000
Subject: [PATCH 75/80] fix: loading a file that holds no statistics discarded
 those present

---
 src/diffpy/srmise/multimodelselection.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/diffpy/srmise/multimodelselection.py b/src/diffpy/srmise/multimodelselection.py
index 42f3414..24c005b 100644
--- a/src/diffpy/srmise/multimodelselection.py
+++ b/src/diffpy/srmise/multimodelselection.py
@@ -164,6 +164,13 @@ class MultimodelSelection(PeakStability):
 
         em = self.ppe.error_method
 
+        # Reconstruct in terms of AIC instances instead of the raw statistic found in file
+        for dg in aics_in:
+            for i, stat in enumerate(aics_in[dg]):
+                em_instance = em()
+                em_instance.stat = stat
+                aics_in[dg][i] = em_instance
+
         self.aics = aics_in
         self.dgs = np.sort(list(aics_in.keys()))
         self.dgs_idx = {}
@@ -171,13 +178,6 @@ class MultimodelSelection(PeakStability):
         for i, dg in enumerate(self.dgs):
             self.dgs_idx[dg] = i
 
-        # Reconstruct in terms of AIC instances instead of the raw statistic found in file
-        for dg in self.aics:
-            for i, stat in enumerate(self.aics[dg]):
-                em_instance = em()
-                em_instance.stat = stat
-                self.aics[dg][i] = em_instance
-
         self.makeaicweights()
         self.makeaicprobs()
         self.makesortedprobs()
-- 
2.43.0


From 64204831a8cc23b960491adf1536458f7149e819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:50:03 +0000
Subject: [PATCH 76/80] fix: a refused live plotting setting was set in part

---
 src/diffpy/srmise/srmiselog.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/diffpy/srmise/srmiselog.py b/src/diffpy/srmise/srmiselog.py
index 3e32105..0708902 100644
--- a/src/diffpy/srmise/srmiselog.py
+++ b/src/diffpy/srmise/srmiselog.py
@@ -147,18 +147,17 @@ def liveplotting(lp, w=False):
     """
     global liveplots
     global wait
-    if lp is True or lp is False:
-        liveplots = lp
-    else:
+    if not (lp is True or lp is False):
         emsg = "Parameter lp must be a boolean."
         raise ValueError(emsg)
 
-    if w is True or w is False:
-        wait = w
-    else:
+    if not (w is True or w is False):
         emsg = "Parameter w must be a boolean."
         raise ValueError(emsg)
 
+    liveplots = lp
+    wait = w
+
 
 # TracePeaks.  Primary purpose is to enable creating movies. ###
 
-- 
2.43.0


From 68b755a486b30f9dec3b157c6ee1faedb102a791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:50:03 +0000
Subject: [PATCH 77/80] fix: a step that cannot be written emptied the file it
 was to replace

---
 src/diffpy/srmise/srmiselog.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/srmiselog.py b/src/diffpy/srmise/srmiselog.py
index 0708902..60e4068 100644
--- a/src/diffpy/srmise/srmiselog.py
+++ b/src/diffpy/srmise/srmiselog.py
@@ -237,8 +237,8 @@ class TracePeaks(object):
     def write(self, trace):
         """Write current trace to file."""
         filename = "%s_%i" % (self.filebase, trace["counter"])
-        f = open(filename, "w")
         bytes = self.writestr(trace)
+        f = open(filename, "w")
         f.write(bytes)
         f.close()
 
-- 
2.43.0


From aa4ef61b7988d08cc10f8639fdf3b87ce3a1ddcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:50:04 +0000
Subject: [PATCH 78/80] fix: too few values changed the first parts of a model
 although refused

---
 src/diffpy/srmise/modelparts.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/diffpy/srmise/modelparts.py b/src/diffpy/srmise/modelparts.py
index f153b85..707cf1c 100644
--- a/src/diffpy/srmise/modelparts.py
+++ b/src/diffpy/srmise/modelparts.py
@@ -273,6 +273,9 @@ class ModelParts(list):
         if np.isnan(freepars).any():
             emsg = "Non-numeric free parameters."
             raise ValueError(emsg)
+        if len(freepars) < self.npars(count_fixed=False):
+            emsg = "Argument freepars does not have enough elements to update every free parameter."
+            raise ValueError(emsg)
         freeidx = 0
         for p in self:
             freeidx += p.update(freepars[freeidx:])
-- 
2.43.0


From d7676a6267193d11562e9dc644613454146b19ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:48:54 +0000
Subject: [PATCH 79/80] fix: a covariance for the free parameters may be given
 as a list, as a full one may

---
 src/diffpy/srmise/modelcluster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/modelcluster.py b/src/diffpy/srmise/modelcluster.py
index e67328c..c1a34d7 100644
--- a/src/diffpy/srmise/modelcluster.py
+++ b/src/diffpy/srmise/modelcluster.py
@@ -134,7 +134,7 @@ class ModelCovariance(object):
                 if free[i]:
                     for j in range(n):
                         if free[j]:
-                            self.cov[i, j] = cov[rawi, rawj]
+                            self.cov[i, j] = tempcov[rawi, rawj]
                             rawj += 1
                     rawi += 1
 
-- 
2.43.0


From da93a362e6022701d97de10968d26fe5bc286a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:49:02 +0000
Subject: [PATCH 80/80] fix: a part whose change of variables has no derivative
 keeps its parameterization, as logged

---
 src/diffpy/srmise/modelcluster.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/diffpy/srmise/modelcluster.py b/src/diffpy/srmise/modelcluster.py
index c1a34d7..42651ee 100644
--- a/src/diffpy/srmise/modelcluster.py
+++ b/src/diffpy/srmise/modelcluster.py
@@ -219,13 +219,13 @@ class ModelCovariance(object):
                     "Transformation gradient not implemented for part %i: %s.  Ignoring transformation."
                     % (i, str(p))
                 )
-                subg = np.identity(p.npars(True))
+                continue
             except Exception as e:
                 logger.warning(
                     "Transformation gradient failed for part %i: %s. "
                     "Failed with message %s. Ignoring transformation." % (i, str(p), str(e))
                 )
-                subg = np.identity(p.npars(True))
+                continue
 
             # Now transform the parameters to match
             try:
-- 
2.43.0

