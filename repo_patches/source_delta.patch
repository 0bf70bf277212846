From 6b6ff35f3fc4b482f18137cf218baff0e8b0cd8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:12 +0000
Subject: [PATCH 01/82] fix: use a large finite cell size for brute, since
 infinity is not safe with -ffast-math

With brute=True and the OldRperp metric, cells at equal distances made inf * 0 = NaN
cell sizes, and whole branches of pairs were dropped or put in one bin.
---
 src/Cell.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/Cell.cpp b/src/Cell.cpp
index 90f9aad..fbf887c 100644
--- a/src/Cell.cpp
+++ b/src/Cell.cpp
@@ -591,8 +591,12 @@ Cell<D,C>* BuildCell(std::vector<std::pair<BaseCellData<C>*,WPosLeafInfo> >& vda
     xdbg<<"sizesq = "<<sizesq<<" cf. "<<minsizesq<<", brute="<<brute<<std::endl;
     if (sizesq > minsizesq) {
         // If size is large enough, recurse to leaves.
-        double size = brute ? std::numeric_limits<double>::infinity() : sqrt(sizesq);
-        if (brute) sizesq = std::numeric_limits<double>::infinity();
+        // For brute, use a size that is larger than any real size, so the cell always splits.
+        // Not infinity, since we compile with -ffast-math, where inf - inf or inf * 0 in the
+        // metric calculations can lead to arbitrary results.
+        const double brute_size = 1.e30;
+        double size = brute ? brute_size : sqrt(sizesq);
+        if (brute) sizesq = brute_size * brute_size;
         xdbg<<"size,sizesq = "<<size<<","<<sizesq<<std::endl;
         size_t mid = SplitData<C,SM>(vdata,start,end,data->getPos());
         Cell<D,C>* l = BuildCell<D,C,SM>(vdata,minsizesq,brute,start,mid);
-- 
2.43.0


From 3e3e5cda40608ebea05639e3629904e1c137b6a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:12 +0000
Subject: [PATCH 02/82] fix: set r when a pair of cells falls in a single TwoD
 bin

It was left as 0, so meanr was too small for bin_type='TwoD'.
---
 include/BinType.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/BinType.h b/include/BinType.h
index 9a480e1..07556fd 100644
--- a/include/BinType.h
+++ b/include/BinType.h
@@ -368,6 +368,7 @@ struct BinTypeHelper<TwoD>
 
         int n = int(2*maxsep / binsize+0.5);
         k = j*n + i;
+        r = sqrt(rsq); // If we set k, then r and logr need to be set too.
         logr = 0.5*std::log(rsq);
         xdbg<<"Single bin returning true: "<<dx<<','<<dy<<','<<s1ps2<<','<<binsize<<std::endl;
         return true;
-- 
2.43.0


From 2d94d301997d9926aef63a462c3eb4a98fca9155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:12 +0000
Subject: [PATCH 03/82] fix: keep splitting TwoD cells that straddle min_sep

With bin_type='TwoD' and min_sep > 0, a pair of cells inside one bin was counted or dropped as
a whole according to the separation of its centers.
---
 include/BinType.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/BinType.h b/include/BinType.h
index 07556fd..a5b823c 100644
--- a/include/BinType.h
+++ b/include/BinType.h
@@ -358,6 +358,9 @@ struct BinTypeHelper<TwoD>
         int mid = int(maxsep/binsize);
         if (i == mid && j == mid) return false;
 
+        // Also, the bins near the center may be partly inside minsep.
+        if (minsep > 0. && rsq < SQR(minsep + s1ps2)) return false;
+
         // Check how much ii,jj can change for x,y +- s1ps2
         // This is simpler than the Log case, because we don't have to try to avoid
         // gratuitous log function calls.
-- 
2.43.0


From 88a6890faac62e3cdc42995eb146769074b00c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:12 +0000
Subject: [PATCH 04/82] fix: Arc distances larger than 90 degrees for 3d
 coordinates

The arcsin of the normalized cross product gave 180 degrees minus the angle for these.
---
 include/Metric.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/Metric.h b/include/Metric.h
index 95bdea6..0d56eca 100644
--- a/include/Metric.h
+++ b/include/Metric.h
@@ -646,9 +646,9 @@ struct MetricHelper<Arc, P>
 
     double Dist(const Position<ThreeD>& p1, const Position<ThreeD>& p2) const
     {
-        // sin(theta) = |p1 x p2| / |p1| |p2|
-        double sintheta = p1.cross(p2).norm() / (p1.norm() * p2.norm());
-        double theta = std::asin(sintheta);
+        // tan(theta) = |p1 x p2| / p1 . p2
+        // Note: use atan2, not asin of the cross product, which would fold angles > 90 degrees.
+        double theta = std::atan2(p1.cross(p2).norm(), p1.dot(p2));
         return theta;
     }
 
-- 
2.43.0


From 61b0b53686ed612cc11427cb963c22ca3056b855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:39 +0000
Subject: [PATCH 05/82] fix: use the unscaled cell sizes for the r_parallel
 limits of the Rlens metric

DistSq reduces s2 by r1/r2, which is right for Rlens but not for r_parallel, so pairs outside
(inside) the range were included (excluded) along with the centers of their cells.
---
 include/Metric.h | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/include/Metric.h b/include/Metric.h
index 0d56eca..ca1d4f9 100644
--- a/include/Metric.h
+++ b/include/Metric.h
@@ -557,11 +557,26 @@ struct MetricHelper<Rlens, P>
 
     bool isRParOutsideRange(const Position<ThreeD>& p1, const Position<ThreeD>& p2,
                             double s1ps2, double& rpar) const
-    { return ParHelper<P>::isRParOutsideRange(p1,p2,minrpar,maxrpar,s1ps2,rpar); }
+    {
+        // Remember that s2 has been scaled by r1/r2, but rpar depends on the real 3d size.
+        // So scale it back up if s2 was reduced.
+        return ParHelper<P>::isRParOutsideRange(p1,p2,minrpar,maxrpar,
+                                                s1ps2 * scaleUp(p1,p2), rpar);
+    }
 
     bool isRParInsideRange(const Position<ThreeD>& p1, const Position<ThreeD>& p2,
                            double s1ps2, double rpar) const
-    { return ParHelper<P>::isRParInsideRange(p1,p2,minrpar,maxrpar,s1ps2,rpar); }
+    {
+        // Again scale s1ps2 back up to real 3d size.
+        return ParHelper<P>::isRParInsideRange(p1,p2,minrpar,maxrpar,
+                                               s1ps2 * scaleUp(p1,p2), rpar);
+    }
+
+    static double scaleUp(const Position<ThreeD>& p1, const Position<ThreeD>& p2)
+    {
+        if (P == 0) return 1.;
+        else return std::max(1., sqrt(p2.normSq() / p1.normSq()));
+    }
 
     // We've already accounted for the way that the raw s1+s2 may not be sufficient in DistSq
     // where we update s2 according to the relative distances.  So there is nothing further to
-- 
2.43.0


From 90af7d36cd5584275466479b72920ef026853239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:39 +0000
Subject: [PATCH 06/82] fix: don't skip small cells for the Arc metric by
 comparing their size to min_sep

The size is a chord length (or for 3d a distance in other units), so an auto-correlation lost
pairs whose separation is larger than min_sep.
---
 src/Corr2.cpp | 4 +++-
 src/Corr3.cpp | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/Corr2.cpp b/src/Corr2.cpp
index ccebc52..7675927 100644
--- a/src/Corr2.cpp
+++ b/src/Corr2.cpp
@@ -280,7 +280,9 @@ template <int B, int M, int P, int C>
 void BaseCorr2::process2(const BaseCell<C>& c12, const MetricHelper<M,P>& metric)
 {
     if (c12.getW() == 0.) return;
-    if (c12.getSize() <= _halfminsep) return;
+    // Note: For Arc, minsep is an angle, but the size is a chord or a 3d distance, so it's not
+    // valid to compare them.  (The angle between two points may be larger than 2 * size.)
+    if (c12.getSize() <= (M == Arc ? 0. : _halfminsep)) return;
 
     Assert(c12.getLeft());
     Assert(c12.getRight());
diff --git a/src/Corr3.cpp b/src/Corr3.cpp
index b93d8bb..41e8768 100644
--- a/src/Corr3.cpp
+++ b/src/Corr3.cpp
@@ -435,7 +435,9 @@ void BaseCorr3::process3(const BaseCell<C>& c1, const MetricHelper<M,0>& metric)
         xdbg<<ws()<<"    w == 0.  return\n";
         return;
     }
-    if (c1.getSize() < _halfminsep) {
+    // Note: For Arc, minsep is an angle, but the size is a chord or a 3d distance, so it's not
+    // valid to compare them.  (The angle between two points may be larger than 2 * size.)
+    if (M == Arc ? c1.getSize() == 0. : c1.getSize() < _halfminsep) {
         xdbg<<ws()<<"    size < halfminsep.  return\n";
         return;
     }
-- 
2.43.0


From b807e68d2ef060f5e8a5207eba933d03e2d83430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:52 +0000
Subject: [PATCH 07/82] fix: account for wide angles in the r_parallel limits
 for pairs of cells

rpar can change by more than s1+s2 when the two points are not in nearly the same direction, so
min_rpar and max_rpar could include or exclude whole cells wrongly, even with bin_slop=0.
---
 include/Metric.h | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/include/Metric.h b/include/Metric.h
index ca1d4f9..a6954de 100644
--- a/include/Metric.h
+++ b/include/Metric.h
@@ -58,13 +58,32 @@ struct ParHelper<1> // P = 1 for most Metrics (all except OldRPerp)
         return r.dot(L) / L.norm();
     }
 
+    // Calculate how much rpar can change if the points move by a total of s1ps2.
+    // The gradient of rpar with respect to either point is Lhat plus a vector perpendicular to
+    // it of length rperp/|2L|.  For the usual narrow angle case, this is very nearly 1.
+    // But for wide angles, rpar can change by more than s1ps2.
+    // Returns false if there is no useful bound, since |L| might be 0.
+    static bool calculateMaxDeltaRPar(const Position<ThreeD>& p1, const Position<ThreeD>& p2,
+                                      double s1ps2, double& drpar)
+    {
+        drpar = s1ps2;
+        if (s1ps2 == 0.) return true;
+        double twoL = (p1+p2).norm();
+        if (s1ps2 >= twoL) return false;
+        double maxd = (p2-p1).norm() + s1ps2;
+        drpar *= sqrt(1. + SQR(maxd / (twoL - s1ps2)));
+        return true;
+    }
+
     static bool isRParOutsideRange(const Position<ThreeD>& p1, const Position<ThreeD>& p2,
                                    const double minrpar, const double maxrpar,
                                    double s1ps2, double& rpar)
     {
         rpar = calculateRPar(p1,p2);
-        if (rpar + s1ps2 < minrpar) return true;
-        else if (rpar - s1ps2 > maxrpar) return true;
+        double drpar;
+        if (!calculateMaxDeltaRPar(p1,p2,s1ps2,drpar)) return false;
+        if (rpar + drpar < minrpar) return true;
+        else if (rpar - drpar > maxrpar) return true;
         else return false;
     }
 
@@ -72,8 +91,10 @@ struct ParHelper<1> // P = 1 for most Metrics (all except OldRPerp)
                                   const double minrpar, const double maxrpar,
                                   double s1ps2, double rpar)
     {
-        if (rpar - s1ps2 < minrpar) return false;
-        else if (rpar + s1ps2 > maxrpar) return false;
+        double drpar;
+        if (!calculateMaxDeltaRPar(p1,p2,s1ps2,drpar)) return false;
+        if (rpar - drpar < minrpar) return false;
+        else if (rpar + drpar > maxrpar) return false;
         else return true;
     }
 };
-- 
2.43.0


From 449cfb5a54297d7b1942d5c3aede5a16e70c1417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:17 +0000
Subject: [PATCH 08/82] fix: use the full angular size of cells for the Arc
 metric with 3d coordinates

---
 include/Metric.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/Metric.h b/include/Metric.h
index a6954de..caa275f 100644
--- a/include/Metric.h
+++ b/include/Metric.h
@@ -675,11 +675,16 @@ struct MetricHelper<Arc, P>
     {
         double dsq = SQR(Dist(p1,p2));
         // Also the sizes need to be converted to the effective size on the unit sphere
-        s1 /= p1.norm();
-        s2 /= p2.norm();
+        s1 = angularSize(s1 / p1.norm());
+        s2 = angularSize(s2 / p2.norm());
         return dsq;
     }
 
+    // The angular radius of a cell with radius t relative to its distance is asin(t), or up to
+    // pi if it includes the origin.  For t<1, asin(t) <= t * (1 + (pi/2-1) t^2).
+    static double angularSize(double t)
+    { return t < 1. ? t * (1. + 0.570797 * t*t) : M_PI * t; }
+
     double Dist(const Position<ThreeD>& p1, const Position<ThreeD>& p2) const
     {
         // tan(theta) = |p1 x p2| / p1 . p2
-- 
2.43.0


From 6d145da4c662bc338a1d5d480d1d156bd3fa5cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:17 +0000
Subject: [PATCH 09/82] fix: count pairs across patches in both orders for TwoD
 auto-correlations

---
 treecorr/corr2base.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/treecorr/corr2base.py b/treecorr/corr2base.py
index 09a3cd8..d1db42d 100644
--- a/treecorr/corr2base.py
+++ b/treecorr/corr2base.py
@@ -781,11 +781,16 @@ class Corr2(object):
                 cat2e.name = cat1.name + " (expanded)"
         return cat2e
 
-    def _single_process12(self, c1, c2, ij, metric, num_threads, temp, force_write=False):
+    def _single_process12(self, c1, c2, ij, metric, num_threads, temp, force_write=False,
+                          both_orders=False):
         # Helper function for _process_all_auto and _process_cross for doing cross pairs.
         temp._clear()
         if c2 is not None and not self._trivially_zero(c1, c2):
             temp.process_cross(c1, c2, metric=metric, num_threads=num_threads)
+            if both_orders:
+                # An auto-correlation with TwoD binning counts each pair in both orders.
+                # Note: Skip any overrides, which would count tot twice.
+                Corr2.process_cross(temp, c2, c1, metric=metric, num_threads=num_threads)
         else:
             self.logger.info('Skipping %s pair, which are too far apart ' +
                              'for this set of separations',ij)
@@ -888,7 +893,8 @@ class Corr2(object):
                         j = c2._single_patch if c2._single_patch is not None else jj
                         if i < j and is_my_job(my_indices, i, j, n):
                             self.logger.info('Process patches %d, %d cross',i,j)
-                            self._single_process12(c1, c2, (i,j), metric, num_threads, temp)
+                            self._single_process12(c1, c2, (i,j), metric, num_threads, temp,
+                                                   both_orders=(self.bin_type == 'TwoD'))
                             if low_mem and jj != ii+1:
                                 # Don't unload i+1, since that's the next one we'll need.
                                 c2.unload()
-- 
2.43.0


From 1c9081ce480d6e8f7aab2934ca0de87c6b0a8fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:06 +0000
Subject: [PATCH 10/82] fix: include everything within range in the expanded
 patches for patch_method=local

---
 treecorr/corr2base.py | 56 +++++++++++++++++++++++++++----------------
 treecorr/corr3base.py |  1 +
 2 files changed, 36 insertions(+), 21 deletions(-)

diff --git a/treecorr/corr2base.py b/treecorr/corr2base.py
index d1db42d..996a9f3 100644
--- a/treecorr/corr2base.py
+++ b/treecorr/corr2base.py
@@ -727,16 +727,39 @@ class Corr2(object):
         return self.corr.triviallyZero(self._metric, self._coords,
                                        x1, y1, z1, s1, x2, y2, z2, s2)
 
+    @staticmethod
+    def _unit_vectors(x, y, z):
+        r = np.sqrt(x**2 + y**2 + z**2)
+        r = np.where(r == 0, 1, r)
+        return x/r, y/r, z/r
+
     def _make_expanded_patch(self, cat1, cat2, metric, low_mem):
-        # First figure out the center and size of cat1.
+        # First figure out the center and size of cat1, and how far from it anything that
+        # pairs with it can be.
         x1,y1,z1,s1 = cat1._get_center_size()
-
-        if self._coords == _treecorr.ThreeD:
-            # For 3d coords, we collapse everything onto the unit circle, since that's
-            # what we care about for patch considerations.
-            r = np.sqrt(x1**2 + y1**2 + z1**2)
-            if r != 0:  # pragma: no branch
-                x1 /= r; y1 /= r; z1 /= r
+        max_sep = self._max_sep
+        if self.bin_type == 'TwoD':
+            # The corners of the 2d grid are farther away than max_sep.
+            max_sep *= 2**0.5
+
+        arc3d = self._coords == _treecorr.ThreeD and self.metric == 'Arc'
+        if arc3d:
+            # For Arc, only the directions matter, so collapse everything onto the unit sphere.
+            x1,y1,z1 = self._unit_vectors(x1,y1,z1)
+            px,py,pz = self._unit_vectors(cat1.x,cat1.y,cat1.z)
+            s1 = np.max((px-x1)**2 + (py-y1)**2 + (pz-z1)**2)**0.5
+        elif self.metric not in ['Euclidean', 'Arc', 'Periodic']:
+            # The other metrics don't limit the full 3d distance.
+            max_sep = np.inf
+
+        def distance(x, y, z):
+            dx = x-x1; dy = y-y1; dz = z-z1
+            if self.metric == 'Periodic':
+                dx = dx - self.xperiod * np.round(dx / self.xperiod)
+                dy = dy - self.yperiod * np.round(dy / self.yperiod)
+                if self.zperiod != 0:
+                    dz = dz - self.zperiod * np.round(dz / self.zperiod)
+            return np.sqrt(dx**2 + dy**2 + dz**2)
 
         cat_list = []
         mask_list = []
@@ -744,23 +767,14 @@ class Corr2(object):
         for p in cat2:
             sumw += p.sumw
             x2,y2,z2,s2 = p._get_center_size()
-            if self._coords == _treecorr.ThreeD:
-                r = np.sqrt(x2**2 + y2**2 + z2**2)
-                if r != 0:
-                    x2 /= r; y2 /= r; z2 /= r
-            if ((x2-x1)**2 + (y2-y1)**2 + (z2-z1)**2)**0.5 > self._max_sep + s1 + s2:
+            if not arc3d and distance(x2,y2,z2) > max_sep + s1 + s2:
                 if low_mem and p is not cat1:
                     p.unload()
                 continue
             px = p.x; py = p.y; pz = 0 if p.z is None else p.z
-            if self._coords == _treecorr.ThreeD:
-                pr = np.sqrt(px**2 + py**2 + pz**2)
-                pr[pr==0] = 1
-                # Don't divide in place.  That would change p's internals.
-                px = px/pr; py = py/pr; pz = pz/pr
-            dsq = (px-x1)**2 + (py-y1)**2 + (pz-z1)**2
-            d = np.sqrt(dsq)
-            mask = np.where(d < s1+self._max_sep)
+            if arc3d:
+                px,py,pz = self._unit_vectors(px,py,pz)
+            mask = np.where(distance(px,py,pz) < s1 + max_sep)
             if len(mask[0]) == 0:
                 if low_mem and p is not cat1:
                     p.unload()
diff --git a/treecorr/corr3base.py b/treecorr/corr3base.py
index 2b7af88..6ad05c0 100644
--- a/treecorr/corr3base.py
+++ b/treecorr/corr3base.py
@@ -1121,6 +1121,7 @@ class Corr3(object):
         d3, d2, d1 = sorted([d1,d2,d3])
         return (d2 > s1 + s2 + s3 + 2*self._max_sep)  # The 2* is where we are being conservative.
 
+    _unit_vectors = staticmethod(Corr2._unit_vectors)
     _make_expanded_patch = Corr2._make_expanded_patch
 
     def _single_process12(self, c1, c2, ijj, metric, ordered, num_threads, temp, force_write):
-- 
2.43.0


From f04ae2af11955a2d0e5993abf34a9997bf398e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:51 +0000
Subject: [PATCH 11/82] fix: include the tot of patch pairs that are skipped
 for being too far apart

---
 treecorr/corr2base.py     | 12 ++++++++++--
 treecorr/nncorrelation.py |  3 +++
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/treecorr/corr2base.py b/treecorr/corr2base.py
index 996a9f3..4d96bef 100644
--- a/treecorr/corr2base.py
+++ b/treecorr/corr2base.py
@@ -721,6 +721,11 @@ class Corr2(object):
         # No op for all but NNCorrelation, which needs to add the tot value
         pass
 
+    def _set_skipped_tot(self, c1, cat2):
+        # No op for all but NNCorrelation, which needs the tot value of the pairs of c1 with
+        # everything in the list cat2, even though they are all too far apart to contribute.
+        pass
+
     def _trivially_zero(self, c1, c2):
         x1,y1,z1,s1 = c1._get_center_size()
         x2,y2,z2,s2 = c2._get_center_size()
@@ -796,7 +801,7 @@ class Corr2(object):
         return cat2e
 
     def _single_process12(self, c1, c2, ij, metric, num_threads, temp, force_write=False,
-                          both_orders=False):
+                          both_orders=False, all_cat2=None):
         # Helper function for _process_all_auto and _process_cross for doing cross pairs.
         temp._clear()
         if c2 is not None and not self._trivially_zero(c1, c2):
@@ -808,6 +813,8 @@ class Corr2(object):
         else:
             self.logger.info('Skipping %s pair, which are too far apart ' +
                              'for this set of separations',ij)
+            if force_write:
+                temp._set_skipped_tot(c1, [c2] if c2 is not None else all_cat2)
         if temp.nonzero or force_write:
             if ij in self.results and self.results[ij].nonzero:
                 self.results[ij] += temp
@@ -982,7 +989,8 @@ class Corr2(object):
                     if is_my_job(my_indices, i, i, n1, n2):
                         c2e = self._make_expanded_patch(c1, cat2, metric, low_mem)
                         self.logger.info('Process patch %d with surrounding local patches',i)
-                        self._single_process12(c1, c2e, (i,i), metric, num_threads, temp, True)
+                        self._single_process12(c1, c2e, (i,i), metric, num_threads, temp, True,
+                                               all_cat2=cat2)
                         if low_mem:
                             c1.unload()
             else:
diff --git a/treecorr/nncorrelation.py b/treecorr/nncorrelation.py
index 3f1e681..4018e9c 100644
--- a/treecorr/nncorrelation.py
+++ b/treecorr/nncorrelation.py
@@ -247,6 +247,9 @@ class NNCorrelation(Corr2):
             np.sum([c.npairs for c in others], axis=0, out=self.npairs)
         self.tot = tot
 
+    def _set_skipped_tot(self, c1, cat2):
+        self.tot = c1.sumw * np.sum([c2.sumw for c2 in cat2])
+
     def _add_tot(self, ij, c1, c2):
         # When storing results from a patch-based run, tot needs to be accumulated even if
         # the total weight being accumulated comes out to be zero.
-- 
2.43.0


From 7812a48151cfebb649a62aa51ac5de7004bb2ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:07 +0000
Subject: [PATCH 12/82] fix: put the center of spherical patches on the sphere,
 so their sizes are consistent

---
 treecorr/catalog.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/treecorr/catalog.py b/treecorr/catalog.py
index 8fb02db..4e9be01 100644
--- a/treecorr/catalog.py
+++ b/treecorr/catalog.py
@@ -1290,10 +1290,16 @@ class Catalog(object):
         if not hasattr(self, '_cen_s'):
             mx = np.mean(self.x)
             my = np.mean(self.y)
-            mz = 0
+            mz = np.mean(self.z) if self.z is not None else 0
+            if self.coords == 'spherical':
+                # Use a center on the unit sphere, so the size is appropriate for that center.
+                r = (mx**2 + my**2 + mz**2)**0.5
+                if r > 1.e-10:
+                    mx, my, mz = mx/r, my/r, mz/r
+                else:
+                    mx, my, mz = self.x[0], self.y[0], self.z[0]
             dsq = (self.x - mx)**2 + (self.y - my)**2
             if self.z is not None:
-                mz = np.mean(self.z)
                 dsq += (self.z - mz)**2
             s = np.max(dsq)**0.5
             self._cen_s = (mx, my, mz, s)
-- 
2.43.0


From b3a47246b1b058412b90c3f9da8a7e0ead56cfd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:49 +0000
Subject: [PATCH 13/82] fix: don't share the results dict between a correlation
 and its copy

---
 treecorr/corr2base.py | 26 ++++++++++++++++----------
 treecorr/corr3base.py | 28 ++++++++++++++++------------
 2 files changed, 32 insertions(+), 22 deletions(-)

diff --git a/treecorr/corr2base.py b/treecorr/corr2base.py
index 4d96bef..9926884 100644
--- a/treecorr/corr2base.py
+++ b/treecorr/corr2base.py
@@ -678,9 +678,12 @@ class Corr2(object):
                 # In particular don't deep copy config or logger
                 # Most of the rest are scalars, which copy fine this way.
                 # And the read-only things are all in _ro.
-                # The results dict is trickier.  We rely on it being copied in places, but we
-                # never add more to it after the copy, so shallow copy is fine.
                 ret.__dict__[key] = item
+        # The containers need to be copied, since either object might add more to them later.
+        # Their contents are never changed in place, so shallow copies are fine.
+        for key in ['results', '_processed_cats1', '_processed_cats2']:
+            if key in ret.__dict__:
+                ret.__dict__[key] = ret.__dict__[key].copy()
         ret._corr = None # We'll want to make a new one of these if we need it.
         return ret
 
@@ -717,6 +720,15 @@ class Corr2(object):
         """
         return np.any(self.npairs)
 
+    def _add_result(self, ij, temp):
+        # Add temp to the results for the given pair of patches.
+        # Don't change any existing item in place, since a copy might be using it too.
+        result = temp.copy()
+        if ij in self.results:
+            result += self.results[ij]
+        self.results[ij] = result
+        self.__dict__.pop('_ok',None)
+
     def _add_tot(self, ij, c1, c2):
         # No op for all but NNCorrelation, which needs to add the tot value
         pass
@@ -816,10 +828,7 @@ class Corr2(object):
             if force_write:
                 temp._set_skipped_tot(c1, [c2] if c2 is not None else all_cat2)
         if temp.nonzero or force_write:
-            if ij in self.results and self.results[ij].nonzero:
-                self.results[ij] += temp
-            else:
-                self.results[ij] = temp.copy()
+            self._add_result(ij, temp)
             self += temp
         else:
             # NNCorrelation needs to add the tot value
@@ -904,10 +913,7 @@ class Corr2(object):
                         temp._clear()
                         self.logger.info('Process patch %d auto',i)
                         temp.process_auto(c1, metric=metric, num_threads=num_threads)
-                        if (i,i) not in self.results:
-                            self.results[(i,i)] = temp.copy()
-                        else:
-                            self.results[(i,i)] += temp
+                        self._add_result((i,i), temp)
                         self += temp
 
                     for jj,c2 in list(enumerate(cat1))[::-1]:
diff --git a/treecorr/corr3base.py b/treecorr/corr3base.py
index 6ad05c0..f1dc889 100644
--- a/treecorr/corr3base.py
+++ b/treecorr/corr3base.py
@@ -1070,6 +1070,10 @@ class Corr3(object):
                 # In particular don't deep copy config or logger
                 # Most of the rest are scalars, which copy fine this way.
                 ret.__dict__[key] = item
+        # The results dict needs to be copied, since either object might add more to it later.
+        # Its items are never changed in place, so a shallow copy is fine.
+        if 'results' in ret.__dict__:
+            ret.results = ret.results.copy()
         ret._corr = None # We'll want to make a new one of these if we need it.
         return ret
 
@@ -1106,6 +1110,15 @@ class Corr3(object):
         """
         return np.any(self.ntri)
 
+    def _add_result(self, ijk, temp):
+        # Add temp to the results for the given set of patches.
+        # Don't change any existing item in place, since a copy might be using it too.
+        result = temp.copy()
+        if ijk in self.results:
+            result += self.results[ijk]
+        self.results[ijk] = result
+        self.__dict__.pop('_ok',None)
+
     def _add_tot(self, ijk, c1, c2, c3):
         # No op for all but NNCorrelation, which needs to add the tot value
         pass
@@ -1135,10 +1148,7 @@ class Corr3(object):
             self.logger.info('Skipping %s pair, which are too far apart ' +
                              'for this set of separations',ijj)
         if temp.nonzero or force_write:
-            if ijj in self.results and self.results[ijj].nonzero:
-                self.results[ijj] += temp
-            else:
-                self.results[ijj] = temp.copy()
+            self._add_result(ijj, temp)
             self += temp
         else:
             # NNNCorrelation needs to add the tot value
@@ -1155,10 +1165,7 @@ class Corr3(object):
             self.logger.info('Skipping %s, which are too far apart ' +
                              'for this set of separations',ijk)
         if temp.nonzero or force_write:
-            if ijk in self.results and self.results[ijk].nonzero:
-                self.results[ijk] += temp
-            else:
-                self.results[ijk] = temp.copy()
+            self._add_result(ijk, temp)
             self += temp
         else:
             # NNNCorrelation needs to add the tot value
@@ -1239,10 +1246,7 @@ class Corr3(object):
                         temp._clear()
                         self.logger.info('Process patch %d auto',i)
                         temp.process_auto(c1, metric=metric, num_threads=num_threads)
-                        if (i,i,i) in self.results and self.results[(i,i,i)].nonzero:
-                            self.results[(i,i,i)] += temp
-                        else:
-                            self.results[(i,i,i)] = temp.copy()
+                        self._add_result((i,i,i), temp)
                         self += temp
 
                     for jj,c2 in list(enumerate(cat1))[::-1]:
-- 
2.43.0


From 73d018bb333acb3e9887342021eaae647a52471f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:54 +0000
Subject: [PATCH 14/82] fix: accumulate the tot of patch pairs without pairs
 when not initializing

---
 treecorr/nncorrelation.py  | 9 ++++++++-
 treecorr/nnncorrelation.py | 9 ++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/treecorr/nncorrelation.py b/treecorr/nncorrelation.py
index 4018e9c..006f916 100644
--- a/treecorr/nncorrelation.py
+++ b/treecorr/nncorrelation.py
@@ -260,7 +260,14 @@ class NNCorrelation(Corr2):
         # gets messed up.  We need to accumulate the tot value of all pairs, even if
         # the resulting weight is zero.  But use a minimal copy with just the necessary fields
         # to save some time.
-        self.results[ij] = self._zero_copy(tot)
+        if ij in self.results:
+            # Unless we already have something there, in which case just add to its tot value.
+            result = self.results[ij].copy()
+            result.tot += tot
+            self.results[ij] = result
+        else:
+            self.results[ij] = self._zero_copy(tot)
+            self.__dict__.pop('_ok',None)
 
     def _mean_weight(self):
         mean_np = np.mean(self.npairs)
diff --git a/treecorr/nnncorrelation.py b/treecorr/nnncorrelation.py
index f6e8978..d9e447c 100644
--- a/treecorr/nnncorrelation.py
+++ b/treecorr/nnncorrelation.py
@@ -360,7 +360,14 @@ class NNNCorrelation(Corr3):
         # We also have to keep all pairs in the results dict, otherwise the tot calculation
         # gets messed up.  We need to accumulate the tot value of all pairs, even if
         # the resulting weight is zero.
-        self.results[ijk] = self._zero_copy(tot)
+        if ijk in self.results:
+            # Unless we already have something there, in which case just add to its tot value.
+            result = self.results[ijk].copy()
+            result.tot += tot
+            self.results[ijk] = result
+        else:
+            self.results[ijk] = self._zero_copy(tot)
+            self.__dict__.pop('_ok',None)
 
     def __iadd__(self, other):
         """Add a second Correlation object's data to this one.
-- 
2.43.0


From e874e2147748e643d632fe95e76cf787973145f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:08 +0000
Subject: [PATCH 15/82] fix: forget the processed catalogs when clearing a
 correlation

---
 treecorr/corr2base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/treecorr/corr2base.py b/treecorr/corr2base.py
index 9926884..1b2e256 100644
--- a/treecorr/corr2base.py
+++ b/treecorr/corr2base.py
@@ -713,6 +713,8 @@ class Corr2(object):
         self.results = {}
         self.npatch1 = self.npatch2 = 1
         self.__dict__.pop('_ok',None)
+        self._processed_cats1.clear()
+        self._processed_cats2.clear()
 
     @property
     def nonzero(self):
@@ -1147,8 +1149,6 @@ class Corr2(object):
             raise TypeError(f"cat2 is required for {self._cls}.process")
         if initialize:
             self.clear()
-            self._processed_cats1.clear()
-            self._processed_cats2.clear()
 
         if patch_method not in ['local', 'global']:
             raise ValueError("Invalid patch_method %s"%patch_method)
-- 
2.43.0


From 62a7adfc804fc037622ed228f923d0182c9015f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:51 +0000
Subject: [PATCH 16/82] fix: use the numbers of patches to tell which pairs of
 patches the randoms have

---
 treecorr/nkcorrelation.py | 2 +-
 treecorr/nncorrelation.py | 4 ++--
 treecorr/nzcorrelation.py | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/treecorr/nkcorrelation.py b/treecorr/nkcorrelation.py
index 37378e1..e26cc11 100644
--- a/treecorr/nkcorrelation.py
+++ b/treecorr/nkcorrelation.py
@@ -250,7 +250,7 @@ class NKCorrelation(Corr2):
         self._finalize()
         if self._rk is not None:
             # If rk has npatch1 = 1, adjust pairs appropriately
-            if self._rk.npatch1 == 1 and not all([p[0] == 0 for p in pairs]):
+            if self._rk.npatch1 == 1 and self.npatch1 != 1:
                 pairs = [(0,ij[1]) for ij in pairs if ij[0] == ij[1]]
             # Make sure all ij are in the rk results (some might be missing, which is ok)
             pairs = [ij for ij in pairs if self._rk._ok[ij[0],ij[1]]]
diff --git a/treecorr/nncorrelation.py b/treecorr/nncorrelation.py
index 006f916..ff06ff6 100644
--- a/treecorr/nncorrelation.py
+++ b/treecorr/nncorrelation.py
@@ -480,7 +480,7 @@ class NNCorrelation(Corr2):
         rrf = dd_tot / self._rr.tot
 
         if self._dr is not None:
-            if self._dr.npatch2 == 1:
+            if self._dr.npatch2 == 1 and self.npatch2 != 1:
                 # If r doesn't have patches, then convert all (i,i) pairs to (i,0).
                 pairs2 = [(ij[0],0) for ij in pairs if ij[0] == ij[1]]
             else:
@@ -489,7 +489,7 @@ class NNCorrelation(Corr2):
             dr = self._dr.weight
             drf = dd_tot / self._dr.tot
         if self._rd is not None:
-            if self._rd.npatch1 == 1 and not all([p[0] == 0 for p in pairs]):
+            if self._rd.npatch1 == 1 and self.npatch1 != 1:
                 # If r doesn't have patches, then convert all (i,i) pairs to (0,i).
                 pairs3 = [(0,ij[1]) for ij in pairs if ij[0] == ij[1]]
             else:
diff --git a/treecorr/nzcorrelation.py b/treecorr/nzcorrelation.py
index 0ee43ae..0facc04 100644
--- a/treecorr/nzcorrelation.py
+++ b/treecorr/nzcorrelation.py
@@ -153,7 +153,7 @@ class BaseNZCorrelation(Corr2):
         self._finalize()
         if self._rz is not None:
             # If rz has npatch1 = 1, adjust pairs appropriately
-            if self._rz.npatch1 == 1 and not all([p[0] == 0 for p in pairs]):
+            if self._rz.npatch1 == 1 and self.npatch1 != 1:
                 pairs = [(0,ij[1]) for ij in pairs if ij[0] == ij[1]]
             # Make sure all ij are in the rz results (some might be missing, which is ok)
             pairs = [ij for ij in pairs if self._rz._ok[ij[0],ij[1]]]
-- 
2.43.0


From 2e08012fa52aa1138f2dfbd34f71141580cbc71b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:51 +0000
Subject: [PATCH 17/82] fix: area fraction for unpatched randoms when only one
 of the data catalogs has patches

---
 treecorr/nncorrelation.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/treecorr/nncorrelation.py b/treecorr/nncorrelation.py
index ff06ff6..b4de258 100644
--- a/treecorr/nncorrelation.py
+++ b/treecorr/nncorrelation.py
@@ -467,8 +467,14 @@ class NNCorrelation(Corr2):
             # The approximation we'll use is that tot in the auto-correlations is
             # proportional to area**2.
             # So the sum of tot**0.5 when i==j gives an estimate of the fraction of the total area.
-            area_frac = np.sum([self.results[ij].tot**0.5 for ij in pairs if ij[0] == ij[1]])
-            area_frac /= np.sum([cij.tot**0.5 for ij,cij in self.results.items() if ij[0] == ij[1]])
+            # If only one of the catalogs has patches, then tot is itself proportional to the area.
+            if self.npatch1 == 1 or self.npatch2 == 1:
+                area_frac = np.sum([self.results[ij].tot for ij in pairs])
+                area_frac /= np.sum([cij.tot for cij in self.results.values()])
+            else:
+                area_frac = np.sum([self.results[ij].tot**0.5 for ij in pairs if ij[0] == ij[1]])
+                area_frac /= np.sum([cij.tot**0.5 for ij,cij in self.results.items()
+                                     if ij[0] == ij[1]])
             # First figure out the original total for all DD that had the same footprint as RR.
             dd_tot = np.sum([self.results[ij].tot for ij in self.results])
             # The rrf we want will be a factor of area_frac smaller than the original
-- 
2.43.0


From e6ff24be544c27c7f0100b81497e13f95dd10a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:51 +0000
Subject: [PATCH 18/82] fix: make the results added for extra patch pairs of
 the randoms completely empty

---
 treecorr/nkcorrelation.py | 4 ++--
 treecorr/nzcorrelation.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/treecorr/nkcorrelation.py b/treecorr/nkcorrelation.py
index e26cc11..fa7066e 100644
--- a/treecorr/nkcorrelation.py
+++ b/treecorr/nkcorrelation.py
@@ -230,9 +230,9 @@ class NKCorrelation(Corr2):
                 for ij in rk.results:
                     if ij in self.results: continue
                     new_cij = template.copy()
-                    new_cij.xi.ravel()[:] = 0
-                    new_cij.weight.ravel()[:] = 0
+                    new_cij._clear()
                     self.results[ij] = new_cij
+                    self.__dict__.pop('_ok',None)
 
                 self._cov = self.estimate_cov(self.var_method)
                 self._varxi = np.zeros_like(self.rnom, dtype=float)
diff --git a/treecorr/nzcorrelation.py b/treecorr/nzcorrelation.py
index 0facc04..b7190b5 100644
--- a/treecorr/nzcorrelation.py
+++ b/treecorr/nzcorrelation.py
@@ -132,9 +132,9 @@ class BaseNZCorrelation(Corr2):
                 for ij in rz.results:
                     if ij in self.results: continue
                     new_cij = template.copy()
-                    new_cij.xi.ravel()[:] = 0
-                    new_cij.weight.ravel()[:] = 0
+                    new_cij._clear()
                     self.results[ij] = new_cij
+                    self.__dict__.pop('_ok',None)
 
                 self._cov = self.estimate_cov(self.var_method)
                 self._varxi = np.zeros_like(self.rnom, dtype=float)
-- 
2.43.0


From b29dfccb8eb72b2b2faf24a0f989d8cf56697720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:51 +0000
Subject: [PATCH 19/82] fix: subtract the imaginary part of the randoms in the
 patch-based resamplings

---
 treecorr/nzcorrelation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/treecorr/nzcorrelation.py b/treecorr/nzcorrelation.py
index b7190b5..9064781 100644
--- a/treecorr/nzcorrelation.py
+++ b/treecorr/nzcorrelation.py
@@ -159,6 +159,7 @@ class BaseNZCorrelation(Corr2):
             pairs = [ij for ij in pairs if self._rz._ok[ij[0],ij[1]]]
             self._rz._calculate_xi_from_pairs(pairs)
             self.xi -= self._rz.xi
+            self.xi_im -= self._rz.xi_im
 
     def write(self, file_name, rz=None, file_type=None, precision=None,
               write_patch_results=False, write_cov=False):
-- 
2.43.0


From 849440804bcb61274e01a527bdd1371874e13e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:51 +0000
Subject: [PATCH 20/82] fix: forget the randoms when calculateXi is called
 without any

---
 treecorr/nkcorrelation.py | 4 ++++
 treecorr/nzcorrelation.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/treecorr/nkcorrelation.py b/treecorr/nkcorrelation.py
index fa7066e..95ab661 100644
--- a/treecorr/nkcorrelation.py
+++ b/treecorr/nkcorrelation.py
@@ -240,6 +240,10 @@ class NKCorrelation(Corr2):
             else:
                 self._varxi = self.raw_varxi + rk.varxi
         else:
+            if self._rk is not None:
+                self._rk = None
+                self._raw_varxi = None
+                self._cov = None
             self.xi = self.raw_xi
             self._varxi = self.raw_varxi
 
diff --git a/treecorr/nzcorrelation.py b/treecorr/nzcorrelation.py
index 9064781..8b14e26 100644
--- a/treecorr/nzcorrelation.py
+++ b/treecorr/nzcorrelation.py
@@ -142,6 +142,10 @@ class BaseNZCorrelation(Corr2):
             else:
                 self._varxi = self.raw_varxi + rz.varxi
         else:
+            if self._rz is not None:
+                self._rz = None
+                self._raw_varxi = None
+                self._cov = None
             self.xi = self.raw_xi
             self.xi_im = self.raw_xi_im
             self._varxi = self.raw_varxi
-- 
2.43.0


From f63c47794decc48eaa8a9f817e8bd2adb8176b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:51 +0000
Subject: [PATCH 21/82] fix: covariances with randoms that have no patches, or
 none of the selected patch pairs

---
 treecorr/nkcorrelation.py | 8 ++++++--
 treecorr/nzcorrelation.py | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/treecorr/nkcorrelation.py b/treecorr/nkcorrelation.py
index 95ab661..8b98863 100644
--- a/treecorr/nkcorrelation.py
+++ b/treecorr/nkcorrelation.py
@@ -257,8 +257,12 @@ class NKCorrelation(Corr2):
             if self._rk.npatch1 == 1 and self.npatch1 != 1:
                 pairs = [(0,ij[1]) for ij in pairs if ij[0] == ij[1]]
             # Make sure all ij are in the rk results (some might be missing, which is ok)
-            pairs = [ij for ij in pairs if self._rk._ok[ij[0],ij[1]]]
-            self._rk._calculate_xi_from_pairs(pairs)
+            # If rk has no patches at all, then use it as it is.
+            if len(self._rk.results) > 0:
+                pairs = [ij for ij in pairs if self._rk._ok[ij[0],ij[1]]]
+                if len(pairs) == 0:
+                    return
+                self._rk._calculate_xi_from_pairs(pairs)
             self.xi -= self._rk.xi
 
     def write(self, file_name, * ,rk=None, file_type=None, precision=None,
diff --git a/treecorr/nzcorrelation.py b/treecorr/nzcorrelation.py
index 8b14e26..008d031 100644
--- a/treecorr/nzcorrelation.py
+++ b/treecorr/nzcorrelation.py
@@ -160,8 +160,12 @@ class BaseNZCorrelation(Corr2):
             if self._rz.npatch1 == 1 and self.npatch1 != 1:
                 pairs = [(0,ij[1]) for ij in pairs if ij[0] == ij[1]]
             # Make sure all ij are in the rz results (some might be missing, which is ok)
-            pairs = [ij for ij in pairs if self._rz._ok[ij[0],ij[1]]]
-            self._rz._calculate_xi_from_pairs(pairs)
+            # If rz has no patches at all, then use it as it is.
+            if len(self._rz.results) > 0:
+                pairs = [ij for ij in pairs if self._rz._ok[ij[0],ij[1]]]
+                if len(pairs) == 0:
+                    return
+                self._rz._calculate_xi_from_pairs(pairs)
             self.xi -= self._rz.xi
             self.xi_im -= self._rz.xi_im
 
-- 
2.43.0


From 4a9898100760fbbe9b0bc7756f009f69ee5e9aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:51 +0000
Subject: [PATCH 22/82] fix: resamplings without any patch pairs in patch-based
 covariances with randoms

---
 treecorr/corr2base.py     | 9 +++++++--
 treecorr/nncorrelation.py | 2 ++
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/treecorr/corr2base.py b/treecorr/corr2base.py
index 1b2e256..26f772b 100644
--- a/treecorr/corr2base.py
+++ b/treecorr/corr2base.py
@@ -2071,6 +2071,7 @@ def _make_cov_design_matrix_core(corrs, plist, func, name, rank=0, size=1):
     for row, pairs in enumerate(plist):
         if row % size != rank:
             continue
+        row_corrs = []
         for c, cpairs in zip(corrs, pairs):
             cpairs = list(cpairs)
             if len(cpairs) == 0:
@@ -2080,11 +2081,15 @@ def _make_cov_design_matrix_core(corrs, plist, func, name, rank=0, size=1):
                 c.logger.error("WARNING: A xi for calculating the %s covariance has no "%name +
                                "patch pairs.  This probably means these patch specifications "
                                "are inappropriate for these data.")
+                # Use a copy, since clear also removes things (e.g. randoms) that are needed for
+                # the other rows.
+                c = c.copy()
                 c._clear()
             else:
                 c._calculate_xi_from_pairs(cpairs)
-        v[row] = func(corrs)
-        w[row] = np.sum([np.sum(c.getWeight()) for c in corrs])
+            row_corrs.append(c)
+        v[row] = func(row_corrs)
+        w[row] = np.sum([np.sum(c.getWeight()) for c in row_corrs])
     return v,w
 
 def _make_cov_design_matrix(corrs, plist, func, name, comm):
diff --git a/treecorr/nncorrelation.py b/treecorr/nncorrelation.py
index b4de258..3c18829 100644
--- a/treecorr/nncorrelation.py
+++ b/treecorr/nncorrelation.py
@@ -216,6 +216,8 @@ class NNCorrelation(Corr2):
         """
         super()._clear()
         self.tot = 0.
+        if self._rr is not None:
+            self.xi = np.zeros_like(self.weight)
 
     def __iadd__(self, other):
         """Add a second Correlation object's data to this one.
-- 
2.43.0


From 04a599e3aa0ab66983c2be6dee4aa491d2372efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:48 +0000
Subject: [PATCH 23/82] fix: forget xi and the randoms when an NNCorrelation is
 cleared

---
 treecorr/nncorrelation.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/treecorr/nncorrelation.py b/treecorr/nncorrelation.py
index 3c18829..3e99276 100644
--- a/treecorr/nncorrelation.py
+++ b/treecorr/nncorrelation.py
@@ -219,6 +219,16 @@ class NNCorrelation(Corr2):
         if self._rr is not None:
             self.xi = np.zeros_like(self.weight)
 
+    def clear(self):
+        """Clear all data vectors, the results dict, and any related values.
+        """
+        # Anything from calculateXi is about the old data.
+        self._rr = self._dr = self._rd = None
+        self._rr_weight = None
+        self.__dict__.pop('xi', None)
+        self.__dict__.pop('varxi', None)
+        super().clear()
+
     def __iadd__(self, other):
         """Add a second Correlation object's data to this one.
 
-- 
2.43.0


From c6a2dac54244118e6161f4738b0a4142387ae374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:48 +0000
Subject: [PATCH 24/82] fix: patch_method=local when only one of the catalogs
 has patches

---
 treecorr/corr2base.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/treecorr/corr2base.py b/treecorr/corr2base.py
index 26f772b..39510c4 100644
--- a/treecorr/corr2base.py
+++ b/treecorr/corr2base.py
@@ -991,13 +991,15 @@ class Corr2(object):
             temp = self.copy()
             temp.results = {}  # Don't mess up the original results
 
-            if local:
+            if local and n1 > 1:
                 for ii,c1 in enumerate(cat1):
                     i = c1._single_patch if c1._single_patch is not None else ii
-                    if is_my_job(my_indices, i, i, n1, n2):
+                    # If only cat1 has patches, the results are (i,0), as for the global method.
+                    j = i if n2 > 1 else 0
+                    if is_my_job(my_indices, i, j, n1, n2):
                         c2e = self._make_expanded_patch(c1, cat2, metric, low_mem)
                         self.logger.info('Process patch %d with surrounding local patches',i)
-                        self._single_process12(c1, c2e, (i,i), metric, num_threads, temp, True,
+                        self._single_process12(c1, c2e, (i,j), metric, num_threads, temp, True,
                                                all_cat2=cat2)
                         if low_mem:
                             c1.unload()
-- 
2.43.0


From df7a51226de3187cef5451a30d718e2f62b5d278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:42 +0000
Subject: [PATCH 25/82] fix: meanlogd3 of LogMultipole cross correlations with
 ordered=False

---
 src/Corr3.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Corr3.cpp b/src/Corr3.cpp
index 41e8768..c1ba91e 100644
--- a/src/Corr3.cpp
+++ b/src/Corr3.cpp
@@ -1481,7 +1481,7 @@ void Corr3<D1,D2,D3>::calculateZeta(
                 _meand3[i] += w1 * (mp2.sumw[k2] * mp3.sumwr[k3] +
                                     mp3.sumw[k2] * mp2.sumwr[k3]);
                 _meanlogd3[i] += w1 * (mp2.sumw[k2] * mp3.sumwlogr[k3] +
-                                       mp3.sumw[k3] * mp2.sumwlogr[k3]);
+                                       mp3.sumw[k2] * mp2.sumwlogr[k3]);
             }
             i += (_nbins - k3end) * nnbins;
         }
-- 
2.43.0


From 8fe4b43e4e87503b97659f00f98034cb90587955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:12 +0000
Subject: [PATCH 26/82] fix: opening angles of LogSAS triangles for the Arc
 metric with 3d coordinates

---
 include/Metric.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/Metric.h b/include/Metric.h
index caa275f..b46c72c 100644
--- a/include/Metric.h
+++ b/include/Metric.h
@@ -753,9 +753,13 @@ struct MetricHelper<Arc, P>
         // Rather than do trig though, recompute the chord lengths so we can compute
         // cos(phi) with just regular arithmetic and a sqrt.
         //
-        double d1sq = (c2.getPos() - c3.getPos()).normSq();
-        double d2sq = (c1.getPos() - c3.getPos()).normSq();
-        double d3sq = (c1.getPos() - c2.getPos()).normSq();
+        // (Note: 3d positions need to be projected onto the unit sphere for this.)
+        Position<Sphere> p1(c1.getPos());
+        Position<Sphere> p2(c2.getPos());
+        Position<Sphere> p3(c3.getPos());
+        double d1sq = (p2 - p3).normSq();
+        double d2sq = (p1 - p3).normSq();
+        double d3sq = (p1 - p2).normSq();
 
         double cosphi = (d2sq + d3sq - 0.5*d2sq*d3sq - d1sq);
         cosphi /= 2. * std::sqrt( d2sq * d3sq * (1.-0.25*d2sq) * (1.-0.25*d3sq) );
-- 
2.43.0


From cf9f7b1bed466da1bb6ba474433ffe7c82742c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:14 +0000
Subject: [PATCH 27/82] fix: use the metric to decide which triples of patches
 are too far apart

---
 treecorr/corr3base.py | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/treecorr/corr3base.py b/treecorr/corr3base.py
index f1dc889..fa29dad 100644
--- a/treecorr/corr3base.py
+++ b/treecorr/corr3base.py
@@ -1124,13 +1124,33 @@ class Corr3(object):
         pass
 
     def _trivially_zero(self, c1, c2, c3):
-        # For now, ignore the metric.  Just be conservative about how much space we need.
+        # Just be conservative about how much space we need.
         x1,y1,z1,s1 = c1._get_center_size()
         x2,y2,z2,s2 = c2._get_center_size()
         x3,y3,z3,s3 = c3._get_center_size()
-        d3 = ((x1-x2)**2 + (y1-y2)**2 + (z1-z2)**2)**0.5
-        d1 = ((x2-x3)**2 + (y2-y3)**2 + (z2-z3)**2)**0.5
-        d2 = ((x3-x1)**2 + (y3-y1)**2 + (z3-z1)**2)**0.5
+
+        if self._coords == _treecorr.ThreeD and self.metric == 'Arc':
+            # For Arc, only the directions matter, so collapse everything onto the unit sphere.
+            r1 = (x1**2 + y1**2 + z1**2)**0.5
+            r2 = (x2**2 + y2**2 + z2**2)**0.5
+            r3 = (x3**2 + y3**2 + z3**2)**0.5
+            if s1 >= r1 or s2 >= r2 or s3 >= r3:
+                return False
+            x1,y1,z1,s1 = x1/r1, y1/r1, z1/r1, np.arcsin(s1/r1)
+            x2,y2,z2,s2 = x2/r2, y2/r2, z2/r2, np.arcsin(s2/r2)
+            x3,y3,z3,s3 = x3/r3, y3/r3, z3/r3, np.arcsin(s3/r3)
+
+        def distance(dx, dy, dz):
+            if self.metric == 'Periodic':
+                dx = dx - self.xperiod * np.round(dx / self.xperiod)
+                dy = dy - self.yperiod * np.round(dy / self.yperiod)
+                if self.zperiod != 0:
+                    dz = dz - self.zperiod * np.round(dz / self.zperiod)
+            return (dx**2 + dy**2 + dz**2)**0.5
+
+        d3 = distance(x1-x2, y1-y2, z1-z2)
+        d1 = distance(x2-x3, y2-y3, z2-z3)
+        d2 = distance(x3-x1, y3-y1, z3-z1)
         d3, d2, d1 = sorted([d1,d2,d3])
         return (d2 > s1 + s2 + s3 + 2*self._max_sep)  # The 2* is where we are being conservative.
 
-- 
2.43.0


From 77255f64ade3d570b4649d0511f5275387b88eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:14 +0000
Subject: [PATCH 28/82] fix: tot of NNNCorrelation with patch_method=local, or
 with patches that are too far apart

---
 treecorr/corr3base.py      | 38 ++++++++++++++++++++++++++++++--------
 treecorr/nnncorrelation.py |  9 +++++++++
 2 files changed, 39 insertions(+), 8 deletions(-)

diff --git a/treecorr/corr3base.py b/treecorr/corr3base.py
index fa29dad..874fd54 100644
--- a/treecorr/corr3base.py
+++ b/treecorr/corr3base.py
@@ -1123,6 +1123,12 @@ class Corr3(object):
         # No op for all but NNCorrelation, which needs to add the tot value
         pass
 
+    def _set_patch_tot(self, c1, cat2, cat3, nvert=1):
+        # No op for all but NNNCorrelation, which needs the tot value of the triangles with P1 in
+        # c1 and the others anywhere in the lists cat2, cat3, even if they are all too far apart
+        # to contribute.  nvert is the number of vertices that are P1 in turn.
+        pass
+
     def _trivially_zero(self, c1, c2, c3):
         # Just be conservative about how much space we need.
         x1,y1,z1,s1 = c1._get_center_size()
@@ -1157,7 +1163,8 @@ class Corr3(object):
     _unit_vectors = staticmethod(Corr2._unit_vectors)
     _make_expanded_patch = Corr2._make_expanded_patch
 
-    def _single_process12(self, c1, c2, ijj, metric, ordered, num_threads, temp, force_write):
+    def _single_process12(self, c1, c2, ijj, metric, ordered, num_threads, temp, force_write,
+                          patch_tot=None):
         # Helper function for _process_all_auto, etc. for doing 12 cross pairs
         temp._clear()
 
@@ -1167,6 +1174,10 @@ class Corr3(object):
         else:
             self.logger.info('Skipping %s pair, which are too far apart ' +
                              'for this set of separations',ijj)
+            if force_write and patch_tot is None:
+                temp._set_patch_tot(c1, [c2], [c2])
+        if patch_tot is not None:
+            temp._set_patch_tot(c1, *patch_tot)
         if temp.nonzero or force_write:
             self._add_result(ijj, temp)
             self += temp
@@ -1174,7 +1185,8 @@ class Corr3(object):
             # NNNCorrelation needs to add the tot value
             self._add_tot(ijj, c1, c2, c2)
 
-    def _single_process123(self, c1, c2, c3, ijk, metric, ordered, num_threads, temp, force_write):
+    def _single_process123(self, c1, c2, c3, ijk, metric, ordered, num_threads, temp, force_write,
+                           patch_tot=None):
         # Helper function for _process_all_auto, etc. for doing 123 cross triples
         temp._clear()
 
@@ -1184,6 +1196,10 @@ class Corr3(object):
         else:
             self.logger.info('Skipping %s, which are too far apart ' +
                              'for this set of separations',ijk)
+            if force_write and patch_tot is None:
+                temp._set_patch_tot(c1, [c2], [c3])
+        if patch_tot is not None:
+            temp._set_patch_tot(c1, *patch_tot)
         if temp.nonzero or force_write:
             self._add_result(ijk, temp)
             self += temp
@@ -1256,7 +1272,8 @@ class Corr3(object):
                         c1e = self._make_expanded_patch(c1, cat1, metric, low_mem)
                         self.logger.info('Process patch %d with surrounding local patches',i)
                         self._single_process12(c1, c1e, (i,i,i), metric, 1,
-                                               num_threads, temp, True)
+                                               num_threads, temp, True,
+                                               patch_tot=(cat1, cat1, 3))
                         if low_mem:
                             c1.unload()
             else:
@@ -1379,7 +1396,8 @@ class Corr3(object):
                         c2e = self._make_expanded_patch(c1, cat2, metric, low_mem)
                         self.logger.info('Process patch %d with surrounding local patches',i)
                         self._single_process12(c1, c2e, (i,i,i), metric, 1,
-                                               num_threads, temp, True)
+                                               num_threads, temp, True,
+                                               patch_tot=(cat2, cat2, 1 if ordered else 3))
                         if low_mem:
                             c1.unload()
                 if not ordered:
@@ -1393,7 +1411,8 @@ class Corr3(object):
                             c2e = self._make_expanded_patch(c2, cat2, metric, low_mem)
                             self.logger.info('Process patch %d from cat2 with surrounding local patches',i)
                             self._single_process123(c2, c1e, c2e, (i,i,i), metric, 1,
-                                                    num_threads, temp, True)
+                                                    num_threads, temp, True,
+                                                    patch_tot=(cat1, cat2, 3))
                             if low_mem:
                                 c2.unload()
             else:
@@ -1499,7 +1518,8 @@ class Corr3(object):
                         self.logger.info('Process patch %d with surrounding local patches',i)
                         self._single_process123(c1, c2e, c3e, (i,i,i), metric,
                                                 1 if not ordered else ordered,
-                                                num_threads, temp, True)
+                                                num_threads, temp, True,
+                                                patch_tot=(cat2, cat3, 1 if ordered else 3))
                         if low_mem:
                             c1.unload()
                 if not ordered:
@@ -1513,7 +1533,8 @@ class Corr3(object):
                             c3e = self._make_expanded_patch(c2, cat3, metric, low_mem)
                             self.logger.info('Process patch %d from cat2 with surrounding local patches',i)
                             self._single_process123(c2, c1e, c3e, (i,i,i), metric, 1,
-                                                    num_threads, temp, True)
+                                                    num_threads, temp, True,
+                                                    patch_tot=(cat1, cat3, 3))
                             if low_mem:
                                 c2.unload()
                     for ii,c3 in enumerate(cat3):
@@ -1523,7 +1544,8 @@ class Corr3(object):
                             c2e = self._make_expanded_patch(c3, cat2, metric, low_mem)
                             self.logger.info('Process patch %d from cat3 with surrounding local patches',i)
                             self._single_process123(c3, c1e, c2e, (i,i,i), metric, 1,
-                                                    num_threads, temp, True)
+                                                    num_threads, temp, True,
+                                                    patch_tot=(cat1, cat2, 3))
                             if low_mem:
                                 c3.unload()
             else:
diff --git a/treecorr/nnncorrelation.py b/treecorr/nnncorrelation.py
index d9e447c..19624c1 100644
--- a/treecorr/nnncorrelation.py
+++ b/treecorr/nnncorrelation.py
@@ -348,6 +348,15 @@ class NNNCorrelation(Corr3):
                 np.sum([c.weighti for c in others], axis=0, out=self.weighti)
         self.tot = tot
 
+    def _set_patch_tot(self, c1, cat2, cat3, nvert=1):
+        tot = c1.sumw * np.sum([c2.sumw for c2 in cat2]) * np.sum([c3.sumw for c3 in cat3])
+        if cat2 is cat3 or (len(cat2) == 1 and len(cat3) == 1 and cat2[0] is cat3[0]):
+            # Account for 1/2 factor in cross12 cases.
+            tot /= 2.
+        # When each vertex is P1 in turn, that makes tot larger by the same factor, even though
+        # the triangles are still only counted as often as without patches.
+        self.tot = tot / nvert
+
     def _add_tot(self, ijk, c1, c2, c3):
         # When storing results from a patch-based run, tot needs to be accumulated even if
         # the total weight being accumulated comes out to be zero.
-- 
2.43.0


From ee06c592cc34e4e3ded9e3f4fe4e8921834cecc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:31 +0000
Subject: [PATCH 29/82] fix: don't try to flip the signs of columns that were
 skipped (e.g. for randoms)

---
 treecorr/catalog.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/treecorr/catalog.py b/treecorr/catalog.py
index 4e9be01..0ac544d 100644
--- a/treecorr/catalog.py
+++ b/treecorr/catalog.py
@@ -1311,46 +1311,46 @@ class Catalog(object):
         # Apply flips if requested
         flip_z1 = get_from_list(self.config,'flip_z1',self._num,bool,False)
         flip_z2 = get_from_list(self.config,'flip_z2',self._num,bool,False)
-        if flip_z1:
+        if flip_z1 and self._z1 is not None:
             self.logger.info("   Flipping sign of z1.")
             self._z1 = -self._z1
-        if flip_z2:
+        if flip_z2 and self._z2 is not None:
             self.logger.info("   Flipping sign of z2.")
             self._z2 = -self._z2
 
         flip_v1 = get_from_list(self.config,'flip_v1',self._num,bool,False)
         flip_v2 = get_from_list(self.config,'flip_v2',self._num,bool,False)
-        if flip_v1:
+        if flip_v1 and self._v1 is not None:
             self.logger.info("   Flipping sign of v1.")
             self._v1 = -self._v1
-        if flip_v2:
+        if flip_v2 and self._v2 is not None:
             self.logger.info("   Flipping sign of v2.")
             self._v2 = -self._v2
 
         flip_g1 = get_from_list(self.config,'flip_g1',self._num,bool,False)
         flip_g2 = get_from_list(self.config,'flip_g2',self._num,bool,False)
-        if flip_g1:
+        if flip_g1 and self._g1 is not None:
             self.logger.info("   Flipping sign of g1.")
             self._g1 = -self._g1
-        if flip_g2:
+        if flip_g2 and self._g2 is not None:
             self.logger.info("   Flipping sign of g2.")
             self._g2 = -self._g2
 
         flip_t1 = get_from_list(self.config,'flip_t1',self._num,bool,False)
         flip_t2 = get_from_list(self.config,'flip_t2',self._num,bool,False)
-        if flip_t1:
+        if flip_t1 and self._t1 is not None:
             self.logger.info("   Flipping sign of t1.")
             self._t1 = -self._t1
-        if flip_t2:
+        if flip_t2 and self._t2 is not None:
             self.logger.info("   Flipping sign of t2.")
             self._t2 = -self._t2
 
         flip_q1 = get_from_list(self.config,'flip_q1',self._num,bool,False)
         flip_q2 = get_from_list(self.config,'flip_q2',self._num,bool,False)
-        if flip_q1:
+        if flip_q1 and self._q1 is not None:
             self.logger.info("   Flipping sign of q1.")
             self._q1 = -self._q1
-        if flip_q2:
+        if flip_q2 and self._q2 is not None:
             self.logger.info("   Flipping sign of q2.")
             self._q2 = -self._q2
 
-- 
2.43.0


From 22667ba5dd30d0b805e1c5145a2a20d723ffd912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:31 +0000
Subject: [PATCH 30/82] fix: use the num and is_rand of the catalog for its
 low_mem patches

---
 treecorr/catalog.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/treecorr/catalog.py b/treecorr/catalog.py
index 0ac544d..72e1d75 100644
--- a/treecorr/catalog.py
+++ b/treecorr/catalog.py
@@ -2960,7 +2960,9 @@ class Catalog(object):
             else:
                 # This triggers a load of the current catalog, but no choice here.
                 patch_set = sorted(set(self.patch))
-            self._patches = [Catalog(config=self.config, file_name=self.file_name,
+            config = dict(self.orig_config, **self.config)
+            self._patches = [Catalog(config=config, file_name=self.file_name,
+                                     num=self._num, is_rand=self._is_rand,
                                      patch=i, npatch=self.npatch, patch_centers=self._centers)
                              for i in patch_set]
         else:
-- 
2.43.0


From f3bd334b78c72025c79a858e50bff5ae9863d29c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:31 +0000
Subject: [PATCH 31/82] fix: read selected rows of Parquet files

---
 treecorr/reader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/treecorr/reader.py b/treecorr/reader.py
index f09c0b0..21678d0 100644
--- a/treecorr/reader.py
+++ b/treecorr/reader.py
@@ -422,9 +422,9 @@ class ParquetReader():
             The data as a recarray or simple numpy array as appropriate
         """
         if np.isscalar(cols):
-            return self.df[cols][s].to_numpy()
+            return self.df[cols].iloc[s].to_numpy()
         else:
-            return self.df[cols][s].to_records()
+            return self.df[cols].iloc[s].to_records()
 
     def row_count(self, col=None, *, ext=None):
         """Count the number of rows in the named extension and column
-- 
2.43.0


From a0514cc650350b18343278cbb0baf84f0b47ed3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:31 +0000
Subject: [PATCH 32/82] fix: keep the given npatch when the patch numbers don't
 include all of them

---
 treecorr/catalog.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/treecorr/catalog.py b/treecorr/catalog.py
index 72e1d75..0bba803 100644
--- a/treecorr/catalog.py
+++ b/treecorr/catalog.py
@@ -1535,7 +1535,7 @@ class Catalog(object):
         if self._npatch not in [None, 1] and npatch > self._npatch:
             # Note: it's permissible for self._npatch to be larger, but not smaller.
             raise ValueError("npatch is incompatible with provided patch numbers")
-        self._npatch = npatch
+        self._npatch = npatch if self._npatch is None else max(npatch, self._npatch)
         self.logger.info("Assigned patch numbers 0..%d",self._npatch-1)
 
     def _get_patch_index(self, single_patch):
-- 
2.43.0


From b088788d5463198fa0bb48698c837c9415d25cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:31 +0000
Subject: [PATCH 33/82] fix: select the rows of a single patch when also using
 first_row or every_nth

---
 treecorr/catalog.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/treecorr/catalog.py b/treecorr/catalog.py
index 0bba803..a82ffff 100644
--- a/treecorr/catalog.py
+++ b/treecorr/catalog.py
@@ -2104,9 +2104,8 @@ class Catalog(object):
                 self.select(use)
                 if s == slice(None):
                     s = use
-                else:
-                    end1 = np.max(use)*s.step+s.start+1
-                    s = np.arange(s.start, end1, s.step)[use]
+                elif not isinstance(use, slice):
+                    s = s.start + use * s.step
                 self._patch = None
                 data = {}  # Start fresh, since the ones we used so far are done.
 
-- 
2.43.0


From d0abfb2feb0d079878737f18a2b40fd2675ce225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:31 +0000
Subject: [PATCH 34/82] fix: keep the zero weight objects of all the catalogs
 when combining

---
 treecorr/catalog.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/treecorr/catalog.py b/treecorr/catalog.py
index a82ffff..8447e92 100644
--- a/treecorr/catalog.py
+++ b/treecorr/catalog.py
@@ -1480,7 +1480,8 @@ class Catalog(object):
         loaded = cat.loaded
         cat.load()
         check_wpos = cat._wpos if cat._wpos is not None else cat._w
-        kwargs = dict(keep_zero_weight=np.any(check_wpos==0))
+        keep_zero_weight = np.any(check_wpos==0)
+        kwargs = {}
         if cat.ra is not None:
             kwargs['ra_units'] = 'rad'
             kwargs['dec_units'] = 'rad'
@@ -1503,6 +1504,8 @@ class Catalog(object):
             if i == 0: continue
             loaded = cat.loaded
             cat.load()
+            check_wpos = cat._wpos if cat._wpos is not None else cat._w
+            keep_zero_weight |= np.any(check_wpos==0)
             for key in keys:  # These are now just the ones that were in cat0.
                 if getattr(cat, key) is None:
                     raise ValueError("Column %s not found in cat %d"%(key,i))
@@ -1516,7 +1519,7 @@ class Catalog(object):
         # Concatenate the arrays.
         for key in keys:
             kwargs[key] = np.concatenate(kwargs[key])
-        return Catalog(**kwargs)
+        return Catalog(keep_zero_weight=keep_zero_weight, **kwargs)
 
     def _assign_patches(self):
         # This is equivalent to the following:
-- 
2.43.0


From ee97a0c5cae31f2524e75975ad79e06de97bd7e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:21 +0000
Subject: [PATCH 35/82] fix: use the patch_col for the right num to tell if the
 catalog has patches

---
 treecorr/catalog.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/treecorr/catalog.py b/treecorr/catalog.py
index 8447e92..db82a00 100644
--- a/treecorr/catalog.py
+++ b/treecorr/catalog.py
@@ -837,7 +837,8 @@ class Catalog(object):
             patch_centers = get(self.config,'patch_centers',str)
 
         if patch_centers is not None:
-            if patch is not None or self.config.get('patch_col',0) not in (0,'0'):
+            if (patch is not None or
+                    get_from_list(self.config,'patch_col',num,str,'0') != '0'):
                 raise ValueError("Cannot provide both patch and patch_centers")
             if isinstance(patch_centers, np.ndarray):
                 self._centers = patch_centers
@@ -850,7 +851,7 @@ class Catalog(object):
             self._npatch = get(self.config,'npatch',int)
             if self._npatch < 1:
                 raise ValueError("npatch must be >= 1")
-        elif self.config.get('patch_col',0) not in (0,'0'):
+        elif get_from_list(self.config,'patch_col',num,str,'0') != '0':
             self._npatch = None  # Mark that we need to finish loading to figure out npatch.
         elif self._single_patch:
             raise ValueError("Either npatch or patch_centers is required when providing "
-- 
2.43.0


From 1bce0c8575194ad99970e1aba38f4a2b4a41a4c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:21 +0000
Subject: [PATCH 36/82] fix: use patch_eval

---
 treecorr/catalog.py | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/treecorr/catalog.py b/treecorr/catalog.py
index db82a00..16c06fa 100644
--- a/treecorr/catalog.py
+++ b/treecorr/catalog.py
@@ -838,7 +838,8 @@ class Catalog(object):
 
         if patch_centers is not None:
             if (patch is not None or
-                    get_from_list(self.config,'patch_col',num,str,'0') != '0'):
+                    get_from_list(self.config,'patch_col',num,str,'0') != '0' or
+                    get_from_list(self.config,'patch_eval',num,str) is not None):
                 raise ValueError("Cannot provide both patch and patch_centers")
             if isinstance(patch_centers, np.ndarray):
                 self._centers = patch_centers
@@ -851,7 +852,8 @@ class Catalog(object):
             self._npatch = get(self.config,'npatch',int)
             if self._npatch < 1:
                 raise ValueError("npatch must be >= 1")
-        elif get_from_list(self.config,'patch_col',num,str,'0') != '0':
+        elif (get_from_list(self.config,'patch_col',num,str,'0') != '0' or
+                get_from_list(self.config,'patch_eval',num,str) is not None):
             self._npatch = None  # Mark that we need to finish loading to figure out npatch.
         elif self._single_patch:
             raise ValueError("Either npatch or patch_centers is required when providing "
@@ -1976,9 +1978,9 @@ class Catalog(object):
                     self.logger.debug('read r')
                 self._apply_radec_units()
 
-        def set_patch(data, patch_col):
-            if patch_col != '0' and patch_col in data:
-                self._patch = data[patch_col].astype(int)
+        def set_patch(data, patch_col, patch_eval):
+            if (patch_col != '0' and patch_col in data) or patch_eval is not None:
+                self._patch = parse_value(data, patch_col, patch_eval, int)
                 self.logger.debug('read patch')
                 self._set_npatch()
 
@@ -2014,6 +2016,7 @@ class Catalog(object):
         w_eval = get_from_list(self.config,'w_eval',num,str,None)
         wpos_eval = get_from_list(self.config,'wpos_eval',num,str,None)
         flag_eval = get_from_list(self.config,'flag_eval',num,str,None)
+        patch_eval = get_from_list(self.config,'patch_eval',num,str,None)
         k_eval = get_from_list(self.config,'k_eval',num,str,None)
         z1_eval = get_from_list(self.config,'z1_eval',num,str,None)
         z2_eval = get_from_list(self.config,'z2_eval',num,str,None)
@@ -2085,10 +2088,19 @@ class Catalog(object):
             data = {}
             # Also, if we are only reading in one patch, we should adjust s before doing this.
             if self._single_patch is not None:
-                if patch_col != '0':
+                if patch_eval is not None:
+                    for ext in all_exts:
+                        use_cols1 = [c for c in extra_cols if c in reader.names(ext=ext)]
+                        if len(use_cols1) > 0:
+                            data1 = reader.read(use_cols1, s, ext=ext)
+                            for c in use_cols1:
+                                data[c] = data1[c]
+                    set_patch(data, patch_col, patch_eval)
+                    patch_eval = None
+                elif patch_col != '0':
                     data[patch_col] = reader.read(patch_col, s, ext=patch_ext)
                     all_cols.remove(patch_col)
-                    set_patch(data, patch_col)
+                    set_patch(data, patch_col, patch_eval)
                 elif self._centers is not None:
                     pos_cols = [x_col, y_col, z_col, ra_col, dec_col, r_col]
                     pos_cols = [c for c in pos_cols if c != '0']
@@ -2134,7 +2146,7 @@ class Catalog(object):
                     x_eval, y_eval, z_eval, ra_eval, dec_eval, r_eval)
 
             # Set patch
-            set_patch(data, patch_col)
+            set_patch(data, patch_col, patch_eval)
 
             # Set w
             if w_col != '0' or w_eval is not None:
-- 
2.43.0


From c1e597c633b834e2b36fb268375d2b3d536b9c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:21 +0000
Subject: [PATCH 37/82] fix: give the patch files the numbers of the patches
 when some patches have no objects

---
 treecorr/catalog.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/treecorr/catalog.py b/treecorr/catalog.py
index 16c06fa..5a5bfa3 100644
--- a/treecorr/catalog.py
+++ b/treecorr/catalog.py
@@ -2851,7 +2851,9 @@ class Catalog(object):
         for file_name in file_names:
             if os.path.exists(file_name):
                 os.remove(file_name)
-        for i, p, file_name in zip(range(self.npatch), self.patches, file_names):
+        for p in self.patches:
+            i = p._single_patch if p._single_patch is not None else 0
+            file_name = file_names[i]
             self.logger.info('Writing patch %d to %s',i,file_name)
             if p.ra is not None:
                 # Don't multiply and divide by the units on round trip.
@@ -2926,13 +2928,17 @@ class Catalog(object):
             kwargs['q2_col'] = 'q2'
 
         file_names = self.get_patch_file_names(save_patch_dir)
-        self._patches = []
+        if self._patch is not None:
+            # There are no files for patches without any objects.
+            patch_set = sorted(set(self._patch))
+        else:
+            patch_set = range(self.npatch)
         # Check that the files exist, although we won't actually load them yet.
-        for i, file_name in zip(range(self.npatch), file_names):
-            if not os.path.isfile(file_name):
-                raise OSError("Patch file %s not found"%file_name)
-        self._patches = [Catalog(file_name=name, patch=i, npatch=self.npatch, **kwargs)
-                         for i, name in enumerate(file_names)]
+        for i in patch_set:
+            if not os.path.isfile(file_names[i]):
+                raise OSError("Patch file %s not found"%file_names[i])
+        self._patches = [Catalog(file_name=file_names[i], patch=i, npatch=self.npatch, **kwargs)
+                         for i in patch_set]
         self.logger.info('Patches created from files %s .. %s',file_names[0],file_names[-1])
 
     def get_patches(self, *, low_mem=False):
-- 
2.43.0


From cd395713d3e180d24d24f3d38d59099654ea3f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:15 +0000
Subject: [PATCH 38/82] fix: read all the columns of the patch files

---
 treecorr/catalog.py | 60 +++++++++++----------------------------------
 1 file changed, 14 insertions(+), 46 deletions(-)

diff --git a/treecorr/catalog.py b/treecorr/catalog.py
index 5a5bfa3..9c19275 100644
--- a/treecorr/catalog.py
+++ b/treecorr/catalog.py
@@ -2883,51 +2883,8 @@ class Catalog(object):
         if save_patch_dir is None:
             raise ValueError("save_patch_dir is required here, since not given in constructor.")
 
-        # Need to be careful here to not trigger a load by accident.
-        # This would be easier if we just checked e.g. if self.ra is not None, etc.
-        # But that would trigger an unnecessary load if we aren't loaded yet.
-        # So do all this with the underscore attributes.
-        kwargs = {}
-        if self._ra is not None or self.config.get('ra_col','0') != '0':
-            kwargs['ra_col'] = 'ra'
-            kwargs['dec_col'] = 'dec'
-            kwargs['ra_units'] = 'rad'
-            kwargs['dec_units'] = 'rad'
-            if self._r is not None or self.config.get('r_col','0') != '0':
-                kwargs['r_col'] = 'r'
-        else:
-            kwargs['x_col'] = 'x'
-            kwargs['y_col'] = 'y'
-            if self._z is not None or self.config.get('z_col','0') != '0':
-                kwargs['z_col'] = 'z'
-        if (self._w is not None and self._nontrivial_w)  or self.config.get('w_col','0') != '0':
-            kwargs['w_col'] = 'w'
-        if self._wpos is not None or self.config.get('wpos_col','0') != '0':
-            kwargs['wpos_col'] = 'wpos'
-        if self._k is not None or self.config.get('k_col','0') != '0':
-            kwargs['k_col'] = 'k'
-        if self._z1 is not None or self.config.get('z1_col','0') != '0':
-            kwargs['z1_col'] = 'z1'
-        if self._z2 is not None or self.config.get('z2_col','0') != '0':
-            kwargs['z2_col'] = 'z2'
-        if self._v1 is not None or self.config.get('v1_col','0') != '0':
-            kwargs['v1_col'] = 'v1'
-        if self._v2 is not None or self.config.get('v2_col','0') != '0':
-            kwargs['v2_col'] = 'v2'
-        if self._g1 is not None or self.config.get('g1_col','0') != '0':
-            kwargs['g1_col'] = 'g1'
-        if self._g2 is not None or self.config.get('g2_col','0') != '0':
-            kwargs['g2_col'] = 'g2'
-        if self._t1 is not None or self.config.get('t1_col','0') != '0':
-            kwargs['t1_col'] = 't1'
-        if self._t2 is not None or self.config.get('t2_col','0') != '0':
-            kwargs['t2_col'] = 't2'
-        if self._q1 is not None or self.config.get('q1_col','0') != '0':
-            kwargs['q1_col'] = 'q1'
-        if self._q2 is not None or self.config.get('q2_col','0') != '0':
-            kwargs['q2_col'] = 'q2'
-
         file_names = self.get_patch_file_names(save_patch_dir)
+        # Use the underscore attribute here, so as not to trigger an unnecessary load.
         if self._patch is not None:
             # There are no files for patches without any objects.
             patch_set = sorted(set(self._patch))
@@ -2937,8 +2894,19 @@ class Catalog(object):
         for i in patch_set:
             if not os.path.isfile(file_names[i]):
                 raise OSError("Patch file %s not found"%file_names[i])
-        self._patches = [Catalog(file_name=file_names[i], patch=i, npatch=self.npatch, **kwargs)
-                         for i in patch_set]
+        patches = []
+        for i in patch_set:
+            with make_reader(file_names[i], logger=self.logger) as reader:
+                names = reader.names()
+            # Use all the columns that were written.  In particular, zero weight objects were
+            # only written if they are supposed to be kept.
+            kwargs = { name + '_col' : name for name in names if name != 'patch' }
+            if 'ra' in names:
+                kwargs['ra_units'] = 'rad'
+                kwargs['dec_units'] = 'rad'
+            patches.append(Catalog(file_name=file_names[i], patch=i, npatch=self.npatch,
+                                   keep_zero_weight=True, **kwargs))
+        self._patches = patches
         self.logger.info('Patches created from files %s .. %s',file_names[0],file_names[-1])
 
     def get_patches(self, *, low_mem=False):
-- 
2.43.0


From 1a0103d84dc6e3499b26a985a13d07d1d85b56c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:06 +0000
Subject: [PATCH 39/82] fix: don't keep a partial list of patches if making one
 of them fails

---
 treecorr/catalog.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/treecorr/catalog.py b/treecorr/catalog.py
index 9c19275..4e47016 100644
--- a/treecorr/catalog.py
+++ b/treecorr/catalog.py
@@ -2961,7 +2961,7 @@ class Catalog(object):
                 missing = set(range(self.npatch)) - set(patch_set)
                 self.logger.warning("The following patch numbers have no objects: %s",missing)
                 self.logger.warning("This may be a problem depending on your use case.")
-            self._patches = []
+            patches = []
             for i in patch_set:
                 indx = np.where(self.patch == i)[0]
                 x=self.x[indx] if self.x is not None else None
@@ -2993,7 +2993,8 @@ class Catalog(object):
                             k=k, z1=z1, z2=z2, v1=v1, v2=v2, g1=g1, g2=g2,
                             t1=t1, t2=t2, q1=q1, q2=q2,
                             patch=i, npatch=self.npatch, **kwargs)
-                self._patches.append(p)
+                patches.append(p)
+            self._patches = patches
 
         # Write the patches to files if requested.
         if self.save_patch_dir is not None:
-- 
2.43.0


From 6b23cc21a21f326feaf3a201a69aae4b6c4c608b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:18 +0000
Subject: [PATCH 40/82] fix: read Parquet files when two quantities use the
 same column

---
 treecorr/reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/treecorr/reader.py b/treecorr/reader.py
index 21678d0..2e1c360 100644
--- a/treecorr/reader.py
+++ b/treecorr/reader.py
@@ -424,7 +424,7 @@ class ParquetReader():
         if np.isscalar(cols):
             return self.df[cols].iloc[s].to_numpy()
         else:
-            return self.df[cols].iloc[s].to_records()
+            return {col : self.df[col].iloc[s].to_numpy() for col in cols}
 
     def row_count(self, col=None, *, ext=None):
         """Count the number of rows in the named extension and column
-- 
2.43.0


From 455b60d1c76f9626615998a04c43c83f975317db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:18 +0000
Subject: [PATCH 41/82] fix: use the eval items for a single patch when only
 the positions are columns

---
 treecorr/catalog.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/treecorr/catalog.py b/treecorr/catalog.py
index 4e47016..941bc36 100644
--- a/treecorr/catalog.py
+++ b/treecorr/catalog.py
@@ -2127,7 +2127,8 @@ class Catalog(object):
 
                 # We might actually be done now, in which case, just return.
                 # (Else the fits read below won't actually work.)
-                if len(all_cols) == 0 or (isinstance(s,np.ndarray) and len(s) == 0):
+                if ((len(all_cols) == 0 and len(extra_cols) == 0)
+                        or (isinstance(s,np.ndarray) and len(s) == 0)):
                     return
 
             # Now read the rest using the updated s
-- 
2.43.0


From 59ba476c2dcf6c0f9d8e2b02e1551fd131d7f6cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:31 +0000
Subject: [PATCH 42/82] fix: allow one component to be a column and the other
 an eval item

---
 treecorr/catalog.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/treecorr/catalog.py b/treecorr/catalog.py
index 941bc36..5c6629f 100644
--- a/treecorr/catalog.py
+++ b/treecorr/catalog.py
@@ -1766,19 +1766,19 @@ class Catalog(object):
             raise ValueError("q2_col is missing for file %s"%file_name)
 
         # Either both shoudl be 0 or both != 0.
-        if (z1_col == '0' and z1_eval is None) != (z2_col == '0' and z1_eval is None):
+        if (z1_col == '0' and z1_eval is None) != (z2_col == '0' and z2_eval is None):
             raise ValueError("z1_col, z2_col=(%s, %s) are invalid for file %s"%(
                         z1_col,z2_col,file_name))
-        if (v1_col == '0' and v1_eval is None) != (v2_col == '0' and v1_eval is None):
+        if (v1_col == '0' and v1_eval is None) != (v2_col == '0' and v2_eval is None):
             raise ValueError("v1_col, v2_col=(%s, %s) are invalid for file %s"%(
                         v1_col,v2_col,file_name))
-        if (g1_col == '0' and g1_eval is None) != (g2_col == '0' and g1_eval is None):
+        if (g1_col == '0' and g1_eval is None) != (g2_col == '0' and g2_eval is None):
             raise ValueError("g1_col, g2_col=(%s, %s) are invalid for file %s"%(
                         g1_col,g2_col,file_name))
-        if (t1_col == '0' and t1_eval is None) != (t2_col == '0' and t1_eval is None):
+        if (t1_col == '0' and t1_eval is None) != (t2_col == '0' and t2_eval is None):
             raise ValueError("t1_col, t2_col=(%s, %s) are invalid for file %s"%(
                         t1_col,t2_col,file_name))
-        if (q1_col == '0' and q1_eval is None) != (q2_col == '0' and q1_eval is None):
+        if (q1_col == '0' and q1_eval is None) != (q2_col == '0' and q2_eval is None):
             raise ValueError("q1_col, q2_col=(%s, %s) are invalid for file %s"%(
                         q1_col,q2_col,file_name))
 
@@ -1854,7 +1854,7 @@ class Catalog(object):
                 z1_ext = get_from_list(self.config, 'z1_ext', num, str, ext)
                 z2_ext = get_from_list(self.config, 'z2_ext', num, str, ext)
                 if (z1_col not in reader.names(ext=z1_ext) or
-                    z2_col not in reader.names(ext=z2_ext)):
+                    (z2_col not in reader.names(ext=z2_ext) and z2_eval is None)):
                     if isZColRequired(self.orig_config,num) or 'corr2' not in self.orig_config:
                         raise ValueError(
                             "z1_col, z2_col=(%s, %s) are invalid for file %s"%(
@@ -1869,7 +1869,7 @@ class Catalog(object):
                 v1_ext = get_from_list(self.config, 'v1_ext', num, str, ext)
                 v2_ext = get_from_list(self.config, 'v2_ext', num, str, ext)
                 if (v1_col not in reader.names(ext=v1_ext) or
-                    v2_col not in reader.names(ext=v2_ext)):
+                    (v2_col not in reader.names(ext=v2_ext) and v2_eval is None)):
                     if isVColRequired(self.orig_config,num) or 'corr2' not in self.orig_config:
                         raise ValueError(
                             "v1_col, v2_col=(%s, %s) are invalid for file %s"%(
@@ -1884,7 +1884,7 @@ class Catalog(object):
                 g1_ext = get_from_list(self.config, 'g1_ext', num, str, ext)
                 g2_ext = get_from_list(self.config, 'g2_ext', num, str, ext)
                 if (g1_col not in reader.names(ext=g1_ext) or
-                    g2_col not in reader.names(ext=g2_ext)):
+                    (g2_col not in reader.names(ext=g2_ext) and g2_eval is None)):
                     if isGColRequired(self.orig_config,num) or 'corr2' not in self.orig_config:
                         raise ValueError(
                             "g1_col, g2_col=(%s, %s) are invalid for file %s"%(
@@ -1899,7 +1899,7 @@ class Catalog(object):
                 t1_ext = get_from_list(self.config, 't1_ext', num, str, ext)
                 t2_ext = get_from_list(self.config, 't2_ext', num, str, ext)
                 if (t1_col not in reader.names(ext=t1_ext) or
-                    t2_col not in reader.names(ext=t2_ext)):
+                    (t2_col not in reader.names(ext=t2_ext) and t2_eval is None)):
                     if isTColRequired(self.orig_config,num) or 'corr2' not in self.orig_config:
                         raise ValueError(
                             "t1_col, t2_col=(%s, %s) are invalid for file %s"%(
@@ -1914,7 +1914,7 @@ class Catalog(object):
                 q1_ext = get_from_list(self.config, 'q1_ext', num, str, ext)
                 q2_ext = get_from_list(self.config, 'q2_ext', num, str, ext)
                 if (q1_col not in reader.names(ext=q1_ext) or
-                    q2_col not in reader.names(ext=q2_ext)):
+                    (q2_col not in reader.names(ext=q2_ext) and q2_eval is None)):
                     if isQColRequired(self.orig_config,num) or 'corr2' not in self.orig_config:
                         raise ValueError(
                             "q1_col, q2_col=(%s, %s) are invalid for file %s"%(
-- 
2.43.0


From de71a0e0f4f480e649a93b799e9299a688af91b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:03 +0000
Subject: [PATCH 43/82] fix: make the sums, patches and fields of a catalog
 follow select

---
 treecorr/catalog.py | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/treecorr/catalog.py b/treecorr/catalog.py
index 5c6629f..0d0c825 100644
--- a/treecorr/catalog.py
+++ b/treecorr/catalog.py
@@ -1428,7 +1428,7 @@ class Catalog(object):
         if self._nontrivial_w and not keep_zero_weight:
             wpos = self._wpos if self._wpos is not None else self._w
             if np.any(wpos == 0):
-                self.select(np.where(wpos != 0)[0])
+                self._select(np.where(wpos != 0)[0])
 
         if self._single_patch is not None or self._patch is not None:
             # Easier to get these options out of the way first.
@@ -1599,7 +1599,7 @@ class Catalog(object):
         # which items to remove along the way based on the patch_centers.
         indx = self._get_patch_index(single_patch)
         self._patch = None
-        self.select(indx)
+        self._select(indx)
 
     def select(self, indx):
         """Trim the catalog to only include those objects with the give indices.
@@ -1607,6 +1607,25 @@ class Catalog(object):
         Parameters:
             indx:       A numpy array of index values to keep.
         """
+        self.load()
+        self._select(indx)
+        # Forget everything that was made from the full set of objects.
+        self._nobj = None
+        self._sumw = np.sum(self._w) if self._nontrivial_w else self.ntot
+        self._sumw2 = None
+        self._vark = None
+        self._varz = None
+        self._varv = None
+        self._varg = None
+        self._vart = None
+        self._varq = None
+        self._patches = None
+        self._computed_centers = None
+        self.__dict__.pop('_cen_s', None)
+        self.clear_cache()
+
+    def _select(self, indx):
+        # Trim the data columns to only include those objects with the give indices.
         if type(indx) == slice and indx == slice(None):
             return
         self._x = self._x[indx] if self._x is not None else None
@@ -2117,7 +2136,7 @@ class Catalog(object):
                     x_col = y_col = z_col = ra_col = dec_col = r_col = '0'
                     x_eval = y_eval = z_eval = ra_eval = dec_eval = r_eval = None
                 use = self._get_patch_index(self._single_patch)
-                self.select(use)
+                self._select(use)
                 if s == slice(None):
                     s = use
                 elif not isinstance(use, slice):
-- 
2.43.0


From 3d0a6fad3bccfdab104ac847d9564f8c9305e3c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:03 +0000
Subject: [PATCH 44/82] fix: make resize_cache apply also to the caches that
 are not in use yet

---
 treecorr/catalog.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/treecorr/catalog.py b/treecorr/catalog.py
index 0d0c825..d44edbb 100644
--- a/treecorr/catalog.py
+++ b/treecorr/catalog.py
@@ -2361,13 +2361,13 @@ class Catalog(object):
         Parameters:
             maxsize (float):    The new maximum number of fields of each type to cache.
         """
-        if hasattr(self, '_nfields'): self.nfields.resize(maxsize)
-        if hasattr(self, '_kfields'): self.kfields.resize(maxsize)
-        if hasattr(self, '_zfields'): self.zfields.resize(maxsize)
-        if hasattr(self, '_vfields'): self.vfields.resize(maxsize)
-        if hasattr(self, '_gfields'): self.gfields.resize(maxsize)
-        if hasattr(self, '_tfields'): self.tfields.resize(maxsize)
-        if hasattr(self, '_qfields'): self.qfields.resize(maxsize)
+        self.nfields.resize(maxsize)
+        self.kfields.resize(maxsize)
+        self.zfields.resize(maxsize)
+        self.vfields.resize(maxsize)
+        self.gfields.resize(maxsize)
+        self.tfields.resize(maxsize)
+        self.qfields.resize(maxsize)
 
     def clear_cache(self):
         """Clear all field caches.
-- 
2.43.0


From 6c0c6b39a06823dc788383a1829ab60ed9ab429e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:17 +0000
Subject: [PATCH 45/82] fix: write patches of catalogs with x_units correctly,
 and don't change the units of the patches

---
 treecorr/catalog.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/treecorr/catalog.py b/treecorr/catalog.py
index d44edbb..1749973 100644
--- a/treecorr/catalog.py
+++ b/treecorr/catalog.py
@@ -2875,10 +2875,16 @@ class Catalog(object):
             i = p._single_patch if p._single_patch is not None else 0
             file_name = file_names[i]
             self.logger.info('Writing patch %d to %s',i,file_name)
+            # Don't multiply and divide by the units on round trip.
             if p.ra is not None:
-                # Don't multiply and divide by the units on round trip.
-                p.ra_units = p.dec_units = 1
-            p.write(file_name)
+                units = dict(ra_units=p.ra_units, dec_units=p.dec_units)
+            else:
+                units = dict(x_units=p.x_units, y_units=p.y_units)
+            p.__dict__.update(dict.fromkeys(units, 1.))
+            try:
+                p.write(file_name)
+            finally:
+                p.__dict__.update(units)
 
     def read_patches(self, save_patch_dir=None):
         """Read the patches from files on disk.
-- 
2.43.0


From f9a1dfe463d21708d000dfcb63b88744cf9ab871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:17 +0000
Subject: [PATCH 46/82] fix: read_patches of an unloaded catalog when some
 patches have no objects

---
 treecorr/catalog.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/treecorr/catalog.py b/treecorr/catalog.py
index 1749973..191fe78 100644
--- a/treecorr/catalog.py
+++ b/treecorr/catalog.py
@@ -2911,11 +2911,13 @@ class Catalog(object):
 
         file_names = self.get_patch_file_names(save_patch_dir)
         # Use the underscore attribute here, so as not to trigger an unnecessary load.
+        patch_set = range(self.npatch)
+        if (self._patch is None and self._single_patch is None and self._centers is None
+                and not all(os.path.isfile(file_names[i]) for i in patch_set)):
+            self.load()
         if self._patch is not None:
             # There are no files for patches without any objects.
             patch_set = sorted(set(self._patch))
-        else:
-            patch_set = range(self.npatch)
         # Check that the files exist, although we won't actually load them yet.
         for i in patch_set:
             if not os.path.isfile(file_names[i]):
-- 
2.43.0


From 6cfd0b77450883a38777b6869d085d1f8d589bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:47 +0000
Subject: [PATCH 47/82] fix: don't delete the patch files before reading them
 when writing the patches again

---
 treecorr/catalog.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/treecorr/catalog.py b/treecorr/catalog.py
index 191fe78..ad9e9e5 100644
--- a/treecorr/catalog.py
+++ b/treecorr/catalog.py
@@ -2866,6 +2866,11 @@ class Catalog(object):
             raise ValueError("save_patch_dir is required here, since not given in constructor.")
 
         file_names = self.get_patch_file_names(save_patch_dir)
+        # If the current patches are to be read from these same files, do that first.
+        if self._patches is not None:
+            for p in self._patches:
+                if p.file_name in file_names:
+                    p.load()
         # This next bit looks gratuitous, but without it, it's possible for self.patches to
         # end up reading the existing files rather than build the patches and overwrite them.
         for file_name in file_names:
-- 
2.43.0


From e4ed3877889fb8e71ee53a2fa5c58eacb3917fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:07 +0000
Subject: [PATCH 48/82] fix: keep contiguous arrays when reading results from a
 file

---
 treecorr/corr2base.py      | 14 +++++++++++---
 treecorr/corr3base.py      | 14 +++++++++++---
 treecorr/nncorrelation.py  |  2 +-
 treecorr/nnncorrelation.py |  2 +-
 4 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/treecorr/corr2base.py b/treecorr/corr2base.py
index 39510c4..a9d2f88 100644
--- a/treecorr/corr2base.py
+++ b/treecorr/corr2base.py
@@ -1788,7 +1788,7 @@ class Corr2(object):
         num_zero_patch = params.get('num_zero_patch', 0)
         cov_shape = params.get('cov_shape', None)
         name = 'main' if num_patch_pairs and name is None else name
-        data = reader.read_data(max_rows=num_rows, ext=name)
+        data = self._read_columns(reader, num_rows, name)
 
         # This helper function defines how to set the attributes for each class
         # based on what was read in.
@@ -1803,7 +1803,7 @@ class Corr2(object):
             pp_name = name + '_pp_%d'%i
             corr = self.copy()
             params = reader.read_params(ext=pp_name)
-            data = reader.read_data(max_rows=num_rows, ext=pp_name)
+            data = self._read_columns(reader, num_rows, pp_name)
             corr._read_from_data(data, params)
             key = eval(params['key'])
             self.results[key] = corr
@@ -1812,11 +1812,19 @@ class Corr2(object):
                 cov_shape = eval(cov_shape)
             self._cov = reader.read_array(cov_shape, ext='cov')
 
+    @staticmethod
+    def _read_columns(reader, num_rows, ext):
+        # The columns in data are typically strided, and may not be in native byte order.
+        # The arrays we keep need to be contiguous arrays of doubles, since they will be given to
+        # the C++ layer if anything is processed after this.
+        data = reader.read_data(max_rows=num_rows, ext=ext)
+        return { name: np.ascontiguousarray(data[name], dtype=float) for name in data.dtype.names }
+
     def _read_from_data(self, data, params):
         s = self.logr.shape
         self.meanr = data['meanr'].reshape(s)
         self.meanlogr = data['meanlogr'].reshape(s)
-        if 'weight' in data.dtype.names:
+        if 'weight' in data:
             # NN calls this DD rather than weight.  Let that class handle it.
             # But here, don't error if weight is missing.
             self.weight = data['weight'].reshape(s)
diff --git a/treecorr/corr3base.py b/treecorr/corr3base.py
index 874fd54..1123206 100644
--- a/treecorr/corr3base.py
+++ b/treecorr/corr3base.py
@@ -2524,7 +2524,7 @@ class Corr3(object):
         num_zero_patch = params.get('num_zero_patch', 0)
         cov_shape = params.get('cov_shape', None)
         name = 'main' if num_patch_tri and name is None else name
-        data = reader.read_data(max_rows=num_rows, ext=name)
+        data = self._read_columns(reader, num_rows, name)
 
         # This helper function defines how to set the attributes for each class
         # based on what was read in.
@@ -2539,7 +2539,7 @@ class Corr3(object):
             pp_name = name + '_pp_%d'%i
             corr = self.copy()
             params = reader.read_params(ext=pp_name)
-            data = reader.read_data(max_rows=num_rows, ext=pp_name)
+            data = self._read_columns(reader, num_rows, pp_name)
             corr._read_from_data(data, params)
             key = eval(params['key'])
             self.results[key] = corr
@@ -2548,6 +2548,14 @@ class Corr3(object):
                 cov_shape = eval(cov_shape)
             self._cov = reader.read_array(cov_shape, ext='cov')
 
+    @staticmethod
+    def _read_columns(reader, num_rows, ext):
+        # The columns in data are typically strided, and may not be in native byte order.
+        # The arrays we keep need to be contiguous arrays of doubles, since they will be given to
+        # the C++ layer if anything is processed after this.
+        data = reader.read_data(max_rows=num_rows, ext=ext)
+        return { name: np.ascontiguousarray(data[name], dtype=float) for name in data.dtype.names }
+
     def _read_from_data(self, data, params):
         s = self.data_shape
         self.meand1 = data['meand1'].reshape(s)
@@ -2565,7 +2573,7 @@ class Corr3(object):
             self.weightr = data['weight_re'].reshape(s)
             self.weighti = data['weight_im'].reshape(s)
         else:
-            if 'weight' in data.dtype.names:
+            if 'weight' in data:
                 # NNN calls this DDD, rather than weight.  Let that class handle it.
                 # But here, don't error if weight is missing.
                 self.weightr = data['weight'].reshape(s)
diff --git a/treecorr/nncorrelation.py b/treecorr/nncorrelation.py
index 3e99276..a19e8d3 100644
--- a/treecorr/nncorrelation.py
+++ b/treecorr/nncorrelation.py
@@ -738,7 +738,7 @@ class NNCorrelation(Corr2):
         s = self.logr.shape
         self.weight = data['DD'].reshape(s)
         self.tot = params['tot']
-        if 'xi' in data.dtype.names:
+        if 'xi' in data:
             self.xi = data['xi'].reshape(s)
             self.varxi = data['sigma_xi'].reshape(s)**2
         # Note: "or None" turns False -> None
diff --git a/treecorr/nnncorrelation.py b/treecorr/nnncorrelation.py
index 19624c1..8bc4bd0 100644
--- a/treecorr/nnncorrelation.py
+++ b/treecorr/nnncorrelation.py
@@ -959,7 +959,7 @@ class NNNCorrelation(Corr3):
     def _read_from_data(self, data, params):
         super()._read_from_data(data, params)
         s = self.data_shape
-        if 'zeta' in data.dtype.names:
+        if 'zeta' in data:
             self.zeta = data['zeta'].reshape(s)
             self.varzeta = data['sigma_zeta'].reshape(s)**2
         if self.bin_type != 'LogMultipole':
-- 
2.43.0


From 1227a85c59202e972abd5576a0100135d6c6a6ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:24 +0000
Subject: [PATCH 49/82] fix: reading ASCII files that were written with
 write_cov

---
 treecorr/corr2base.py | 1 +
 treecorr/corr3base.py | 1 +
 treecorr/reader.py    | 3 +--
 3 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/treecorr/corr2base.py b/treecorr/corr2base.py
index a9d2f88..5a87487 100644
--- a/treecorr/corr2base.py
+++ b/treecorr/corr2base.py
@@ -1760,6 +1760,7 @@ class Corr2(object):
                 params['num_zero_patch'] = i
             params['num_patch_pairs'] = num_patch_pairs
         if write_cov:
+            params['num_rows'] = len(self.rnom.ravel())
             params['cov_shape'] = self.cov.shape
 
         writer.write(col_names, data, params=params, ext=name)
diff --git a/treecorr/corr3base.py b/treecorr/corr3base.py
index 1123206..5dfb501 100644
--- a/treecorr/corr3base.py
+++ b/treecorr/corr3base.py
@@ -2496,6 +2496,7 @@ class Corr3(object):
                 params['num_zero_patch'] = i
             params['num_patch_tri'] = num_patch_tri
         if write_cov:
+            params['num_rows'] = self._nbins
             params['cov_shape'] = self.cov.shape
 
         writer.write(col_names, data, params=params, ext=name)
diff --git a/treecorr/reader.py b/treecorr/reader.py
index 2e1c360..2e07a02 100644
--- a/treecorr/reader.py
+++ b/treecorr/reader.py
@@ -192,8 +192,7 @@ class AsciiReader(object):
             array
         """
         data = np.genfromtxt(self.file, max_rows=shape[0])
-        assert data.shape == shape
-        return data
+        return data.reshape(shape)
 
     def row_count(self, col=None, *, ext=None):
         """Count the number of rows in the file.
-- 
2.43.0


From a35e0dc522ae1ddf2bb029a147e7f53519ee0af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:24 +0000
Subject: [PATCH 50/82] fix: forget the previous results when reading from a
 file

---
 treecorr/corr2base.py | 3 +++
 treecorr/corr3base.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/treecorr/corr2base.py b/treecorr/corr2base.py
index 5a87487..42a72db 100644
--- a/treecorr/corr2base.py
+++ b/treecorr/corr2base.py
@@ -1793,6 +1793,8 @@ class Corr2(object):
 
         # This helper function defines how to set the attributes for each class
         # based on what was read in.
+        self.clear()  # Nothing from any previous results should remain.
+        self._corr = None  # It uses the old arrays.
         self._read_from_data(data, params)
 
         self.results = {}
@@ -1803,6 +1805,7 @@ class Corr2(object):
         for i in range(num_patch_pairs):
             pp_name = name + '_pp_%d'%i
             corr = self.copy()
+            corr.clear()
             params = reader.read_params(ext=pp_name)
             data = self._read_columns(reader, num_rows, pp_name)
             corr._read_from_data(data, params)
diff --git a/treecorr/corr3base.py b/treecorr/corr3base.py
index 5dfb501..b0b9a02 100644
--- a/treecorr/corr3base.py
+++ b/treecorr/corr3base.py
@@ -2529,6 +2529,8 @@ class Corr3(object):
 
         # This helper function defines how to set the attributes for each class
         # based on what was read in.
+        self.clear()  # Nothing from any previous results should remain.
+        self._corr = None  # It uses the old arrays.
         self._read_from_data(data, params)
 
         self.results = {}
@@ -2539,6 +2541,7 @@ class Corr3(object):
         for i in range(num_patch_tri):
             pp_name = name + '_pp_%d'%i
             corr = self.copy()
+            corr.clear()
             params = reader.read_params(ext=pp_name)
             data = self._read_columns(reader, num_rows, pp_name)
             corr._read_from_data(data, params)
-- 
2.43.0


From 3acb6b62bfa1b505599cb10032d0326fdbe27bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:24 +0000
Subject: [PATCH 51/82] fix: keep what is needed for the shot covariance when
 writing and reading results

---
 treecorr/corr2base.py      | 3 +++
 treecorr/corr3base.py      | 3 +++
 treecorr/nncorrelation.py  | 3 +++
 treecorr/nnncorrelation.py | 3 +++
 4 files changed, 12 insertions(+)

diff --git a/treecorr/corr2base.py b/treecorr/corr2base.py
index 42a72db..f63f6e9 100644
--- a/treecorr/corr2base.py
+++ b/treecorr/corr2base.py
@@ -1731,6 +1731,8 @@ class Corr2(object):
         params['coords'] = self.coords
         params['metric'] = self.metric
         params['corr'] = self._letters
+        if np.isfinite(self._var_num):
+            params['var_num'] = self._var_num  # Needed for shot covariances
         return params
 
     def _write(self, writer, name, write_patch_results, write_cov=False, zero_tot=False):
@@ -1835,6 +1837,7 @@ class Corr2(object):
         self.npairs = data['npairs'].reshape(s)
         self.coords = params['coords'].strip()
         self.metric = params['metric'].strip()
+        self._var_num = params.get('var_num', 0)
         self.npatch1 = params.get('npatch1', 1)
         self.npatch2 = params.get('npatch2', 1)
 
diff --git a/treecorr/corr3base.py b/treecorr/corr3base.py
index b0b9a02..7903e3d 100644
--- a/treecorr/corr3base.py
+++ b/treecorr/corr3base.py
@@ -2467,6 +2467,8 @@ class Corr3(object):
         params['coords'] = self.coords
         params['metric'] = self.metric
         params['corr'] = self._letters
+        if np.isfinite(self._var_num):
+            params['var_num'] = self._var_num  # Needed for shot covariances
         return params
 
     def _write(self, writer, name, write_patch_results, write_cov=False, zero_tot=False):
@@ -2584,6 +2586,7 @@ class Corr3(object):
         self.ntri = data['ntri'].reshape(s)
         self.coords = params['coords'].strip()
         self.metric = params['metric'].strip()
+        self._var_num = params.get('var_num', 0)
         self.npatch1 = params.get('npatch1', 1)
         self.npatch2 = params.get('npatch2', 1)
         self.npatch3 = params.get('npatch3', 1)
diff --git a/treecorr/nncorrelation.py b/treecorr/nncorrelation.py
index a19e8d3..fd94997 100644
--- a/treecorr/nncorrelation.py
+++ b/treecorr/nncorrelation.py
@@ -724,6 +724,7 @@ class NNCorrelation(Corr2):
             rr = self.copy()
             rr._read(reader, name='_rr')
             self._rr = rr
+            self._rr_weight = rr.weight * (self.tot / rr.tot)
         if self._dr:
             dr = self.copy()
             dr._read(reader, name='_dr')
@@ -741,6 +742,8 @@ class NNCorrelation(Corr2):
         if 'xi' in data:
             self.xi = data['xi'].reshape(s)
             self.varxi = data['sigma_xi'].reshape(s)**2
+        if 'RR' in data:
+            self._rr_weight = data['RR'].reshape(s)
         # Note: "or None" turns False -> None
         self._rr = params.get('_rr', None) or None
         self._dr = params.get('_dr', None) or None
diff --git a/treecorr/nnncorrelation.py b/treecorr/nnncorrelation.py
index 8bc4bd0..e0e66e7 100644
--- a/treecorr/nnncorrelation.py
+++ b/treecorr/nnncorrelation.py
@@ -947,6 +947,7 @@ class NNNCorrelation(Corr3):
             rrr = self.copy()
             rrr._read(reader, name='_rrr')
             self._rrr = rrr
+            self._rrr_weight = np.abs(rrr.weight) * (self.tot / rrr.tot)
         if self._drr:
             drr = self.copy()
             drr._read(reader, name='_drr')
@@ -962,6 +963,8 @@ class NNNCorrelation(Corr3):
         if 'zeta' in data:
             self.zeta = data['zeta'].reshape(s)
             self.varzeta = data['sigma_zeta'].reshape(s)**2
+        if 'RRR' in data:
+            self._rrr_weight = np.abs(data['RRR'].reshape(s))
         if self.bin_type != 'LogMultipole':
             self.weightr = data['DDD'].reshape(s)
         self.tot = params['tot']
-- 
2.43.0


From 7810bcd5a8692ae0d750894007445e53d584e831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:52 +0000
Subject: [PATCH 52/82] fix: forget zeta and the randoms when clearing an
 NNNCorrelation

---
 treecorr/nnncorrelation.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/treecorr/nnncorrelation.py b/treecorr/nnncorrelation.py
index e0e66e7..36b371c 100644
--- a/treecorr/nnncorrelation.py
+++ b/treecorr/nnncorrelation.py
@@ -321,6 +321,16 @@ class NNNCorrelation(Corr3):
         super()._clear()
         self.tot = 0.
 
+    def clear(self):
+        """Clear all data vectors, the results dict, and any related values.
+        """
+        # Anything from calculateZeta is about the old data.
+        self._rrr = self._drr = self._rdd = None
+        self._rrr_weight = None
+        self.zeta = None
+        self.__dict__.pop('varzeta', None)
+        super().clear()
+
     def _sum(self, others):
         # Equivalent to the operation of:
         #     self._clear()
-- 
2.43.0


From cf6737089e86b8836c167b6d9194d1b17d303c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:52 +0000
Subject: [PATCH 53/82] fix: reading patch results from an ASCII file when none
 of them have anything

---
 treecorr/corr2base.py | 2 +-
 treecorr/corr3base.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/treecorr/corr2base.py b/treecorr/corr2base.py
index f63f6e9..ccf91cb 100644
--- a/treecorr/corr2base.py
+++ b/treecorr/corr2base.py
@@ -1790,7 +1790,7 @@ class Corr2(object):
         num_patch_pairs = params.get('num_patch_pairs', 0)
         num_zero_patch = params.get('num_zero_patch', 0)
         cov_shape = params.get('cov_shape', None)
-        name = 'main' if num_patch_pairs and name is None else name
+        name = 'main' if (num_patch_pairs or num_zero_patch) and name is None else name
         data = self._read_columns(reader, num_rows, name)
 
         # This helper function defines how to set the attributes for each class
diff --git a/treecorr/corr3base.py b/treecorr/corr3base.py
index 7903e3d..d2f6d72 100644
--- a/treecorr/corr3base.py
+++ b/treecorr/corr3base.py
@@ -2526,7 +2526,7 @@ class Corr3(object):
         num_patch_tri = params.get('num_patch_tri', 0)
         num_zero_patch = params.get('num_zero_patch', 0)
         cov_shape = params.get('cov_shape', None)
-        name = 'main' if num_patch_tri and name is None else name
+        name = 'main' if (num_patch_tri or num_zero_patch) and name is None else name
         data = self._read_columns(reader, num_rows, name)
 
         # This helper function defines how to set the attributes for each class
-- 
2.43.0


From 9fd0d5c8edf9ec6450819527c9955f475dbedd25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:52 +0000
Subject: [PATCH 54/82] fix: allow brute=1 and brute=2 when reading results
 from HDF5 files

---
 treecorr/config.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/treecorr/config.py b/treecorr/config.py
index cadaf84..942e4d5 100644
--- a/treecorr/config.py
+++ b/treecorr/config.py
@@ -78,9 +78,9 @@ def parse_bool(value):
                 return int(value)
     elif isinstance(value,(bool, np.bool_)):
         return value
-    elif isinstance(value,int):
+    elif isinstance(value,(int, np.integer)):
         # Note: integers aren't converted to bool, since brute distinguishes 1 vs 2 vs True.
-        return value
+        return int(value)
     else:
         raise ValueError("Unable to parse %s as a bool."%value)
 
-- 
2.43.0


From 221c5774dca593175dc4e9a1e7970fe42e4e215c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:42 +0000
Subject: [PATCH 55/82] fix: accept the documented num_threads parameter in
 Catalog

---
 treecorr/catalog.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/treecorr/catalog.py b/treecorr/catalog.py
index ad9e9e5..f1dbab9 100644
--- a/treecorr/catalog.py
+++ b/treecorr/catalog.py
@@ -741,6 +741,9 @@ class Catalog(object):
                 'Which method to use for splitting cells.'),
         'cat_precision' : (int, False, 16, None,
                 'The number of digits after the decimal in the output.'),
+        'num_threads' : (int, False, None, None,
+                'How many threads should be used when loading the catalog. '
+                'num_threads <= 0 means auto based on num cores.'),
     }
     eval_modules = ['numpy', 'numpy as np', 'math', 'coord']
     _aliases = {}
-- 
2.43.0


From 43dbfeeefae480c50e44534996546f98add203b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:47 +0000
Subject: [PATCH 56/82] fix: keep random numbers away from 1, where they gave
 indices out of range

---
 src/Cell.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Cell.cpp b/src/Cell.cpp
index fbf887c..635a6f7 100644
--- a/src/Cell.cpp
+++ b/src/Cell.cpp
@@ -75,9 +75,9 @@ double urand(long long seed)
         }
         first = false;
     }
-    // Get a random number between 0 and 1
-    double r = rand();
-    r /= RAND_MAX;
+    // Get a random number between 0 and 1 (exclusive of both ends)
+    double r = rand() + 0.5;
+    r /= RAND_MAX + 1.;
     return r;
 }
 
-- 
2.43.0


From 9afd75b6857b94b759da9a93f23612638c6c8184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:47 +0000
Subject: [PATCH 57/82] fix: points equally near two patch centers belong to
 one patch only

---
 src/KMeans.cpp | 67 ++++++--------------------------------------------
 1 file changed, 8 insertions(+), 59 deletions(-)

diff --git a/src/KMeans.cpp b/src/KMeans.cpp
index 8ceb09c..d444312 100644
--- a/src/KMeans.cpp
+++ b/src/KMeans.cpp
@@ -943,68 +943,17 @@ void SelectPatch(int patch, py::array_t<double>& cenp, int npatch,
                  py::array_t<double>& xp, py::array_t<double>& yp,
                  py::array_t<double>& zp, py::array_t<long>& usep)
 {
-    long n = xp.size();
-    Assert(yp.size() == n);
-    Assert(zp.size() == n || zp.size() == 0);
-    Assert(usep.size() == n);
     Assert(patch < npatch);
 
-    const double* centers = static_cast<const double*>(cenp.data());
-    const double* x = static_cast<const double*>(xp.data());
-    const double* y = static_cast<const double*>(yp.data());
-    long* use = static_cast<long*>(usep.mutable_data());
-
-    // Notation: p = the good patch we are looking for
-    //           q = other patches
-    //           if p is the closest, then use = 1, else use = 0.
+    // Find the closest center in the same way as for assigning all the patches, so that even a
+    // point that is equally close to two centers belongs to exactly one patch.
+    QuickAssign(cenp, npatch, xp, yp, zp, usep);
 
-    if (zp.size() > 0) {
-        // 3d version
-        Assert(cenp.size() == npatch * 3);
-        double px = centers[3*patch];
-        double py = centers[3*patch+1];
-        double pz = centers[3*patch+2];
-        const double* z = static_cast<const double*>(zp.data());
-#ifdef _OPENMP
-#pragma omp parallel for schedule(static)
-#endif
-        for (int i=0; i<n; ++i) {
-            double p_dsq = SQR(x[i]-px) + SQR(y[i]-py) + SQR(z[i]-pz);
-            use[i] = 1;
-            for (int q=0; q<npatch; ++q) {
-                if (q == patch) continue;
-                double qx = centers[3*q];
-                double qy = centers[3*q+1];
-                double qz = centers[3*q+2];
-                double q_dsq = SQR(x[i]-qx) + SQR(y[i]-qy) + SQR(z[i]-qz);
-                if (q_dsq < p_dsq) {
-                    use[i] = 0;
-                    break;
-                }
-            }
-        }
-    } else {
-        // 2d version
-        Assert(cenp.size() == npatch * 2);
-        double px = centers[2*patch];
-        double py = centers[2*patch+1];
-#ifdef _OPENMP
-#pragma omp parallel for schedule(static)
-#endif
-        for (int i=0; i<n; ++i) {
-            double p_dsq = SQR(x[i]-px) + SQR(y[i]-py);
-            use[i] = 1;
-            for (int q=0; q<npatch; ++q) {
-                if (q == patch) continue;
-                double qx = centers[2*q];
-                double qy = centers[2*q+1];
-                double q_dsq = SQR(x[i]-qx) + SQR(y[i]-qy);
-                if (q_dsq < p_dsq) {
-                    use[i] = 0;
-                    break;
-                }
-            }
-        }
+    // If patch is the closest, then use = 1, else use = 0.
+    long n = usep.size();
+    long* use = static_cast<long*>(usep.mutable_data());
+    for (long i=0; i<n; ++i) {
+        use[i] = (use[i] == patch);
     }
 }
 
-- 
2.43.0


From 2b5996283ef8a511edf97e550103534142c7dd2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:47 +0000
Subject: [PATCH 58/82] fix: accept a numpy Generator as rng for all kinds of
 field

---
 treecorr/field.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/treecorr/field.py b/treecorr/field.py
index 6946bea..6f414d7 100644
--- a/treecorr/field.py
+++ b/treecorr/field.py
@@ -678,7 +678,7 @@ class ZField(Field):
         self.min_top, self.max_top = self._determine_top(min_top, max_top)
         self.coords = coords if coords is not None else cat.coords
         self._coords = coord_enum(self.coords)  # These are the C++-layer enums
-        seed = 0 if rng is None else int(rng.random_sample() * 2**63)
+        seed = 0 if rng is None else int(rng.random() * 2**63)
 
         zx = cat.z if cat.z is not None else np.array([])
         wpx = cat.wpos if cat.wpos is not None else np.array([])
@@ -741,7 +741,7 @@ class VField(Field):
         self.min_top, self.max_top = self._determine_top(min_top, max_top)
         self.coords = coords if coords is not None else cat.coords
         self._coords = coord_enum(self.coords)  # These are the C++-layer enums
-        seed = 0 if rng is None else int(rng.random_sample() * 2**63)
+        seed = 0 if rng is None else int(rng.random() * 2**63)
 
         zx = cat.z if cat.z is not None else np.array([])
         wpx = cat.wpos if cat.wpos is not None else np.array([])
@@ -867,7 +867,7 @@ class TField(Field):
         self.min_top, self.max_top = self._determine_top(min_top, max_top)
         self.coords = coords if coords is not None else cat.coords
         self._coords = coord_enum(self.coords)  # These are the C++-layer enums
-        seed = 0 if rng is None else int(rng.random_sample() * 2**63)
+        seed = 0 if rng is None else int(rng.random() * 2**63)
 
         zx = cat.z if cat.z is not None else np.array([])
         wpx = cat.wpos if cat.wpos is not None else np.array([])
@@ -929,7 +929,7 @@ class QField(Field):
         self.min_top, self.max_top = self._determine_top(min_top, max_top)
         self.coords = coords if coords is not None else cat.coords
         self._coords = coord_enum(self.coords)  # These are the C++-layer enums
-        seed = 0 if rng is None else int(rng.random_sample() * 2**63)
+        seed = 0 if rng is None else int(rng.random() * 2**63)
 
         zx = cat.z if cat.z is not None else np.array([])
         wpx = cat.wpos if cat.wpos is not None else np.array([])
-- 
2.43.0


From 58a60ca14050c8ea9702dd36a881b48bd15f8dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:47 +0000
Subject: [PATCH 59/82] fix: kmeans++ with coincident points or a point at the
 origin

---
 src/KMeans.cpp | 58 ++++++++++++++++++++++++++++++--------------------
 1 file changed, 35 insertions(+), 23 deletions(-)

diff --git a/src/KMeans.cpp b/src/KMeans.cpp
index d444312..f38d244 100644
--- a/src/KMeans.cpp
+++ b/src/KMeans.cpp
@@ -156,12 +156,12 @@ void InitializeCentersRand(std::vector<Position<C> >& centers,
     }
 }
 
+struct LeafAlreadyUsed {};
+
 template <int C>
 Position<C> InitializeCentersKMPP(const BaseCell<C>* cell,
                                   const std::vector<Position<C> >& centers, long ncen)
 {
-    struct LeafAlreadyUsed {};
-
     xdbg<<"Start recursive InitializeCentersKMPP\n";
 
     // If we are in a leaf, then return this position as the next center to use.
@@ -191,12 +191,6 @@ Position<C> InitializeCentersKMPP(const BaseCell<C>* cell,
         if (dsq2j < dsq2) dsq2 = dsq2j;
     }
     xdbg<<"dsq1 = "<<dsq1<<", dsq2 = "<<dsq2<<std::endl;
-    if (dsq1 + dsq2 == 0.) {
-        dbg<<"All used.  Throw exception and try other branch.\n";
-        xdbg<<"N1 = "<<left->getN()<<"  N2 = "<<right->getN()<<std::endl;
-        throw LeafAlreadyUsed();
-    }
-
     double u = urand() * (dsq1 + dsq2);
     if (u < dsq1) {
         xdbg<<"u = "<<u<<", recurse left\n";
@@ -293,24 +287,42 @@ void InitializeCentersKMPP(std::vector<Position<C> >& centers,
                         centers_per_cell[k]) * (dsq1 + coef * SQR(cells[k]->getSize()));
             sump += p[k];
         }
-        double u = urand();
-        xdbg<<"u = "<<u<<std::endl;
-        for (long k=0; k<ncells; ++k) {
-            p[k] /= sump;
-            xdbg<<"Prob("<<k<<") = "<<p[k]<<std::endl;
-            if (u < p[k]) {
-                dbg<<"Choose next center from cell "<<k<<std::endl;
-                xdbg<<"N = "<<cells[k]->getN()<<" ncen so far = "<<centers_per_cell[k]<<std::endl;
-                centers[i] = InitializeCentersKMPP(cells[k], centers, ncenters);
+        bool found = false;
+        while (!found && sump > 0.) {
+            double u = urand() * sump;
+            xdbg<<"u = "<<u<<std::endl;
+            long kuse = -1;
+            for (long k=0; k<ncells; ++k) {
+                xdbg<<"Prob("<<k<<") = "<<p[k]/sump<<std::endl;
+                if (p[k] > 0.) {
+                    kuse = k;
+                    if (u < p[k]) break;
+                    u -= p[k];
+                    xdbg<<"u -> "<<u<<std::endl;
+                }
+            }
+            dbg<<"Choose next center from cell "<<kuse<<std::endl;
+            xdbg<<"N = "<<cells[kuse]->getN()<<" ncen so far = "<<centers_per_cell[kuse]<<std::endl;
+            try {
+                // Only the first i centers have been set so far.
+                centers[i] = InitializeCentersKMPP(cells[kuse], centers, i);
                 xdbg<<"center["<<i<<"] = "<<centers[i]<<std::endl;
-                centers_per_cell[k] += 1;
-                break;
-            } else {
-                u -= p[k];
-                xdbg<<"u -> "<<u<<std::endl;
-                Assert(k != ncells-1);
+                centers_per_cell[kuse] += 1;
+                found = true;
+            } catch (LeafAlreadyUsed) {
+                dbg<<"All positions in this cell are already used.  Try a different one.\n";
+                p[kuse] = 0.;
+                sump = 0.;
+                for (long k=0; k<ncells; ++k) sump += p[k];
             }
         }
+        if (!found) {
+            // There are not enough different positions.  Do the same thing here that we do for
+            // random centers, and shift one that is already used by a random small value.
+            dbg<<"All positions are already used.\n";
+            centers[i] = centers[long(urand() * i)];
+            centers[i] *= (1. + urand() * 1.e-8);
+        }
     }
 }
 
-- 
2.43.0


From 3c873372b8e6e1efe2491ad542a53f48190bd75b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:02 +0000
Subject: [PATCH 60/82] fix: kmeans init=tree does not put more centers in a
 cell than it has points

---
 src/KMeans.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/KMeans.cpp b/src/KMeans.cpp
index f38d244..f0b9fb6 100644
--- a/src/KMeans.cpp
+++ b/src/KMeans.cpp
@@ -43,6 +43,11 @@ void InitializeCentersTree(std::vector<Position<C> >& centers, const BaseCell<C>
         if (urd < 0.5) std::swap(m1,m2);
         // Note: If ncenters is even, this doesn't do anything, but if odd, then 50% chance
         // that left side will get the extra one and 50% chance that right side will get it.
+        // Don't put more centers in either side than it has points.
+        const long n1 = cell->getLeft()->getN();
+        const long n2 = cell->getRight()->getN();
+        if (m1 > n1) { m2 += m1-n1; m1 = n1; }
+        else if (m2 > n2) { m1 += m2-n2; m2 = n2; }
         xdbg<<"Recurse with m1,m2 = "<<m1<<','<<m2<<std::endl;
         InitializeCentersTree(centers, cell->getLeft(), first, m1);
         InitializeCentersTree(centers, cell->getRight(), first + m1, m2);
@@ -95,6 +100,15 @@ void InitializeCentersTree(std::vector<Position<C> >& centers,
             long j = int(urand() * k);
             if (j != k-1) std::swap(nvalues[j], nvalues[k-1]);
         }
+        // If any cell would get more centers than it has points, give the rest to other cells.
+        for (long k=0; k<ncells; ++k) {
+            for (long j=0; j<ncells; ++j) {
+                while (nvalues[k] > cells[k]->getN() && nvalues[j] < cells[j]->getN()) {
+                    --nvalues[k];
+                    ++nvalues[j];
+                }
+            }
+        }
 
         // Do the recursive initialization for each value of n1 in the list.
         long first=0;
-- 
2.43.0


From 1ac7cda69b60647ad89fcef9729938bd2137a9ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:38 +0000
Subject: [PATCH 61/82] fix: get_near with min_size>0 for a spherical field of
 a catalog with distances

---
 treecorr/field.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/treecorr/field.py b/treecorr/field.py
index 6f414d7..bdbe3c1 100644
--- a/treecorr/field.py
+++ b/treecorr/field.py
@@ -250,9 +250,17 @@ class Field(object):
             # Get those indices
             ind = self._get_near(x, y, z, sep1)
             # Now check the actual radii of these points using the catalog x,y,z values.
-            rsq = (self.cat.x[ind]-x)**2 + (self.cat.y[ind]-y)**2
-            if self._coords != _treecorr.Flat:
-                rsq += (self.cat.z[ind]-z)**2
+            cx = self.cat.x[ind]
+            cy = self.cat.y[ind]
+            if self._coords == _treecorr.Flat:
+                rsq = (cx-x)**2 + (cy-y)**2
+            else:
+                cz = self.cat.z[ind]
+                if self._coords == _treecorr.Sphere:
+                    # If the catalog has distances, this field ignores them.
+                    norm = np.sqrt(cx**2 + cy**2 + cz**2)
+                    cx, cy, cz = cx/norm, cy/norm, cz/norm
+                rsq = (cx-x)**2 + (cy-y)**2 + (cz-z)**2
             # Select the ones with r < sep
             near = rsq < sep**2
             ind = ind[near]
-- 
2.43.0


From 2d51d9a9cbf1a0b859894f7b29d487402a2c3d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:38 +0000
Subject: [PATCH 62/82] fix: sample_pairs could return repeated or unset pairs
 when the list was only partly filled

---
 src/Corr2.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/Corr2.cpp b/src/Corr2.cpp
index 7675927..0ffb2b5 100644
--- a/src/Corr2.cpp
+++ b/src/Corr2.cpp
@@ -871,9 +871,13 @@ void Sampler::finishProcess(
         std::vector<long> selection(_n);
         SelectRandomFrom(_k+m, selection);
         // If any items in k<=i<n are from the original set, put them in their original place.
+        // Note: What comes back in the swap might be another original item, so keep going until
+        // this place has one of the new ones.
         for(long i=_k;i<_n;++i) {
-            long j = selection[i];
-            if (j < _n) std::swap(selection[i], selection[j]);
+            while (selection[i] < _k) {
+                long j = selection[i];
+                std::swap(selection[i], selection[j]);
+            }
         }
 
         // Now any items with j >= k can replace the value at their i in this list.
-- 
2.43.0


From 4ea0bfa167cf30b33f884d663dc89d5201412d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:38 +0000
Subject: [PATCH 63/82] fix: sample_pairs uses the metric of the correlation by
 default, as documented

---
 treecorr/corr2base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/treecorr/corr2base.py b/treecorr/corr2base.py
index ccf91cb..f821ede 100644
--- a/treecorr/corr2base.py
+++ b/treecorr/corr2base.py
@@ -1527,6 +1527,8 @@ class Corr2(object):
                 - i2 (array): indices of objects from cat2
                 - sep (array): separations of the pairs of objects (i1,i2)
         """
+        if metric is None:
+            metric = self.metric
         if metric is None:
             metric = self.config.get('metric', 'Euclidean')
 
-- 
2.43.0


From de3701f9549c4a54c59c2644caee437dbe314878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:38 +0000
Subject: [PATCH 64/82] fix: sample_pairs does not use a field made with a
 larger min_size or without brute

---
 treecorr/corr2base.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/treecorr/corr2base.py b/treecorr/corr2base.py
index f821ede..d37aebd 100644
--- a/treecorr/corr2base.py
+++ b/treecorr/corr2base.py
@@ -1536,24 +1536,26 @@ class Corr2(object):
 
         f1 = cat1.field
         f2 = cat2.field
+        min_size, max_size = self._get_minmax_size()
+        brute1 = self.brute is True or self.brute == 1
+        brute2 = self.brute is True or self.brute == 2
 
-        if f1 is None or f1._coords != self._coords:
-            # I don't really know if it's possible to get the coords out of sync,
-            # so the 2nd check might be superfluous.
-            # The first one though is definitely possible, so we need to check that.
+        # We can use the existing fields if there are any, but only if they go down to small
+        # enough cells for what we need here.  They might have been made for something else.
+        if (f1 is None or f1._coords != self._coords
+                or f1.min_size > min_size or (brute1 and not f1.brute)):
             self.logger.debug("In sample_pairs, making default field for cat1")
-            min_size, max_size = self._get_minmax_size()
             f1 = cat1.getNField(min_size=min_size, max_size=max_size,
                                 split_method=self.split_method,
-                                brute=self.brute is True or self.brute == 1,
+                                brute=brute1,
                                 min_top=self.min_top, max_top=self.max_top,
                                 coords=self.coords)
-        if f2 is None or f2._coords != self._coords:
+        if (f2 is None or f2._coords != self._coords
+                or f2.min_size > min_size or (brute2 and not f2.brute)):
             self.logger.debug("In sample_pairs, making default field for cat2")
-            min_size, max_size = self._get_minmax_size()
             f2 = cat2.getNField(min_size=min_size, max_size=max_size,
                                 split_method=self.split_method,
-                                brute=self.brute is True or self.brute == 2,
+                                brute=brute2,
                                 min_top=self.min_top, max_top=self.max_top,
                                 coords=self.coords)
 
-- 
2.43.0


From 7f5ba82443a6210efdf67f45997f499178b690cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:18 +0000
Subject: [PATCH 65/82] fix: Arc metric in spherical coordinates takes cell
 sizes as angles, not chords

---
 include/Metric.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/Metric.h b/include/Metric.h
index b46c72c..b614f48 100644
--- a/include/Metric.h
+++ b/include/Metric.h
@@ -638,7 +638,12 @@ struct MetricHelper<Arc, P>
 
     double DistSq(const Position<Sphere>& p1, const Position<Sphere>& p2,
                   double& s1, double& s2) const
-    { return SQR(Dist(p1,p2)); }
+    {
+        // The sizes are chords, but the distances here are angles.
+        s1 = 2. * angularSize(0.5*s1);
+        s2 = 2. * angularSize(0.5*s2);
+        return SQR(Dist(p1,p2));
+    }
 
     double Dist(const Position<Sphere>& p1, const Position<Sphere>& p2) const
     {
-- 
2.43.0


From f2c3a7e0cfc95bb5c0d33af52401426fcd602e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:18 +0000
Subject: [PATCH 66/82] fix: sample_pairs with bin_slop=0 is exact for any
 range of separations

---
 src/Corr2.cpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/Corr2.cpp b/src/Corr2.cpp
index 0ffb2b5..19e2189 100644
--- a/src/Corr2.cpp
+++ b/src/Corr2.cpp
@@ -714,6 +714,24 @@ Sampler::Sampler(const BaseCorr2& base_corr2, double minsep, double maxsep,
     _halfminsep = 0.5*_minsep;
     _minsepsq = _minsep*_minsep;
     _maxsepsq = _maxsep*_maxsep;
+    // Adjust the bin size so that a whole number of bins fits between minsep and maxsep.
+    // Otherwise, cells that fit in the last bin could still extend beyond maxsep.
+    double range;
+    switch(base_corr2.getBinType()) {
+      case Log:
+           range = log(_maxsep) - _logminsep;
+           break;
+      case TwoD:
+           range = 2.*_maxsep;
+           break;
+      default:
+           range = _maxsep - _minsep;
+    }
+    double nbins = std::ceil(range / _binsize * (1. - 1.e-10));
+    if (nbins >= 1. && nbins < 1.e9) {
+        _binsize = range / nbins;
+        _nbins = int(base_corr2.getBinType() == TwoD ? SQR(nbins) : nbins);
+    }
     _fullmaxsep = CalculateFullMaxSep(base_corr2.getBinType(), _minsep, _maxsep, _nbins, _binsize);
     _fullmaxsepsq = _fullmaxsep*_fullmaxsep;
 }
-- 
2.43.0


From 0e889a06e44b0d648c540833c5c91fef8f6e2ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:36 +0000
Subject: [PATCH 67/82] fix: LogSAS in 3 dimensions could lose triangles by
 judging the orientation of cells by phi

---
 include/BinType.h | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/include/BinType.h b/include/BinType.h
index a5b823c..5580f95 100644
--- a/include/BinType.h
+++ b/include/BinType.h
@@ -868,6 +868,25 @@ struct BinTypeHelper<LogSAS>
         return false;
     }
 
+    // Check if three points in cells of sizes s1,s2,s3 could have a different orientation
+    // than p1,p2,p3.  For flat coordinates, this depends only on phi, which is checked below.
+    static bool mightFlip(const Position<Flat>& p1, const Position<Flat>& p2,
+                          const Position<Flat>& p3, double s1, double s2, double s3)
+    { return false; }
+
+    // Otherwise, the orientation is the sign of p1 . (p2 x p3), so check how much that
+    // could change when each point moves by at most its cell's size.
+    static bool mightFlip(const Position<ThreeD>& p1, const Position<ThreeD>& p2,
+                          const Position<ThreeD>& p3, double s1, double s2, double s3)
+    {
+        if (s1 == 0. && s2 == 0. && s3 == 0.) return false;
+        Position<ThreeD> p23 = p2.cross(p3);
+        double dmax = (s1 * (p23.norm() + s2*p3.norm() + s3*p2.norm() + s2*s3) +
+                       s2 * (p1.cross(p3).norm() + s3*p1.norm()) +
+                       s3 * p1.cross(p2).norm());
+        return std::abs(p1.dot(p23)) <= dmax;
+    }
+
     // Once we have all the distances, see if it's possible to stop
     // For this BinType, if return value is false, d1,d2,d3,cosphi are set on output.
     template <int O, int M, int C>
@@ -928,6 +947,13 @@ struct BinTypeHelper<LogSAS>
         // If we are not swapping 2,3, stop if orientation cannot be counter-clockwise.
         if (O > 1 &&
             !metric.CCW(c1.getPos(), c3.getPos(), c2.getPos())) {
+            // In 3 dimensions, the orientation (as viewed from the origin) isn't related to phi,
+            // so see directly if it could be different for some points in these cells.
+            if (mightFlip(c1.getPos(), c2.getPos(), c3.getPos(), s1, s2, s3)) {
+                xdbg<<"CW as seen from the origin, but other points could be CCW\n";
+                return false;
+            }
+
             // For skinny triangles, be careful that the points can't flip to the other side.
             // This is similar to the calculation below.  We effecively check that cosphi can't
             // increase to 1.
-- 
2.43.0


From 12f2d79ac7eec08449432b8974d74e103677b33c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:57 +0000
Subject: [PATCH 68/82] fix: three-point Arc metric takes cell sizes as angles
 in all the tests of triangles

---
 src/Corr3.cpp | 44 ++++++++++++++++++++++++++++++--------------
 1 file changed, 30 insertions(+), 14 deletions(-)

diff --git a/src/Corr3.cpp b/src/Corr3.cpp
index c1ba91e..8582dde 100644
--- a/src/Corr3.cpp
+++ b/src/Corr3.cpp
@@ -452,6 +452,19 @@ void BaseCorr3::process3(const BaseCell<C>& c1, const MetricHelper<M,0>& metric)
     dec_ws();
 }
 
+// The size of a cell in the same units as the distances.
+// For Arc, the distances are angles, but getSize() is a chord or a 3d distance.
+template <int M, int C>
+static double metricSize(const BaseCell<C>& c, const MetricHelper<M,0>& metric)
+{
+    double s = c.getSize();
+    if (M == Arc && s > 0.) {
+        double s0 = 0.;
+        metric.DistSq(c.getPos(), c.getPos(), s, s0);
+    }
+    return s;
+}
+
 template <int B, int O, int M, int C>
 void BaseCorr3::process12(const BaseCell<C>& c1, const BaseCell<C>& c2,
                           const MetricHelper<M,0>& metric)
@@ -475,15 +488,16 @@ void BaseCorr3::process12(const BaseCell<C>& c1, const BaseCell<C>& c2,
         xdbg<<ws()<<"    w2 == 0.  return\n";
         return;
     }
-    double s2 = c2.getSize();
+    double s2 = metricSize(c2, metric);
     if (BinTypeHelper<B>::tooSmallS2(s2, _halfminsep, _minu, _minv))
     {
         xdbg<<ws()<<"    s2 smaller than minimum triangle side.  return\n";
         return;
     }
 
-    double s1 = c1.getSize();
-    double rsq = metric.DistSq(c1.getPos(), c2.getPos(), s1, s2);
+    double s1 = metricSize(c1, metric);
+    double s=0.;
+    double rsq = metric.DistSq(c1.getPos(), c2.getPos(), s, s);
     double s1ps2 = s1 + s2;
 
     // If all possible triangles will have d2 < minsep, then abort the recursion here.
@@ -669,9 +683,9 @@ void BaseCorr3::process111Sorted(
     const BaseCell<C>& c1, const BaseCell<C>& c2, const BaseCell<C>& c3,
     const MetricHelper<M,0>& metric, double d1sq, double d2sq, double d3sq)
 {
-    const double s1 = c1.getSize();
-    const double s2 = c2.getSize();
-    const double s3 = c3.getSize();
+    const double s1 = metricSize(c1, metric);
+    const double s2 = metricSize(c2, metric);
+    const double s3 = metricSize(c3, metric);
 
     xdbg<<"Process111Sorted: c1 = "<<c1.getPos()<<"  "<<c1.getSize()<<"  "<<c1.getN()<<std::endl;
     xdbg<<"                  c2 = "<<c2.getPos()<<"  "<<c2.getSize()<<"  "<<c2.getN()<<std::endl;
@@ -1004,11 +1018,12 @@ void BaseCorr3::splitC2Cells(
     // Given the current c1, make a new c2 list where we throw away any from c2 list
     // that can't contribute to the bins, and split any that need to be split.
     const Position<C>& p1 = c1.getPos();
-    double s1 = c1.getSize();
+    double s1 = metricSize(c1, metric);
     for (const BaseCell<C>* c2: c2list) {
         const Position<C>& p2 = c2->getPos();
-        double s2 = c2->getSize();
-        const double rsq = metric.DistSq(p1,p2,s1,s2);
+        double s2 = metricSize(*c2, metric);
+        double s=0.;
+        const double rsq = metric.DistSq(p1,p2,s,s);
         const double s1ps2 = s1+s2;
         xdbg<<"rsq = "<<rsq<<"  s = "<<s2<<"  "<<s1ps2<<std::endl;
 
@@ -1054,7 +1069,7 @@ void BaseCorr3::multipoleSplit1(
 {
     xdbg<<ws()<<"MultipoleSplit1: c1 = "<<c1.getPos()<<"  "<<c1.getSize()<<"  "<<c1.getW()<<"  len c2 = "<<c2list.size()<<std::endl;
 
-    double s1 = c1.getSize();
+    double s1 = metricSize(c1, metric);
 
     // Split cells in c2list if they will definitely need to be split.
     // And remove any that cannot contribute to the sums for this c1.
@@ -1088,7 +1103,7 @@ void BaseCorr3::multipoleSplit1(
 {
     xdbg<<ws()<<"MultipoleSplit1: c1 = "<<c1.getPos()<<"  "<<c1.getSize()<<"  "<<c1.getW()<<"  len c2 = "<<c2list.size()<<" len c3 = "<<c3list.size()<<std::endl;
 
-    double s1 = c1.getSize();
+    double s1 = metricSize(c1, metric);
 
     // Split cells in both lists if appropriate
     std::vector<const BaseCell<C>*> newc2list;
@@ -1123,7 +1138,7 @@ double BaseCorr3::splitC2CellsOrCalculateGn(
     // neither c1 nor c2 need to be split further.  In those cases, accumulate Gn and other
     // scratch arrays and don't add that c2 to newc2list.
     const Position<C>& p1 = c1.getPos();
-    double s1 = c1.getSize();
+    double s1 = metricSize(c1, metric);
     double max_remaining_r = 0.;
     // The calculation of thresh1 here is pretty arbitrary.
     // The point of thresh1 is to only split cell1 when it is needed for the pairs with the
@@ -1142,8 +1157,9 @@ double BaseCorr3::splitC2CellsOrCalculateGn(
     double thresh1 = BinTypeHelper<B>::oneBinLessThan(prev_max_remaining_r, _binsize);
     for (const BaseCell<C>* c2: c2list) {
         const Position<C>& p2 = c2->getPos();
-        double s2 = c2->getSize();
-        const double rsq = metric.DistSq(p1,p2,s1,s2);
+        double s2 = metricSize(*c2, metric);
+        double s=0.;
+        const double rsq = metric.DistSq(p1,p2,s,s);
         const double s1ps2 = s1+s2;
         xdbg<<"rsq = "<<rsq<<"  s = "<<s2<<"  "<<s1ps2<<std::endl;
 
-- 
2.43.0


From b69c0f0f3d43501b0698a4fa788ead6ebe99441d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:15 +0000
Subject: [PATCH 69/82] fix: LogSAS could lose triangles with min_phi or
 max_phi set (wrong bounds on phi for large cells)

---
 include/BinType.h | 125 ++++++++++++++++------------------------------
 src/Corr3.cpp     |   8 +--
 2 files changed, 47 insertions(+), 86 deletions(-)

diff --git a/include/BinType.h b/include/BinType.h
index 5580f95..54db000 100644
--- a/include/BinType.h
+++ b/include/BinType.h
@@ -390,6 +390,7 @@ struct BinTypeHelper<LogRUV>
     static int calculateNTot(int nbins, int nubins, int nvbins)
     { return nbins * nubins * nvbins * 2; }
 
+    template <int M>
     static bool tooSmallS2(double s2, double halfminsep, double minu, double minv)
     {
         // When still doing process12, if the s2 cell is smaller than the minimum
@@ -414,7 +415,7 @@ struct BinTypeHelper<LogRUV>
     }
 
     // If the user has set a minu > 0, then we may be able to stop for that.
-    template <int O>
+    template <int O, int M>
     static bool noAllowedAngles(double rsq, double s1ps2, double s1, double s2,
                                 double halfminsep,
                                 double minu, double minusq, double maxu, double maxusq,
@@ -813,12 +814,17 @@ struct BinTypeHelper<LogSAS>
     static int calculateNTot(int nbins, int nphibins, int )
     { return nbins * nbins * nphibins; }
 
+    template <int M>
     static bool tooSmallS2(double s2, double halfminsep, double minphi, double )
     {
         // When still doing process12, if the s2 cell is smaller than the minimum
         // possible triangle side length, then we can stop early.
-        // 2s < sin(min_phi) * minsep < min_phi * minsep
-        return (s2 == 0. || s2 < halfminsep * minphi);
+        // With phi >= minphi at the vertex in c1, the opposite side is at least
+        // 2 sin(minphi/2) * minsep, and 2 sin(x/2) > 0.95 x for x < 1.05.
+        // But if c1 doesn't have to be the vertex, then all we know is that a side is >= minsep.
+        // For Arc, the opposite side can be much smaller than that, so don't use minphi.
+        if (M == Arc) return s2 == 0.;
+        else return (s2 == 0. || s2 < halfminsep * std::min(1., 0.95 * minphi));
     }
 
     // Check if all posisble pairs for a two cells (given s1 + s2) necessarily have too small
@@ -838,7 +844,7 @@ struct BinTypeHelper<LogSAS>
     }
 
     // If the user has set a minphi > 0, then we may be able to stop for that.
-    template <int O>
+    template <int O, int M>
     static bool noAllowedAngles(double rsq, double s1ps2, double s1, double s2,
                                 double halfminsep,
                                 double minphi, double , double maxphi, double ,
@@ -856,7 +862,13 @@ struct BinTypeHelper<LogSAS>
         // Note: if not ordered, we still might be able to do this check if 2*s2 < minsep,
         // since then the only allowed orientation will be with d1 fully in c2.
         if (maxcosphi < 1 && (O || s2 < halfminsep) && (SQR(s1) < rsq)) {
-            double h = sqrt(rsq) - s1;  // h = r-s1
+            double r = sqrt(rsq);
+            double h = r - s1;
+            if (M == Arc) {
+                // On the sphere, the legs and hypotenuse enter as the sin of their lengths.
+                if (r + s1 >= M_PI) return false;
+                h = std::min(std::sin(h), std::sin(r + s1));
+            }
             double cosphi = 1. - 2*SQR(s2/h);
             if (cosphi > maxcosphi) {
                 xdbg<<"noAllowedAngles: "<<sqrt(rsq)<<"  "<<s1ps2<<"  "<<s1<<"  "<<s2<<std::endl;
@@ -887,6 +899,10 @@ struct BinTypeHelper<LogSAS>
         return std::abs(p1.dot(p23)) <= dmax;
     }
 
+    // Calculate cos(dphi2 + dphi3) given the sin of each, both being between 0 and pi/2.
+    static double cosSumDPhi(double sindphi2, double sindphi3)
+    { return sqrt((1-SQR(sindphi2)) * (1-SQR(sindphi3))) - sindphi2 * sindphi3; }
+
     // Once we have all the distances, see if it's possible to stop
     // For this BinType, if return value is false, d1,d2,d3,cosphi are set on output.
     template <int O, int M, int C>
@@ -990,53 +1006,31 @@ struct BinTypeHelper<LogSAS>
             return true;
         }
 
-        // If the user sets minphi > 0, then we can abort if no possible triangle can have
-        // phi as large as this.
-        // The most phi can increase from the current phi is dphi2 + dphi3, where
+        // The most phi can change from the current phi is dphi = dphi2 + dphi3, where
         // sin(dphi2) = (s1+s2)/d3
         // sin(dphi3) = (s1+s3)/d2
+        // If either of these could be more than pi/2, then we can't say anything about phi.
         double s23sq = SQR(s2+s3);
+        double e2 = d2, e3 = d3;
+        if (M == Arc) {
+            // On the sphere, it is sin(d) that matters.
+            e2 = std::sin(d2);
+            e3 = std::sin(d3);
+            if (s1 + s2 >= e3 || s1 + s3 >= e2) return false;
+        }
+
+        // If the user sets minphi > 0, then we can abort if no possible triangle can have
+        // phi as large as this.
         if (minphi > 0 && cosphi > maxcosphi) {
             // First a quick check for when s1+s3 is rather large.
             if (s23sq >= d1sq && (d2sq + d3sq - s23sq) > (2*d2*d3) * maxcosphi) {
                 xdbg<<"s2+s3 > d1 on their own imply small enough phi, continue splitting.\n";
                 return false;
             }
-            // Start with the current value of cosphi, and adjust by dphi2, dphi3
-            double cosphimax = cosphi;
-            if (s1+s2 > 0) {
-                double sindphi2 = (s1+s2)/d3;
-                double cosdphi2sq = 1-SQR(sindphi2);
-                if (cosdphi2sq < maxcosphisq) return false;
-                double cosdphi2 = sqrt(cosdphi2sq);
-                if (s1+s3 > 0) {
-                    double sindphi3 = (s1+s3)/d2;
-                    double cosdphi3sq = 1-SQR(sindphi3);
-                    if (cosdphi3sq < maxcosphisq) return false;
-                    double cosdphi3 = sqrt(cosdphi3sq);
-
-                    double cosdphi = cosdphi2 * cosdphi3 - sindphi3 * sindphi2;
-                    if (cosdphi < maxcosphi) return false;
-                    double sindphi = sindphi2 * cosdphi3 + sindphi3 * cosdphi2;
-                    double sinphi = sqrt(1-cosphi*cosphi);
-                    cosphimax = cosphi * cosdphi - sinphi * sindphi;
-                } else {
-                    double sinphi = sqrt(1-cosphi*cosphi);
-                    cosphimax = cosphi * cosdphi2 - sinphi * sindphi2;
-                }
-            } else if (s1+s3 > 0) {
-                double sindphi3 = (s1+s3)/d2;
-                double cosdphi3sq = 1-SQR(sindphi3);
-                if (cosdphi3sq < maxcosphisq) return false;
-                double cosdphi3 = sqrt(cosdphi3sq);
-                double sinphi = sqrt(1-cosphi*cosphi);
-                cosphimax = cosphi * cosdphi3 - sinphi * sindphi3;
-            }
-
-            // phimax is the largest possible phi we can possibly get.
-            // If it's still less than minphi then stop.
-            // i.e. cos(phimax) > cos(minphi) = maxcosphi
-            if (cosphimax > maxcosphi) {
+            // dphi < minphi - phi
+            double cosdiff = (cosphi * maxcosphi +
+                              sqrt((1-SQR(cosphi)) * (1-SQR(maxcosphi))));
+            if (cosSumDPhi((s1+s2)/e3, (s1+s3)/e2) > cosdiff) {
                 xdbg<<"phi cannot be as large as minphi\n";
                 return true;
             }
@@ -1050,44 +1044,10 @@ struct BinTypeHelper<LogSAS>
         // If the user sets maxphi < pi, then we can abort if no possible triangle can have
         // phi as small as this.
         if (maxphi < M_PI && cosphi < mincosphi) {
-            // Start with the current value of cosphi, and adjust by dphi2, dphi3
-            double cosphimin = cosphi;
-            if (s1+s2 > 0) {
-                double sindphi2 = (s1+s2)/d3;
-                double cosdphi2sq = 1-SQR(sindphi2);
-                // Note mincosphisq is really sgn(mincosphi) mincosphi^2
-                // So this test will only pass if dphi2 > Pi-phi_max.
-                // i.e. when dphi2 is large enough on its own to get phi < phi_max.
-                if (cosdphi2sq < -mincosphisq) return false;
-                double cosdphi2 = sqrt(cosdphi2sq);
-                if (s1+s3 > 0) {
-                    double sindphi3 = (s1+s3)/d2;
-                    double cosdphi3sq = 1-SQR(sindphi3);
-                    if (cosdphi3sq < -mincosphisq) return false;
-                    double cosdphi3 = sqrt(cosdphi3sq);
-
-                    double cosdphi = cosdphi2 * cosdphi3 - sindphi3 * sindphi2;
-                    if (cosdphi < -mincosphi) return false;
-                    double sindphi = sindphi2 * cosdphi3 + sindphi3 * cosdphi2;
-                    double sinphi = sqrt(1-cosphi*cosphi);
-                    cosphimin = cosphi * cosdphi + sinphi * sindphi;
-                } else {
-                    double sinphi = sqrt(1-cosphi*cosphi);
-                    cosphimin = cosphi * cosdphi2 + sinphi * sindphi2;
-                }
-            } else if (s1+s3 > 0) {
-                double sindphi3 = (s1+s3)/d2;
-                double cosdphi3sq = 1-SQR(sindphi3);
-                if (cosdphi3sq < maxcosphisq) return false;
-                double cosdphi3 = sqrt(cosdphi3sq);
-                double sinphi = sqrt(1-cosphi*cosphi);
-                cosphimin = cosphi * cosdphi3 + sinphi * sindphi3;
-            }
-
-            // phimin is the smallest possible phi we can possibly get.
-            // If it's still more than maxphi, then stop.
-            // i.e. cos(phimin) < cos(maxphi) = mincosphi
-            if (cosphimin < mincosphi) {
+            // dphi < phi - maxphi
+            double cosdiff = (cosphi * mincosphi +
+                              sqrt((1-SQR(cosphi)) * (1-SQR(mincosphi))));
+            if (cosSumDPhi((s1+s2)/e3, (s1+s3)/e2) > cosdiff) {
                 xdbg<<"phi cannot be as small as maxphi\n";
                 return true;
             }
@@ -1313,6 +1273,7 @@ struct BinTypeHelper<LogMultipole>
     static int calculateNTot(int nbins, int maxn, int )
     { return nbins * nbins * (2*maxn+1); }
 
+    template <int M>
     static bool tooSmallS2(double s2, double halfminsep, double , double )
     { return (s2 == 0.); }
 
@@ -1321,7 +1282,7 @@ struct BinTypeHelper<LogMultipole>
     static bool tooLargeDist(double rsq, double s1ps2, double maxsep, double maxsepsq)
     { return rsq >= maxsepsq && rsq >= SQR(maxsep + s1ps2); }
 
-    template <int O>
+    template <int O, int M>
     static bool noAllowedAngles(double rsq, double s1ps2, double s1, double s2,
                                 double halfminsep,
                                 double , double , double , double ,
diff --git a/src/Corr3.cpp b/src/Corr3.cpp
index 8582dde..7d0e7b9 100644
--- a/src/Corr3.cpp
+++ b/src/Corr3.cpp
@@ -489,7 +489,7 @@ void BaseCorr3::process12(const BaseCell<C>& c1, const BaseCell<C>& c2,
         return;
     }
     double s2 = metricSize(c2, metric);
-    if (BinTypeHelper<B>::tooSmallS2(s2, _halfminsep, _minu, _minv))
+    if (BinTypeHelper<B>::template tooSmallS2<M>(s2, _halfminsep, _minu, _minv))
     {
         xdbg<<ws()<<"    s2 smaller than minimum triangle side.  return\n";
         return;
@@ -515,9 +515,9 @@ void BaseCorr3::process12(const BaseCell<C>& c1, const BaseCell<C>& c2,
     }
 
     // Depending on the binning, we may be able to stop due to allowed angles.
-    if (BinTypeHelper<B>::template noAllowedAngles<O>(rsq, s1ps2, s1, s2, _halfminsep,
-                                                      _minu, _minusq, _maxu, _maxusq,
-                                                      _minv, _minvsq, _maxv, _maxvsq)) {
+    if (BinTypeHelper<B>::template noAllowedAngles<O,M>(rsq, s1ps2, s1, s2, _halfminsep,
+                                                        _minu, _minusq, _maxu, _maxusq,
+                                                        _minv, _minvsq, _maxv, _maxvsq)) {
         xdbg<<ws()<<"    No possible triangles with allowed angles\n";
         return;
     }
-- 
2.43.0


From bb2a5b15464719ff46a53d24a8b981efe1a60c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:16 +0000
Subject: [PATCH 70/82] fix: LogRUV could lose triangles with max_u, min_v or
 max_v set (sides switching roles, cells of P3)

---
 include/BinType.h | 52 ++++++++++++++++++++++++++---------------------
 1 file changed, 29 insertions(+), 23 deletions(-)

diff --git a/include/BinType.h b/include/BinType.h
index 54db000..eb58025 100644
--- a/include/BinType.h
+++ b/include/BinType.h
@@ -524,12 +524,17 @@ struct BinTypeHelper<LogRUV>
         // (d3-s1-s2) > maxu * (d2+s1+s3)
         // d3 > maxu * (d2+s1+s3) + (s1+s2)
         if (maxu < 1. && d3sq >= maxusq*d2sq && d3sq >= SQR(maxu * (d2+s1+s3) + s1+s2)) {
-            // This time, just make sure no other side could become the smallest side.
-            // d3 - s1-s2 < d2 - s1-s3
-            // d3 - s1-s2 < d1 - s2-s3
-            if ( d2sq > SQR(s1+s3) && d1sq > SQR(s2+s3) &&
-                 (s2 > s3 || d3sq <= SQR(d2 - s3 + s2)) &&
-                 (s1 > s3 || d1sq >= 2.*d3sq + 2.*SQR(s3 - s1)) ) {
+            // However, the sides could switch roles.  So check the smallest that any side could
+            // be against the largest that the middle one could be.
+            d1 = sqrt(d1sq);
+            d3 = sqrt(d3sq);
+            double small = std::min(std::min(d1-s2-s3, d2-s1-s3), d3-s1-s2);
+            double d1max = d1+s2+s3;
+            double d2max = d2+s1+s3;
+            double d3max = d3+s1+s2;
+            double middle = std::max(std::min(d1max,d2max),
+                                     std::min(std::max(d1max,d2max),d3max));
+            if (small >= maxu * middle) {
                 xdbg<<"u cannot be as small as maxu\n";
                 return true;
             }
@@ -537,31 +542,32 @@ struct BinTypeHelper<LogRUV>
 
         // If the user sets minv, maxv to be near 0, then we can abort if no possible triangle
         // can have v = (d1-d2)/d3 as small in absolute value as either of these.
-        // d1 > maxv d3 + d2+s1+s2+s3 + maxv*(s1+s2)
-        // As before, use the fact that d3 < d2, so check
-        // d1 > maxv d2 + d2+s1+s2+s3 + maxv*(s1+s2)
-        double sums = s1+s2+s3;
-        if (maxv < 1. && d1sq > SQR((1.+maxv)*d2 + sums + maxv * (s1+s2))) {
+        // d1-s2-s3 > maxv (d3+s1+s2) + d2+s1+s3
+        // As before, use the fact that d3 < d2 (or d2 < d3 if they switch roles), so check
+        // d1-s2-s3 > (1+maxv) max(d2+s1+s3, d3+s1+s2)
+        if (maxv < 1. && d1sq > SQR((1.+maxv)*(d2+s1+s3) + s2+s3) &&
+            (O < 3 ? s2 <= s3 || d1sq > SQR((1.+maxv)*(d2+s1+s2) + s2+s3) :
+             d1sq > SQR((1.+maxv)*(sqrt(d3sq)+s1+s2) + s2+s3))) {
             // We don't need any extra checks here related to the possibility of the sides
             // switching roles, since if this condition is true, than d1 has to be the largest
-            // side no matter what.  d1-s2 > d2+s1
+            // side no matter what.
             xdbg<<"v cannot be as small as maxv\n";
             return true;
         }
 
         // It will unusual, but if minv > 0, then we can also potentially stop if no triangle
         // can have |v| as large as minv.
-        // d1-d2 < minv d3 - (s1+s2+s3) - minv*(s1+s2)
-        // d1^2-d2^2 < (minv d3 - (s1+s2+s3) - minv*(s1+s2)) (d1+d2)
-        // This is most relevant when d1 ~= d2, so make this more restrictive with d1->d2 on rhs.
-        // d1^2-d2^2 < (minv d3 - (s1+s2+s3) - minv*(s1+s2)) 2d2
-        // minv d3 > (d1^2-d2^2)/(2d2) + (s1+s2+s3) + minv*(s1+s2)
-        if (minv > 0. && d3sq > SQR(s1+s2) &&
-            minvsq*d3sq > SQR((d1sq-d2sq)/(2.*d2) + sums + minv*(s1+s2))) {
-            // And again, we don't need anything else here, since it's fine if d1,d2 swap or
-            // even if d2,d3 swap.
-            xdbg<<"|v| cannot be as large as minv\n";
-            return true;
+        // |d1-d2| + (s1+s2+2s3) < minv (d3 - (s1+s2))
+        // Note: it's fine if d1,d2 swap or even if d2,d3 swap, but also check that d3 either
+        // cannot be the largest side, or that v would also be too small if it were.
+        if (minv > 0. && d3sq > SQR(s1+s2)) {
+            d1 = sqrt(d1sq);
+            d3 = sqrt(d3sq);
+            if (std::abs(d1-d2) + s1+s2+2.*s3 < minv * (d3-s1-s2) &&
+                (d3 + s1+2.*s2+s3 <= d1 || d3-d1 + s1+2.*s2+s3 < minv * (d2-s1-s3))) {
+                xdbg<<"|v| cannot be as large as minv\n";
+                return true;
+            }
         }
 
         // Stop if any side is exactly 0 and elements are leaves
-- 
2.43.0


From d85e31874f5de5626b097ae886bf8b1c3019366a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:25 +0000
Subject: [PATCH 71/82] fix: under MPI, process with initialize=False counted
 the earlier results more than once

---
 treecorr/corr2base.py | 16 ++++++++++++++--
 treecorr/corr3base.py | 24 +++++++++++++++++++++---
 2 files changed, 35 insertions(+), 5 deletions(-)

diff --git a/treecorr/corr2base.py b/treecorr/corr2base.py
index d37aebd..00dcf8c 100644
--- a/treecorr/corr2base.py
+++ b/treecorr/corr2base.py
@@ -891,6 +891,11 @@ class Corr2(object):
                 size = comm.Get_size()
                 rank = comm.Get_rank()
                 my_indices = np.arange(n * rank // size, n * (rank+1) // size)
+                if rank > 0:
+                    # If this is not the first call to process, then rank 0 already has all
+                    # the previous results, so only send the new ones.
+                    self._clear()
+                    self.results = {}
                 self.logger.info("Rank %d: My indices are %s",rank,my_indices)
             else:
                 my_indices = None
@@ -940,7 +945,8 @@ class Corr2(object):
                     for p in range(1,size):
                         temp = comm.recv(source=p)
                         self += temp
-                        self.results.update(temp.results)
+                        for ij, result in temp.results.items():
+                            self._add_result(ij, result)
 
     def _process_all_cross(self, cat1, cat2, metric, num_threads, comm, low_mem, local):
 
@@ -983,6 +989,11 @@ class Corr2(object):
                 rank = comm.Get_rank()
                 n = max(n1,n2)
                 my_indices = np.arange(n * rank // size, n * (rank+1) // size)
+                if rank > 0:
+                    # If this is not the first call to process, then rank 0 already has all
+                    # the previous results, so only send the new ones.
+                    self._clear()
+                    self.results = {}
                 self.logger.info("Rank %d: My indices are %s",rank,my_indices)
             else:
                 my_indices = None
@@ -1027,7 +1038,8 @@ class Corr2(object):
                     for p in range(1,size):
                         temp = comm.recv(source=p)
                         self += temp
-                        self.results.update(temp.results)
+                        for ij, result in temp.results.items():
+                            self._add_result(ij, result)
 
     def getStat(self):
         """The standard statistic for the current correlation object as a 1-d array.
diff --git a/treecorr/corr3base.py b/treecorr/corr3base.py
index d2f6d72..4af6158 100644
--- a/treecorr/corr3base.py
+++ b/treecorr/corr3base.py
@@ -1257,6 +1257,11 @@ class Corr3(object):
                 size = comm.Get_size()
                 rank = comm.Get_rank()
                 my_indices = np.arange(n * rank // size, n * (rank+1) // size)
+                if rank > 0:
+                    # If this is not the first call to process, then rank 0 already has all
+                    # the previous results, so only send the new ones.
+                    self._clear()
+                    self.results = {}
                 self.logger.info("Rank %d: My indices are %s",rank,my_indices)
             else:
                 my_indices = None
@@ -1322,7 +1327,8 @@ class Corr3(object):
                     for p in range(1,size):
                         temp = comm.recv(source=p)
                         self += temp
-                        self.results.update(temp.results)
+                        for ijk, result in temp.results.items():
+                            self._add_result(ijk, result)
 
     def _process_all_cross12(self, cat1, cat2, metric, ordered, num_threads, comm, low_mem, local):
 
@@ -1380,6 +1386,11 @@ class Corr3(object):
                 rank = comm.Get_rank()
                 n = max(n1,n2)
                 my_indices = np.arange(n * rank // size, n * (rank+1) // size)
+                if rank > 0:
+                    # If this is not the first call to process, then rank 0 already has all
+                    # the previous results, so only send the new ones.
+                    self._clear()
+                    self.results = {}
                 self.logger.info("Rank %d: My indices are %s",rank,my_indices)
             else:
                 my_indices = None
@@ -1448,7 +1459,8 @@ class Corr3(object):
                     for p in range(1,size):
                         temp = comm.recv(source=p)
                         self += temp
-                        self.results.update(temp.results)
+                        for ijk, result in temp.results.items():
+                            self._add_result(ijk, result)
 
     def _process_all_cross(self, cat1, cat2, cat3, metric, ordered, num_threads, comm, low_mem,
                            local):
@@ -1501,6 +1513,11 @@ class Corr3(object):
                 rank = comm.Get_rank()
                 n = max(n1,n2,n3)
                 my_indices = np.arange(n * rank // size, n * (rank+1) // size)
+                if rank > 0:
+                    # If this is not the first call to process, then rank 0 already has all
+                    # the previous results, so only send the new ones.
+                    self._clear()
+                    self.results = {}
                 self.logger.info("Rank %d: My indices are %s",rank,my_indices)
             else:
                 my_indices = None
@@ -1577,7 +1594,8 @@ class Corr3(object):
                     for p in range(1,size):
                         temp = comm.recv(source=p)
                         self += temp
-                        self.results.update(temp.results)
+                        for ijk, result in temp.results.items():
+                            self._add_result(ijk, result)
 
     def getStat(self):
         """The standard statistic for the current correlation object as a 1-d array.
-- 
2.43.0


From a557ec8ef5f1722cb4d31204c90a7c36e13d1c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:15 +0000
Subject: [PATCH 72/82] fix: covariance of zeta from calculateZeta with randoms
 or data that have patches on only some sides

---
 treecorr/nnncorrelation.py | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/treecorr/nnncorrelation.py b/treecorr/nnncorrelation.py
index 36b371c..cf56bde 100644
--- a/treecorr/nnncorrelation.py
+++ b/treecorr/nnncorrelation.py
@@ -571,8 +571,9 @@ class NNNCorrelation(Corr3):
 
         if len(self.results) > 0:
             # Check that all use the same patches as ddd
-            if rrr.npatch1 != 1:
-                if rrr.npatch1 != self.npatch1:
+            if len(rrr.results) > 0:
+                if (rrr.npatch1, rrr.npatch2, rrr.npatch3) != (self.npatch1, self.npatch2,
+                                                               self.npatch3):
                     raise RuntimeError("If using patches, RRR must be run with the same patches "
                                        "as DDD")
             if drr is not None and (len(drr.results) == 0 or drr.npatch1 != self.npatch1
@@ -586,7 +587,7 @@ class NNNCorrelation(Corr3):
             # some dummy results to make sure all the right ijk "pair"s are computed when we make
             # the vectors for the covariance matrix.
             add_ijk = set()
-            if rrr.npatch1 != 1:
+            if len(rrr.results) > 0:
                 for ijk in rrr.results:
                     if ijk not in self.results:
                         add_ijk.add(ijk)
@@ -631,10 +632,14 @@ class NNNCorrelation(Corr3):
             # The approximation we'll use is that tot in the auto-correlations is
             # proportional to area**3.
             # The sum of tot**(1/3) when i=j=k gives an estimate of the fraction of the total area.
-            area_frac = np.sum([self.results[ij].tot**(1./3.) for ij in pairs
-                                if ij[0] == ij[1] == ij[2]])
-            area_frac /= np.sum([cij.tot**(1./3.) for ij,cij in self.results.items()
-                                 if ij[0] == ij[1] == ij[2]])
+            # If only one or two of the catalogs have patches, then the power is 1 or 1/2, and
+            # only those indices need to be equal.
+            use = [m for m,n in enumerate((self.npatch1, self.npatch2, self.npatch3)) if n != 1]
+            power = 1. / len(use)
+            area_frac = np.sum([self.results[ij].tot**power for ij in pairs
+                                if len(set(ij[m] for m in use)) == 1])
+            area_frac /= np.sum([cij.tot**power for ij,cij in self.results.items()
+                                 if len(set(ij[m] for m in use)) == 1])
             # First figure out the original total for all DDD that had the same footprint as RRR.
             ddd_tot = np.sum([self.results[ij].tot for ij in self.results])
             # The rrrf we want will be a factor of area_frac smaller than the original
@@ -646,7 +651,7 @@ class NNNCorrelation(Corr3):
         rrrf = ddd_tot / self._rrr.tot
 
         if self._drr is not None:
-            if self._drr.npatch2 == 1:
+            if self._drr.npatch2 == 1 and self.npatch2 != 1:
                 # If r doesn't have patches, then convert all (i,i,i) pairs to (i,0,0).
                 pairs2 = [(ij[0],0,0) for ij in pairs if ij[0] == ij[1] == ij[2]]
             else:
@@ -655,10 +660,9 @@ class NNNCorrelation(Corr3):
             drr = self._drr.weight
             drrf = ddd_tot / self._drr.tot
         if self._rdd is not None:
-            if self._rdd.npatch1 == 1 and not all([p[0] == 0 for p in pairs]):
-                # If r doesn't have patches, then convert all (i,i,j) pairs to (0,i,j)
-                # and all (i,j,i to (0,j,i).
-                pairs3 = [(0,ij[1],ij[2]) for ij in pairs if ij[0] == ij[1] or ij[0] == ij[2]]
+            if self._rdd.npatch1 == 1 and self.npatch1 != 1:
+                # If r doesn't have patches, then convert all (i,i,j) pairs to (0,i,j).
+                pairs3 = [(0,ij[1],ij[2]) for ij in pairs if ij[0] == ij[1]]
             else:
                 pairs3 = [ij for ij in pairs if self._rdd._ok[ij[0],ij[1],ij[2]]]
             self._rdd._sum([self._rdd.results[ij] for ij in pairs3])
-- 
2.43.0


From 50fac7b368bd972f34e16a2ca61a3d02eb8b337d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:37 +0000
Subject: [PATCH 73/82] fix: lists of values for file_type, ra_units and the
 like

---
 treecorr/config.py | 44 +++++++++++++++++++++++++++++++-------------
 1 file changed, 31 insertions(+), 13 deletions(-)

diff --git a/treecorr/config.py b/treecorr/config.py
index 942e4d5..b862313 100644
--- a/treecorr/config.py
+++ b/treecorr/config.py
@@ -212,6 +212,34 @@ def parse(value, value_type, name):
         raise ValueError("Could not parse {}={} as type {}".format(name, value, value_type))
 
 
+def check_valid(value, value_type, valid_values, name):
+    """Check that a value is one of the valid values, and return the matching valid value.
+
+    Parameters:
+        value:          The (parsed) value to check.
+        value_type:     The type of the value.
+        valid_values:   A list of the valid values.
+        name:           The name of this value.  Only used for error reporting.
+
+    Returns:
+        The corresponding item in valid_values (or None if value is None).
+    """
+    if value is None:
+        return None
+    if value_type is str:
+        matches = [ v for v in valid_values if value == v ]
+        if len(matches) == 0:
+            # Allow the string to be longer.
+            # e.g. degrees is valid if 'deg' is in valid_values.
+            matches = [ v for v in valid_values if isinstance(v,str) and value.startswith(v) ]
+        if len(matches) == 1:
+            return matches[0]
+    elif value in valid_values:
+        return value
+    raise ValueError("Parameter %s has invalid value %s.  Valid values are %s."%(
+                     name, value, str(valid_values)))
+
+
 def check_config(config, params, aliases=None, logger=None):
     """Check (and update) a config dict to conform to the given parameter rules.
     The params dict has an entry for each valid config parameter whose value is a tuple
@@ -264,20 +292,10 @@ def check_config(config, params, aliases=None, logger=None):
 
         # If limited allowed value, check that this is one of them.
         if valid_values is not None and value is not None:
-            if value_type is str:
-                matches = [ v for v in valid_values if value == v ]
-                if len(matches) == 0:
-                    # Allow the string to be longer.
-                    # e.g. degrees is valid if 'deg' is in valid_values.
-                    matches = [v for v in valid_values if isinstance(v,str) and value.startswith(v)]
-                if len(matches) != 1:
-                    raise ValueError("Parameter %s has invalid value %s.  Valid values are %s."%(
-                        key, config[key], str(valid_values)))
-                value = matches[0]
+            if isinstance(value, list):
+                value = [ check_valid(v, value_type, valid_values, key) for v in value ]
             else:
-                if value not in valid_values:
-                    raise ValueError("Parameter %s has invalid value %s.  Valid values are %s."%(
-                        key, config[key], str(valid_values)))
+                value = check_valid(value, value_type, valid_values, key)
 
         # Write it back to the dict with the right type
         config[key] = value
-- 
2.43.0


From 142fa093a8da6ac590a465796fafc9e8d1d85543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:43 +0000
Subject: [PATCH 74/82] fix: lists of values for delimiter, comment_marker,
 allow_xyz and vark, varg, etc. use the value of that catalog

---
 treecorr/catalog.py | 40 ++++++++++++++++++++--------------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/treecorr/catalog.py b/treecorr/catalog.py
index f1dbab9..9ede671 100644
--- a/treecorr/catalog.py
+++ b/treecorr/catalog.py
@@ -865,7 +865,7 @@ class Catalog(object):
             self._npatch = 1  # We might yet change this, but it will be correct at end of init.
 
         self.save_patch_dir = self.config.get('save_patch_dir',None)
-        allow_xyz = self.config.get('allow_xyz', False)
+        allow_xyz = get_from_list(self.config,'allow_xyz',num,bool,False)
 
         # First style -- read from a file
         if file_name is not None:
@@ -890,8 +890,8 @@ class Catalog(object):
                 self.reader = ParquetReader(file_name)
                 self._check_file(file_name, self.reader, num, is_rand)
             else:
-                delimiter = self.config.get('delimiter',None)
-                comment_marker = self.config.get('comment_marker','#')
+                delimiter = get_from_list(self.config,'delimiter',num)
+                comment_marker = get_from_list(self.config,'comment_marker',num,str,'#')
                 try:
                     self.reader = PandasReader(file_name, delimiter=delimiter,
                                                comment_marker=comment_marker)
@@ -1007,8 +1007,8 @@ class Catalog(object):
             if ntot == 0:
                 raise ValueError("Input arrays have zero length")
 
-        if (x is not None or self.config.get('x_col','0') not in [0,'0']
-            or self.config.get('x_eval') is not None):
+        if (x is not None or get_from_list(self.config,'x_col',num,str,'0') != '0'
+            or get_from_list(self.config,'x_eval',num) is not None):
             if 'x_units' in self.config and 'y_units' not in self.config:
                 raise TypeError("x_units specified without specifying y_units")
             if 'y_units' in self.config and 'x_units' not in self.config:
@@ -1018,8 +1018,8 @@ class Catalog(object):
                 raise TypeError("x_units is invalid without x")
             if 'y_units' in self.config:
                 raise TypeError("y_units is invalid without y")
-        if (ra is not None or self.config.get('ra_col','0') not in [0,'0']
-            or self.config.get('ra_eval') is not None):
+        if (ra is not None or get_from_list(self.config,'ra_col',num,str,'0') != '0'
+            or get_from_list(self.config,'ra_eval',num) is not None):
             if not self.config.get('ra_units',None):
                 raise TypeError("ra_units is required when using ra, dec")
             if not self.config.get('dec_units',None):
@@ -1030,28 +1030,28 @@ class Catalog(object):
             if 'dec_units' in self.config:
                 raise TypeError("dec_units is invalid without dec")
 
-        if self.config.get('vark', None) is not None:
-            self._vark = self.config['vark']
+        if get_from_list(self.config,'vark',num,float) is not None:
+            self._vark = get_from_list(self.config,'vark',num,float)
             self._meank = 0.
             self._altmeank = 0.
-        if self.config.get('varz', None) is not None:
-            self._varz = self._varz1 = self._varz2 = self.config['varz']
+        if get_from_list(self.config,'varz',num,float) is not None:
+            self._varz = self._varz1 = self._varz2 = get_from_list(self.config,'varz',num,float)
             self._meanz1 = self._meanz2 = 0.
             self._altmeanz1 = self._altmeanz2 = 0.
-        if self.config.get('varv', None) is not None:
-            self._varv = self._varv1 = self._varv2 = self.config['varv']
+        if get_from_list(self.config,'varv',num,float) is not None:
+            self._varv = self._varv1 = self._varv2 = get_from_list(self.config,'varv',num,float)
             self._meanv1 = self._meanv2 = 0.
             self._altmeanv1 = self._altmeanv2 = 0.
-        if self.config.get('varg', None) is not None:
-            self._varg = self._varg1 = self._varg2 = self.config['varg']
+        if get_from_list(self.config,'varg',num,float) is not None:
+            self._varg = self._varg1 = self._varg2 = get_from_list(self.config,'varg',num,float)
             self._meang1 = self._meang2 = 0.
             self._altmeang1 = self._altmeang2 = 0.
-        if self.config.get('vart', None) is not None:
-            self._vart = self._vart1 = self._vart2 = self.config['vart']
+        if get_from_list(self.config,'vart',num,float) is not None:
+            self._vart = self._vart1 = self._vart2 = get_from_list(self.config,'vart',num,float)
             self._meant1 = self._meant2 = 0.
             self._altmeant1 = self._altmeant2 = 0.
-        if self.config.get('varq', None) is not None:
-            self._varq = self._varq1 = self._varq2 = self.config['varq']
+        if get_from_list(self.config,'varq',num,float) is not None:
+            self._varq = self._varq1 = self._varq2 = get_from_list(self.config,'varq',num,float)
             self._meanq1 = self._meanq2 = 0.
             self._altmeanq1 = self._altmeanq2 = 0.
 
@@ -1720,7 +1720,7 @@ class Catalog(object):
         q1_col = get_from_list(self.config,'q1_col',num,str,'0')
         q2_col = get_from_list(self.config,'q2_col',num,str,'0')
         patch_col = get_from_list(self.config,'patch_col',num,str,'0')
-        allow_xyz = self.config.get('allow_xyz', False)
+        allow_xyz = get_from_list(self.config,'allow_xyz',num,bool,False)
 
         x_eval = get_from_list(self.config,'x_eval',num,str,None)
         y_eval = get_from_list(self.config,'y_eval',num,str,None)
-- 
2.43.0


From 9aab933170c469125d5465c06bfc311b09f2edfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:21 +0000
Subject: [PATCH 75/82] fix: the patches of a catalog use the vark, varg, etc.
 that were specified for the catalog

---
 treecorr/catalog.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/treecorr/catalog.py b/treecorr/catalog.py
index 9ede671..4622243 100644
--- a/treecorr/catalog.py
+++ b/treecorr/catalog.py
@@ -2940,11 +2940,22 @@ class Catalog(object):
             if 'ra' in names:
                 kwargs['ra_units'] = 'rad'
                 kwargs['dec_units'] = 'rad'
+            kwargs.update(self._var_kwargs)
             patches.append(Catalog(file_name=file_names[i], patch=i, npatch=self.npatch,
                                    keep_zero_weight=True, **kwargs))
         self._patches = patches
         self.logger.info('Patches created from files %s .. %s',file_names[0],file_names[-1])
 
+    @property
+    def _var_kwargs(self):
+        # Any variances specified by the user, which the patches should use as well.
+        kwargs = {}
+        for key in ('vark', 'varz', 'varv', 'varg', 'vart', 'varq'):
+            var = get_from_list(self.config, key, self._num, float)
+            if var is not None:
+                kwargs[key] = var
+        return kwargs
+
     def get_patches(self, *, low_mem=False):
         """Return a list of Catalog instances each representing a single patch from this Catalog
 
@@ -3020,7 +3031,7 @@ class Catalog(object):
                 q1=self.q1[indx] if self.q1 is not None else None
                 q2=self.q2[indx] if self.q2 is not None else None
                 check_wpos = self._wpos if self._wpos is not None else self._w
-                kwargs = dict(keep_zero_weight=np.any(check_wpos==0))
+                kwargs = dict(keep_zero_weight=np.any(check_wpos==0), **self._var_kwargs)
                 if self.ra is not None:
                     kwargs['ra_units'] = 'rad'
                     kwargs['dec_units'] = 'rad'
-- 
2.43.0


From 89caeb9cdeddaddb7d0aaae081ce2cb673f34c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:38 +0000
Subject: [PATCH 76/82] fix: Linear binning with sep_units used bin_slop times
 the bin size in those units as the slop in radians

---
 treecorr/corr2base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/treecorr/corr2base.py b/treecorr/corr2base.py
index 00dcf8c..6f65426 100644
--- a/treecorr/corr2base.py
+++ b/treecorr/corr2base.py
@@ -473,7 +473,8 @@ class Corr2(object):
         self._ro.angle_slop = get(self.config,'angle_slop',float,self._default_angle_slop)
         if self.bin_slop < 0.0:
             self._ro.bin_slop = min(max_good_slop, 1.0)
-        self._ro.b = self.bin_size * self.bin_slop
+        # Note: b is used with separations in natural units, so use the corresponding bin size.
+        self._ro.b = self._bin_size * self.bin_slop
         if self.bin_slop > max_good_slop + 0.0001 and self.angle_slop > 0.1:
             self.logger.warning(
                 "Using bin_slop = %g, angle_slop = %g, bin_size = %g (b = %g).\n"%(
-- 
2.43.0


From d9ecbcf0163799cea8464fe451a0eb2bc0f5b3f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:36 +0000
Subject: [PATCH 77/82] fix: shot-noise covariance of NK, NG, etc. with randoms
 includes the variance of the randoms

---
 treecorr/corr2base.py     |  4 ++++
 treecorr/nkcorrelation.py | 10 +++++++++-
 treecorr/nzcorrelation.py | 10 +++++++++-
 3 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/treecorr/corr2base.py b/treecorr/corr2base.py
index 6f65426..a5a2140 100644
--- a/treecorr/corr2base.py
+++ b/treecorr/corr2base.py
@@ -2163,6 +2163,10 @@ def _cov_shot(corrs):
         mask1 = v != 0
         # Note: if w=0 anywhere, leave v=0 there, rather than divide by zero.
         v[mask1] = c._var_num / v[mask1]
+        # If the result is compensated by one using randoms, include the shot noise of that.
+        for rand in (getattr(c, '_rk', None), getattr(c, '_rz', None)):
+            if rand is not None:
+                v += _cov_shot([rand])
         vlist.append(v)
     return np.concatenate(vlist)  # Return as just the diagonal
 
diff --git a/treecorr/nkcorrelation.py b/treecorr/nkcorrelation.py
index 8b98863..e3636f1 100644
--- a/treecorr/nkcorrelation.py
+++ b/treecorr/nkcorrelation.py
@@ -156,7 +156,14 @@ class NKCorrelation(Corr2):
         if self._raw_varxi is None:
             self._raw_varxi = np.zeros_like(self.rnom, dtype=float)
             if self._var_num != 0:
-                self._raw_varxi.ravel()[:] = self.cov_diag
+                if self._rk is None:
+                    self._raw_varxi.ravel()[:] = self.cov_diag
+                else:
+                    # The raw variance does not include the effect of the randoms.
+                    rk, self._rk = self._rk, None
+                    cov = self.estimate_cov(self.var_method)
+                    self._rk = rk
+                    self._raw_varxi.ravel()[:] = cov if cov.ndim == 1 else cov.diagonal()
         return self._raw_varxi
 
     @property
@@ -238,6 +245,7 @@ class NKCorrelation(Corr2):
                 self._varxi = np.zeros_like(self.rnom, dtype=float)
                 self._varxi.ravel()[:] = self.cov_diag
             else:
+                self._cov = None
                 self._varxi = self.raw_varxi + rk.varxi
         else:
             if self._rk is not None:
diff --git a/treecorr/nzcorrelation.py b/treecorr/nzcorrelation.py
index 008d031..df83a53 100644
--- a/treecorr/nzcorrelation.py
+++ b/treecorr/nzcorrelation.py
@@ -77,7 +77,14 @@ class BaseNZCorrelation(Corr2):
         if self._raw_varxi is None:
             self._raw_varxi = np.zeros_like(self.rnom, dtype=float)
             if self._var_num != 0:
-                self._raw_varxi.ravel()[:] = self.cov_diag
+                if self._rz is None:
+                    self._raw_varxi.ravel()[:] = self.cov_diag
+                else:
+                    # The raw variance does not include the effect of the randoms.
+                    rz, self._rz = self._rz, None
+                    cov = self.estimate_cov(self.var_method)
+                    self._rz = rz
+                    self._raw_varxi.ravel()[:] = cov if cov.ndim == 1 else cov.diagonal()
         return self._raw_varxi
 
     @property
@@ -140,6 +147,7 @@ class BaseNZCorrelation(Corr2):
                 self._varxi = np.zeros_like(self.rnom, dtype=float)
                 self._varxi.ravel()[:] = self.cov_diag
             else:
+                self._cov = None
                 self._varxi = self.raw_varxi + rz.varxi
         else:
             if self._rz is not None:
-- 
2.43.0


From 08dfa3d0fecd83baf63bd838913e6a241fe03620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:02 +0000
Subject: [PATCH 78/82] fix: Keep min_v non-negative when it is implied by
 max_v, nvbins and vbin_size

---
 treecorr/corr3base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/treecorr/corr3base.py b/treecorr/corr3base.py
index 4af6158..a90862b 100644
--- a/treecorr/corr3base.py
+++ b/treecorr/corr3base.py
@@ -514,7 +514,7 @@ class Corr3(object):
                     if 'max_v' not in self.config:
                         self._ro.max_v = min(self.min_v + self.nvbins * self.vbin_size, 1.)
                     else:  # min_v not in config
-                        self._ro.min_v = max(self.max_v - self.nvbins * self.vbin_size, -1.)
+                        self._ro.min_v = max(self.max_v - self.nvbins * self.vbin_size, 0.)
             # Adjust vbin_size given the other values
             self._ro.vbin_size = (self.max_v-self.min_v)/self.nvbins
             self.logger.info("v: nbins = %d, min,max = %g..%g, bin_size = %g",
-- 
2.43.0


From 519dc7f7370ed9149d2558f3ab457d51b3623796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:02 +0000
Subject: [PATCH 79/82] fix: Allow min_sep=None for TwoD binning

---
 treecorr/corr2base.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/treecorr/corr2base.py b/treecorr/corr2base.py
index a5a2140..82bedd8 100644
--- a/treecorr/corr2base.py
+++ b/treecorr/corr2base.py
@@ -335,7 +335,7 @@ class Corr2(object):
                 raise TypeError("Missing required parameter min_sep")
             if self.config.get('bin_size', None) is None:
                 raise TypeError("Missing required parameter bin_size")
-            self._ro.min_sep = float(self.config.get('min_sep',0))
+            self._ro.min_sep = float(self.config.get('min_sep') or 0)
             self._ro.max_sep = float(self.config['max_sep'])
             if self.min_sep >= self.max_sep:
                 raise ValueError("max_sep must be larger than min_sep")
@@ -346,7 +346,7 @@ class Corr2(object):
                 raise TypeError("Missing required parameter max_sep")
             if self.config.get('min_sep', None) is None and self.bin_type != 'TwoD':
                 raise TypeError("Missing required parameter min_sep")
-            self._ro.min_sep = float(self.config.get('min_sep',0))
+            self._ro.min_sep = float(self.config.get('min_sep') or 0)
             self._ro.max_sep = float(self.config['max_sep'])
             if self.min_sep >= self.max_sep:
                 raise ValueError("max_sep must be larger than min_sep")
@@ -355,7 +355,7 @@ class Corr2(object):
         elif self.config.get('max_sep', None) is None:
             if self.config.get('min_sep', None) is None and self.bin_type != 'TwoD':
                 raise TypeError("Missing required parameter min_sep")
-            self._ro.min_sep = float(self.config.get('min_sep',0))
+            self._ro.min_sep = float(self.config.get('min_sep') or 0)
             self._ro.nbins = int(self.config['nbins'])
             self._ro.bin_size = float(self.config['bin_size'])
             self._ro.max_sep = None
-- 
2.43.0


From 7befc4428837a8a9722bf4d6574e12a29c6f41af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:02 +0000
Subject: [PATCH 80/82] fix: Refuse the Periodic metric for spherical
 coordinates

---
 treecorr/util.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/treecorr/util.py b/treecorr/util.py
index 0fcc205..168d648 100644
--- a/treecorr/util.py
+++ b/treecorr/util.py
@@ -334,6 +334,8 @@ def parse_metric(metric, coords, coords2=None, coords3=None):
         raise ValueError("Rlens metric is only valid for catalogs with 3d positions.")
     if metric == 'Arc' and coords not in ['spherical', '3d']:
         raise ValueError("Arc metric is only valid for catalogs with spherical positions.")
+    if metric == 'Periodic' and coords == 'spherical':
+        raise ValueError("Periodic metric is not valid for catalogs with spherical positions.")
 
     return coords, metric
 
-- 
2.43.0


From d769d1f9c015f6ce43ae43507aa58da953a195c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:37 +0000
Subject: [PATCH 81/82] fix: Refuse a flag array with the wrong number of
 elements

---
 treecorr/catalog.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/treecorr/catalog.py b/treecorr/catalog.py
index 4622243..13d58f3 100644
--- a/treecorr/catalog.py
+++ b/treecorr/catalog.py
@@ -980,6 +980,8 @@ class Catalog(object):
                 raise ValueError("w has the wrong numbers of elements")
             if self._wpos is not None and len(self._wpos) != ntot:
                 raise ValueError("wpos has the wrong numbers of elements")
+            if self._flag is not None and len(self._flag) != ntot:
+                raise ValueError("flag has the wrong numbers of elements")
             if self._k is not None and len(self._k) != ntot:
                 raise ValueError("k has the wrong numbers of elements")
             if self._z1 is not None and len(self._z1) != ntot:
-- 
2.43.0


From a611196c8044b67b8c226285a3bb7d9d6b5d3c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:59 +0000
Subject: [PATCH 82/82] fix: Refuse sep_units for three-point correlations of
 3d coordinates

---
 treecorr/corr3base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/treecorr/corr3base.py b/treecorr/corr3base.py
index a90862b..2b63864 100644
--- a/treecorr/corr3base.py
+++ b/treecorr/corr3base.py
@@ -2230,6 +2230,9 @@ class Corr3(object):
         if metric is None:
             metric = get(self.config,'metric',str,'Euclidean')
         coords, metric = parse_metric(metric, coords1, coords2, coords3)
+        if self.sep_units != '' and coords == '3d' and metric != 'Arc':
+            raise ValueError("sep_units is invalid with 3d coordinates. "
+                             "min_sep and max_sep should be in the same units as r (or x,y,z).")
         if self.coords is not None or self.metric is not None:
             if coords != self.coords:
                 self.logger.warning("Detected a change in catalog coordinate systems. "+
-- 
2.43.0

