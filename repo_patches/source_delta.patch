From 49127dd4d346f7e99f5c67b775f386fed0adf40a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:45 +0000
Subject: [PATCH 1/9] fix: Curve equality compared nothing (returned a
 non-empty tuple, always true)

---
 peano/curves.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peano/curves.py b/peano/curves.py
index 15af449..4a41feb 100644
--- a/peano/curves.py
+++ b/peano/curves.py
@@ -529,7 +529,7 @@ class Curve(FuzzyCurve):
     """
 
     def __eq__(self, other):
-        return self.patterns, self.pnum == other.patterns, other.pnum
+        return (self.patterns, self.pnum) == (other.patterns, other.pnum)
 
     def __hash__(self):
         return hash((self.patterns, self.pnum))
-- 
2.43.0


From b87adea9a17028b5b6f3a99e08f6af82e19d1d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:45 +0000
Subject: [PATCH 2/9] fix: BaseMap**0 is the identity map (it recursed forever)

---
 peano/base_maps.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/peano/base_maps.py b/peano/base_maps.py
index 2351e96..0e5326a 100644
--- a/peano/base_maps.py
+++ b/peano/base_maps.py
@@ -154,6 +154,8 @@ class BaseMap:
     def __pow__(self, power: int) -> BaseMap:
         if power < 0:
             return self.get_inverse()**(-power)
+        elif power == 0:
+            return BaseMap.id_map(self.dim)
         elif power == 1:
             return self
         elif power % 2 == 0:
-- 
2.43.0


From 3fde74eb99d44f49109afa889a7dc969d1b3189a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:45 +0000
Subject: [PATCH 3/9] fix: derive junctions in fifo order, so that junction
 depths are minimal

---
 peano/curves.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peano/curves.py b/peano/curves.py
index 4a41feb..554d407 100644
--- a/peano/curves.py
+++ b/peano/curves.py
@@ -420,7 +420,7 @@ class FuzzyCurve:
 
         while to_derive:
             # to_derive is a queue (fifo), this guarantees that depths are correct
-            junc = to_derive.pop()
+            junc = to_derive.pop(0)
             dj = self._get_derived_junction(junc)
             if dj not in seen:
                 yield dj
-- 
2.43.0


From 02489ed0181a891b20eea18bf62c1c84e8b18a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:45 +0000
Subject: [PATCH 4/9] fix: init_from_paths accepts one-shot iterables as
 base_maps_group

---
 peano/curves.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/peano/curves.py b/peano/curves.py
index 554d407..5889516 100644
--- a/peano/curves.py
+++ b/peano/curves.py
@@ -712,7 +712,8 @@ class PathFuzzyCurve(FuzzyCurve):
         div = paths[0].div
 
         if base_maps_group is None:
-            base_maps_group = list(BaseMap.gen_base_maps(dim))
+            base_maps_group = BaseMap.gen_base_maps(dim)
+        base_maps_group = list(base_maps_group)  # iterated many times below
         if disable_time_rev:
             base_maps_group = [bm for bm in base_maps_group if not bm.time_rev]
 
-- 
2.43.0


From 76c974dcfa834b155f86d77c42fbe1d70dd94591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:45 +0000
Subject: [PATCH 5/9] fix: search reports NOT FOUND instead of crashing when
 the upper bound is too strong

---
 search.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/search.py b/search.py
index b002e46..250ee66 100755
--- a/search.py
+++ b/search.py
@@ -76,15 +76,14 @@ def run_search(
             upper_bound=upper_bound,
             **estimate_kwargs
         )
-        result.update(estimator.get_info())
-        result['gates_count'] = len(gate_list)
-        curves = result.pop('curves')
-
         print('======')
         print('GENERATOR:', gen_id)
         if not result:
             print('NOT FOUND!')
         else:
+            result.update(estimator.get_info())
+            result['gates_count'] = len(gate_list)
+            curves = result.pop('curves')
             pprint.pprint(result)
             print('lower bound (float):', float(result['lo']))
             print('upper bound (float):', float(result['up']))
-- 
2.43.0


From 2f879605f6cac0e32da3ca8cb30521ee668e89dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:45 +0000
Subject: [PATCH 6/9] fix: YE-proof imported get_ye_curve from a module that
 does not exist

---
 YE-proof.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/YE-proof.py b/YE-proof.py
index 8170524..1dedf37 100644
--- a/YE-proof.py
+++ b/YE-proof.py
@@ -7,7 +7,7 @@ from peano.base_maps import BaseMap
 from peano.paths import PathsGenerator
 from peano.curves import PathFuzzyCurve
 from peano.dilation import Estimator
-from tests.examples import get_ye_curve
+from peano.zoo import get_ye_curve
 
 from search import run_search
 
@@ -18,7 +18,7 @@ MEDIAN_LINK = Link.parse_gates('(0,0)->(1,1/2)')
 
 
 def check_genus5_non_ye():
-    YE_proto = get_ye_curve().proto
+    YE_proto = get_ye_curve().curve.proto
     YE_protos = set(bm * YE_proto for bm in BaseMap.gen_base_maps(dim=2))
     paths_gen = PathsGenerator(dim=2, div=5, links=(SIDE_LINK,), max_cdist=1)
     paths_list = list(paths_gen.generate_paths(std=True))
@@ -39,7 +39,7 @@ def check_genus5_non_ye():
 
 
 def check_genus5_ye_proto():
-    YE_curve = get_ye_curve()
+    YE_curve = get_ye_curve().curve
     YE_proto = YE_curve.proto
     YE_protos = set(bm * YE_proto for bm in BaseMap.gen_base_maps(dim=2))
     paths_gen = PathsGenerator(dim=2, div=5, links=(SIDE_LINK,), max_cdist=1)
@@ -50,7 +50,7 @@ def check_genus5_ye_proto():
     assert len(paths_list) == 1
 
     test_pcurves = []
-    ye_pcurve = get_ye_curve().forget()
+    ye_pcurve = get_ye_curve().curve.forget()
     for cnum, ye_spec in enumerate(YE_curve.specs):
         allowed = ye_pcurve.gen_allowed_specs(pnum=0, cnum=cnum)
         test_pcurves += [ye_pcurve.specify(pnum=0, cnum=cnum, spec=sp) for sp in allowed if sp != ye_spec]
@@ -70,7 +70,7 @@ def check_genus5_ye_proto():
 def check_ye():
     estimator = Estimator(ratio_l2)
     result = estimator.estimate_dilation_regular(
-        get_ye_curve(),
+        get_ye_curve().curve,
         use_face_moments=True, face_dim=0,
         max_depth=5,
         rel_tol_inv=100000,
-- 
2.43.0


From e9d0230ebf7bbcbb1e8ed12fd57fa6b5dd474969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:45 +0000
Subject: [PATCH 7/9] fix: model curve keeps the selected pattern of the fuzzy
 curve

---
 peano/_sat_adapters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peano/_sat_adapters.py b/peano/_sat_adapters.py
index d7712f0..fb1481a 100644
--- a/peano/_sat_adapters.py
+++ b/peano/_sat_adapters.py
@@ -214,4 +214,4 @@ class CurveSATAdapter:
         for pnum, pattern in enumerate(curve.patterns):
             specs = specs_allowed_by_model[pnum * G : (pnum + 1) * G]
             patterns.append((pattern.proto, specs))
-        return Curve(dim=curve.dim, div=curve.div, patterns=patterns)
+        return Curve(dim=curve.dim, div=curve.div, patterns=patterns, pnum=curve.pnum)
-- 
2.43.0


From b61cd85c2c98f104758f291f774510f242594a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:45 +0000
Subject: [PATCH 8/9] fix: forget keeps the selected pattern of the curve

---
 peano/curves.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peano/curves.py b/peano/curves.py
index 5889516..4674d40 100644
--- a/peano/curves.py
+++ b/peano/curves.py
@@ -564,7 +564,7 @@ class Curve(FuzzyCurve):
 
     def forget(self, **kwargs) -> PathFuzzyCurve:
         """Convert curve to a fuzzy curve, saving entrance/exit and forgetting all specs."""
-        return PathFuzzyCurve.init_from_paths(self.get_paths(), **kwargs)
+        return PathFuzzyCurve.init_from_paths(self.get_paths(), **kwargs)._changed(pnum=self.pnum)
 
     def get_subdivision(self, k: int = 1) -> Curve:
         """Get k-th subdivision of a curve."""
-- 
2.43.0


From 785099e6e55080b19f6639d703d9e76b9c2ee143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:41 +0000
Subject: [PATCH 9/9] fix: Spec.parse reads pattern numbers of several digits,
 as Spec prints them

---
 peano/base_maps.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/peano/base_maps.py b/peano/base_maps.py
index 0e5326a..fed242c 100644
--- a/peano/base_maps.py
+++ b/peano/base_maps.py
@@ -311,12 +311,9 @@ class Spec:
     @classmethod
     def parse(cls, text: str) -> Spec:
         """Parse spec, e.g. 3ijk for pnum=3 and bm=ijk."""
-        if text[0].isdigit():
-            pnum = int(text[0])
-            basis = text[1:]
-        else:
-            pnum = 0
-            basis = text
+        basis = text.lstrip('0123456789')
+        digits = text[:len(text) - len(basis)]
+        pnum = int(digits) if digits else 0
         return cls(base_map=BaseMap.parse(basis), pnum=pnum)
 
     def __str__(self) -> str:
-- 
2.43.0

