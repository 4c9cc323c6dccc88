From cf5a37716cea8993f40dfbcbc9e57b0568e569fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:56 +0000
Subject: [PATCH 01/29] fix: RK instances share the Butcher table arrays of
 their class

Writing into coefficients obtained from one instance changed the method for
the whole process. Each instance now owns copies of its table.
---
 qmat/qcoeff/butcher.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/qmat/qcoeff/butcher.py b/qmat/qcoeff/butcher.py
index 9d46bdb..5146ab9 100644
--- a/qmat/qcoeff/butcher.py
+++ b/qmat/qcoeff/butcher.py
@@ -45,6 +45,11 @@ class RK(QGenerator):
     """:math:`b_2` coefficients for the embedded methods"""
 
     def __init__(self, padding=None):
+        # Instance copies, so that no instance gives access to the class tables
+        self.A, self.b, self.c = np.array(self.A), np.array(self.b), np.array(self.c)
+        if self.b2 is not None:
+            self.b2 = np.array(self.b2)
+
         if padding:
             assert padding in ["LEFT", "RIGHT", "BOTH"], "padding choices can only be LEFT, RIGHT or BOTH"
 
-- 
2.43.0


From e5204fc4d3d427df6f53c1bbb80c76a232fcce59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:56 +0000
Subject: [PATCH 02/29] fix: embedded weights are not padded with the rest of a
 Butcher table

---
 qmat/qcoeff/butcher.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/qmat/qcoeff/butcher.py b/qmat/qcoeff/butcher.py
index 5146ab9..da1e253 100644
--- a/qmat/qcoeff/butcher.py
+++ b/qmat/qcoeff/butcher.py
@@ -56,6 +56,8 @@ class RK(QGenerator):
             if padding in ["LEFT", "BOTH"]:
                 self.c = np.array([0] + self.c.tolist())
                 self.b = np.array([0] + self.b.tolist())
+                if self.b2 is not None:
+                    self.b2 = np.array([0] + self.b2.tolist())
 
                 newA = np.zeros((self.nNodes, self.nNodes))
                 newA[1:, 1:] = self.A
@@ -64,6 +66,8 @@ class RK(QGenerator):
             if padding in ["RIGHT", "BOTH"]:
                 self.c = np.array(self.c.tolist() + [1])
                 self.b = np.array(self.b.tolist() + [0])
+                if self.b2 is not None:
+                    self.b2 = np.array(self.b2.tolist() + [0])
 
                 newA = np.zeros((self.nNodes, self.nNodes))
                 newA[:-1, :-1] = self.A
-- 
2.43.0


From ba0b96bd825699f5fe732ccfa0b9f8a8f70f2222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:56 +0000
Subject: [PATCH 03/29] fix: QGenerator.genCoeffs hands out the internal arrays
 of the generator

---
 qmat/qcoeff/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qmat/qcoeff/__init__.py b/qmat/qcoeff/__init__.py
index dc58760..403405a 100644
--- a/qmat/qcoeff/__init__.py
+++ b/qmat/qcoeff/__init__.py
@@ -117,7 +117,8 @@ class QGenerator(object):
             mat = self.S
         else:
             raise ValueError(f"form must be Z2N or N2N, not {form}")
-        out = [self.nodes, self.weights, mat]
+        # Copies, so that callers cannot modify the generator through the result
+        out = [np.array(self.nodes), np.array(self.weights), np.array(mat)]
         if embedded:
             out[1] = np.vstack([out[1], self.weightsEmbedded])
         if hCoeffs:
-- 
2.43.0


From d24948e6cb8eed2e7601a9c20bf97cd19b005e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:56 +0000
Subject: [PATCH 04/29] fix: QDeltaGenerator.genCoeffs hands out its cached
 matrix

Writing into the result of genCoeffs(k) changed every later result of the
same generator.
---
 qmat/qdelta/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmat/qdelta/__init__.py b/qmat/qdelta/__init__.py
index 6aebf15..97a0f08 100644
--- a/qmat/qdelta/__init__.py
+++ b/qmat/qdelta/__init__.py
@@ -205,7 +205,7 @@ class QDeltaGenerator(object):
             k = list(k)
             out = [np.array([gen(_k, copy=False) for _k in k])]
         except TypeError:
-            out = [gen(k)]
+            out = [gen(k, copy=True)]
         if dTau:
             out += [self.dTau]
         return out if len(out) > 1 else out[0]
-- 
2.43.0


From a76b334742dd4344b21b4977547b9eb05b289aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:56 +0000
Subject: [PATCH 05/29] fix: genQDeltaCoeffs extends the list of types of its
 caller in place

---
 qmat/qdelta/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmat/qdelta/__init__.py b/qmat/qdelta/__init__.py
index 97a0f08..65a751f 100644
--- a/qmat/qdelta/__init__.py
+++ b/qmat/qdelta/__init__.py
@@ -274,7 +274,7 @@ def genQDeltaCoeffs(qDeltaType, nSweeps=None, form="Z2N", dTau=False, **params):
             # complete with additional sweeps
             assert nSweeps >= len(qDeltaType), \
                 f"nSweeps ({nSweeps}) is lower than list length for qDeltaType ({qDeltaType})"
-            qDeltaType += [qDeltaType[-1]]*(nSweeps-len(qDeltaType))
+            qDeltaType = qDeltaType + [qDeltaType[-1]]*(nSweeps-len(qDeltaType))
         else:
             raise ValueError(f"bad value of nSweep {nSweeps}")
     else:
-- 
2.43.0


From fba028f05a565518297be98e28465d9e0a7b5e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:56 +0000
Subject: [PATCH 06/29] fix: generators and approximations keep references to
 the arrays of their caller

When the caller reused its arrays, weights and cached matrices did not match
the points, nodes or Q any more.
---
 qmat/lagrange.py            | 4 ++--
 qmat/qdelta/__init__.py     | 2 +-
 qmat/qdelta/diag.py         | 2 +-
 qmat/qdelta/timestepping.py | 2 +-
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/qmat/lagrange.py b/qmat/lagrange.py
index ab84845..ddcad07 100644
--- a/qmat/lagrange.py
+++ b/qmat/lagrange.py
@@ -164,7 +164,7 @@ class LagrangeApproximation(object):
     def __init__(self, points,
                  weightComputation='AUTO', scaleWeights=False, scaleRef='MAX',
                  duplicates="USE_LEFT", fValues=None):
-        points = np.asarray(points, dtype=float).ravel()
+        points = np.array(points, dtype=float).ravel()
 
         uniques = np.unique(points)
         if points.size != uniques.size:
@@ -235,7 +235,7 @@ class LagrangeApproximation(object):
 
         # Store function values if provided
         if fValues is not None:
-            fValues = np.asarray(fValues)
+            fValues = np.array(fValues)
             if fValues.shape != self.points.shape:
                 raise ValueError(f'fValues {fValues.shape} has not the correct shape: {self.points.shape}')
         self.fValues = fValues
diff --git a/qmat/qdelta/__init__.py b/qmat/qdelta/__init__.py
index 65a751f..f3959fb 100644
--- a/qmat/qdelta/__init__.py
+++ b/qmat/qdelta/__init__.py
@@ -81,7 +81,7 @@ class QDeltaGenerator(object):
         return cls._K_DEPENDENT
 
     def __init__(self, Q, **kwargs):
-        self.Q:np.ndarray = np.asarray(Q, dtype=float)
+        self.Q:np.ndarray = np.array(Q, dtype=float)
         """:math:`Q` matrix of the approximated time-integration method"""
 
     @staticmethod
diff --git a/qmat/qdelta/diag.py b/qmat/qdelta/diag.py
index 7355aed..0d51b9b 100644
--- a/qmat/qdelta/diag.py
+++ b/qmat/qdelta/diag.py
@@ -125,7 +125,7 @@ class MIN_SR_NS(QDeltaGenerator):
     aliases = ["MIN-SR-NS", "MIN_GT"]
 
     def __init__(self, nodes, **kwargs):
-        self.nodes = np.asarray(nodes)
+        self.nodes = np.array(nodes)
 
     @staticmethod
     def extractParams(qGen:QGenerator) -> dict:
diff --git a/qmat/qdelta/timestepping.py b/qmat/qdelta/timestepping.py
index 5b64d15..6b6d253 100644
--- a/qmat/qdelta/timestepping.py
+++ b/qmat/qdelta/timestepping.py
@@ -37,7 +37,7 @@ class TimeStepping(QDeltaGenerator):
         Additional parameters given in a generic call, ignored by this class.
     """
     def __init__(self, nodes, tLeft=0, **kwargs):
-        nodes = np.asarray(nodes)
+        nodes = np.array(nodes)
         deltas = nodes.copy()
         deltas[0] = nodes[0] - tLeft
         deltas[1:] = np.ediff1d(nodes)
-- 
2.43.0


From cbc51e03c6951579a63d8609e6e27abe1dcb8a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:56 +0000
Subject: [PATCH 07/29] fix: MIN-SR-S coefficients change the warning filters
 of the process

warnings.catch_warnings is not thread-safe: two threads computing MIN-SR-S or
MIN-SR-FLEX coefficients left all warnings ignored for good.
---
 qmat/qdelta/diag.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/qmat/qdelta/diag.py b/qmat/qdelta/diag.py
index 0d51b9b..bf90700 100644
--- a/qmat/qdelta/diag.py
+++ b/qmat/qdelta/diag.py
@@ -18,7 +18,6 @@ Examples
 >>> minSRFLEX = MIN_SR_FLEX(coll.nNodes, coll.nodeType, coll.quadType)
 >>> QD1, QD2, QD3 = minSRFLEX.genCoeffs(k=[1,2,3])
 """
-import warnings
 import numpy as np
 import scipy.optimize as spo
 
@@ -242,9 +241,9 @@ class MIN_SR_S(QDeltaGenerator):
             else:
                 coeffs0 = a * nodesM**b / M
 
-            with warnings.catch_warnings():
-                warnings.simplefilter("ignore")
-                coeffs = spo.fsolve(nilpotency, coeffs0, xtol=1e-15)
+            # Silence without changing the (process-wide) warning filters
+            with np.errstate(all="ignore"):
+                coeffs = spo.fsolve(nilpotency, coeffs0, xtol=1e-15, full_output=True)[0]
 
         # Handle first node equal to zero
         if quadType in ['LOBATTO', 'RADAU-LEFT']:
-- 
2.43.0


From c22a2aa51c9fd330b1715ca8727146558d2c9dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:50 +0000
Subject: [PATCH 08/29] fix: time-stepping approximations truncate deltas of
 integer nodes

---
 qmat/qdelta/timestepping.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmat/qdelta/timestepping.py b/qmat/qdelta/timestepping.py
index 6b6d253..ad9bd63 100644
--- a/qmat/qdelta/timestepping.py
+++ b/qmat/qdelta/timestepping.py
@@ -37,7 +37,7 @@ class TimeStepping(QDeltaGenerator):
         Additional parameters given in a generic call, ignored by this class.
     """
     def __init__(self, nodes, tLeft=0, **kwargs):
-        nodes = np.array(nodes)
+        nodes = np.array(nodes, dtype=float)
         deltas = nodes.copy()
         deltas[0] = nodes[0] - tLeft
         deltas[1:] = np.ediff1d(nodes)
-- 
2.43.0


From 65ad6c7fff572220272f445e174b3ce804317274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:50 +0000
Subject: [PATCH 09/29] fix: BEPAR, TRAPAR and SOE coefficients for a left
 bound that is not zero

BEPAR and TRAPAR subtracted the bound from all entries of the matrix (and
TRAPAR twice the step size), SOE ignored it.
---
 qmat/qdelta/timestepping.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/qmat/qdelta/timestepping.py b/qmat/qdelta/timestepping.py
index ad9bd63..88f6f02 100644
--- a/qmat/qdelta/timestepping.py
+++ b/qmat/qdelta/timestepping.py
@@ -118,7 +118,7 @@ class BEPAR(TimeStepping):
     aliases = ["IEpar"]
 
     def computeQDelta(self, k=None):
-        return np.diag(self.nodes) - self.tLeft
+        return np.diag(self.nodes - self.tLeft)
 
 
 @register
@@ -126,11 +126,11 @@ class TRAPAR(TimeStepping):
     """Approximation based on parallel Trapezoidal Rule from zero to nodes"""
 
     def computeQDelta(self, k=None):
-        return np.diag(self.nodes/2) - self.tLeft
+        return np.diag(self.nodes - self.tLeft)/2
 
     @property
     def dTau(self)->np.ndarray:
-        return self.nodes/2.0 - self.tLeft
+        return (self.nodes - self.tLeft)/2.0
 
 
 @register
@@ -141,7 +141,7 @@ class SOE(TimeStepping):
 
     def computeQDelta(self, k=None):
         QDelta, M = self.zeros, self.nodes.size
-        times = [0] + self.nodes.tolist()
+        times = [self.tLeft] + self.nodes.tolist()
         alpha = [
             LagrangeApproximation(times[i:i+3]).getDerivativeMatrix()[1]
             for i in range(M-1)
-- 
2.43.0


From 16985e9fbaeec2b730e46318e7731da9276270bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:50 +0000
Subject: [PATCH 10/29] fix: h coefficients of a Collocation method on an
 interval not ending at one

---
 qmat/qcoeff/collocation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmat/qcoeff/collocation.py b/qmat/qcoeff/collocation.py
index ff7dcee..e88de90 100644
--- a/qmat/qcoeff/collocation.py
+++ b/qmat/qcoeff/collocation.py
@@ -91,7 +91,7 @@ class Collocation(QGenerator):
 
     @property
     def hCoeffs(self)->np.ndarray:
-        return self.approx.getInterpolationMatrix([1]).ravel()
+        return self.approx.getInterpolationMatrix([self.tRight]).ravel()
 
     @property
     def order(self)->int:
-- 
2.43.0


From c6ad2adde0c375ce1b7fcbfa3573aec9c19af650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:50 +0000
Subject: [PATCH 11/29] fix: a refused registration leaves the class partly
 registered

The name was stored before the aliases were checked, and RK schemes were
stored in RK_SCHEMES before being checked by the generic registration. Names
are now all checked, then all stored, under a lock.
---
 qmat/qcoeff/__init__.py |  9 ++++++---
 qmat/qcoeff/butcher.py  | 12 ++++++++----
 qmat/utils/__init__.py  | 24 +++++++++++++++---------
 3 files changed, 29 insertions(+), 16 deletions(-)

diff --git a/qmat/qcoeff/__init__.py b/qmat/qcoeff/__init__.py
index 403405a..ba5d029 100644
--- a/qmat/qcoeff/__init__.py
+++ b/qmat/qcoeff/__init__.py
@@ -213,8 +213,11 @@ class QGenerator(object):
 Q_GENERATORS: dict[str, type[QGenerator]] = {}
 """Dictionary containing all specialized :class:`QGenerator` classes, with all their aliases"""
 
-def register(cls: type[T]) -> type[T]:
-    """Class decorator to register a specialized :class:`QGenerator` class in qmat"""
+def register(cls: type[T], *dicos) -> type[T]:
+    """
+    Class decorator to register a specialized :class:`QGenerator` class in qmat
+    (and in additional dictionaries, if any)
+    """
     # Check for correct overriding
     for name in ["nodes", "Q", "weights", "order"]:
         checkOverriding(cls, name, isProperty=True)
@@ -234,7 +237,7 @@ def register(cls: type[T]) -> type[T]:
             raise TypeError(
                 f"{cls.__name__} could not be instantiated with DEFAULT_PARAMS")
     # Store class (and aliases)
-    storeClass(cls, Q_GENERATORS)
+    storeClass(cls, Q_GENERATORS, *dicos)
     return cls
 
 def genQCoeffs(qType, form="Z2N", hCoeffs=False, embedded=False, **params):
diff --git a/qmat/qcoeff/butcher.py b/qmat/qcoeff/butcher.py
index da1e253..a817138 100644
--- a/qmat/qcoeff/butcher.py
+++ b/qmat/qcoeff/butcher.py
@@ -105,8 +105,8 @@ class RK(QGenerator):
 RK_SCHEMES:dict[str, type[RK]] = {}
 """Dictionary storing all the implemented RK methods"""
 
-def checkAndStore(cls:RK) -> RK:
-    """Check that a `RK`-inherited class is correctly implemented (and store it into the :class:`RK_SCHEMES` dict)"""
+def check(cls:RK) -> RK:
+    """Check that a `RK`-inherited class is correctly implemented"""
     cls.A = np.array(cls.A, dtype=float)
     cls.b = np.array(cls.b, dtype=float)
     cls.c = np.array(cls.c, dtype=float)
@@ -123,12 +123,16 @@ def checkAndStore(cls:RK) -> RK:
     assert cls.order is not None, \
         f"order not defined for {cls.__name__}"
 
-    storeClass(cls, RK_SCHEMES)
+    return cls
+
+def checkAndStore(cls:RK) -> RK:
+    """Check that a `RK`-inherited class is correctly implemented (and store it into the :class:`RK_SCHEMES` dict)"""
+    storeClass(check(cls), RK_SCHEMES)
     return cls
 
 def registerRK(cls:RK)->RK:
     """Class decorator registering a RK method in `qmat`"""
-    return register(checkAndStore(cls))
+    return register(check(cls), RK_SCHEMES)
 
 
 # -----------------------------------------------------------------------------
diff --git a/qmat/utils/__init__.py b/qmat/utils/__init__.py
index 5082079..1aa4343 100644
--- a/qmat/utils/__init__.py
+++ b/qmat/utils/__init__.py
@@ -11,6 +11,7 @@ Utility sub-package for `qmat`, containing already some base functions and class
 import inspect
 import pkgutil
 import functools
+import threading
 from time import time
 
 
@@ -38,21 +39,26 @@ def checkGenericConstr(cls):
         raise AssertionError(f"{cls.__name__} class requires **kwargs in its constructor")
 
 
-def storeAlias(cls, dico, alias):
-    """Store a class into a dictionary with a given alias"""
-    assert alias not in dico, f"{alias} alias already registered in {dico}"
-    dico[alias] = cls
+registryLock = threading.RLock()
+"""Lock held while checking and storing class names and aliases"""
 
 
-def storeClass(cls, dico):
-    """Store a class into a dictionary"""
-    storeAlias(cls, dico, cls.__name__)
+def storeClass(cls, *dicos):
+    """Store a class into one or several dictionaries, in all of them or in none"""
+    names = [cls.__name__]
     aliases = getattr(cls, "aliases", None)
     if aliases:
         assert isinstance(aliases, list), \
             f"aliases must be a list in class {cls.__name__}"
-        for alias in aliases:
-            storeAlias(cls, dico, alias)
+        names += aliases
+    with registryLock:
+        for i, name in enumerate(names):
+            assert name not in names[:i], \
+                f"{name} alias given twice for {cls.__name__}"
+            for dico in dicos:
+                assert name not in dico, f"{name} alias already registered in {dico}"
+        for dico in dicos:
+            dico.update(dict.fromkeys(names, cls))
 
 
 def importAll(localVars, __all__, __path__, __name__, __import__):
-- 
2.43.0


From 970fdbf10f573ce98ef7c488632eaeb39349036e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:50 +0000
Subject: [PATCH 12/29] fix: listing classes fails when another thread
 registers one

---
 qmat/utils/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmat/utils/__init__.py b/qmat/utils/__init__.py
index 1aa4343..67dc484 100644
--- a/qmat/utils/__init__.py
+++ b/qmat/utils/__init__.py
@@ -76,7 +76,7 @@ def getClasses(dico, module=None):
         check = lambda cls: True
     else:
         check = lambda cls: cls.__module__.endswith("."+module)
-    for key, cls in dico.items():
+    for key, cls in list(dico.items()):  # snapshot, classes can be registered meanwhile
         if cls not in classes.values() and check(cls):
             classes[key] = cls
     return classes
-- 
2.43.0


From 5bb2170fd17fbf3d046b07200ebd020278f5f65f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:50 +0000
Subject: [PATCH 13/29] fix: Timer uses the civil clock, which can be adjusted
 during a measure

---
 qmat/utils/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/qmat/utils/__init__.py b/qmat/utils/__init__.py
index 67dc484..bd97281 100644
--- a/qmat/utils/__init__.py
+++ b/qmat/utils/__init__.py
@@ -12,7 +12,7 @@ import inspect
 import pkgutil
 import functools
 import threading
-from time import time
+from time import perf_counter
 
 
 def checkOverriding(cls, name, isProperty=False, mroIndex=-2):
@@ -137,10 +137,10 @@ class Timer():
 
     def start(self):
         print(f"Starting {self.name} ...")
-        self.tStart = time()
+        self.tStart = perf_counter()
 
     def stop(self):
-        self.tWall = time() - self.tStart
+        self.tWall = perf_counter() - self.tStart
         self.tWall /= self.scale
         print(f" -- {self.descr} : {self.tWall:1.2e}s")
 
-- 
2.43.0


From 0624f60d97c06cfab4def482f5fe6094c2a8e365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:50 +0000
Subject: [PATCH 14/29] fix: classes are missing from the registries after an
 import that failed once

---
 qmat/utils/__init__.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/qmat/utils/__init__.py b/qmat/utils/__init__.py
index bd97281..e9134e5 100644
--- a/qmat/utils/__init__.py
+++ b/qmat/utils/__init__.py
@@ -8,6 +8,7 @@ Utility sub-package for `qmat`, containing already some base functions and class
 - :class:`num` : functions for numerical mathematics
 - :class:`sdc` : functions to run SDC and evaluate its numerical error on simple problems
 """
+import sys
 import inspect
 import pkgutil
 import functools
@@ -64,9 +65,17 @@ def storeClass(cls, *dicos):
 def importAll(localVars, __all__, __path__, __name__, __import__):
     """Import all submodules in the current (sub-)package"""
     __all__ += [var for var in localVars.keys() if not var.startswith('__')]
-    for _, moduleName, _ in pkgutil.walk_packages(__path__):
-        __all__.append(moduleName)
-        __import__(__name__+'.'+moduleName)
+    try:
+        for _, moduleName, _ in pkgutil.walk_packages(__path__):
+            __all__.append(moduleName)
+            __import__(__name__+'.'+moduleName)
+    except BaseException:
+        # Forget the submodules already imported, or they would not register
+        # their classes again when the import of the package is tried again
+        for moduleName in list(sys.modules):
+            if moduleName.startswith(__name__+'.'):
+                sys.modules.pop(moduleName, None)
+        raise
 
 
 def getClasses(dico, module=None):
-- 
2.43.0


From 0f4419260851624d90747b2c7bd2dc4710ea9ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:50 +0000
Subject: [PATCH 15/29] fix: overflow of the barycentric weights is ignored in
 AUTO mode

The documented switch to the STABLE algorithm was done for divisions by zero
only, so that widely spaced points gave NaN matrices.
---
 qmat/lagrange.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/qmat/lagrange.py b/qmat/lagrange.py
index ddcad07..fc7468a 100644
--- a/qmat/lagrange.py
+++ b/qmat/lagrange.py
@@ -211,11 +211,11 @@ class LagrangeApproximation(object):
             return invProd
 
         if weightComputation == 'AUTO':
-            with np.errstate(divide='raise', over='ignore'):
-                try:
+            try:
+                with np.errstate(divide='raise', over='raise', under='raise'):
                     invProd = analytic(diffs)
-                except FloatingPointError:
-                    invProd = logScale(diffs)
+            except FloatingPointError:
+                invProd = logScale(diffs)
         elif weightComputation == 'FAST':
             invProd = analytic(diffs)
         elif weightComputation == 'STABLE':
-- 
2.43.0


From 0a6da22a130a9fe86538d5f4b09212bc22ce74f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:50 +0000
Subject: [PATCH 16/29] fix: interpolation matrix is NaN when weights are close
 to the floating point limits

---
 qmat/lagrange.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qmat/lagrange.py b/qmat/lagrange.py
index fc7468a..fa841c3 100644
--- a/qmat/lagrange.py
+++ b/qmat/lagrange.py
@@ -345,7 +345,9 @@ class LagrangeApproximation(object):
         iDiff[i, :] = concom[i, :]
 
         # Compute interpolation matrix using weights
-        P = iDiff * self.weights
+        weights = self.weights  # scaled (exactly) away from the floating point limits
+        weights = np.ldexp(weights, -np.frexp(np.max(np.abs(weights)))[1])
+        P = iDiff * weights
         P /= P.sum(axis=-1)[:, None]
 
         if duplicates:
-- 
2.43.0


From de799ac4083f6703e24e1c3ececef75b338b5572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:50 +0000
Subject: [PATCH 17/29] fix: CHEBFUN weights are NaN for a single point

---
 qmat/lagrange.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qmat/lagrange.py b/qmat/lagrange.py
index fa841c3..2bd5364 100644
--- a/qmat/lagrange.py
+++ b/qmat/lagrange.py
@@ -202,7 +202,8 @@ class LagrangeApproximation(object):
 
         def chebfun(diffs):
             # Implementation used in chebfun
-            diffs *= 4 / (points.max() - points.min())
+            if points.size > 1:
+                diffs *= 4 / (points.max() - points.min())
             sign = np.sign(diffs).prod(axis=1)
             vv = np.exp(np.log(np.abs(diffs)).sum(axis=1))
             invProd = (sign * vv)
-- 
2.43.0


From 878254da0cc8fa1c0bdf34119ad36f007843ba83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:50 +0000
Subject: [PATCH 18/29] fix: weights of points not given in increasing order
 are permuted

Weights were computed for the sorted points, and used with the points in
their original order (e.g. for the h coefficients of EDIRK4 and EDIRK43).
---
 qmat/lagrange.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmat/lagrange.py b/qmat/lagrange.py
index 2bd5364..d1dff9e 100644
--- a/qmat/lagrange.py
+++ b/qmat/lagrange.py
@@ -175,7 +175,7 @@ class LagrangeApproximation(object):
             self.points = self.uniquePoints = points
             self._handleDuplicates = self._passThrough
 
-        points = uniques  # require unique points for weight computation
+        points = self.uniquePoints  # require unique points for weight computation
 
         diffs = points[:, None] - points[None, :]
         diffs[np.diag_indices_from(diffs)] = 1
-- 
2.43.0


From 82a6b34a1f69db6d076c418ba97553904339c25a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:50 +0000
Subject: [PATCH 19/29] fix: sparse interpolation reuses rows of other points
 on fine grids

np.allclose compares with an absolute tolerance of 1e-8, whatever the grid
size, and a relative one that is visible in the matrix.
---
 qmat/lagrange.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qmat/lagrange.py b/qmat/lagrange.py
index d1dff9e..f6a04f6 100644
--- a/qmat/lagrange.py
+++ b/qmat/lagrange.py
@@ -587,7 +587,8 @@ def getSparseInterpolationMatrix(inPoints, outPoints, order, gridPeriod=-1):
             closestPointsIdx = np.sort(np.argsort(np.abs(inPoints - outPoints[i]))[:order])
             closestPoints = inPoints[closestPointsIdx] - outPoints[i]
 
-        if lastClosestPoints is not None and len(closestPoints) == len(lastClosestPoints) and np.allclose(closestPoints, lastClosestPoints):
+        if lastClosestPoints is not None and len(closestPoints) == len(lastClosestPoints) \
+                and np.allclose(closestPoints, lastClosestPoints, rtol=0, atol=1e-14*np.max(np.abs(closestPoints))):
             interpolationLine = lastInterpolationLine
         else:
             interpolator = LagrangeApproximation(points = closestPoints)
-- 
2.43.0


From 7e739fdd4e82e2e48047ee6e5dd7cf45778a7281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:05 +0000
Subject: [PATCH 20/29] fix: forget all submodules when the import of qmat
 fails

After a failed import tried again, the submodules that stayed in sys.modules
were neither executed again nor set as attributes of the new qmat package.
---
 qmat/__init__.py       | 16 +++++++++++++---
 qmat/utils/__init__.py | 15 +++------------
 2 files changed, 16 insertions(+), 15 deletions(-)

diff --git a/qmat/__init__.py b/qmat/__init__.py
index d4ec435..6461080 100644
--- a/qmat/__init__.py
+++ b/qmat/__init__.py
@@ -30,9 +30,19 @@ Examples
 >>> print(Q_GENERATORS)         # list all available generator classes for Q coefficients
 >>> print(QDELTA_GENERATORS)    # list all available generator classes for QDelta approximations
 """
-from qmat.qcoeff import genQCoeffs, Q_GENERATORS
-from qmat.qdelta import genQDeltaCoeffs, QDELTA_GENERATORS
-
 __all__ = [
     "genQCoeffs", "genQDeltaCoeffs",
     "Q_GENERATORS", "QDELTA_GENERATORS"]
+
+try:
+    from qmat.qcoeff import genQCoeffs, Q_GENERATORS
+    from qmat.qdelta import genQDeltaCoeffs, QDELTA_GENERATORS
+except BaseException:
+    # Forget the submodules already imported : those would neither be executed
+    # again (to register their classes), nor set as attributes of the package,
+    # when importing it is tried again
+    import sys
+    for name in list(sys.modules):
+        if name.startswith(__name__ + "."):
+            sys.modules.pop(name, None)
+    raise
diff --git a/qmat/utils/__init__.py b/qmat/utils/__init__.py
index e9134e5..bd97281 100644
--- a/qmat/utils/__init__.py
+++ b/qmat/utils/__init__.py
@@ -8,7 +8,6 @@ Utility sub-package for `qmat`, containing already some base functions and class
 - :class:`num` : functions for numerical mathematics
 - :class:`sdc` : functions to run SDC and evaluate its numerical error on simple problems
 """
-import sys
 import inspect
 import pkgutil
 import functools
@@ -65,17 +64,9 @@ def storeClass(cls, *dicos):
 def importAll(localVars, __all__, __path__, __name__, __import__):
     """Import all submodules in the current (sub-)package"""
     __all__ += [var for var in localVars.keys() if not var.startswith('__')]
-    try:
-        for _, moduleName, _ in pkgutil.walk_packages(__path__):
-            __all__.append(moduleName)
-            __import__(__name__+'.'+moduleName)
-    except BaseException:
-        # Forget the submodules already imported, or they would not register
-        # their classes again when the import of the package is tried again
-        for moduleName in list(sys.modules):
-            if moduleName.startswith(__name__+'.'):
-                sys.modules.pop(moduleName, None)
-        raise
+    for _, moduleName, _ in pkgutil.walk_packages(__path__):
+        __all__.append(moduleName)
+        __import__(__name__+'.'+moduleName)
 
 
 def getClasses(dico, module=None):
-- 
2.43.0


From 418b0211dd36ebf7a90c0c183ec7e2826ec905d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:44 +0000
Subject: [PATCH 21/29] fix: do not register nothing silently when a directory
 cannot be listed

pkgutil.walk_packages ignores the OSError of listing the directory, so the
import succeeded with empty registries.
---
 qmat/utils/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/qmat/utils/__init__.py b/qmat/utils/__init__.py
index bd97281..d5bf0d9 100644
--- a/qmat/utils/__init__.py
+++ b/qmat/utils/__init__.py
@@ -64,7 +64,10 @@ def storeClass(cls, *dicos):
 def importAll(localVars, __all__, __path__, __name__, __import__):
     """Import all submodules in the current (sub-)package"""
     __all__ += [var for var in localVars.keys() if not var.startswith('__')]
-    for _, moduleName, _ in pkgutil.walk_packages(__path__):
+    modules = list(pkgutil.walk_packages(__path__))
+    if not modules:     # pkgutil ignores errors when listing a directory
+        raise ImportError(f"cannot list the submodules of {__name__} in {list(__path__)}")
+    for _, moduleName, _ in modules:
         __all__.append(moduleName)
         __import__(__name__+'.'+moduleName)
 
-- 
2.43.0


From f4e85245f31b48a211494a340dcc3829ff3758dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:02 +0000
Subject: [PATCH 22/29] fix: interpolation on a point whose weight underflows
 gives NaN

---
 qmat/lagrange.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/qmat/lagrange.py b/qmat/lagrange.py
index f6a04f6..fc3fb99 100644
--- a/qmat/lagrange.py
+++ b/qmat/lagrange.py
@@ -349,6 +349,7 @@ class LagrangeApproximation(object):
         weights = self.weights  # scaled (exactly) away from the floating point limits
         weights = np.ldexp(weights, -np.frexp(np.max(np.abs(weights)))[1])
         P = iDiff * weights
+        P[i, :] = concom[i, :]  # also where the weight underflows to zero
         P /= P.sum(axis=-1)[:, None]
 
         if duplicates:
-- 
2.43.0


From dc5932804f6527cb3cacb1f7ddc33958a265a251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:09 +0000
Subject: [PATCH 23/29] fix: CHEBFUN weights overflow on large or tiny grids

---
 qmat/lagrange.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qmat/lagrange.py b/qmat/lagrange.py
index fc3fb99..4ec1c56 100644
--- a/qmat/lagrange.py
+++ b/qmat/lagrange.py
@@ -205,7 +205,8 @@ class LagrangeApproximation(object):
             if points.size > 1:
                 diffs *= 4 / (points.max() - points.min())
             sign = np.sign(diffs).prod(axis=1)
-            vv = np.exp(np.log(np.abs(diffs)).sum(axis=1))
+            vv = np.log(np.abs(diffs)).sum(axis=1)
+            vv = np.exp(vv - vv.min())  # scaled to avoid overflows
             invProd = (sign * vv)
             invProd **= -1
             invProd /= np.linalg.norm(invProd, np.inf)
-- 
2.43.0


From 6f539d42f35b5dd2fd540c84ea97699e0720bf1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:49 +0000
Subject: [PATCH 24/29] fix: weights scaled by the one closest to zero overflow
 on large grids

---
 qmat/lagrange.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/qmat/lagrange.py b/qmat/lagrange.py
index 4ec1c56..bcc8ee1 100644
--- a/qmat/lagrange.py
+++ b/qmat/lagrange.py
@@ -192,6 +192,7 @@ class LagrangeApproximation(object):
             wLog = -np.log(np.abs(diffs)).sum(axis=1)
             if scaleRef == 'ZERO':
                 wScale = wLog[np.argmin(np.abs(points))]
+                wScale = max(wScale, wLog.max() - 700)  # avoid overflows
             elif scaleRef == 'MAX':
                 wScale = wLog.max()
             else:
-- 
2.43.0


From 7c59ddb10befb22ba49bd682aed7074ab8ff1c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:21 +0000
Subject: [PATCH 25/29] fix: do not turn interrupts into a TypeError when
 registering a QGenerator

---
 qmat/qcoeff/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmat/qcoeff/__init__.py b/qmat/qcoeff/__init__.py
index ba5d029..b387437 100644
--- a/qmat/qcoeff/__init__.py
+++ b/qmat/qcoeff/__init__.py
@@ -233,7 +233,7 @@ def register(cls: type[T], *dicos) -> type[T]:
                 " since it has no default constructor")
         try:
             cls(**params)
-        except:
+        except Exception:
             raise TypeError(
                 f"{cls.__name__} could not be instantiated with DEFAULT_PARAMS")
     # Store class (and aliases)
-- 
2.43.0


From 4165516356ecd29f86d0dc91856bddb937e3d4fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:21 +0000
Subject: [PATCH 26/29] fix: do not turn interrupts into a ValueError when
 reading coefficient tables

---
 qmat/qdelta/diag.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmat/qdelta/diag.py b/qmat/qdelta/diag.py
index bf90700..01810b5 100644
--- a/qmat/qdelta/diag.py
+++ b/qmat/qdelta/diag.py
@@ -89,7 +89,7 @@ class FromTable(QDeltaGenerator):
         except AssertionError:
             raise ValueError(
                 f"MIN coefficients stored for {name} are inconsistent : {coeffs}")
-        except:
+        except Exception:
             raise ValueError(
                 f"could not convert {name} MIN coefficients to numpy array")
         return np.diag(coeffs)
-- 
2.43.0


From b82d2e6170be38d9c236e8746a3da52559423164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:33 +0000
Subject: [PATCH 27/29] fix: do not leave the registry lock held in a process
 forked during a registration

---
 qmat/utils/__init__.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/qmat/utils/__init__.py b/qmat/utils/__init__.py
index d5bf0d9..1650953 100644
--- a/qmat/utils/__init__.py
+++ b/qmat/utils/__init__.py
@@ -8,6 +8,7 @@ Utility sub-package for `qmat`, containing already some base functions and class
 - :class:`num` : functions for numerical mathematics
 - :class:`sdc` : functions to run SDC and evaluate its numerical error on simple problems
 """
+import os
 import inspect
 import pkgutil
 import functools
@@ -42,6 +43,12 @@ def checkGenericConstr(cls):
 registryLock = threading.RLock()
 """Lock held while checking and storing class names and aliases"""
 
+if hasattr(os, "register_at_fork"):
+    # a process forked while another thread registers a class must not inherit the held lock
+    os.register_at_fork(before=registryLock.acquire,
+                        after_in_parent=registryLock.release,
+                        after_in_child=registryLock.release)
+
 
 def storeClass(cls, *dicos):
     """Store a class into one or several dictionaries, in all of them or in none"""
-- 
2.43.0


From f29ef724f3417eb13d080d06f7fd3b1b4705b446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:18 +0000
Subject: [PATCH 28/29] fix: do not move collocation nodes onto the bounds of
 intervals that are small or far from zero

---
 qmat/qcoeff/collocation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qmat/qcoeff/collocation.py b/qmat/qcoeff/collocation.py
index e88de90..f5980c8 100644
--- a/qmat/qcoeff/collocation.py
+++ b/qmat/qcoeff/collocation.py
@@ -56,8 +56,8 @@ class Collocation(QGenerator):
         nodes += tLeft
         self.tLeft, self.tRight = tLeft, tRight
         # Safety when bound should be included ...
-        if np.allclose(tLeft, nodes[0]): nodes[0] = tLeft
-        if np.allclose(tRight, nodes[-1]): nodes[-1] = tRight
+        if quadType in ["LOBATTO", "RADAU-LEFT"]: nodes[0] = tLeft
+        if quadType in ["LOBATTO", "RADAU-RIGHT"]: nodes[-1] = tRight
         self._nodes = nodes
 
         # Lagrange approximation based on nodes
-- 
2.43.0


From 74902740e726a2f124f22d8636dc5fad8a684acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:25 +0000
Subject: [PATCH 29/29] fix: rightIsNode compared with 1 for collocation nodes
 on other intervals

---
 qmat/qcoeff/collocation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/qmat/qcoeff/collocation.py b/qmat/qcoeff/collocation.py
index f5980c8..8407c15 100644
--- a/qmat/qcoeff/collocation.py
+++ b/qmat/qcoeff/collocation.py
@@ -89,6 +89,9 @@ class Collocation(QGenerator):
                  for i in range(nodes.shape[0])]
         return self.approx.getIntegrationMatrix(pInts)
 
+    @property
+    def rightIsNode(self)->bool: return self.nodes[-1] == self.tRight
+
     @property
     def hCoeffs(self)->np.ndarray:
         return self.approx.getInterpolationMatrix([self.tRight]).ravel()
-- 
2.43.0

