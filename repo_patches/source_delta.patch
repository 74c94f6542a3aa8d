From 35ecbe4a14e90c0dd3e117030c0d0c6eaa00322e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:33 +0000
Subject: [PATCH 01/79] fix: superPos accepts lists of numpy integers

---
 src/quanguru/QuantumToolbox/states.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/quanguru/QuantumToolbox/states.py b/src/quanguru/QuantumToolbox/states.py
index 45e044a..68ff6a9 100644
--- a/src/quanguru/QuantumToolbox/states.py
+++ b/src/quanguru/QuantumToolbox/states.py
@@ -321,7 +321,7 @@ def superPos(dimension: int, excitations: supInp, populations: bool = True, spar
             sts = {k:np.sqrt(v) for (k, v) in sts.items()}  # noqa: E231
     elif isinstance(excitations, (int, np.integer)):
         sts = {excitations:1}  # noqa: E231
-    elif all(isinstance(item, int) for item in excitations):
+    elif all(isinstance(item, (int, np.integer)) for item in excitations):
         sts = {k: 1 for k in excitations}
     else:
         raise TypeError('Unsupported type for parameter excitations')
-- 
2.43.0


From d4d74efe2cd29d201c1aaaa62b0bc5ba471f5641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:33 +0000
Subject: [PATCH 02/79] fix: completeBasisMat does not overwrite the ket basis
 it is given

---
 src/quanguru/QuantumToolbox/states.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/quanguru/QuantumToolbox/states.py b/src/quanguru/QuantumToolbox/states.py
index 68ff6a9..cd0925b 100644
--- a/src/quanguru/QuantumToolbox/states.py
+++ b/src/quanguru/QuantumToolbox/states.py
@@ -421,9 +421,7 @@ def completeBasisMat(dimension: Optional[int] = None, compKetBase: Optional[matr
     else:
         compBase = compKetBase
 
-    for i, state in enumerate(compBase):
-        compBase[i] = densityMatrix(state)
-    return compBase
+    return [densityMatrix(state) for state in compBase]
 
 def normalise(state: Matrix) -> Matrix:
     r"""
-- 
2.43.0


From 1bb583a7749608cd1e30b62308c22f87ca83ea4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:33 +0000
Subject: [PATCH 03/79] fix: Liouvillian handles (A, B) pairs of collapse
 operators instead of asking them for a shape

---
 src/quanguru/QuantumToolbox/evolution.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/quanguru/QuantumToolbox/evolution.py b/src/quanguru/QuantumToolbox/evolution.py
index aa3ac4b..65c4926 100644
--- a/src/quanguru/QuantumToolbox/evolution.py
+++ b/src/quanguru/QuantumToolbox/evolution.py
@@ -147,12 +147,12 @@ def Liouvillian(Hamiltonian: Optional[Matrix] = None, collapseOperators: Optiona
 
     if isinstance(collapseOperators, list):
         for idx, collapseOperator in enumerate(collapseOperators):
-            if collapseOperator.shape[0] == dimensionOfHilbertSpace:
+            if isinstance(collapseOperator, tuple):
+                collapsePart = dissipator(collapseOperator[0], collapseOperator[1], _double=_double)
+            elif collapseOperator.shape[0] == dimensionOfHilbertSpace:
                 collapsePart = dissipator(collapseOperator, identity=identity, _double=_double)
             elif collapseOperator.shape[0] == (dimensionOfHilbertSpace**2):
                 collapsePart = collapseOperator
-            elif isinstance(collapseOperator, tuple):
-                collapsePart = dissipator(collapseOperator[0], collapseOperator[1], _double=_double)
             else:
                 raise ValueError("Dimension mismatch")
 
-- 
2.43.0


From 5ce30df89cc49e263dadf49985ba004f3387ea73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:33 +0000
Subject: [PATCH 04/79] fix: evolveOpen does not lose its last step to floating
 point truncation

---
 src/quanguru/QuantumToolbox/evolution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/quanguru/QuantumToolbox/evolution.py b/src/quanguru/QuantumToolbox/evolution.py
index 65c4926..754d6cd 100644
--- a/src/quanguru/QuantumToolbox/evolution.py
+++ b/src/quanguru/QuantumToolbox/evolution.py
@@ -387,7 +387,7 @@ def evolveOpen(initialState, totalTime, timeStep: float = 1.0, Hamiltonian: Opti
     if calcFunc is not None:
         calcFunc(rhoL)
     rhoL = mat2Vec(rhoL)
-    for _ in range(int(totalTime/timeStep)):
+    for _ in range(int(round(totalTime/timeStep, 9))): # e.g. 0.3/0.1 is 2.9999999999999996
         rhoL = LiouExp @ rhoL
         denMat = vec2Mat(rhoL)
         if calcFunc is not None:
-- 
2.43.0


From 9c26aec2cedac05ce4c75ffc5d2812b3666d3223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:33 +0000
Subject: [PATCH 05/79] fix: standardDev returns 0 instead of nan for
 eigenstates

---
 src/quanguru/QuantumToolbox/functions.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/quanguru/QuantumToolbox/functions.py b/src/quanguru/QuantumToolbox/functions.py
index 16620aa..df4be0d 100644
--- a/src/quanguru/QuantumToolbox/functions.py
+++ b/src/quanguru/QuantumToolbox/functions.py
@@ -450,7 +450,10 @@ def _expectationColArr(operator: Matrix, states: ndarray) -> floatList:
 def standardDev(operator: Matrix, state: Matrix, expect: bool = False) -> float:
     expSq = (expectation(operator, state))
     SqExp = expectation(_matPower(operator, 2), state)
-    return np.sqrt(SqExp - (expSq**2)) if not expect else (np.sqrt(SqExp - (expSq**2)), expSq)
+    variance = SqExp - (expSq**2)
+    if np.isreal(variance):
+        variance = max(np.real(variance), 0.0) # rounding errors can make a vanishing variance slightly negative
+    return np.sqrt(variance) if not expect else (np.sqrt(variance), expSq)
 
 def spectralNorm(operator: Matrix) -> Tuple:
     vals, _ = sortedEigens(hc(operator)@operator)
-- 
2.43.0


From a344ee2a72b8ed5f548f694125f55fbd45c47be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:01 +0000
Subject: [PATCH 06/79] fix: HusimiQ works for kets and density matrices

---
 src/quanguru/QuantumToolbox/quasiProbabilities.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/quanguru/QuantumToolbox/quasiProbabilities.py b/src/quanguru/QuantumToolbox/quasiProbabilities.py
index 93341ad..fe9c68b 100644
--- a/src/quanguru/QuantumToolbox/quasiProbabilities.py
+++ b/src/quanguru/QuantumToolbox/quasiProbabilities.py
@@ -142,7 +142,7 @@ def HusimiQ(state: Matrix, vec: ndOrList, g: float = np.sqrt(2)) -> ndarray:
     if state.shape[0] != state.shape[1]:
         qmat = _qfuncPure(state, amat)
     else:
-        d, v = la.eig(state.full())
+        d, v = la.eigh(state)
         # d[i]   = eigenvalue i
         # v[:,i] = eigenvector i
 
@@ -179,7 +179,7 @@ def _qfuncPure(psi: Matrix, alphaMat: ndarray) -> ndarray:
     """
 
     n = np.prod(psi.shape)
-    psi = psi.T
+    psi = psi.flatten()
 
     qmat = abs(polyval(fliplr([psi / np.sqrt(factorial(arange(n)))])[0], conjugate(alphaMat))) ** 2
 
-- 
2.43.0


From b14ea409494824d25fd7dc2c53b646231fa76c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:01 +0000
Subject: [PATCH 07/79] fix: HeatCurrent applies the super-operator to the
 vectorised state and takes the trace

---
 src/quanguru/QuantumToolbox/thermodynamics.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/quanguru/QuantumToolbox/thermodynamics.py b/src/quanguru/QuantumToolbox/thermodynamics.py
index 6662a13..ed8e5bf 100644
--- a/src/quanguru/QuantumToolbox/thermodynamics.py
+++ b/src/quanguru/QuantumToolbox/thermodynamics.py
@@ -28,6 +28,7 @@ r"""
 """
 
 from numpy import exp, real # type: ignore
+from .linearAlgebra import trace
 from .states import mat2Vec, vec2Mat
 from .customTypes import Matrix
 
@@ -129,6 +130,6 @@ def HeatCurrent(Lindbladian: Matrix, Hamiltonian: Matrix, denMat: Matrix) -> flo
     # TODO
     """
 
-    full = mat2Vec(Lindbladian * vec2Mat(denMat))
-    heatCurrent = real((full * Hamiltonian).tr())
+    full = vec2Mat(Lindbladian @ mat2Vec(denMat))
+    heatCurrent = real(trace(full @ Hamiltonian))
     return heatCurrent
-- 
2.43.0


From 3866cc86a90fa19c4f1c8a0dfc572f0f39dca630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:01 +0000
Subject: [PATCH 08/79] fix: CSE eigenvector distribution is normalised

---
 src/quanguru/QuantumToolbox/rmtDistributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/quanguru/QuantumToolbox/rmtDistributions.py b/src/quanguru/QuantumToolbox/rmtDistributions.py
index be93ed8..5d89b4e 100644
--- a/src/quanguru/QuantumToolbox/rmtDistributions.py
+++ b/src/quanguru/QuantumToolbox/rmtDistributions.py
@@ -67,7 +67,7 @@ def EigenVectorDist(x: float, dim: int, beta: int = 1) -> float:
         dist = (1 - x)**(dim - 2)
     elif beta == 4:
         coef = (dim - 1)*(dim - 2)
-        dist = x*((1-x)**(dim - 1))
+        dist = x*((1-x)**(dim - 3))
     val = coef*dist
     if val > 10**30:
         val = 10**30
-- 
2.43.0


From 4253b53d9c852b3fd6e765153fb4f206b76133a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:52 +0000
Subject: [PATCH 09/79] fix: qubCavFreeHam includes the documented factor 1/2
 of the qubit Hamiltonian

---
 src/quanguru/QuantumToolbox/Hamiltonians.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/quanguru/QuantumToolbox/Hamiltonians.py b/src/quanguru/QuantumToolbox/Hamiltonians.py
index 11b1660..c3a90f2 100644
--- a/src/quanguru/QuantumToolbox/Hamiltonians.py
+++ b/src/quanguru/QuantumToolbox/Hamiltonians.py
@@ -78,7 +78,7 @@ def qubCavFreeHam(qubFreq: float, cavFreq: float, cavDim: int) -> Tuple[Matrix,
     """
 
     cavHam = cavFreq * sp.kron(identity(2), number(cavDim), format='csc')
-    qubHam = qubFreq * sp.kron(sigmaz(), identity(cavDim), format='csc')
+    qubHam = 0.5 * qubFreq * sp.kron(sigmaz(), identity(cavDim), format='csc')
     return cavHam, qubHam
 
 def RabiHam(qubFreq: float, cavFreq: float, g: float, cavDim: int) -> Matrix:
-- 
2.43.0


From fa2f4e52705540591db335a92d2c55fb3f33b4d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:29 +0000
Subject: [PATCH 10/79] fix: tensorProd and compositeOp treat numpy integers as
 dimensions of identities

---
 src/quanguru/QuantumToolbox/linearAlgebra.py | 2 +-
 src/quanguru/QuantumToolbox/operators.py     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/quanguru/QuantumToolbox/linearAlgebra.py b/src/quanguru/QuantumToolbox/linearAlgebra.py
index b3a39f9..6d2edd1 100644
--- a/src/quanguru/QuantumToolbox/linearAlgebra.py
+++ b/src/quanguru/QuantumToolbox/linearAlgebra.py
@@ -272,7 +272,7 @@ def tensorProd(*args: Matrix) -> Matrix:
     """
 
     totalProd = args[0]
-    if isinstance(totalProd, int):
+    if isinstance(totalProd, (int, np.integer)):
         totalProd = sp.identity(totalProd, format="csc")
     return sp.kron(totalProd, tensorProd(*args[1:]), format='csc') if len(args) > 1 else totalProd
 
diff --git a/src/quanguru/QuantumToolbox/operators.py b/src/quanguru/QuantumToolbox/operators.py
index 60f729a..0b68de6 100644
--- a/src/quanguru/QuantumToolbox/operators.py
+++ b/src/quanguru/QuantumToolbox/operators.py
@@ -963,7 +963,7 @@ def compositeOp(operator: Matrix, dimB: int = 1, dimA: int = 1) -> Matrix:
 
     """
 
-    return tensorProd(*[a for a in [dimB, operator, dimA] if ((not isinstance(a, int)) or (a > 1))])
+    return tensorProd(*[a for a in [dimB, operator, dimA] if ((not isinstance(a, (int, np.integer))) or (a > 1))])
 
 def operatorPow(op: Callable, dim: int, power: int, sparse: bool = True) -> Matrix:
     r"""
-- 
2.43.0


From db27be21469d604a49c9c7d79eca28d704de60b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:42 +0000
Subject: [PATCH 11/79] fix: _hc is the conjugate of the current matrix, not of
 an earlier one with the same shape

---
 src/quanguru/classes/baseClasses.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/quanguru/classes/baseClasses.py b/src/quanguru/classes/baseClasses.py
index a0e8a68..faa1836 100644
--- a/src/quanguru/classes/baseClasses.py
+++ b/src/quanguru/classes/baseClasses.py
@@ -153,9 +153,7 @@ class paramBoundBase(qBase):
 
     @property
     def _hc(self):
-        if ((self._paramBoundBase__matrixHc is None)
-            or (self._paramBoundBase__matrixHc.shape != self._paramBoundBase__matrix.shape)): # pylint: disable=assigning-non-slot
-            self._paramBoundBase__matrixHc = hc(self._paramBoundBase__matrix) # pylint: disable=assigning-non-slot
+        self._paramBoundBase__matrixHc = hc(self._paramBoundBase__matrix) # pylint: disable=assigning-non-slot
         return self._paramBoundBase__matrixHc # pylint: disable=assigning-non-slot
 
     @property
-- 
2.43.0


From ff01680427ffee542a7028a1ab2fb72fc760ba56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:42 +0000
Subject: [PATCH 12/79] fix: gates of open systems act as U rho U^dagger

---
 src/quanguru/classes/QGates.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/quanguru/classes/QGates.py b/src/quanguru/classes/QGates.py
index 921372c..81d6fbd 100644
--- a/src/quanguru/classes/QGates.py
+++ b/src/quanguru/classes/QGates.py
@@ -24,6 +24,7 @@
 from .QPro import Gate
 from .QSimBase import setAttr
 from ..QuantumToolbox import evolution
+from ..QuantumToolbox.linearAlgebra import hc
 from ..QuantumToolbox import operators #pylint: disable=relative-beyond-top-level
 from ..QuantumToolbox import spinRotations #pylint: disable=relative-beyond-top-level
 
@@ -79,7 +80,7 @@ class SpinRotation(Gate): # pylint: disable=too-many-ancestors
                 flipOpN = operators.compositeOp(rotOp(sys[i+1].dimension, isDim=True),
                                                 sys[i+1]._dimsBefore, sys[i+1]._dimsAfter)
                 flipUn = evolution.Unitary(self.phase*self.angle*flipOpN) @ flipUn
-            self._paramBoundBase__matrix = evolution._prepostSO(flipUn) if (openSys or isinstance(collapseOps, list) or self._isOpen) else flipUn # pylint: disable=assigning-non-slot,line-too-long,protected-access
+            self._paramBoundBase__matrix = evolution._prepostSO(flipUn, hc(flipUn)) if (openSys or isinstance(collapseOps, list) or self._isOpen) else flipUn # pylint: disable=assigning-non-slot,line-too-long,protected-access
         self._paramBoundBase__paramUpdated = False # pylint: disable=assigning-non-slot
         return self._paramBoundBase__matrix # pylint: disable=no-member
 
@@ -110,7 +111,7 @@ class xGate(SpinRotation): # pylint: disable=too-many-ancestors
             flipOp = operators.compositeOp(rotOp(self.angle), sys[0]._dimsBefore, sys[0]._dimsAfter) # pylint: disable=no-member
             for i in range(len(sys)-1):
                 flipOp = operators.compositeOp(rotOp(self.angle), sys[i+1]._dimsBefore, sys[i+1]._dimsAfter) @ flipOp
-            self._paramBoundBase__matrix = evolution._prepostSO(flipOp) if openSys else flipOp # pylint: disable=assigning-non-slot,protected-access
+            self._paramBoundBase__matrix = evolution._prepostSO(flipOp, hc(flipOp)) if openSys else flipOp # pylint: disable=assigning-non-slot,protected-access
         self._paramBoundBase__paramUpdated = False # pylint: disable=assigning-non-slot
         return self._paramBoundBase__matrix # pylint: disable=no-member
 
-- 
2.43.0


From b35c93c4b089d744f388fc689477462f4ab1b10f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:10 +0000
Subject: [PATCH 13/79] fix: unitary of an open system counts every dissipator
 once

---
 src/quanguru/classes/QPro.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/quanguru/classes/QPro.py b/src/quanguru/classes/QPro.py
index f3379ab..08ddfb5 100644
--- a/src/quanguru/classes/QPro.py
+++ b/src/quanguru/classes/QPro.py
@@ -193,16 +193,14 @@ class genericProtocol(QSimComp): # pylint: disable = too-many-instance-attribute
         self.simulation._qBase__subSys[self] = self.superSys # pylint: disable=protected-access
 
     def unitary(self):
-        collapseOps = None if not self._isOpen else [ds.jOperMatrix for ds in self._dissipator.keys()]
-        decayRates = None if not self._isOpen else list(self._dissipator.values())
         if self.superSys is not None:
             self.superSys._timeDependency() # pylint: disable=no-member
 
         if self._paramUpdated:
             if not self.fixed:
-                self._paramBoundBase__matrix = self.getUnitary(collapseOps, decayRates) # pylint: disable=assigning-non-slot
+                self._paramBoundBase__matrix = self.getUnitary() # pylint: disable=assigning-non-slot
         elif self._paramBoundBase__matrix is None: # pylint: disable=no-member
-            self._paramBoundBase__matrix = self.getUnitary(collapseOps, decayRates) # pylint: disable=assigning-non-slot
+            self._paramBoundBase__matrix = self.getUnitary() # pylint: disable=assigning-non-slot
         return self._paramBoundBase__matrix # pylint: disable=no-member
 
     def getUnitary(self, collapseOps = None, decayRates = None):
-- 
2.43.0


From a95bc56328a80c697cbffd4ce1469885cd7187c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:10 +0000
Subject: [PATCH 14/79] fix: dissipators use their current rate, temperature
 and composite operator

---
 src/quanguru/classes/QPro.py        | 4 ++--
 src/quanguru/classes/environment.py | 3 +++
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/quanguru/classes/QPro.py b/src/quanguru/classes/QPro.py
index 08ddfb5..11c2451 100644
--- a/src/quanguru/classes/QPro.py
+++ b/src/quanguru/classes/QPro.py
@@ -206,10 +206,10 @@ class genericProtocol(QSimComp): # pylint: disable = too-many-instance-attribute
     def getUnitary(self, collapseOps = None, decayRates = None):
         if collapseOps is None:
             collapseOps = None if not self._isOpen else [ds.jOperMatrix for ds in self._dissipator.keys()]
-            decayRates = None if not self._isOpen else list(self._dissipator.values())
+            decayRates = None if not self._isOpen else [ds.jRate for ds in self._dissipator.keys()]
         else:
             collapseOps = collapseOps + [ds.jOperMatrix for ds in self._dissipator.keys()]
-            decayRates = decayRates + list(self._dissipator.values())
+            decayRates = decayRates + [ds.jRate for ds in self._dissipator.keys()]
         if self.superSys is not None:
             self.superSys._timeDependency() # pylint: disable=no-member
 
diff --git a/src/quanguru/classes/environment.py b/src/quanguru/classes/environment.py
index 9e82b59..fdcabae 100644
--- a/src/quanguru/classes/environment.py
+++ b/src/quanguru/classes/environment.py
@@ -64,6 +64,7 @@ class dissipatorObj(_genericOpen):
         self.__rate = 0
         self.__bath = thermalBath()
         super().__init__(**kwargs)
+        self.__bath._paramBoundBase__paramBound[self.name] = self
 
     @property
     def temperature(self):
@@ -99,6 +100,8 @@ class dissipatorObj(_genericOpen):
 
     @property
     def jOperMatrix(self):
+        if self.jOper is not None:
+            self._paramBoundBase__matrix = compositeOp(self.jOper, dimA=self.superSys._dimsAfter, dimB=self.superSys._dimsBefore) # pylint:disable=no-member,line-too-long,assigning-non-slot
         return self._paramBoundBase__matrix # pylint:disable=no-member
 
     @jOperMatrix.setter
-- 
2.43.0


From c2dee2e3fb57ad7447b838adb230331b558d7e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:10 +0000
Subject: [PATCH 15/79] fix: protocols are recomputed after their ratio, phase,
 implementation, steps or updates change

---
 src/quanguru/classes/QGates.py | 12 ++++++++++--
 src/quanguru/classes/QPro.py   |  8 +++++---
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/quanguru/classes/QGates.py b/src/quanguru/classes/QGates.py
index 81d6fbd..2ca11c5 100644
--- a/src/quanguru/classes/QGates.py
+++ b/src/quanguru/classes/QGates.py
@@ -36,13 +36,13 @@ class SpinRotation(Gate): # pylint: disable=too-many-ancestors
     _externalInstances: int = 0
     #: (**class attribute**) number of total instances = _internalInstances + _externalInstances
     _instances: int = 0
-    __slots__ = ['__angle', '__rotationAxis', 'phase', '_rotationOp']
+    __slots__ = ['__angle', '__rotationAxis', '__phase', '_rotationOp']
     def __init__(self, **kwargs):
         super().__init__(_internal=kwargs.pop('_internal', False))
         self.__angle = None
         self.__rotationAxis = None
         self._rotationOp = None
-        self.phase = 1
+        self.__phase = 1
         #self._createUnitary = self._rotMat
         self._named__setKwargs(**kwargs) # pylint: disable=no-member
 
@@ -54,6 +54,14 @@ class SpinRotation(Gate): # pylint: disable=too-many-ancestors
     def angle(self, val):
         setAttr(self, '_SpinRotation__angle', val)
 
+    @property
+    def phase(self):
+        return self._SpinRotation__phase
+
+    @phase.setter
+    def phase(self, val):
+        setAttr(self, '_SpinRotation__phase', val)
+
     @property
     def rotationAxis(self):
         return self._SpinRotation__rotationAxis # pylint: disable=no-member
diff --git a/src/quanguru/classes/QPro.py b/src/quanguru/classes/QPro.py
index 11c2451..389bd12 100644
--- a/src/quanguru/classes/QPro.py
+++ b/src/quanguru/classes/QPro.py
@@ -33,7 +33,7 @@ from ..QuantumToolbox.operators import identity #pylint: disable=relative-beyond
 
 from .base import qBase, addDecorator
 from .baseClasses import updateBase
-from .QSimBase import _parameter
+from .QSimBase import _parameter, setAttr
 from .QSimComp import QSimComp
 from .QSweep import Sweep
 
@@ -147,6 +147,7 @@ class genericProtocol(QSimComp): # pylint: disable = too-many-instance-attribute
     def addUpdate(self, *args):
         for update in args:
             self._genericProtocol__updates.append(update) # pylint: disable=no-member
+        self._paramUpdated = True
 
     @property
     def updates(self):
@@ -158,7 +159,7 @@ class genericProtocol(QSimComp): # pylint: disable = too-many-instance-attribute
 
     @ratio.setter
     def ratio(self, val):
-        self._genericProtocol__ratio = val # pylint: disable=assigning-non-slot
+        setAttr(self, '_genericProtocol__ratio', val)
 
     @property
     def system(self):
@@ -313,6 +314,7 @@ class qProtocol(genericProtocol):
                 step.simulation._bound(self.simulation, re=True) # pylint: disable=protected-access
                 if ((step.superSys is None) and (self.superSys is not None)):
                     step.superSys = self.superSys
+        self._paramUpdated = True
 
     def _puValues(self, step, vals):#pylint:disable=dangerous-default-value
         subSysList = list(self.subSys.values())
@@ -449,7 +451,7 @@ class Gate(genericProtocol):
 
     @implementation.setter
     def implementation(self, typeStr):
-        self._Gate__implementation = typeStr # pylint: disable=assigning-non-slot
+        setAttr(self, '_Gate__implementation', typeStr)
 
 class Update(updateBase):
     label = 'Update'
-- 
2.43.0


From d0c403d896e5669a24056f351d401e9de2f6651c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:27 +0000
Subject: [PATCH 16/79] fix: a removed sub-system keeps its dimension and its
 own structure

---
 src/quanguru/classes/QSystem.py | 30 ++++--------------------------
 1 file changed, 4 insertions(+), 26 deletions(-)

diff --git a/src/quanguru/classes/QSystem.py b/src/quanguru/classes/QSystem.py
index 41eebb0..c0ce9a6 100644
--- a/src/quanguru/classes/QSystem.py
+++ b/src/quanguru/classes/QSystem.py
@@ -461,38 +461,16 @@ class QuantumSystem(QSimComp): # pylint:disable=too-many-instance-attributes
             Raises an error if removeSubSys is called on a single system.
             This method also updates the dimsBefore/After of the remaining sub-systems (and the removed system), deletes
             the existing matrices so that they are re-created with the proper dimensions.
-            When removing a single system, it sets the dimension of the single system to 1, so that all the
-            dimsBefore/After information are updated by the dimensionUpdate method.
-            However, we might still need the removed system, so its dimension is stored (in oldDim) and set back again
-            (into _QuantumSystem__dimension) after its removed.
-            When removing a composite system, it makes _removeSubSysExc to each sub-system of the removed composite
-            system, and these nested calls sets the dimensions of all the single systems below the removed composite to
-            1 so that the dimsBefore/After information are again updated by the dimensionUpdate method.
-            However, the removed composite system might still be needed, and we might not want these dimensions to be 1
-            or these single systems to be removed from the removed composite system.
-            These are avoided by storing&setting the dimensions back to their original values for single systems and
-            adding the removed sub-systems of removed composite systems back in.
+            The dimsBefore/After information of the remaining systems are updated as if the dimension of the removed
+            system became 1, while the removed system (single or composite) keeps its own dimension/s and sub-systems.
         """
         checkNotVal(self._isComposite, False,
                     f"{self.name} is not a composite. removeSubSys cannot be called on single systems")
         subSys = self.getByNameOrAlias(subSys)
         if subSys in self.subSys.values():
             _exclude.append(self)
-            if subSys._isComposite: # pylint:disable=protected-access
-                # need to create this for two reasons
-                # 1. because subSys.subSys changes its size due to _removeSubSysExc calls
-                # 2. we add these systems back again after removal
-                qsysList = list(subSys.subSys.values())
-                for qsys in qsysList:
-                    subSys._removeSubSysExc(qsys, _exclude=_exclude)#pylint:disable=protected-access
-                super()._removeSubSysExc(subSys, _exclude=_exclude)
-                # add the sub-systems of subSys back again
-                subSys.addSubSys(qsysList)
-            else:
-                oldDim = subSys.dimension
-                subSys.dimension = 1
-                super()._removeSubSysExc(subSys, _exclude=_exclude)
-                setAttr(self, '_QuantumSystem__dimension', oldDim)
+            self._updateDimension(subSys, 1, subSys.dimension)
+            super()._removeSubSysExc(subSys, _exclude=_exclude)
             subSys.superSys = None
             subSys._dimsAfter = 1
             subSys._dimsBefore = 1
-- 
2.43.0


From 7f909d5c193394cedcf80d53328c91f61de7a5de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:27 +0000
Subject: [PATCH 17/79] fix: adding a sub-system to a nested composite updates
 the dimensions around it

---
 src/quanguru/classes/QSystem.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/quanguru/classes/QSystem.py b/src/quanguru/classes/QSystem.py
index c0ce9a6..7ae1746 100644
--- a/src/quanguru/classes/QSystem.py
+++ b/src/quanguru/classes/QSystem.py
@@ -374,9 +374,14 @@ class QuantumSystem(QSimComp): # pylint:disable=too-many-instance-attributes
         internal method used to update relevant information (such as dimension before/after) for the existing and newly
         added sub-systems. This is purely for internal use.
         """
+        oldDim = self.dimension
         for subS in self.subSys.values():
             subS._dimsAfter *= subSys.dimension
             subSys._dimsBefore *= subS.dimension
+        subSys._dimsBefore *= self._dimsBefore
+        subSys._dimsAfter *= self._dimsAfter
+        if self.superSys is not None: # self is already inside another composite, whose other systems see a new dimension
+            self.superSys._updateDimension(self, oldDim*subSys.dimension, oldDim) # pylint:disable=protected-access
         return subSys
 
     @addDecorator
-- 
2.43.0


From 64aff928f5cacebc27bc455193f24122274e789c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:32 +0000
Subject: [PATCH 18/79] fix: removing a sub-system removes the couplings to it
 at every level

---
 src/quanguru/classes/QSystem.py | 9 ++++++---
 src/quanguru/classes/QTerms.py  | 2 +-
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/quanguru/classes/QSystem.py b/src/quanguru/classes/QSystem.py
index 7ae1746..c67cf14 100644
--- a/src/quanguru/classes/QSystem.py
+++ b/src/quanguru/classes/QSystem.py
@@ -494,9 +494,12 @@ class QuantumSystem(QSimComp): # pylint:disable=too-many-instance-attributes
                         self.superSys._removeSubSysExc(subSys, _exclude=_exclude) #pylint:disable=protected-access
 
         if subSys is not self:
-            termObjs = list(self.terms.values())
-            for ter in termObjs:
-                ter._removeTermIfQSysInList(self, subSys)#pylint:disable=protected-access
+            qsys = self
+            while qsys is not None: # couplings to the removed system can be at any level above it
+                termObjs = list(qsys.terms.values())
+                for ter in termObjs:
+                    ter._removeTermIfQSysInList(qsys, subSys)#pylint:disable=protected-access
+                qsys = qsys.superSys
         self.delMatrices(_exclude=[])
         self._paramUpdated = True
 
diff --git a/src/quanguru/classes/QTerms.py b/src/quanguru/classes/QTerms.py
index 6fcc983..2cf0018 100644
--- a/src/quanguru/classes/QTerms.py
+++ b/src/quanguru/classes/QTerms.py
@@ -120,7 +120,7 @@ class QTerm(paramBoundBase):
         This is an internal method used in removeSubSys of quantum systems.
         """
         if isinstance(self.qSystem, (list, tuple)):
-            if subSys in self.qSystem:
+            if any((subSys is qs) or subSys._hasInSubs(qs) for qs in self.qSystem): # pylint: disable=protected-access
                 qSys.removeTerm(self)
 
     @staticmethod
-- 
2.43.0


From 9ce06903a2a7362c7d8744c1eb61b14c6a935db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:32 +0000
Subject: [PATCH 19/79] fix: removed and reset terms leave the Hamiltonian and
 the first-term properties

---
 src/quanguru/classes/QSystem.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/quanguru/classes/QSystem.py b/src/quanguru/classes/QSystem.py
index c67cf14..15f5553 100644
--- a/src/quanguru/classes/QSystem.py
+++ b/src/quanguru/classes/QSystem.py
@@ -606,6 +606,8 @@ class QuantumSystem(QSimComp): # pylint:disable=too-many-instance-attributes
         if termObj in self.terms.values():
             _exclude.append(self)
             self.terms.pop(termObj.name)
+            if termObj is self._QuantumSystem__firstTerm:
+                self._QuantumSystem__firstTerm = next(iter(self.terms.values()), None) #pylint:disable=assigning-non-slot
             _exclude.append(termObj)
         else:
             if self not in _exclude:
@@ -629,7 +631,7 @@ class QuantumSystem(QSimComp): # pylint:disable=too-many-instance-attributes
         You can also give a list of terms (or their named/aliases) to be removed.
         This method is a wrapper around the actual remove method the ``_removeTermExc`` so that it is called with an
         empty _exclude list, which is used to avoid infinite recursions when finding the term inside a nested system.
-        Note that it will raise an error, if the given term is the first-term if the system.
+        If the given term is the first-term of the system, the next remaining term becomes the first-term.
         """
         termObj = self.getByNameOrAlias(termObj)
         self._removeTermExc(termObj=termObj, _exclude=[])
@@ -639,6 +641,9 @@ class QuantumSystem(QSimComp): # pylint:disable=too-many-instance-attributes
         Method to delete all the existing terms by assigning a new empty dictionary.
         """
         self._QuantumSystem__terms = aliasDict() # pylint:disable=assigning-non-slot
+        self._QuantumSystem__firstTerm = None # pylint:disable=assigning-non-slot
+        self.delMatrices(_exclude=[])
+        self._paramUpdated = True
 
     @terms.setter
     def terms(self, trm):
-- 
2.43.0


From 6b74bb54bd439fb05554c3e1e2495e1964de6811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:32 +0000
Subject: [PATCH 20/79] fix: copy of a quantum system has all its terms, nested
 couplings and initial state

---
 src/quanguru/classes/QSystem.py | 39 ++++++++++++++++-----------------
 1 file changed, 19 insertions(+), 20 deletions(-)

diff --git a/src/quanguru/classes/QSystem.py b/src/quanguru/classes/QSystem.py
index 15f5553..6e3874e 100644
--- a/src/quanguru/classes/QSystem.py
+++ b/src/quanguru/classes/QSystem.py
@@ -703,36 +703,35 @@ class QuantumSystem(QSimComp): # pylint:disable=too-many-instance-attributes
     def _freeMatrix(self, qMat):
         self._firstTerm._freeMatrix = qMat # pylint: disable=protected-access
 
+    def _copyOfSubSys(self, newSys, qsys):
+        r"""
+        Internal method used in copy to find the counterpart (in the copy newSys of self) of a system inside self.
+        """
+        if qsys is self:
+            return newSys
+        return list(self._copyOfSubSys(newSys, qsys.superSys).subSys.values())[qsys.ind]
+
     def copy(self, **kwargs):
         newSys = super().copy()
         for qsys in self.subSys.values():
             cqsys = qsys.copy()
             cqsys.alias = qsys.name + "_" + cqsys.name
             newSys.addSubSys(cqsys)
-        subSysList = list(newSys.subSys.values())
+        if not self._isComposite:
+            newSys.dimension = self.dimension#pylint:disable=assigning-non-slot
+            newSys._inpCoef = self._inpCoef # pylint: disable=protected-access,assigning-non-slot
+        newSys.resetTerms() # pylint: disable=no-member
         for ter in self.terms.values():
-            if isinstance(ter.qSystem, QuantumSystem):
-                qSystemNames = newSys
-            else:
-                qSystemNames = []
-                for qsys in ter.qSystem:
-                    qSystemNames.append(qsys.name + "_" + subSysList[qsys.ind].name)
-
-            if newSys._QuantumSystem__firstTerm is None:#pylint:disable=no-member,protected-access
-                newSys.createTerm(qSystem=qSystemNames, #pylint:disable=no-member
-                                  operator=ter.operator,
-                                  frequency=ter.frequency,
-                                  order=ter.order)
+            if isinstance(ter.qSystem, (list, tuple)):
+                qSystem = [self._copyOfSubSys(newSys, qsys) for qsys in ter.qSystem]
             else:
-                newSys._firstTerm.qSystem=qSystemNames#pylint:disable=no-member,protected-access
-                newSys._firstTerm.operator=ter.operator#pylint:disable=no-member,protected-access
-                newSys._firstTerm.frequency=ter.frequency#pylint:disable=no-member,protected-access
-                newSys._firstTerm.order=ter.order#pylint:disable=no-member,protected-access
+                qSystem = self._copyOfSubSys(newSys, ter.qSystem)
+            newSys.createTerm(qSystem=qSystem, #pylint:disable=no-member
+                              operator=ter.operator,
+                              frequency=ter.frequency,
+                              order=ter.order)
         if self.simulation._stateBase__initialStateInput._value is not None:
             newSys.initialState = self.simulation._stateBase__initialStateInput.value #pylint:disable=assigning-non-slot
-        if not self._isComposite:
-            newSys.dimension = self.dimension#pylint:disable=assigning-non-slot
-            newSys._inpCoef = self._inpCoef # pylint: disable=protected-access,assigning-non-slot
         newSys._named__setKwargs(**kwargs) #pylint:disable=no-member
         return newSys
 
-- 
2.43.0


From 274bf3c3cdd70eaca424cd770d129a61c0c0209f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:32 +0000
Subject: [PATCH 21/79] fix: updates restore the values of all their systems

---
 src/quanguru/classes/QPro.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/quanguru/classes/QPro.py b/src/quanguru/classes/QPro.py
index 389bd12..b39d900 100644
--- a/src/quanguru/classes/QPro.py
+++ b/src/quanguru/classes/QPro.py
@@ -497,12 +497,14 @@ class Update(updateBase):
         self._updateBase__function = func # pylint: disable=assigning-non-slot
 
     def _setup(self):
-        self.memoryValue = getattr(list(self.subSys.values())[0], self.key)
+        values = [getattr(qsys, self.key) for qsys in self.subSys.values()]
+        self.memoryValue = values if len(values) > 1 else values[0]
         if self._updateBase__function is None: # pylint: disable=no-member
             super()._runUpdate(self.value)
         else:
             self._updateBase__function(self) # pylint: disable=no-member
 
     def _setback(self):
-        if self.value != self.memoryValue:
-            super()._runUpdate(self.memoryValue)
+        values = self.memoryValue if len(self.subSys) > 1 else [self.memoryValue]
+        for qsys, value in zip(self.subSys.values(), values):
+            setattr(qsys, self.key, value)
-- 
2.43.0


From 948a5930cdf5ff8bfb48ca8c14224e46740ef7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:41 +0000
Subject: [PATCH 22/79] fix: CSV files of integer and complex data can be
 written and read back

---
 src/quanguru/extensions/saveReadCSV.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/quanguru/extensions/saveReadCSV.py b/src/quanguru/extensions/saveReadCSV.py
index c5f2a64..43be88d 100644
--- a/src/quanguru/extensions/saveReadCSV.py
+++ b/src/quanguru/extensions/saveReadCSV.py
@@ -30,6 +30,7 @@ r"""
 """
 
 import csv
+from numbers import Number
 from datetime import datetime
 import numpy as np
 from ._helpers import makeDir
@@ -65,7 +66,7 @@ def saveCSV(data, path=None, fileName=None):
         if isinstance(data[0], (list, np.ndarray)):
             for ind in range(len(data)):
                 csvWriter.writerow([data[ind][ind2] for ind2 in range(len(data[ind]))])
-        elif isinstance(data[0], (float, int, np.complex128)):
+        elif isinstance(data[0], Number):
             csvWriter.writerow([data[ind2] for ind2 in range(len(data))])
 
     return path
@@ -91,10 +92,10 @@ def readCSV(path, datatype=float, realVal=True):
         lineCount = 0
         for row in csvReader:
             lineCount += 1
-            if datatype != np.complex128:
+            if datatype not in (complex, np.complex128):
                 data.append(np.array(list(row), dtype=datatype))
             else:
-                li = np.genfromtxt(list(row), delimiter=',', dtype=np.complex)
+                li = np.array([complex(val) for val in row])
                 data.append(np.real(li) if realVal else li)
     return data if len(data) > 1 else data[0]
 
@@ -103,10 +104,10 @@ def _recursiveSaveList(data, path=None, fileName=None):
         if isinstance(data[0][0], (list, np.ndarray)):
             for ind in range(len(data)): #pylint:disable=consider-using-enumerate
                 _recursiveSaveList(data[ind], path=path, fileName=fileName+str(ind))
-        elif isinstance(data[0][0], (float, int, np.complex128)):
+        elif isinstance(data[0][0], Number):
             saveCSV(data, path=path, fileName=fileName)
-    elif isinstance(data[0], (float, int, np.complex128)):
-        saveCSV(data[0], path=path, fileName=fileName)
+    elif isinstance(data[0], Number):
+        saveCSV(data, path=path, fileName=fileName)
 
 def _saveDictToCSV(data, path=None, fileName=''):
     for key, val in data.items():
-- 
2.43.0


From 6030c4d60b768594722fbb22eb8d66e8ff717b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:32 +0000
Subject: [PATCH 23/79] fix: protocols notice a changed step that was
 re-created outside them

---
 src/quanguru/classes/QPro.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/quanguru/classes/QPro.py b/src/quanguru/classes/QPro.py
index b39d900..825fa32 100644
--- a/src/quanguru/classes/QPro.py
+++ b/src/quanguru/classes/QPro.py
@@ -303,6 +303,8 @@ class qProtocol(genericProtocol):
         Copy step ensures the exponentiation
         '''
         for step in args:
+            source = step.superSys if isinstance(step, copyStep) else step
+            source._paramBoundBase__paramBound[self.name] = self # a step might be re-created outside this protocol
             if isinstance(step, copyStep):
                 super().addSubSys(step)
             elif step._genericProtocol__inProtocol:
@@ -324,7 +326,8 @@ class qProtocol(genericProtocol):
                 vals.append(st._paramUpdated)
         else:
             for ind2, st in enumerate(subSysList[ind:]):
-                st._paramUpdated = vals[ind2]
+                if not isinstance(st, copyStep):
+                    st._paramBoundBase__paramUpdated = vals[ind2] # restored only for st, not for what is bound to it
         return vals
 
     def _defCreateUnitary(self, collapseOps = None, decayRates = None):
-- 
2.43.0


From 0010a0954c2e03d83846e35604e5530795bc9563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:36 +0000
Subject: [PATCH 24/79] fix: updates of a protocol do not leak into other uses
 of its steps

---
 src/quanguru/classes/QPro.py | 13 -------------
 1 file changed, 13 deletions(-)

diff --git a/src/quanguru/classes/QPro.py b/src/quanguru/classes/QPro.py
index 825fa32..87c6f1d 100644
--- a/src/quanguru/classes/QPro.py
+++ b/src/quanguru/classes/QPro.py
@@ -274,19 +274,6 @@ class qProtocol(genericProtocol):
         super().__init__(_internal=kwargs.pop('_internal', False))
         self._named__setKwargs(**kwargs) # pylint: disable=no-member
 
-    def _paramUpdatedToFalse(self):
-        super()._paramUpdatedToFalse()
-        for step in self.subSys.values():
-            step._paramUpdatedToFalse()
-
-    @genericProtocol._paramUpdated.getter
-    def _paramUpdated(self):# pylint: disable=invalid-overridden-method
-        for subS in self.subSys.values():
-            if subS._paramUpdated:
-                self._paramBoundBase__paramUpdated = True # pylint: disable=assigning-non-slot
-                break
-        return self._paramBoundBase__paramUpdated # pylint: disable=no-member
-
     @property
     def steps(self):
         return self._qBase__subSys # pylint: disable=no-member
-- 
2.43.0


From 6c5a8183984c88dcf3ef389a73c33fe7a23a3dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:58 +0000
Subject: [PATCH 25/79] fix: a fixed protocol is computed when it has no
 propagator yet

---
 src/quanguru/classes/QPro.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/quanguru/classes/QPro.py b/src/quanguru/classes/QPro.py
index 87c6f1d..b4bebda 100644
--- a/src/quanguru/classes/QPro.py
+++ b/src/quanguru/classes/QPro.py
@@ -198,7 +198,7 @@ class genericProtocol(QSimComp): # pylint: disable = too-many-instance-attribute
             self.superSys._timeDependency() # pylint: disable=no-member
 
         if self._paramUpdated:
-            if not self.fixed:
+            if not self.fixed or self._paramBoundBase__matrix is None: # pylint: disable=no-member
                 self._paramBoundBase__matrix = self.getUnitary() # pylint: disable=assigning-non-slot
         elif self._paramBoundBase__matrix is None: # pylint: disable=no-member
             self._paramBoundBase__matrix = self.getUnitary() # pylint: disable=assigning-non-slot
@@ -228,7 +228,7 @@ class genericProtocol(QSimComp): # pylint: disable = too-many-instance-attribute
     def _defGetUnitary(self, collapseOps = None, decayRates = None):
         runCreate = False
         if self._paramUpdated:
-            if not self.fixed:
+            if not self.fixed or self._paramBoundBase__matrix is None: # pylint: disable=no-member
                 runCreate = True
         elif self._paramBoundBase__matrix is None: # pylint: disable=no-member
             runCreate = True
-- 
2.43.0


From bbdc181d47531615b344a3b6ab4a246ddb3bd35d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:58 +0000
Subject: [PATCH 26/79] fix: a protocol that is no longer fixed follows its
 parameters again

---
 src/quanguru/classes/QPro.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/quanguru/classes/QPro.py b/src/quanguru/classes/QPro.py
index b4bebda..91eb59f 100644
--- a/src/quanguru/classes/QPro.py
+++ b/src/quanguru/classes/QPro.py
@@ -183,7 +183,7 @@ class genericProtocol(QSimComp): # pylint: disable = too-many-instance-attribute
 
     @fixed.setter
     def fixed(self, boolean):
-        self._genericProtocol__fixed = boolean # pylint: disable=assigning-non-slot
+        setAttr(self, '_genericProtocol__fixed', boolean) # parameters might have changed while it was fixed
 
     @QSimComp.superSys.setter # pylint: disable=no-member
     def superSys(self, supSys):
-- 
2.43.0


From 604eef896b1ae98a362d49502a64dc52b687fa9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:45 +0000
Subject: [PATCH 27/79] fix: initial states of composites follow those of their
 sub-systems at every level

---
 src/quanguru/classes/QSystem.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/quanguru/classes/QSystem.py b/src/quanguru/classes/QSystem.py
index 6e3874e..d312309 100644
--- a/src/quanguru/classes/QSystem.py
+++ b/src/quanguru/classes/QSystem.py
@@ -170,6 +170,18 @@ class QuantumSystem(QSimComp): # pylint:disable=too-many-instance-attributes
 
     _createState = _createInitialState # pylint:disable=protected-access
 
+    def _resetCompInitialStates(self):
+        r"""
+        Resets the initial states of all the composite systems that contain ``self``. A list input of a composite is
+        already passed to its sub-systems, so it is dropped and the states are re-created from their current inputs.
+        """
+        qsys = self.superSys
+        while qsys is not None:
+            if isinstance(qsys._initialStateInput, (list, tuple)):
+                qsys.simulation._initialStateInput = None
+            qsys.simulation._stateBase__initialState.value = None # breaks the bound to the other _parameter
+            qsys = qsys.superSys
+
     @QSimComp.initialState.setter # pylint: disable=no-member
     def initialState(self, inp):
         r"""
@@ -178,9 +190,7 @@ class QuantumSystem(QSimComp): # pylint:disable=too-many-instance-attributes
         checkNotVal(self._QuantumSystem__compSys,None,f'Type of {self.name} is ambiguous. Single and composite systems'+
                                                    ' handle initial state inputs differently, so you need to set other'+
                                                    f' relevant parameters to determine the type of {self.name}')
-        if self.superSys is not None:
-            self.superSys.simulation._stateBase__initialState.value = None # breaks the bound to the other _parameter
-
+        self._resetCompInitialStates()
         if self._isComposite:
             if not isinstance(inp, (ndarray, spmatrix)):
                 checkCorType(inp, (list, tuple), 'Composite state initial state input')
@@ -411,6 +421,7 @@ class QuantumSystem(QSimComp): # pylint:disable=too-many-instance-attributes
         subSys._paramBoundBase__paramBound[self.name] = self # pylint: disable=protected-access
         super().addSubSys(subSys, **kwargs)
         self.delMatrices(_exclude=[])
+        subSys._resetCompInitialStates()
         return subSys
 
     def delMatrices(self, _exclude=[]): # pylint: disable=dangerous-default-value
@@ -476,6 +487,7 @@ class QuantumSystem(QSimComp): # pylint:disable=too-many-instance-attributes
             _exclude.append(self)
             self._updateDimension(subSys, 1, subSys.dimension)
             super()._removeSubSysExc(subSys, _exclude=_exclude)
+            subSys._resetCompInitialStates()
             subSys.superSys = None
             subSys._dimsAfter = 1
             subSys._dimsBefore = 1
-- 
2.43.0


From 4eac343f46c824f92a1ec6198464676d599e4c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:29 +0000
Subject: [PATCH 28/79] fix: an explicit initial state of a protocol does not
 change the input checks of the sub-systems

---
 src/quanguru/classes/QSimBase.py | 11 ++++++++---
 src/quanguru/classes/QSystem.py  |  2 +-
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/quanguru/classes/QSimBase.py b/src/quanguru/classes/QSimBase.py
index 696a0ad..c30130b 100644
--- a/src/quanguru/classes/QSimBase.py
+++ b/src/quanguru/classes/QSimBase.py
@@ -240,6 +240,11 @@ class stateBase(computeBase):
         self._stateBase__initialStateInput.value = inp
 
     def _setGetMaxInput(self, inps):
+        self._maxInput = self._getMaxInput(inps)
+        return self._maxInput
+
+    @staticmethod
+    def _getMaxInput(inps):
         if isinstance(inps, (int, integer)) or (inps is None):
             inps = [inps]
         elif isinstance(inps, (list, tuple)):
@@ -252,10 +257,10 @@ class stateBase(computeBase):
             raise TypeError(f"Initial state input does not support type {type(inps)}")
 
         if all(isinstance(i, (int, integer)) for i in inps):
-            self._maxInput = max(inps)
+            maxInput = max(inps)
         else:
-            self._maxInput = 1
-        return self._maxInput
+            maxInput = 1
+        return maxInput
 
     def getResultByNameOrAlias(self, name):
         r"""
diff --git a/src/quanguru/classes/QSystem.py b/src/quanguru/classes/QSystem.py
index d312309..7931fd7 100644
--- a/src/quanguru/classes/QSystem.py
+++ b/src/quanguru/classes/QSystem.py
@@ -157,7 +157,7 @@ class QuantumSystem(QSimComp): # pylint:disable=too-many-instance-attributes
         """
         if self._isComposite:
             inp = [qsys._initialStateInput for qsys in self.subSys.values()] if inp is None else inp
-            subSysStates = [qsys._createInitialState(inp[ind], qsys.simulation._setGetMaxInput(inp[ind])) for ind, qsys in enumerate(self.subSys.values())]  # pylint: disable=protected-access,line-too-long
+            subSysStates = [qsys._createInitialState(inp[ind], qsys.simulation._getMaxInput(inp[ind])) for ind, qsys in enumerate(self.subSys.values())]  # pylint: disable=protected-access,line-too-long
             initialState = tensorProd(*subSysStates) if not any(inst is None for inst in subSysStates) else None
         else:
             checkNotVal(inp, None, self.name + ' is not given an initial state')
-- 
2.43.0


From 4ffddca68905009c7b5faffa1d522a4522854170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:27 +0000
Subject: [PATCH 29/79] fix: simulations with some explicit time parameters are
 still informed about the changes in the bound ones

---
 src/quanguru/classes/QSimBase.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/quanguru/classes/QSimBase.py b/src/quanguru/classes/QSimBase.py
index c30130b..3d87410 100644
--- a/src/quanguru/classes/QSimBase.py
+++ b/src/quanguru/classes/QSimBase.py
@@ -49,17 +49,14 @@ def setAttr(obj: paramBoundBase, attrStr: str, val: Any) -> None:
 def setAttrParam(obj: paramBoundBase, attrStr: str, val: Any) -> None:
     r"""
     a customized setattr that changes the value stored as the ``value`` attribute of a _parameter object.
-    The value (and _paramUpdated) is changed, if the new value is different than the old/existing. In any case, it
-    breaks existing timeBase bounds (bound between :class:`~Simulation` instances).
+    _paramUpdated is changed, if the new value is different than the old/existing. In any case, it breaks the bound of
+    this parameter, but the other parameters might still be bound (between :class:`~Simulation` instances), so ``obj``
+    still needs to be informed about their changes.
     Especially useful for multi parameter sweeps (see :class:`~_sweep`).
     """
     oldVal = getattr(obj, attrStr).value
-    if obj._timeBase__bound is not None:
-        obj._timeBase__bound._paramBoundBase__paramBound.pop(obj.name, None)
-        obj._timeBase__bound = None
-
+    getattr(obj, attrStr).value = val
     if val != oldVal:
-        getattr(obj, attrStr).value = val
         setattr(obj, '_paramUpdated', True)
 
 class _parameter: # pylint: disable=too-few-public-methods
-- 
2.43.0


From 785b445822dc24bd0b7d2699624b5d70decb8679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:27 +0000
Subject: [PATCH 30/79] fix: setting the step count updates the propagators
 also when the count itself does not change

---
 src/quanguru/classes/QSimBase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/quanguru/classes/QSimBase.py b/src/quanguru/classes/QSimBase.py
index 3d87410..bcc96bb 100644
--- a/src/quanguru/classes/QSimBase.py
+++ b/src/quanguru/classes/QSimBase.py
@@ -379,7 +379,7 @@ class timeBase(stateBase):
             self._timeBase__totalTime._value = self._timeBase__totalTime._bound._value# pylint: disable=protected-access
         setAttrParam(self, '_timeBase__stepCount', num)
         if self.totalTime is not None:
-            self._timeBase__stepSize.value = self.totalTime/num # pylint: disable=assigning-non-slot
+            setAttrParam(self, '_timeBase__stepSize', self.totalTime/num)
 
     @property
     def stepSize(self):
-- 
2.43.0


From a93b790638e3f025f8123a71519e3d2cf292df6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:25 +0000
Subject: [PATCH 31/79] fix: time dependent terms follow the simulation that
 runs, also for simulations of protocols

---
 src/quanguru/classes/QSim.py         | 18 ++++++++++++++++--
 src/quanguru/classes/modularSweep.py |  1 +
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/quanguru/classes/QSim.py b/src/quanguru/classes/QSim.py
index 3dd482f..0e8e20e 100644
--- a/src/quanguru/classes/QSim.py
+++ b/src/quanguru/classes/QSim.py
@@ -66,7 +66,7 @@ class Simulation(timeBase):
     #: class, but by re-assigning this class attribute, you can change the evolution method for all the future instances
     _evolFuncDefault = timeEvolBase
 
-    __slots__ = ['Sweep', 'timeDependency', 'evolFunc', '__index']
+    __slots__ = ['Sweep', 'timeDependency', 'evolFunc', '__index', '__runBy']
 
     # TODO init error decorators or error decorators for some methods
     def __init__(self, system=None, **kwargs):
@@ -93,6 +93,9 @@ class Simulation(timeBase):
         #: current time in evolution. this is intended purely for internal use.
         self.__index = -1
 
+        #: the simulation that (last) evolved the system/s of self, its time is the current time.
+        self.__runBy = None
+
         #: default function that implements the actual time evolution in each step. TODO Create tutorial.
         #: This is the default evolution method, which calls ``.unitary`` attribute on protocols and matrix multiply the
         #: resultant unitary with the ``.initialState``. It is possible to use this with other solution methods where
@@ -112,7 +115,9 @@ class Simulation(timeBase):
         the step size.
         """
         try:
-            if isinstance(self._timeBase__bound, Simulation): # pylint: disable=no-member
+            if self.__runBy is not None:
+                time = self.__runBy.stepSize*(self.__runBy.__index+1) # pylint: disable=protected-access
+            elif isinstance(self._timeBase__bound, Simulation): # pylint: disable=no-member
                 time = self._timeBase__bound._currentTime # pylint: disable=no-member
             else:
                 time = self.stepSize*(self.__index+1)
@@ -120,6 +125,15 @@ class Simulation(timeBase):
             time = 0
         return time
 
+    def _runs(self, qSystems):
+        r"""
+        Lets the given systems (and their sub-systems) know that their current time is the one of ``self``.
+        """
+        for qSys in qSystems:
+            if hasattr(qSys, 'simulation'):
+                qSys.simulation._Simulation__runBy = self # pylint: disable=protected-access
+                self._runs(qSys.subSys.values())
+
     @property
     def timeList(self):
         r"""
diff --git a/src/quanguru/classes/modularSweep.py b/src/quanguru/classes/modularSweep.py
index 6cc52d0..865d144 100644
--- a/src/quanguru/classes/modularSweep.py
+++ b/src/quanguru/classes/modularSweep.py
@@ -116,6 +116,7 @@ def timeDependent(qSim):
 # These are the specific solution method, user should define their own timeEvol function to use other solution methods
 # This flexibility should be reflected into protocol object
 def timeEvolDefault(qSim, td):
+    qSim._runs(qSim.subSys.values()) # pylint: disable=protected-access
     for protocol in qSim.subSys.keys():
         protocol.sampleStates = []
     if callable(qSim.evolFunc):
-- 
2.43.0


From 3822c098c9f429b3f24d86d4edae8bf1be2e7265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:31 +0000
Subject: [PATCH 32/79] fix: a step with several samples evolves for its whole
 step size and gates act once

---
 src/quanguru/classes/QPro.py         | 16 +++++++++++++++-
 src/quanguru/classes/modularSweep.py | 19 +++++++++++++------
 2 files changed, 28 insertions(+), 7 deletions(-)

diff --git a/src/quanguru/classes/QPro.py b/src/quanguru/classes/QPro.py
index 91eb59f..ac13d72 100644
--- a/src/quanguru/classes/QPro.py
+++ b/src/quanguru/classes/QPro.py
@@ -113,6 +113,10 @@ class genericProtocol(QSimComp): # pylint: disable = too-many-instance-attribute
     def dimension(self):
         return 1
 
+    @property
+    def _samples(self):
+        return 1 # a step is divided into samples only by free evolutions
+
     @property
     def _dissipator(self):
         return self._genericProtocol__dissipator
@@ -321,7 +325,9 @@ class qProtocol(genericProtocol):
         unitary = self._identity(openSys=self._isOpen) # pylint: disable=no-member
         for step in self.steps.values():
             vals = self._puValues(step, [])
-            unitary = step.getUnitary(collapseOps, decayRates) @ unitary
+            stepUnitary = step.getUnitary(collapseOps, decayRates)
+            for _ in range(step._samples): # pylint: disable=protected-access
+                unitary = stepUnitary @ unitary
             self._puValues(step, vals)
         return unitary
 
@@ -355,6 +361,10 @@ class copyStep(qBase):
     def simulation(self):
         return self.superSys.simulation
 
+    @property
+    def _samples(self):
+        return self.superSys._samples # pylint: disable=protected-access
+
     @_paramUpdated.setter
     def _paramUpdated(self, boolean):
         pass
@@ -386,6 +396,10 @@ class freeEvolution(genericProtocol):
         super().__init__(_internal=kwargs.pop('_internal', False))
         self._named__setKwargs(**kwargs) # pylint: disable=no-member
 
+    @property
+    def _samples(self):
+        return self.simulation.samples
+
     _freqCoef = 1 #2 * np.pi
     def matrixExponentiation(self, collapseOps = None, decayRates = None):
         self._increaseExponentiationCount()
diff --git a/src/quanguru/classes/modularSweep.py b/src/quanguru/classes/modularSweep.py
index 865d144..8f7ca83 100644
--- a/src/quanguru/classes/modularSweep.py
+++ b/src/quanguru/classes/modularSweep.py
@@ -39,9 +39,8 @@ from ..QuantumToolbox import densityMatrix, mat2Vec, vec2Mat
 def runSimulation(qSim, p):
     # NOTE determine if more samples of a protocol step are requested.
     for protocol, _ in qSim.subSys.items():
-        if hasattr(protocol, 'steps'):
-            if any((step.simulation.samples > 1 for step in protocol.steps.values())):
-                protocol.stepSample = True
+        if any((step._samples > 1 for step in _sampledSteps(protocol))): # pylint: disable=protected-access
+            protocol.stepSample = True
 
     if p is None:
         nonParalEvol(qSim)
@@ -145,19 +144,27 @@ def timeEvolDefault(qSim, td):
                     qsystem._computeBase__compute(protocol.currentState) # pylint: disable=protected-access
                     calledFor.append(qsystem)
 
+def _sampledSteps(protocol):
+    return list(protocol.steps.values()) if hasattr(protocol, 'steps') else [protocol]
+
 def timeEvolBase(qSim):
     for protocol in qSim.subSys.keys(): #pylint:disable=too-many-nested-blocks
         if protocol._isOpen: # pylint: disable=protected-access
             state = mat2Vec(protocol.currentState)
-            state = protocol.unitary() @ state
+            for _ in range(protocol._samples): # pylint: disable=protected-access
+                state = protocol.unitary() @ state
             protocol.currentState = vec2Mat(state)
         else:
             protocol.sampleStates = []
             if protocol.stepSample:
-                for step in protocol.steps.values():
-                    for _ in range(step.simulation.samples):
+                for update in (protocol.updates if hasattr(protocol, 'steps') else []):
+                    update.setup()
+                for step in _sampledSteps(protocol):
+                    for _ in range(step._samples): # pylint: disable=protected-access
                         protocol.currentState = step.unitary() @ protocol.currentState
                         protocol.sampleStates.append(protocol.currentState)
+                for update in (protocol.updates if hasattr(protocol, 'steps') else []):
+                    update.setback()
             else:
                 protocol.currentState = protocol.unitary() @ protocol.currentState
         #protocol.sampleStates = []
-- 
2.43.0


From bd9ec6b3bd863a1135bbed50a215f8ded31cbe82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:18 +0000
Subject: [PATCH 33/79] fix: a sweep can be combinatorial also when it is the
 first one

---
 src/quanguru/classes/QSweep.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/quanguru/classes/QSweep.py b/src/quanguru/classes/QSweep.py
index 8c1fcd6..e3273dc 100644
--- a/src/quanguru/classes/QSweep.py
+++ b/src/quanguru/classes/QSweep.py
@@ -331,8 +331,8 @@ class Sweep(qBase):
         ``subSys`` one after the other. Also, for nested Sweeps, the indList should be a properly nested list.
         """
         indx = 0
-        for sweep in self.sweeps.values():
-            if sweep.combinatorial is True:
+        for ind, sweep in enumerate(self.sweeps.values()):
+            if ((sweep.combinatorial is True) and (ind > 0)): # first one always uses the first index, as in prepare
                 indx += 1
             sweep.runSweep(indList[indx])
 
-- 
2.43.0


From 57c96f5f06363178ea74730dc16ef0607fa35527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:18 +0000
Subject: [PATCH 34/79] fix: a simulation runs once, not once per old sweep
 point, after its sweeps are removed

---
 src/quanguru/classes/QSweep.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/quanguru/classes/QSweep.py b/src/quanguru/classes/QSweep.py
index e3273dc..34f69d7 100644
--- a/src/quanguru/classes/QSweep.py
+++ b/src/quanguru/classes/QSweep.py
@@ -315,8 +315,9 @@ class Sweep(qBase):
         attributes/properties. The reason for this a bit argued in :meth:`indMultip`, but it is basically to ensure that
         any changes to ``sweepList/s`` or ``combinatorial/s`` are accurately used/reflected (especially on re-runs).
         """
+        self._Sweep__inds = [] # pylint: disable=assigning-non-slot
+        self._Sweep__indMultip = 1 # pylint: disable=assigning-non-slot
         if len(self.subSys) > 0:
-            self._Sweep__inds = [] # pylint: disable=assigning-non-slot
             for indx, sweep in enumerate(self.subSys.values()):
                 if ((sweep.combinatorial is True) or (indx == 0)):
                     self._Sweep__inds.insert(0, len(sweep.sweepList))
-- 
2.43.0


From aa94e872ae2fc0d025e9fbf65f453b7efe500e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:18 +0000
Subject: [PATCH 35/79] fix: the list of a sweep from minimum to maximum does
 not exceed the maximum

---
 src/quanguru/classes/QSweep.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/quanguru/classes/QSweep.py b/src/quanguru/classes/QSweep.py
index 34f69d7..acdae77 100644
--- a/src/quanguru/classes/QSweep.py
+++ b/src/quanguru/classes/QSweep.py
@@ -25,6 +25,7 @@ r"""
 """
 
 from functools import reduce
+from math import floor
 from numpy import arange, logspace
 
 from .base import qBase, _recurseIfList
@@ -130,8 +131,9 @@ class _sweep(updateBase): # pylint: disable=too-many-instance-attributes
         if self._sweepList is None:
             try:
                 if self.logSweep is False:
-                    self._sweepList = arange(self.sweepMin, self.sweepMax + self.sweepStep, # pylint: disable=no-member
-                                             self.sweepStep) # pylint: disable=no-member
+                    # the tolerance is for rounding errors, so that sweepMax is included but never exceeded
+                    num = floor((self.sweepMax - self.sweepMin)/self.sweepStep + 1e-9) + 1
+                    self._sweepList = self.sweepMin + self.sweepStep*arange(num) # pylint: disable=no-member
                 elif self.logSweep is True:
                     self._sweepList = logspace(self.sweepMin, self.sweepMax,
                                                num=self.sweepStep, base=10.0) # pylint: disable=no-member
-- 
2.43.0


From 26ac36b10d37e92d81f14664f267f7ee327e95b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:55 +0000
Subject: [PATCH 36/79] fix: removing a system from a simulation removes it
 with all of its protocols

---
 src/quanguru/classes/QSim.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/quanguru/classes/QSim.py b/src/quanguru/classes/QSim.py
index 0e8e20e..1345744 100644
--- a/src/quanguru/classes/QSim.py
+++ b/src/quanguru/classes/QSim.py
@@ -246,10 +246,14 @@ class Simulation(timeBase):
         r"""
         Remove a quantum system and corresponding sweeps from the simulation.
         """
-        #for key, subSys in self._qBase__subSys.items(): # pylint: disable=no-member
-        #    if ((subSys is subS) or (subSys.name == subS)):
-        super()._removeSubSysExc(subS, _exclude=[]) # pylint: disable=no-member
-        #print(subS.name + ' and its protocol ' + key.name + ' is removed from qSystems of ' + self.name)
+        subS = self.getByNameOrAlias(subS)
+        keys = [key for key, qsys in self._qBase__subSys.items() if qsys is subS] # pylint: disable=no-member
+        if len(keys) == 0:
+            raise KeyError(subS.name)
+        for key in keys: # protocols of the system, or its name before the first run
+            self._qBase__subSys.pop(key) # pylint: disable=no-member
+            if isinstance(key, named):
+                self.removeSweep([key, key.simulation])
         self.removeSweep([subS, subS.simulation, subS._freeEvol, subS._freeEvol.simulation])
 
     @_recurseIfList
-- 
2.43.0


From 90074bca40ca10dfeeb759104058a7cf6cee29d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:24 +0000
Subject: [PATCH 37/79] fix: removing a system from sweeps works when other
 sweeps do not contain it

---
 src/quanguru/classes/QSweep.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/quanguru/classes/QSweep.py b/src/quanguru/classes/QSweep.py
index acdae77..d471c2f 100644
--- a/src/quanguru/classes/QSweep.py
+++ b/src/quanguru/classes/QSweep.py
@@ -261,7 +261,8 @@ class Sweep(qBase):
         if isinstance(sys, _sweep):
             super()._removeSubSysExc(sys, _exclude=[])
         else:
-            sweeps = list(self.subSys.values())
+            sys = self.getByNameOrAlias(sys)
+            sweeps = [sweep for sweep in self.subSys.values() if sys in sweep.subSys.values()]
             for sweep in sweeps:
                 sweep._removeSubSysExc(sys, _exclude=[]) #pylint:disable=protected-access
                 if len(sweep.subSys) == 0:
-- 
2.43.0


From 698a07c95412e2a277070914f57bb4a89e4a8d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:16 +0000
Subject: [PATCH 38/79] fix: joining a simulation does not change the own step
 size of a system

---
 src/quanguru/classes/QSimBase.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/quanguru/classes/QSimBase.py b/src/quanguru/classes/QSimBase.py
index bcc96bb..66549f0 100644
--- a/src/quanguru/classes/QSimBase.py
+++ b/src/quanguru/classes/QSimBase.py
@@ -481,7 +481,9 @@ class timeBase(stateBase):
             bounding = True
             for ind, key in enumerate(keys):
                 if getattr(self, key)._bound is False: # pylint: disable=protected-access
-                    if getattr(other, key)._value is not None: # pylint: disable=protected-access
+                    # stepCount follows from the other two, unless it is given instead of the stepSize
+                    given = (key != '_timeBase__stepCount') or (self._timeBase__stepSize._bound is None)
+                    if given and (getattr(other, key)._value is not None): # pylint: disable=protected-access
                         setattr(self, keysProp[ind], getattr(self, key)._value) # pylint: disable=protected-access
 
                     if bounding:
-- 
2.43.0


From c2d68f96f985fa92019e7cf7a87cbc28abcd02d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:05 +0000
Subject: [PATCH 39/79] fix: jump operator of a dissipator can be replaced by
 one of the same shape, or given before its system

---
 src/quanguru/classes/environment.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/quanguru/classes/environment.py b/src/quanguru/classes/environment.py
index fdcabae..dd240c4 100644
--- a/src/quanguru/classes/environment.py
+++ b/src/quanguru/classes/environment.py
@@ -107,15 +107,14 @@ class dissipatorObj(_genericOpen):
     @jOperMatrix.setter
     def jOperMatrix(self, jOpMat):
         if ((jOpMat is None) or self._paramUpdated):
-            setAttr(self, '_paramBoundBase__matrix',
-                    compositeOp(self.jOper, dimA=self.superSys._dimsAfter, dimB=self.superSys._dimsBefore)) # pylint:disable=no-member
+            self._paramBoundBase__matrix = compositeOp(self.jOper, dimA=self.superSys._dimsAfter, dimB=self.superSys._dimsBefore) # pylint:disable=no-member,line-too-long,assigning-non-slot
             self._paramBoundBase__paramUpdated = False # pylint:disable=assigning-non-slot
 
     @jOper.setter
     def jOper(self, jop):
-        setAttr(self, '_dissipatorObj__operator', jop)
-        if self._paramUpdated:
-            self.jOperMatrix = None
+        if jop is not self._dissipatorObj__operator: # matrices of the same shape cannot be compared by !=
+            self._dissipatorObj__operator = jop # pylint: disable=assigning-non-slot
+            self._paramUpdated = True
 
 class thermalBath(_genericOpen): # pylint:disable=too-few-public-methods
     r"""
-- 
2.43.0


From e9f5341a4deaa5e2c4a34125859430437552599c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:05 +0000
Subject: [PATCH 40/79] fix: open evolution of a mixed initial state starts
 from that state

---
 src/quanguru/classes/modularSweep.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/quanguru/classes/modularSweep.py b/src/quanguru/classes/modularSweep.py
index 8f7ca83..15cf3e6 100644
--- a/src/quanguru/classes/modularSweep.py
+++ b/src/quanguru/classes/modularSweep.py
@@ -72,7 +72,9 @@ def _runSweepAndPrep(qSim, ind):
 
     for protocol in qSim.subSys.keys():
         if callable(qSim.evolFunc):
-            protocol.currentState = protocol.initialState if not protocol._isOpen else densityMatrix(protocol.initialState)# pylint: disable=protected-access,line-too-long
+            state = protocol.initialState
+            isKet = state.shape[0] != state.shape[1] # mixed initial states are already density matrices
+            protocol.currentState = densityMatrix(state) if (protocol._isOpen and isKet) else state # pylint: disable=protected-access
 
     qSim.qRes._resetLast() # pylint: disable=protected-access
     qSim._computeBase__calculate("pre")
-- 
2.43.0


From e777d9691664cf2334fd314a443e3dfa1f7d5e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:19 +0000
Subject: [PATCH 41/79] fix: changing the type of a dissipator after a first
 use has effect

---
 src/quanguru/classes/environment.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/quanguru/classes/environment.py b/src/quanguru/classes/environment.py
index dd240c4..3521b53 100644
--- a/src/quanguru/classes/environment.py
+++ b/src/quanguru/classes/environment.py
@@ -56,16 +56,27 @@ class dissipatorObj(_genericOpen):
     #: (**class attribute**) number of total instances = _internalInstances + _externalInstances
     _instances: int = 0
 
-    __slots__ = ['type', '__operator', '__rate', '__bath']
+    __slots__ = ['__type', '__operator', '__rate', '__bath']
 
     def __init__(self, **kwargs):
-        self.type = 1
+        self.__type = 1
         self.__operator = None
         self.__rate = 0
         self.__bath = thermalBath()
         super().__init__(**kwargs)
         self.__bath._paramBoundBase__paramBound[self.name] = self
 
+    @property
+    def type(self):
+        r"""
+        Gets and sets the type: 1 for emission (rate*(nBar + 1)) and 0 for absorption (rate*nBar).
+        """
+        return self._dissipatorObj__type
+
+    @type.setter
+    def type(self, typ):
+        setAttr(self, '_dissipatorObj__type', typ)
+
     @property
     def temperature(self):
         r"""
-- 
2.43.0


From 3921824a82510e92bde283bbdc92a118bd14d550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:58 +0000
Subject: [PATCH 42/79] fix: a protocol that becomes open after a first use, or
 gets a dissipator later, is re-computed

---
 src/quanguru/classes/QPro.py        | 14 ++++++++++++--
 src/quanguru/classes/environment.py |  1 +
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/quanguru/classes/QPro.py b/src/quanguru/classes/QPro.py
index ac13d72..a41d0d5 100644
--- a/src/quanguru/classes/QPro.py
+++ b/src/quanguru/classes/QPro.py
@@ -57,7 +57,7 @@ class genericProtocol(QSimComp): # pylint: disable = too-many-instance-attribute
         cls.numberOfExponentiations += 1
         return cls.numberOfExponentiations
 
-    __slots__ = ['__currentState', '__inProtocol', '__fixed', '__ratio', '__updates', '__dissipator', '_openSys',
+    __slots__ = ['__currentState', '__inProtocol', '__fixed', '__ratio', '__updates', '__dissipator', '__openSys',
                  '_getUnitary', 'timeDependency', '__identity', 'sampleStates', 'stepSample']
 
     def __init__(self, **kwargs):
@@ -102,7 +102,7 @@ class genericProtocol(QSimComp): # pylint: disable = too-many-instance-attribute
         #: a dictionary to store the dissipator objects used in open-system simulations
         self.__dissipator = {}
         #: boolean to determine if it is an open-system simulation.
-        self._openSys = False
+        self.__openSys = False
         self._named__setKwargs(**kwargs) # pylint: disable=no-member
 
     @property
@@ -130,6 +130,16 @@ class genericProtocol(QSimComp): # pylint: disable = too-many-instance-attribute
                 s._openSys = self._openSys # pylint: disable=protected-access
         return self._openSys
 
+    @property
+    def _openSys(self):
+        return self._genericProtocol__openSys
+
+    @_openSys.setter
+    def _openSys(self, boolean):
+        if boolean is not self._genericProtocol__openSys: # existing matrix is for the other one of kets/density matrices
+            self._genericProtocol__openSys = boolean # pylint: disable=assigning-non-slot
+            self._paramBoundBase__matrix = None # pylint: disable=assigning-non-slot
+
     @property
     def currentState(self):
         return self._genericProtocol__currentState.value
diff --git a/src/quanguru/classes/environment.py b/src/quanguru/classes/environment.py
index 3521b53..977bfed 100644
--- a/src/quanguru/classes/environment.py
+++ b/src/quanguru/classes/environment.py
@@ -96,6 +96,7 @@ class dissipatorObj(_genericOpen):
     def addToProtocol(self, protocol):
         protocol._genericProtocol__dissipator[self] = self.jRate #pylint:disable=protected-access
         self._paramBoundBase__paramBound[protocol.name] = protocol # pylint: disable=no-member
+        protocol._paramUpdated = True # pylint: disable=protected-access
 
     @property
     def jRate(self):
-- 
2.43.0


From da38306673efd820bc2928ad751248782d88dffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:58 +0000
Subject: [PATCH 43/79] fix: changes in the dissipators of a protocol reach the
 steps of the protocol

---
 src/quanguru/classes/QPro.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/quanguru/classes/QPro.py b/src/quanguru/classes/QPro.py
index a41d0d5..b3158d8 100644
--- a/src/quanguru/classes/QPro.py
+++ b/src/quanguru/classes/QPro.py
@@ -333,6 +333,10 @@ class qProtocol(genericProtocol):
 
     def _defCreateUnitary(self, collapseOps = None, decayRates = None):
         unitary = self._identity(openSys=self._isOpen) # pylint: disable=no-member
+        if collapseOps: # matrices of the steps also depend on the dissipators of the protocol
+            for step in self.steps.values():
+                if not isinstance(step, copyStep):
+                    step._paramBoundBase__paramUpdated = True
         for step in self.steps.values():
             vals = self._puValues(step, [])
             stepUnitary = step.getUnitary(collapseOps, decayRates)
-- 
2.43.0


From b594d304e65a4346cd55966f9a70ee0b3c5a62dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:58 +0000
Subject: [PATCH 44/79] fix: conjugated or repeated steps also become open with
 their protocol

---
 src/quanguru/classes/QPro.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/quanguru/classes/QPro.py b/src/quanguru/classes/QPro.py
index b3158d8..3fc2627 100644
--- a/src/quanguru/classes/QPro.py
+++ b/src/quanguru/classes/QPro.py
@@ -395,6 +395,14 @@ class copyStep(qBase):
     def _isOpen(self):
         return self.superSys._isOpen # pylint: disable=protected-access
 
+    @property
+    def _openSys(self):
+        return self.superSys._openSys # pylint: disable=protected-access
+
+    @_openSys.setter
+    def _openSys(self, boolean):
+        self.superSys._openSys = boolean # pylint: disable=protected-access
+
 class freeEvolution(genericProtocol):
     label = 'freeEvolution'
     #: (**class attribute**) number of instances created internally by the library
-- 
2.43.0


From c3a01bc1a83a7e1176895d332ced8fdeb13a4954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:42 +0000
Subject: [PATCH 45/79] fix: a dissipator moved to another bath after a first
 use takes the rate of that bath

---
 src/quanguru/classes/environment.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/quanguru/classes/environment.py b/src/quanguru/classes/environment.py
index 977bfed..2a787e0 100644
--- a/src/quanguru/classes/environment.py
+++ b/src/quanguru/classes/environment.py
@@ -175,6 +175,7 @@ class thermalBath(_genericOpen): # pylint:disable=too-few-public-methods
         _genericOpen.subSys.fset(self, subS)
         subS._dissipatorObj__bath = self #pylint:disable=protected-access
         self._paramBoundBase__paramBound[subS.name] = subS # pylint: disable=no-member
+        subS._paramUpdated = True # pylint: disable=protected-access
 
     @dissipator.setter
     def dissipator(self, subS):
-- 
2.43.0


From 15bc16ba33f5a3f00918478ac3d3203687e5a392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:44 +0000
Subject: [PATCH 46/79] fix: several updates of the same parameter in a
 protocol restore its value

---
 src/quanguru/classes/QPro.py         | 2 +-
 src/quanguru/classes/modularSweep.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/quanguru/classes/QPro.py b/src/quanguru/classes/QPro.py
index 3fc2627..0b09938 100644
--- a/src/quanguru/classes/QPro.py
+++ b/src/quanguru/classes/QPro.py
@@ -231,7 +231,7 @@ class genericProtocol(QSimComp): # pylint: disable = too-many-instance-attribute
         for update in self._genericProtocol__updates:
             update.setup()
         self._paramBoundBase__matrix = self._getUnitary(collapseOps, decayRates) # pylint: disable=no-member, assigning-non-slot
-        for update in self._genericProtocol__updates:
+        for update in reversed(self._genericProtocol__updates): # several updates might change the same parameter
             update.setback()
         self._paramUpdatedToFalse()
         return self._paramBoundBase__matrix # pylint: disable=no-member
diff --git a/src/quanguru/classes/modularSweep.py b/src/quanguru/classes/modularSweep.py
index 15cf3e6..b06912f 100644
--- a/src/quanguru/classes/modularSweep.py
+++ b/src/quanguru/classes/modularSweep.py
@@ -165,7 +165,7 @@ def timeEvolBase(qSim):
                     for _ in range(step._samples): # pylint: disable=protected-access
                         protocol.currentState = step.unitary() @ protocol.currentState
                         protocol.sampleStates.append(protocol.currentState)
-                for update in (protocol.updates if hasattr(protocol, 'steps') else []):
+                for update in reversed(protocol.updates if hasattr(protocol, 'steps') else []):
                     update.setback()
             else:
                 protocol.currentState = protocol.unitary() @ protocol.currentState
-- 
2.43.0


From fa54caf7951683523e0eedab54b4bc334f7c1d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:43 +0000
Subject: [PATCH 47/79] fix: CSV files of different sweep points do not
 overwrite each other

---
 src/quanguru/extensions/saveReadCSV.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/quanguru/extensions/saveReadCSV.py b/src/quanguru/extensions/saveReadCSV.py
index 43be88d..e103b00 100644
--- a/src/quanguru/extensions/saveReadCSV.py
+++ b/src/quanguru/extensions/saveReadCSV.py
@@ -102,8 +102,9 @@ def readCSV(path, datatype=float, realVal=True):
 def _recursiveSaveList(data, path=None, fileName=None):
     if isinstance(data[0], (list, np.ndarray)):
         if isinstance(data[0][0], (list, np.ndarray)):
+            digits = len(str(len(data) - 1)) # so that indices of different levels are not confused
             for ind in range(len(data)): #pylint:disable=consider-using-enumerate
-                _recursiveSaveList(data[ind], path=path, fileName=fileName+str(ind))
+                _recursiveSaveList(data[ind], path=path, fileName=fileName+str(ind).zfill(digits))
         elif isinstance(data[0][0], Number):
             saveCSV(data, path=path, fileName=fileName)
     elif isinstance(data[0], Number):
-- 
2.43.0


From 0fb5f78cb78b57daf7bfe773e280ca591a7a913d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:43 +0000
Subject: [PATCH 48/79] fix: averaged results can be saved into CSV files

---
 src/quanguru/extensions/saveReadCSV.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/quanguru/extensions/saveReadCSV.py b/src/quanguru/extensions/saveReadCSV.py
index e103b00..8a9afbb 100644
--- a/src/quanguru/extensions/saveReadCSV.py
+++ b/src/quanguru/extensions/saveReadCSV.py
@@ -100,7 +100,9 @@ def readCSV(path, datatype=float, realVal=True):
     return data if len(data) > 1 else data[0]
 
 def _recursiveSaveList(data, path=None, fileName=None):
-    if isinstance(data[0], (list, np.ndarray)):
+    if isinstance(data, Number): # an averaged result
+        saveCSV([data], path=path, fileName=fileName)
+    elif isinstance(data[0], (list, np.ndarray)):
         if isinstance(data[0][0], (list, np.ndarray)):
             digits = len(str(len(data) - 1)) # so that indices of different levels are not confused
             for ind in range(len(data)): #pylint:disable=consider-using-enumerate
-- 
2.43.0


From 57e024c2e8f1852d4e41e0412c868f3ae98c9126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:20 +0000
Subject: [PATCH 49/79] fix: removing a coupling made of several terms removes
 those terms

---
 src/quanguru/classes/QSystem.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/quanguru/classes/QSystem.py b/src/quanguru/classes/QSystem.py
index 7931fd7..e4e5072 100644
--- a/src/quanguru/classes/QSystem.py
+++ b/src/quanguru/classes/QSystem.py
@@ -644,8 +644,12 @@ class QuantumSystem(QSimComp): # pylint:disable=too-many-instance-attributes
         This method is a wrapper around the actual remove method the ``_removeTermExc`` so that it is called with an
         empty _exclude list, which is used to avoid infinite recursions when finding the term inside a nested system.
         If the given term is the first-term of the system, the next remaining term becomes the first-term.
+        If the given term consists of other terms of a quantum system (for example, a JC coupling), they are removed.
         """
         termObj = self.getByNameOrAlias(termObj)
+        for ter in getattr(termObj, 'subSys', {}).values():
+            if isinstance(ter, QTerm) and isinstance(ter.superSys, QuantumSystem) and ter in ter.superSys.terms.values():
+                self._removeTermExc(termObj=ter, _exclude=[])
         self._removeTermExc(termObj=termObj, _exclude=[])
 
     def resetTerms(self):
-- 
2.43.0


From 6795378dc5b7f16e11751cb6a3377cdfb5aa1772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:33 +0000
Subject: [PATCH 50/79] fix: names of deleted objects are not found instead of
 leading to None

---
 src/quanguru/classes/base.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/quanguru/classes/base.py b/src/quanguru/classes/base.py
index 48ef44e..a543472 100644
--- a/src/quanguru/classes/base.py
+++ b/src/quanguru/classes/base.py
@@ -393,9 +393,10 @@ class named:
         """
         if isinstance(name, named):
             return name
-        obj = checkNotVal(self._allInstaces.get(name), None,
-                          f"No object with the given name/alias {name} is found!")
-        return obj if isinstance(obj, named) else obj()
+        obj = self._allInstaces.get(name)
+        if isinstance(obj, weakref.ReferenceType): # None, if the object does not exist any more
+            obj = obj()
+        return checkNotVal(obj, None, f"No object with the given name/alias {name} is found!")
 
     def _incrementInstances(self) -> None:
         r"""
-- 
2.43.0


From a39b1f6b77f6a305693be3f5917ccdd525ab8aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:33 +0000
Subject: [PATCH 51/79] fix: an alias given again is not added twice

---
 src/quanguru/classes/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/quanguru/classes/base.py b/src/quanguru/classes/base.py
index a543472..9087042 100644
--- a/src/quanguru/classes/base.py
+++ b/src/quanguru/classes/base.py
@@ -130,7 +130,8 @@ class aliasClass:
     @alias.setter
     @_recurseIfList
     def alias(self, ali: Any) -> None:
-        self._aliasClass__alias.append(ali) #pylint:disable = no-member
+        if ali not in self._aliasClass__alias: #pylint:disable = no-member
+            self._aliasClass__alias.append(ali) #pylint:disable = no-member
 
     def __members(self) -> Tuple:
         r"""
-- 
2.43.0


From 21b7f6bb4bd1d89017796caf14cf119f2ba83e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:02 +0000
Subject: [PATCH 52/79] fix: calculated quantities of multi-process runs are
 not lost

---
 src/quanguru/classes/QRes.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/quanguru/classes/QRes.py b/src/quanguru/classes/QRes.py
index 5f7b201..a5b6cd0 100644
--- a/src/quanguru/classes/QRes.py
+++ b/src/quanguru/classes/QRes.py
@@ -268,9 +268,13 @@ class qResults(qResBase):
         (see :meth:`~_copyAllResBlank`), this method re-writes the results into corresponding :class:`~qResults` objects
         and re-shapes them into correct sweep and time trace structure. Calls other methods of the class for these.
         """
+        # quantities calculated before this run are also in the returns
+        counts = {name: {key: len(val) for key, val in qRes.calculated.items()} for name, qRes in self.allResults.items()}
         for res in results:
             for keyUni, valUni in res.items():
                 self._organise(keyUni, valUni)
+                for key, val in valUni._qResBlank__calculated.items():
+                    qResults._allResults[keyUni].calculated[key].extend(val[counts[keyUni].get(key, 0):])
         self._finaliseAll(inds)
 
     @classmethod
-- 
2.43.0


From 11920ff95255603ef8a210bfae96383e4aa87f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:17 +0000
Subject: [PATCH 53/79] fix: running without resetting the results keeps the
 previous results

---
 src/quanguru/classes/QRes.py | 24 ++++++++++++++++++++++++
 src/quanguru/classes/QSim.py |  2 ++
 2 files changed, 26 insertions(+)

diff --git a/src/quanguru/classes/QRes.py b/src/quanguru/classes/QRes.py
index a5b6cd0..34d4119 100644
--- a/src/quanguru/classes/QRes.py
+++ b/src/quanguru/classes/QRes.py
@@ -250,6 +250,30 @@ class qResults(qResBase):
             qRes._qResBase__statesLast = defaultdict(list)
             qRes._qResBase__calculated = defaultdict(list)
 
+    def _takeResults(self):
+        r"""
+        Method to empty the results/states dicts and return the previous ones of every qResults instance.
+        """
+        previous = []
+        for qRes in self.allResults.values():
+            previous.append((qRes, qRes._qResBase__results, qRes._qResBase__states))
+            qRes._qResBase__results = defaultdict(list)
+            qRes._qResBase__states = defaultdict(list)
+        return previous
+
+    @staticmethod
+    def _continueResults(previous):
+        r"""
+        Method to put the previous results/states (see :meth:`~_takeResults`) before the current ones.
+        """
+        for qRes, results, states in previous:
+            for old, new in ((results, qRes._qResBase__results), (states, qRes._qResBase__states)):
+                for key, val in old.items():
+                    if key not in new:
+                        new[key] = val
+                    elif isinstance(val, list) and isinstance(new[key], list):
+                        new[key] = val + new[key]
+
     def _resetLast(self):
         r"""
         Method to reset the Last dictionaries only, and it is called before the time evolution to empty the Last. After
diff --git a/src/quanguru/classes/QSim.py b/src/quanguru/classes/QSim.py
index 1345744..1cbb45f 100644
--- a/src/quanguru/classes/QSim.py
+++ b/src/quanguru/classes/QSim.py
@@ -369,7 +369,9 @@ class Simulation(timeBase):
         if resetRes:
             for qres in self.qRes.allResults.values():
                 qres._reset() # pylint: disable=protected-access
+        previous = self.qRes._takeResults() # pylint: disable=protected-access
         _poolMemory.run(self, p, coreCount)
+        self.qRes._continueResults(previous) # pylint: disable=protected-access
         for key, val in self.qRes.states.items():
             self.qRes.allResults[key]._qResBase__states[key] = val
         # TODO Test this
-- 
2.43.0


From 0352009e243f2aaf435eb97c1ca8c9b93b8da0df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:13 +0000
Subject: [PATCH 54/79] fix: parameters changed by updates are restored when an
 error is raised

---
 src/quanguru/classes/QPro.py         | 32 ++++++++++++++++++++--------
 src/quanguru/classes/modularSweep.py | 14 ++++++------
 2 files changed, 29 insertions(+), 17 deletions(-)

diff --git a/src/quanguru/classes/QPro.py b/src/quanguru/classes/QPro.py
index 0b09938..070cfa5 100644
--- a/src/quanguru/classes/QPro.py
+++ b/src/quanguru/classes/QPro.py
@@ -28,6 +28,8 @@ r"""
     =======================    ==================    ================   ===============
 
 """
+from contextlib import contextmanager, ExitStack
+
 from ..QuantumToolbox import evolution as lio #pylint: disable=relative-beyond-top-level
 from ..QuantumToolbox.operators import identity #pylint: disable=relative-beyond-top-level
 
@@ -228,14 +230,22 @@ class genericProtocol(QSimComp): # pylint: disable = too-many-instance-attribute
         if self.superSys is not None:
             self.superSys._timeDependency() # pylint: disable=no-member
 
-        for update in self._genericProtocol__updates:
-            update.setup()
-        self._paramBoundBase__matrix = self._getUnitary(collapseOps, decayRates) # pylint: disable=no-member, assigning-non-slot
-        for update in reversed(self._genericProtocol__updates): # several updates might change the same parameter
-            update.setback()
+        with self._updated():
+            self._paramBoundBase__matrix = self._getUnitary(collapseOps, decayRates) # pylint: disable=no-member, assigning-non-slot
         self._paramUpdatedToFalse()
         return self._paramBoundBase__matrix # pylint: disable=no-member
 
+    @contextmanager
+    def _updated(self):
+        r"""
+        Context in which the updates are in force. The original values are restored even if an error is raised.
+        """
+        with ExitStack() as stack:
+            for update in self._genericProtocol__updates:
+                update.setup()
+                stack.callback(update.setback) # in reverse order, several updates might change the same parameter
+            yield
+
     def _paramUpdatedToFalse(self):
         self._paramBoundBase__paramUpdated = False # pylint: disable=assigning-non-slot
 
@@ -525,10 +535,14 @@ class Update(updateBase):
     def _setup(self):
         values = [getattr(qsys, self.key) for qsys in self.subSys.values()]
         self.memoryValue = values if len(values) > 1 else values[0]
-        if self._updateBase__function is None: # pylint: disable=no-member
-            super()._runUpdate(self.value)
-        else:
-            self._updateBase__function(self) # pylint: disable=no-member
+        try:
+            if self._updateBase__function is None: # pylint: disable=no-member
+                super()._runUpdate(self.value)
+            else:
+                self._updateBase__function(self) # pylint: disable=no-member
+        except BaseException:
+            self._setback()
+            raise
 
     def _setback(self):
         values = self.memoryValue if len(self.subSys) > 1 else [self.memoryValue]
diff --git a/src/quanguru/classes/modularSweep.py b/src/quanguru/classes/modularSweep.py
index b06912f..0b652e4 100644
--- a/src/quanguru/classes/modularSweep.py
+++ b/src/quanguru/classes/modularSweep.py
@@ -33,6 +33,7 @@
 
 """
 
+from contextlib import ExitStack
 from functools import partial
 from ..QuantumToolbox import densityMatrix, mat2Vec, vec2Mat
 
@@ -159,14 +160,11 @@ def timeEvolBase(qSim):
         else:
             protocol.sampleStates = []
             if protocol.stepSample:
-                for update in (protocol.updates if hasattr(protocol, 'steps') else []):
-                    update.setup()
-                for step in _sampledSteps(protocol):
-                    for _ in range(step._samples): # pylint: disable=protected-access
-                        protocol.currentState = step.unitary() @ protocol.currentState
-                        protocol.sampleStates.append(protocol.currentState)
-                for update in reversed(protocol.updates if hasattr(protocol, 'steps') else []):
-                    update.setback()
+                with (protocol._updated() if hasattr(protocol, 'steps') else ExitStack()): # pylint: disable=protected-access
+                    for step in _sampledSteps(protocol):
+                        for _ in range(step._samples): # pylint: disable=protected-access
+                            protocol.currentState = step.unitary() @ protocol.currentState
+                            protocol.sampleStates.append(protocol.currentState)
             else:
                 protocol.currentState = protocol.unitary() @ protocol.currentState
         #protocol.sampleStates = []
-- 
2.43.0


From 10da5eb18bd9f093988e15297d612af7facf8fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:16 +0000
Subject: [PATCH 55/79] fix: circular addition of sub-systems is refused at any
 depth

---
 src/quanguru/classes/QSystem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/quanguru/classes/QSystem.py b/src/quanguru/classes/QSystem.py
index e4e5072..a7481e0 100644
--- a/src/quanguru/classes/QSystem.py
+++ b/src/quanguru/classes/QSystem.py
@@ -404,7 +404,7 @@ class QuantumSystem(QSimComp): # pylint:disable=too-many-instance-attributes
         updates of the sub-system also sets the _paramUpdated of self to True.
         Note that composite systems can contain other composite systems as sub-systems.
         """
-        if self in subSys.subSys.values():
+        if (subSys is self) or subSys._hasInSubs(self): # pylint:disable=protected-access
             raise ValueError(f"{self.name} is a subsystem of {subSys.name}. " +
                              f"Cannot add {subSys.name} as subsystem to {self.name}. " +
                              "Circular subsystem addition is not allowed.")
-- 
2.43.0


From 80415f2192e365b42606eadd9605ecc5aa0627f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:07 +0000
Subject: [PATCH 56/79] fix: a system is not half-added when its keyword
 arguments are refused

---
 src/quanguru/classes/QSystem.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/quanguru/classes/QSystem.py b/src/quanguru/classes/QSystem.py
index a7481e0..c07a3c2 100644
--- a/src/quanguru/classes/QSystem.py
+++ b/src/quanguru/classes/QSystem.py
@@ -409,17 +409,17 @@ class QuantumSystem(QSimComp): # pylint:disable=too-many-instance-attributes
                              f"Cannot add {subSys.name} as subsystem to {self.name}. " +
                              "Circular subsystem addition is not allowed.")
 
-        if self._QuantumSystem__compSys is None: # pylint:disable=no-member
-            self._QuantumSystem__compSys = True # pylint:disable=assigning-non-slot
-        elif self._QuantumSystem__compSys is False: # pylint:disable=no-member
+        if self._QuantumSystem__compSys is False: # pylint:disable=no-member
             raise TypeError("Cannot add a sub-system to a single quantum system " + self.name)
+        subSys._named__setKwargs(**kwargs) # pylint:disable=protected-access # before self changes, these might raise
+        self._QuantumSystem__compSys = True # pylint:disable=assigning-non-slot
 
         if subSys not in self.subSys.values():
             self._QuantumSystem__addSub(subSys)
         subSys.superSys = self
         self._paramUpdated = True
         subSys._paramBoundBase__paramBound[self.name] = self # pylint: disable=protected-access
-        super().addSubSys(subSys, **kwargs)
+        super().addSubSys(subSys)
         self.delMatrices(_exclude=[])
         subSys._resetCompInitialStates()
         return subSys
-- 
2.43.0


From 16921f4b2ee7cb90b93d7084054f0234242bec34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:07 +0000
Subject: [PATCH 57/79] fix: existing terms are not lost when the new ones are
 refused

---
 src/quanguru/classes/QSystem.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/quanguru/classes/QSystem.py b/src/quanguru/classes/QSystem.py
index c07a3c2..8985fb1 100644
--- a/src/quanguru/classes/QSystem.py
+++ b/src/quanguru/classes/QSystem.py
@@ -663,8 +663,14 @@ class QuantumSystem(QSimComp): # pylint:disable=too-many-instance-attributes
 
     @terms.setter
     def terms(self, trm):
+        oldTerms, oldFirstTerm = self._QuantumSystem__terms, self._QuantumSystem__firstTerm # pylint:disable=no-member
         self.resetTerms()
-        self.addTerms(trm)
+        try:
+            self.addTerms(trm)
+        except Exception: # the existing terms are not lost, if the new ones are not accepted
+            self._QuantumSystem__terms = oldTerms # pylint:disable=assigning-non-slot
+            self._QuantumSystem__firstTerm = oldFirstTerm # pylint:disable=assigning-non-slot
+            raise
 
     @property
     def _firstTerm(self):
-- 
2.43.0


From 8169d268ecd318d4b722870c8d415390cdbf7f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:27 +0000
Subject: [PATCH 58/79] fix: a refused initial state leaves the previous one in
 force

---
 src/quanguru/classes/QPro.py     | 3 ++-
 src/quanguru/classes/QSimBase.py | 4 ++--
 src/quanguru/classes/QSystem.py  | 7 +++++--
 3 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/quanguru/classes/QPro.py b/src/quanguru/classes/QPro.py
index 070cfa5..2c455a0 100644
--- a/src/quanguru/classes/QPro.py
+++ b/src/quanguru/classes/QPro.py
@@ -152,8 +152,9 @@ class genericProtocol(QSimComp): # pylint: disable = too-many-instance-attribute
 
     @QSimComp.initialState.setter # pylint: disable=no-member
     def initialState(self, inp):
+        state = self.superSys._createState(inp) # pylint:disable=W0212,E1101
         self.simulation._initialStateInput = inp # pylint: disable=protected-access
-        self.simulation._stateBase__initialState.value = self.superSys._createState(inp) # pylint:disable=W0212,E1101
+        self.simulation._stateBase__initialState.value = state # pylint:disable=W0212,E1101
 
     def createUpdate(self, **kwargs):
         update = Update(**kwargs)
diff --git a/src/quanguru/classes/QSimBase.py b/src/quanguru/classes/QSimBase.py
index 66549f0..5d9dda0 100644
--- a/src/quanguru/classes/QSimBase.py
+++ b/src/quanguru/classes/QSimBase.py
@@ -220,9 +220,9 @@ class stateBase(computeBase):
 
     @initialState.setter # pylint: disable=no-member
     def initialState(self, inp):
+        state = self.initialStateSystem._createState(inp, self._getMaxInput(inp)) # pylint: disable=protected-access, no-member, line-too-long # noqa: E501
         self._initialStateInput = inp # pylint: disable=no-member
-        initSys = self.initialStateSystem
-        self._stateBase__initialState.value = initSys._createState(inp, self._maxInput) # pylint: disable=protected-access, no-member, line-too-long # noqa: E501
+        self._stateBase__initialState.value = state # pylint: disable=no-member
 
     @property
     def _initialStateInput(self):
diff --git a/src/quanguru/classes/QSystem.py b/src/quanguru/classes/QSystem.py
index 8985fb1..7977ec2 100644
--- a/src/quanguru/classes/QSystem.py
+++ b/src/quanguru/classes/QSystem.py
@@ -157,6 +157,9 @@ class QuantumSystem(QSimComp): # pylint:disable=too-many-instance-attributes
         """
         if self._isComposite:
             inp = [qsys._initialStateInput for qsys in self.subSys.values()] if inp is None else inp
+            checkCorType(inp, (list, tuple), 'Composite state initial state input')
+            checkVal(len(inp), len(self.subSys), f'Number of inputs ({len(inp)}) to initial state should be the'+
+                                                 f' same as number of sub-system ({len(self.subSys)}) of {self.name}')
             subSysStates = [qsys._createInitialState(inp[ind], qsys.simulation._getMaxInput(inp[ind])) for ind, qsys in enumerate(self.subSys.values())]  # pylint: disable=protected-access,line-too-long
             initialState = tensorProd(*subSysStates) if not any(inst is None for inst in subSysStates) else None
         else:
@@ -190,12 +193,12 @@ class QuantumSystem(QSimComp): # pylint:disable=too-many-instance-attributes
         checkNotVal(self._QuantumSystem__compSys,None,f'Type of {self.name} is ambiguous. Single and composite systems'+
                                                    ' handle initial state inputs differently, so you need to set other'+
                                                    f' relevant parameters to determine the type of {self.name}')
+        if inp is not None: # raises, before anything changes, if it is not possible to create a state from the input
+            self._createState(inp, self.simulation._getMaxInput(inp)) # pylint:disable=protected-access
         self._resetCompInitialStates()
         if self._isComposite:
             if not isinstance(inp, (ndarray, spmatrix)):
                 checkCorType(inp, (list, tuple), 'Composite state initial state input')
-                checkVal(len(inp), len(self.subSys),f'Number of inputs ({len(inp)}) to initial state should be the'+
-                                                   f' same as number of sub-system ({len(self.subSys)}) of {self.name}')
                 for ind, qsys in enumerate(self.subSys.values()):
                     qsys.initialState = inp[ind]
         self.simulation.initialState = inp # pylint: disable=no-member, protected-access
-- 
2.43.0


From 5283f07f696c6e4e83ce38cacc8812e0f5445844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:27 +0000
Subject: [PATCH 59/79] fix: refused times leave the previous times in force

---
 src/quanguru/classes/QSimBase.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/quanguru/classes/QSimBase.py b/src/quanguru/classes/QSimBase.py
index 5d9dda0..7f0916a 100644
--- a/src/quanguru/classes/QSimBase.py
+++ b/src/quanguru/classes/QSimBase.py
@@ -348,9 +348,10 @@ class timeBase(stateBase):
     def totalTime(self, fTime):
         if self._timeBase__stepSize._bound not in (None, False):# pylint: disable=protected-access
             self._timeBase__stepSize._value = self._timeBase__stepSize._bound._value # pylint: disable=protected-access
+        num = None if self.stepSize is None else int((fTime//self.stepSize) + 1) # before anything changes, might raise
         setAttrParam(self, '_timeBase__totalTime', fTime)
-        if self.stepSize is not None:
-            self._timeBase__stepCount.value = int((fTime//self.stepSize) + 1) # pylint: disable=assigning-non-slot
+        if num is not None:
+            self._timeBase__stepCount.value = num # pylint: disable=assigning-non-slot
 
     @property
     def stepCount(self):
@@ -377,9 +378,10 @@ class timeBase(stateBase):
     def stepCount(self, num):
         if self._timeBase__totalTime._bound not in (None, False):# pylint: disable=protected-access
             self._timeBase__totalTime._value = self._timeBase__totalTime._bound._value# pylint: disable=protected-access
+        stepSize = None if self.totalTime is None else self.totalTime/num # before anything changes, might raise
         setAttrParam(self, '_timeBase__stepCount', num)
-        if self.totalTime is not None:
-            setAttrParam(self, '_timeBase__stepSize', self.totalTime/num)
+        if stepSize is not None:
+            setAttrParam(self, '_timeBase__stepSize', stepSize)
 
     @property
     def stepSize(self):
@@ -398,9 +400,10 @@ class timeBase(stateBase):
     def stepSize(self, stepsize):
         if self._timeBase__totalTime._bound not in (None, False):# pylint: disable=protected-access
             self._timeBase__totalTime._value = self._timeBase__totalTime._bound._value# pylint: disable=protected-access
+        num = None if self.totalTime is None else int((self.totalTime//stepsize) + 1) # before any change, might raise
         setAttrParam(self, '_timeBase__stepSize', stepsize)
-        if self.totalTime is not None:
-            self._timeBase__stepCount.value = int((self.totalTime//stepsize) + 1) # pylint: disable=assigning-non-slot
+        if num is not None:
+            self._timeBase__stepCount.value = num # pylint: disable=assigning-non-slot
 
     @property
     def samples(self):
-- 
2.43.0


From 390d7a2e713088392a159bafd6ea914ea563b5a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:04 +0000
Subject: [PATCH 60/79] fix: standard couplings find a cavity beside both a
 qubit and a spin

---
 src/quanguru/classes/extensions/couplings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/quanguru/classes/extensions/couplings.py b/src/quanguru/classes/extensions/couplings.py
index 9bebe40..2bf2847 100644
--- a/src/quanguru/classes/extensions/couplings.py
+++ b/src/quanguru/classes/extensions/couplings.py
@@ -108,7 +108,7 @@ def checkCavQub(coupler):
                 if isinstance(sys, (Cavity, Qubit, Spin)):
                     if len(qsystems) == 0:
                         qsystems.append(sys)
-                    elif not isinstance(sys, qsystems[0].__class__):
+                    elif isinstance(sys, Cavity) is not isinstance(qsystems[0], Cavity):
                         qsystems.append(sys)
 
                     if len(qsystems) == 2:
-- 
2.43.0


From 92120a377b1505346649d378561d6a31a5dc7244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:05 +0000
Subject: [PATCH 61/79] fix: a time dependency given as a range of values runs
 as that range also in the first run

---
 src/quanguru/classes/modularSweep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/quanguru/classes/modularSweep.py b/src/quanguru/classes/modularSweep.py
index 0b652e4..5c5a265 100644
--- a/src/quanguru/classes/modularSweep.py
+++ b/src/quanguru/classes/modularSweep.py
@@ -100,7 +100,7 @@ def timeDependent(qSim):
     td = False
     if len(qSim.timeDependency.sweeps) > 0:
         td = True
-        if list(qSim.timeDependency.sweeps.values())[0]._sweepList is not None: #pylint: disable=protected-access
+        if list(qSim.timeDependency.sweeps.values())[0].sweepList is not None:
             qSim.timeDependency.prepare()
         else:
             qSim.timeDependency._Sweep__inds = [qSim.stepCount] #pylint: disable=protected-access
-- 
2.43.0


From bdf6d6ce0bab42c632a9b344ebadc010a36524ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:00 +0000
Subject: [PATCH 62/79] fix: a protocol is removed, or replaced, by its name or
 its system name as documented

---
 src/quanguru/classes/QSim.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/quanguru/classes/QSim.py b/src/quanguru/classes/QSim.py
index 1cbb45f..908c0bd 100644
--- a/src/quanguru/classes/QSim.py
+++ b/src/quanguru/classes/QSim.py
@@ -271,10 +271,16 @@ class Simulation(timeBase):
         r"""
         Remove a protocoal and corresponding sweeps from the simulation.
         """
-        # FIXME what if freeEvol case, protocol then corresponds to qsys.name before simulation run
-        #  or a freeEvol obj after run
+        if not isinstance(Protocol, named): # name of a protocol, or of a system for its (internal) freeEvolution
+            for key, qsys in self._qBase__subSys.items(): # pylint: disable=no-member
+                freeEv = (not isinstance(key, named)) or (key is qsys._freeEvol) # pylint: disable=protected-access
+                if (qsys.name if freeEv else key.name) == Protocol:
+                    Protocol = key
+                    break
         qsys = self._qBase__subSys.pop(Protocol, None) # pylint: disable=no-member
         if qsys is not None:
+            if not isinstance(Protocol, named):
+                Protocol = qsys._freeEvol # pylint: disable=protected-access
             self.removeSweep([Protocol, Protocol.simulation])
             if qsys not in self.qSystems:
                 self.removeSweep(qsys)
-- 
2.43.0


From e4acfc9d714cf45cd7b72da55f27aed75acaa992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:05 +0000
Subject: [PATCH 63/79] fix: parallel runs work on a machine with a single core

---
 src/quanguru/classes/QSim.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/quanguru/classes/QSim.py b/src/quanguru/classes/QSim.py
index 908c0bd..0f14d98 100644
--- a/src/quanguru/classes/QSim.py
+++ b/src/quanguru/classes/QSim.py
@@ -415,13 +415,13 @@ class _poolMemory: # pylint: disable=too-few-public-methods
         if p is True:
             if coreCount is None:
                 if _poolMemory.coreCount is None:
-                    _pool = multiprocessing.Pool(processes=multiprocessing.cpu_count()-1) #pylint:disable=consider-using-with
+                    _pool = multiprocessing.Pool(processes=max(1, multiprocessing.cpu_count()-1)) #pylint:disable=consider-using-with
                 else:
                     _pool = multiprocessing.Pool(processes=_poolMemory.coreCount) #pylint:disable=consider-using-with
             elif isinstance(coreCount, int):
                 _pool = multiprocessing.Pool(processes=coreCount) #pylint:disable=consider-using-with
             elif coreCount.lower() == 'all':
-                _pool = multiprocessing.Pool(processes=multiprocessing.cpu_count()-1) #pylint:disable=consider-using-with
+                _pool = multiprocessing.Pool(processes=max(1, multiprocessing.cpu_count()-1)) #pylint:disable=consider-using-with
             else:
                 # FIXME should raise error
                 print('error')
-- 
2.43.0


From c1394e7025c95e28d66dcb6c06ca28f9fde93250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:56 +0000
Subject: [PATCH 64/79] fix: the processes of a parallel run end also when the
 run fails

---
 src/quanguru/classes/QSim.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/quanguru/classes/QSim.py b/src/quanguru/classes/QSim.py
index 0f14d98..c238ed9 100644
--- a/src/quanguru/classes/QSim.py
+++ b/src/quanguru/classes/QSim.py
@@ -435,9 +435,12 @@ class _poolMemory: # pylint: disable=too-few-public-methods
                 _pool = multiprocessing.Pool(processes=_poolMemory.coreCount) #pylint:disable=consider-using-with
             else:
                 _pool = None
-        runSimulation(qSim, _pool)
+        try:
+            runSimulation(qSim, _pool)
+        finally:
+            if _pool is not None:
+                _pool.close()
+                _pool.join()
 
         if _pool is not None:
             _poolMemory.coreCount = _pool._processes # pylint: disable=protected-access
-            _pool.close()
-            _pool.join()
-- 
2.43.0


From b6259701077ff2d90b40cec6883f5c1810913f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:00 +0000
Subject: [PATCH 65/79] fix: a refused operator of a coupling leaves the
 previous operators in force

---
 src/quanguru/classes/QTerms.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/quanguru/classes/QTerms.py b/src/quanguru/classes/QTerms.py
index 2cf0018..b80b147 100644
--- a/src/quanguru/classes/QTerms.py
+++ b/src/quanguru/classes/QTerms.py
@@ -181,10 +181,11 @@ class QTerm(paramBoundBase):
             checkCorType(vals, (list, tuple), f'{attrPrintName} of a term with multiple system (i.e. a coupling term)')
             checkVal(len(vals), len(self.qSystem), f'Number of {attrPrintName} ({len(vals)}) should be the same as'+
                                                     f' number of qSystem ({len(self.subSys)})')
-            for ind, ter in enumerate(self.subSys.values()):
-                setAttr(ter, attrName, vals[ind])
         if attrName == '_QTerm__operator':
             self._isCorrectPauliDim(self.qSystem, vals) #pylint:disable=no-member
+        if isinstance(self.qSystem, (list, tuple)):
+            for ind, ter in enumerate(self.subSys.values()):
+                setAttr(ter, attrName, vals[ind])
         setAttr(self, attrName, vals)
         if self._paramUpdated:
             self._paramBoundBase__matrix = None # pylint: disable=assigning-non-slot
-- 
2.43.0


From 23490183ca9c668db88a0d20dfb94aacd166d227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:00 +0000
Subject: [PATCH 66/79] fix: refused systems of a term leave the previous
 systems in force

---
 src/quanguru/classes/QTerms.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/quanguru/classes/QTerms.py b/src/quanguru/classes/QTerms.py
index b80b147..2070ad1 100644
--- a/src/quanguru/classes/QTerms.py
+++ b/src/quanguru/classes/QTerms.py
@@ -102,15 +102,16 @@ class QTerm(paramBoundBase):
         if isinstance(qSys, (list, tuple)):
             checkNotVal(self.superSys,None,'Multi-system terms (i.e. couplings) require the composite system that '+
             'contains the given systems to be its superSys')
+            qSys = [self.getByNameOrAlias(qsys) for qsys in qSys]
+        else:
+            qSys = self.getByNameOrAlias(qSys)
         self._QTerm__order = 1 # pylint: disable=assigning-non-slot
         self._QTerm__operator = None # pylint: disable=assigning-non-slot
         self.resetSubSys()
         if isinstance(qSys, (list, tuple)):
-            qSys = [self.getByNameOrAlias(qsys) for qsys in qSys]
             for qsys in qSys:
                 self.addSubSys(QTerm(qSystem=qsys, _internal=True))
         else:
-            qSys = self.getByNameOrAlias(qSys)
             self._paramBoundBase__paramBound[qSys.name] = qSys # pylint: disable=protected-access,no-member
         setAttr(self, '_QTerm__qSys', qSys)
 
-- 
2.43.0


From 8fdee91722da2c9995c4a192766d2592dd23f7a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:06 +0000
Subject: [PATCH 67/79] fix: a coupling refused for its strength leaves no
 terms behind

---
 src/quanguru/classes/extensions/couplings.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/quanguru/classes/extensions/couplings.py b/src/quanguru/classes/extensions/couplings.py
index 2bf2847..de9b062 100644
--- a/src/quanguru/classes/extensions/couplings.py
+++ b/src/quanguru/classes/extensions/couplings.py
@@ -28,6 +28,7 @@
 from ..QSys import compQSystem, QubitOld, CavityOld, SpinOld
 from ..QSystem import QuantumSystem, Qubit, Cavity, Spin
 from ..QTerms import QTerm
+from ..exceptions import checkCorType
 from ...QuantumToolbox.operators import sigmaz, Jz, create, destroy, Jp, Jm, sigmax, Jx
 
 
@@ -94,6 +95,7 @@ compQSystem.Dicke = DickeOld
 
 def checkCavQub(coupler):
     def couplerDecorator(obj, couplingStrength, subSys1=None, subSys2=None):
+        checkCorType(couplingStrength, (int, float, complex, type(None)), 'coupling strength') # before adding any term
         if isinstance(subSys1, (Qubit, Spin)):
             if not isinstance(subSys2, Cavity):
                 raise ValueError('Jaynes-Cummings requires a qubit and a cavity')
-- 
2.43.0


From 8145ac2d7a55e8f801d77f7e8c28e1210dc2ee80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:09 +0000
Subject: [PATCH 68/79] fix: a refused rotation axis leaves the previous axis
 in force

---
 src/quanguru/classes/QGates.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/quanguru/classes/QGates.py b/src/quanguru/classes/QGates.py
index 2ca11c5..9735dff 100644
--- a/src/quanguru/classes/QGates.py
+++ b/src/quanguru/classes/QGates.py
@@ -68,7 +68,6 @@ class SpinRotation(Gate): # pylint: disable=too-many-ancestors
 
     @rotationAxis.setter
     def rotationAxis(self, axStr):
-        setAttr(self, '_SpinRotation__rotationAxis', axStr)
         if axStr.lower() == 'x':
             self._rotationOp = operators.Jx
         elif axStr.lower() == 'y':
@@ -77,6 +76,7 @@ class SpinRotation(Gate): # pylint: disable=too-many-ancestors
             self._rotationOp = operators.Jz
         else:
             raise ValueError('unknown axis')
+        setAttr(self, '_SpinRotation__rotationAxis', axStr)
 
     def _rotMat(self, collapseOps = None, decayRates = None, openSys=False): #pylint:disable=unused-argument
         if ((self._paramBoundBase__matrix is None) or (self._paramBoundBase__paramUpdated is True)): # pylint: disable=no-member
-- 
2.43.0


From a563ab3ca3ffbcaaa6093666ad620ec10f095e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:51 +0000
Subject: [PATCH 69/79] fix: a step is re-created when a copy of it was
 computed with the updates of another step

---
 src/quanguru/classes/QPro.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/quanguru/classes/QPro.py b/src/quanguru/classes/QPro.py
index 2c455a0..af9715b 100644
--- a/src/quanguru/classes/QPro.py
+++ b/src/quanguru/classes/QPro.py
@@ -335,11 +335,12 @@ class qProtocol(genericProtocol):
         ind = subSysList.index(step) + 1
         if len(vals) == 0:
             for st in subSysList[ind:]:
-                vals.append(st._paramUpdated)
+                vals.append((st._paramUpdated, getattr(st, '_paramBoundBase__matrix', None)))
         else:
             for ind2, st in enumerate(subSysList[ind:]):
-                if not isinstance(st, copyStep):
-                    st._paramBoundBase__paramUpdated = vals[ind2] # restored only for st, not for what is bound to it
+                # a copy of st might be used in step, then its matrix was re-created with the updates of step
+                if not isinstance(st, copyStep) and st._paramBoundBase__matrix is vals[ind2][1]:
+                    st._paramBoundBase__paramUpdated = vals[ind2][0] # restored only for st, not for what is bound to it
         return vals
 
     def _defCreateUnitary(self, collapseOps = None, decayRates = None):
-- 
2.43.0


From 7df6bddecfbc6b6a027875e9ff38851fb670e6ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:11 +0000
Subject: [PATCH 70/79] fix: time dependency is evaluated for the whole system
 of a protocol, also when its steps are sampled

---
 src/quanguru/classes/modularSweep.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/quanguru/classes/modularSweep.py b/src/quanguru/classes/modularSweep.py
index 5c5a265..43b8465 100644
--- a/src/quanguru/classes/modularSweep.py
+++ b/src/quanguru/classes/modularSweep.py
@@ -160,6 +160,8 @@ def timeEvolBase(qSim):
         else:
             protocol.sampleStates = []
             if protocol.stepSample:
+                if protocol.superSys is not None: # the steps might be on some of the sub-systems only
+                    protocol.superSys._timeDependency() # pylint: disable=protected-access
                 with (protocol._updated() if hasattr(protocol, 'steps') else ExitStack()): # pylint: disable=protected-access
                     for step in _sampledSteps(protocol):
                         for _ in range(step._samples): # pylint: disable=protected-access
-- 
2.43.0


From 81bd1c381e075b25f46e424bc1df22bcde739fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:56 +0000
Subject: [PATCH 71/79] fix: composites keep using the initial state of their
 simulation unless a member is given one

---
 src/quanguru/classes/QSystem.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/quanguru/classes/QSystem.py b/src/quanguru/classes/QSystem.py
index 7977ec2..4e4f816 100644
--- a/src/quanguru/classes/QSystem.py
+++ b/src/quanguru/classes/QSystem.py
@@ -173,16 +173,27 @@ class QuantumSystem(QSimComp): # pylint:disable=too-many-instance-attributes
 
     _createState = _createInitialState # pylint:disable=protected-access
 
-    def _resetCompInitialStates(self):
+    def _hasInitialStateInput(self):
+        r"""
+        Returns ``True``, if ``self`` or any system in it is given an initial state.
+        """
+        return ((self.simulation._stateBase__initialStateInput._value is not None) or
+                any(qsys._hasInitialStateInput() for qsys in self.subSys.values()))
+
+    def _resetCompInitialStates(self, given):
         r"""
         Resets the initial states of all the composite systems that contain ``self``. A list input of a composite is
         already passed to its sub-systems, so it is dropped and the states are re-created from their current inputs.
+        The composites keep using the initial state of their (explicitly created) simulation, unless ``self`` is given
+        an initial state.
         """
         qsys = self.superSys
         while qsys is not None:
             if isinstance(qsys._initialStateInput, (list, tuple)):
                 qsys.simulation._initialStateInput = None
-            qsys.simulation._stateBase__initialState.value = None # breaks the bound to the other _parameter
+            qsys.simulation._stateBase__initialState._value = None
+            if given:
+                qsys.simulation._stateBase__initialState.value = None # breaks the bound to the other _parameter
             qsys = qsys.superSys
 
     @QSimComp.initialState.setter # pylint: disable=no-member
@@ -195,7 +206,7 @@ class QuantumSystem(QSimComp): # pylint:disable=too-many-instance-attributes
                                                    f' relevant parameters to determine the type of {self.name}')
         if inp is not None: # raises, before anything changes, if it is not possible to create a state from the input
             self._createState(inp, self.simulation._getMaxInput(inp)) # pylint:disable=protected-access
-        self._resetCompInitialStates()
+        self._resetCompInitialStates(True)
         if self._isComposite:
             if not isinstance(inp, (ndarray, spmatrix)):
                 checkCorType(inp, (list, tuple), 'Composite state initial state input')
@@ -424,7 +435,7 @@ class QuantumSystem(QSimComp): # pylint:disable=too-many-instance-attributes
         subSys._paramBoundBase__paramBound[self.name] = self # pylint: disable=protected-access
         super().addSubSys(subSys)
         self.delMatrices(_exclude=[])
-        subSys._resetCompInitialStates()
+        subSys._resetCompInitialStates(subSys._hasInitialStateInput())
         return subSys
 
     def delMatrices(self, _exclude=[]): # pylint: disable=dangerous-default-value
@@ -490,7 +501,7 @@ class QuantumSystem(QSimComp): # pylint:disable=too-many-instance-attributes
             _exclude.append(self)
             self._updateDimension(subSys, 1, subSys.dimension)
             super()._removeSubSysExc(subSys, _exclude=_exclude)
-            subSys._resetCompInitialStates()
+            subSys._resetCompInitialStates(subSys._hasInitialStateInput())
             subSys.superSys = None
             subSys._dimsAfter = 1
             subSys._dimsBefore = 1
-- 
2.43.0


From f10a17301d306ec8be8ec27e78abd5ec0a21c61e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:19 +0000
Subject: [PATCH 72/79] fix: a removed sub-system no longer updates the
 composite it left, which can become a part of it

---
 src/quanguru/classes/QSystem.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/quanguru/classes/QSystem.py b/src/quanguru/classes/QSystem.py
index 4e4f816..8bc033f 100644
--- a/src/quanguru/classes/QSystem.py
+++ b/src/quanguru/classes/QSystem.py
@@ -501,6 +501,7 @@ class QuantumSystem(QSimComp): # pylint:disable=too-many-instance-attributes
             _exclude.append(self)
             self._updateDimension(subSys, 1, subSys.dimension)
             super()._removeSubSysExc(subSys, _exclude=_exclude)
+            subSys._paramBoundBase__paramBound.pop(self.name, None) # pylint: disable=protected-access
             subSys._resetCompInitialStates(subSys._hasInitialStateInput())
             subSys.superSys = None
             subSys._dimsAfter = 1
-- 
2.43.0


From de2258d0af6086fbc2e7d649df8f19bdee1f9c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:28 +0000
Subject: [PATCH 73/79] fix: UJC without coupling at resonance is the free
 propagator and not nan

---
 src/quanguru/QuantumToolbox/Hamiltonians.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/quanguru/QuantumToolbox/Hamiltonians.py b/src/quanguru/QuantumToolbox/Hamiltonians.py
index c3a90f2..c590893 100644
--- a/src/quanguru/QuantumToolbox/Hamiltonians.py
+++ b/src/quanguru/QuantumToolbox/Hamiltonians.py
@@ -211,12 +211,12 @@ def UJC(wq: float, wc: float, g: float, t: float, dimC: int, sparse=False) -> Ma
     n = np.arange(1, dimC)
     U = np.zeros((2*dimC, 2*dimC), dtype=np.complex128)
 
-    U[2*n, 2*n] = np.cos((n*g**2+D**2/4)**0.5*t)+1j/2*D*np.sin((n*g**2+D**2/4)**0.5*t)/(n*g**2+D**2/4)**0.5
+    U[2*n, 2*n] = np.cos((n*g**2+D**2/4)**0.5*t)+1j/2*D*t*np.sinc((n*g**2+D**2/4)**0.5*t/np.pi)
     U[2*n, 2*n] *= np.exp(-1j*wc*(n-0.5)*t)
-    U[2*n-1, 2*n-1] = np.cos((n*g**2+D**2/4)**0.5*t)-1j/2*D*np.sin((n*g**2+D**2/4)**0.5*t)/(n*g**2+D**2/4)**0.5
+    U[2*n-1, 2*n-1] = np.cos((n*g**2+D**2/4)**0.5*t)-1j/2*D*t*np.sinc((n*g**2+D**2/4)**0.5*t/np.pi)
     U[2*n-1, 2*n-1] *= np.exp(-1j*wc*(n-0.5)*t)
-    U[2*n, 2*n-1] = -1j*n**0.5*g*np.sin((n*g**2+D**2/4)**0.5*t)/(n*g**2+D**2/4)**0.5*np.exp(-1j*wc*(n-0.5)*t)
-    U[2*n-1, 2*n] = -1j*n**0.5*g*np.sin((n*g**2+D**2/4)**0.5*t)/(n*g**2+D**2/4)**0.5*np.exp(-1j*wc*(n-0.5)*t)
+    U[2*n, 2*n-1] = -1j*n**0.5*g*t*np.sinc((n*g**2+D**2/4)**0.5*t/np.pi)*np.exp(-1j*wc*(n-0.5)*t)
+    U[2*n-1, 2*n] = -1j*n**0.5*g*t*np.sinc((n*g**2+D**2/4)**0.5*t/np.pi)*np.exp(-1j*wc*(n-0.5)*t)
     U[0, 0] = (np.cos(D/2*t)+1j*np.sin(D/2*t))*np.exp(1j*wc*0.5*t)
     U[-1, -1] = (np.cos(D/2*t)-1j*np.sin(D/2*t))*np.exp(-1j*wc*(dimC-0.5)*t)
 
-- 
2.43.0


From 43af3a36c7ab6aa648af2dfdae8d228718ff456f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:49 +0000
Subject: [PATCH 74/79] fix: couplings of earlier classes use all the systems
 of a term and not only the first two

---
 src/quanguru/classes/QSys.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/quanguru/classes/QSys.py b/src/quanguru/classes/QSys.py
index 4ba4f93..e7cfc58 100644
--- a/src/quanguru/classes/QSys.py
+++ b/src/quanguru/classes/QSys.py
@@ -1194,7 +1194,7 @@ class qCoupling(termTimeDep):
         cMats = []
         for ind in range(len(self._qBase__subSys)): # pylint: disable=no-member
             qts = []
-            for indx in range(len(list(self._qBase__subSys.values())[ind])): # pylint: disable=no-member
+            for indx in range(len(list(self._qBase__subSys.values())[ind][0])): # pylint: disable=no-member
                 sys = list(self._qBase__subSys.values())[ind][0][indx] # pylint: disable=no-member
                 order = sys.ind
                 oper = list(self._qBase__subSys.values())[ind][1][indx] # pylint: disable=no-member
-- 
2.43.0


From 8cd4c3ab9ab942696b324d22b1d752b9debef2ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:50 +0000
Subject: [PATCH 75/79] fix: removing a system from a coupling of earlier
 classes removes exactly its terms

---
 src/quanguru/classes/QSys.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/quanguru/classes/QSys.py b/src/quanguru/classes/QSys.py
index e7cfc58..803577a 100644
--- a/src/quanguru/classes/QSys.py
+++ b/src/quanguru/classes/QSys.py
@@ -1264,8 +1264,13 @@ class qCoupling(termTimeDep):
         r"""
         method to remove terms from the coupling
         """
-        vals = self._qBase__subSys.values() # pylint: disable=no-member
-        for ind, val in enumerate(vals):
-            systs = val[0]
-            if subSys in systs:
-                self._qBase__subSys.pop(str(ind)) # pylint: disable=no-member
+        kept = [val for val in self._qBase__subSys.values() if subSys not in val[0]] # pylint: disable=no-member
+        if len(kept) != len(self._qBase__subSys): # pylint: disable=no-member
+            # keys are the positions of the terms
+            self._qBase__subSys.clear() # pylint: disable=no-member
+            for ind, val in enumerate(kept):
+                self._qBase__subSys[str(ind)] = val # pylint: disable=no-member
+            if hasattr(subSys, '_paramBoundBase__paramBound'):
+                subSys._paramBoundBase__paramBound.pop(self.name, None) # pylint: disable=protected-access
+            self.delMatrices(_exclude=[])
+            self._paramUpdated = True
-- 
2.43.0


From 0e081005f814ca01ecc42cc58d24d0c0cc919892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:50 +0000
Subject: [PATCH 76/79] fix: couplings can be removed from composites of
 earlier classes

---
 src/quanguru/classes/QSys.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/quanguru/classes/QSys.py b/src/quanguru/classes/QSys.py
index 803577a..9014152 100644
--- a/src/quanguru/classes/QSys.py
+++ b/src/quanguru/classes/QSys.py
@@ -497,6 +497,13 @@ class compQSystem(genericQSys):
         remaining sub-systems (such as dimension before/after).
         """
         subSys = self.getByNameOrAlias(subSys)
+        if subSys in self.qCouplings.values():
+            self.qCouplings.pop(subSys.name)
+            subSys._paramBoundBase__paramBound.pop(self.name, None) # pylint: disable=protected-access
+            subSys.superSys = None
+            self.delMatrices(_exclude=[])
+            self._paramUpdated = True
+            return
         couplings = list(self.qCouplings.values())
         for coupling in couplings:
             coupling._removeSubSysExc(subSys, _exclude=_exclude)# pylint: disable=protected-access
@@ -512,8 +519,6 @@ class compQSystem(genericQSys):
             self.qSystems.pop(subSys.name)
             _exclude.append(self)
             super()._removeSubSysExc(subSys, _exclude=_exclude)
-        elif subSys in self.qCouplings.values():
-            self.qCouplings.pop(subSys.name)
 
         if self not in _exclude:
             _exclude.append(self)
-- 
2.43.0


From 228f57a91139af58b19f6d2a85bfbe6d4832281c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:50 +0000
Subject: [PATCH 77/79] fix: a system removed from a composite of earlier
 classes no longer changes it

---
 src/quanguru/classes/QSys.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/quanguru/classes/QSys.py b/src/quanguru/classes/QSys.py
index 9014152..c094b21 100644
--- a/src/quanguru/classes/QSys.py
+++ b/src/quanguru/classes/QSys.py
@@ -496,6 +496,7 @@ class compQSystem(genericQSys):
         Removes a quantum system from the composite system ``self`` and updates the relevant information in the
         remaining sub-systems (such as dimension before/after).
         """
+        isFirstCall = len(_exclude) == 0
         subSys = self.getByNameOrAlias(subSys)
         if subSys in self.qCouplings.values():
             self.qCouplings.pop(subSys.name)
@@ -536,9 +537,13 @@ class compQSystem(genericQSys):
             self.superSys._removeSubSysExc(subSys, _exclude=_exclude) # pylint: disable=protected-access
             _exclude.append(self.superSys)
 
-        #subSys.superSys = None
-        subSys._dimsAfter = 1
-        subSys._dimsBefore = 1
+        if isinstance(subSys, genericQSys):
+            subSys._dimsAfter = 1
+            subSys._dimsBefore = 1
+            if isFirstCall and subSys.superSys is not None:
+                # the recursive calls above use the superSys, so it is removed when they are all completed
+                subSys._paramBoundBase__paramBound.pop(subSys.superSys.name, None) # pylint: disable=protected-access
+                subSys.superSys = None
         self.delMatrices(_exclude=[])
         self.simulation._stateBase__initialState._value = None
         self._genericQSys__dimension = None # pylint: disable=assigning-non-slot
-- 
2.43.0


From 3be5915e3663d21203ce17390cd5a74458122555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:55 +0000
Subject: [PATCH 78/79] fix: a term can be added after removing one in the
 earlier classes

---
 src/quanguru/classes/QSys.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/quanguru/classes/QSys.py b/src/quanguru/classes/QSys.py
index c094b21..397ba72 100644
--- a/src/quanguru/classes/QSys.py
+++ b/src/quanguru/classes/QSys.py
@@ -43,6 +43,7 @@
 
 """ #pylint: disable=too-many-lines
 
+import weakref
 from collections import OrderedDict
 from numpy import (int64, int32, int16, ndarray)
 from scipy.sparse import issparse
@@ -799,6 +800,10 @@ class term(termTimeDep):
         """
         paramBoundBase.superSys.fset(self, supSys) # pylint: disable=no-member
         termCount = len(self.superSys.subSys) if self in self.superSys.subSys.values() else len(self.superSys.subSys)+1 # pylint: disable=no-member,line-too-long # noqa: E501
+        # the number can already be in use, when some of the terms are removed
+        while any(((k == na+"Term"+str(termCount)) and ((v() if isinstance(v, weakref.ReferenceType) else v) is not self)) # pylint: disable=line-too-long # noqa: E501
+                  for na in self.superSys.name._aliasClass__members() for k, v in self._allInstacesDict.items()): # pylint: disable=no-member, protected-access,line-too-long # noqa: E501
+            termCount += 1
         self.alias = [na+"Term"+str(termCount) for na in self.superSys.name._aliasClass__members()] # pylint: disable=no-member, protected-access,line-too-long # noqa: E501
 
     @property
-- 
2.43.0


From 1d1af772adc57e6f900e927c9507fb2f7225f1b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:55 +0000
Subject: [PATCH 79/79] fix: removing a term of a system of the earlier classes
 is reflected in its Hamiltonian

---
 src/quanguru/classes/QSys.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/quanguru/classes/QSys.py b/src/quanguru/classes/QSys.py
index 397ba72..3095e58 100644
--- a/src/quanguru/classes/QSys.py
+++ b/src/quanguru/classes/QSys.py
@@ -1026,6 +1026,9 @@ class qSystem(genericQSys):
 
             if subSys in self.subSys.values():
                 super()._removeSubSysExc(subSys, _exclude=_exclude)
+                subSys._paramBoundBase__paramBound.pop(self.name, None) # pylint: disable=protected-access
+                self.delMatrices(_exclude=[])
+                self._paramUpdated = True
 
     @terms.setter
     def terms(self, subSys):
-- 
2.43.0

