From d25abb966253496a38a5be2a790aabd0dedf4c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:53 +0000
Subject: [PATCH 01/49] fix: sumOutLegByLabel with a list of labels dropped the
 weights

---
 src/CTL/tensor/tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CTL/tensor/tensor.py b/src/CTL/tensor/tensor.py
index c410ef4..a41b90a 100644
--- a/src/CTL/tensor/tensor.py
+++ b/src/CTL/tensor/tensor.py
@@ -1115,7 +1115,7 @@ class Tensor(TensorBase):
         """
         if isinstance(label, list):
             for l in label:
-                self.sumOutLegByLabel(l, backward)
+                self.sumOutLegByLabel(l, backward = backward, weights = weights)
             return 
         leg = self.getLeg(label, backward = backward)
         if leg is None:
-- 
2.43.0


From e52e6d28316b55943e94c63e498aa409179a4388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:04 +0000
Subject: [PATCH 02/49] fix: summing out a leg of a tensor-like object failed
 (no data to sum)

---
 src/CTL/tensor/diagonalTensor.py | 6 ++++--
 src/CTL/tensor/tensor.py         | 3 ++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/CTL/tensor/diagonalTensor.py b/src/CTL/tensor/diagonalTensor.py
index d452fb3..25cdb85 100644
--- a/src/CTL/tensor/diagonalTensor.py
+++ b/src/CTL/tensor/diagonalTensor.py
@@ -738,13 +738,15 @@ class DiagonalTensor(Tensor):
         # if weights is None:
         if (len(self.legs) == 0):
             # not a diagonal tensor, since the last sum will give a single value
-            if weights is None:
+            if (self.tensorLikeFlag):
+                pass
+            elif weights is None:
                 self.a = xplib.xp.array(xplib.xp.sum(self.a))
             else:
                 self.a = xplib.xp.array(xplib.xp.sum(self.a * weights))
             self._length = 1
         else:
-            if (weights is not None):
+            if (weights is not None) and (not self.tensorLikeFlag):
                 self.a = self.a * weights
 
     def typeName(self):
diff --git a/src/CTL/tensor/tensor.py b/src/CTL/tensor/tensor.py
index a41b90a..17b539f 100644
--- a/src/CTL/tensor/tensor.py
+++ b/src/CTL/tensor/tensor.py
@@ -1096,7 +1096,8 @@ class Tensor(TensorBase):
         
         idx = self.legs.index(leg)
         # self.a = xplib.xp.sum(self.a, axis = idx)
-        self.a = funcs.sumOnAxis(self.a, axis = idx, weights = weights)
+        if (not self.tensorLikeFlag):
+            self.a = funcs.sumOnAxis(self.a, axis = idx, weights = weights)
         self.legs = self.legs[:idx] + self.legs[(idx + 1):]
     
     def sumOutLegByLabel(self, label, backward = False, weights = None):
-- 
2.43.0


From 98872900e72261328aed173d93117af5f5556763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:51 +0000
Subject: [PATCH 03/49] fix: complex diagonal tensors lost their imaginary part
 and dtype

---
 src/CTL/funcs/funcs.py           | 4 +++-
 src/CTL/tensor/diagonalTensor.py | 4 ++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/CTL/funcs/funcs.py b/src/CTL/funcs/funcs.py
index 70aa5a3..d703a62 100644
--- a/src/CTL/funcs/funcs.py
+++ b/src/CTL/funcs/funcs.py
@@ -1093,8 +1093,10 @@ def diagonalNDTensor(a, dim):
         A diagonal tensor of dim dimension, and contains the values of a in order on its diagonal.
 
     """
+    if (dim == 0):
+        return xplib.xp.copy(a)
     l = a.shape[0]
-    res = xplib.xp.zeros(tuple([l] * dim))
+    res = xplib.xp.zeros(tuple([l] * dim), dtype = a.dtype)
     res[xplib.xp.diag_indices(l, dim)] = a
     # for i in range(l):
     # 	res[tuple([i] * dim)] = a[i]
diff --git a/src/CTL/tensor/diagonalTensor.py b/src/CTL/tensor/diagonalTensor.py
index 25cdb85..21a2edf 100644
--- a/src/CTL/tensor/diagonalTensor.py
+++ b/src/CTL/tensor/diagonalTensor.py
@@ -228,7 +228,7 @@ class DiagonalTensor(Tensor):
             return None
         # print('generating data for data = {}'.format(data))
         if (data is None):
-            data = xplib.xp.ones(shape[0])
+            data = xplib.xp.ones(shape[0], dtype = self.dtype)
         # otherwise, data can be 1D-array, or ndarray
         elif (len(data.shape) == 1):
             data = xplib.xp.copy(data)
@@ -396,7 +396,7 @@ class DiagonalTensor(Tensor):
             
 
     def __init__(self, shape = None, labels = None, data = None, degreeOfFreedom = None, name = None, legs = None, tensorLikeFlag = False, dtype = xplib.xp.float64):
-        super().__init__(diagonalFlag = True, tensorLikeFlag = tensorLikeFlag, dtype = dtype)
+        super().__init__(diagonalFlag = True, tensorLikeFlag = tensorLikeFlag, dtype = self.deduceDataType(data = data, dtype = dtype))
 
         legs, data, labels, shape = self.deduction(legs = legs, data = data, labels = labels, shape = shape, isTensorLike = tensorLikeFlag)
 
-- 
2.43.0


From 8645bae3b59d559f732f07dd49a9b7c86c83e5d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:09 +0000
Subject: [PATCH 04/49] fix: diagonal tensors built from scalars or from data
 of another shape were inconsistent

---
 src/CTL/tensor/diagonalTensor.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/CTL/tensor/diagonalTensor.py b/src/CTL/tensor/diagonalTensor.py
index 21a2edf..cdd0e21 100644
--- a/src/CTL/tensor/diagonalTensor.py
+++ b/src/CTL/tensor/diagonalTensor.py
@@ -227,16 +227,22 @@ class DiagonalTensor(Tensor):
         if (isTensorLike):
             return None
         # print('generating data for data = {}'.format(data))
-        if (data is None):
+        if (len(shape) == 0):
+            # scalar
+            if (data is None):
+                data = xplib.xp.array(1.0, dtype = self.dtype)
+            else:
+                data = xplib.xp.copy(data.reshape(()))
+        elif (data is None):
             data = xplib.xp.ones(shape[0], dtype = self.dtype)
         # otherwise, data can be 1D-array, or ndarray
-        elif (len(data.shape) == 1):
+        elif (len(data.shape) == 1) and (len(data) == shape[0]):
             data = xplib.xp.copy(data)
         else:
             l, dim = len(shape), shape[0]
             # print('dim = {}, l = {}'.format(dim, l))
             # print(xplib.xp.diag_indices(dim, l))
-            data = xplib.xp.copy(data[xplib.xp.diag_indices(dim, l)])
+            data = xplib.xp.copy(data.reshape(shape)[xplib.xp.diag_indices(dim, l)])
         return data
 
     def deduction(self, legs, data, labels, shape, isTensorLike = False):
@@ -253,10 +259,10 @@ class DiagonalTensor(Tensor):
         funcName = "DiagonalTensor.deduction"
 
         # first, consider scalar case
-        if (legs is None) and (labels is None) and (shape == () or ((data is not None) and (data.shape == ()))):
-            if (data is None) and (not isTensorLike):
-                data = xplib.xp.array(1.0)
-            return [], data, [], () # scalar
+        if (legs is None) and (labels is None) and (shape == () or ((shape is None) and (data is not None) and (data.shape == ()))):
+            if (not self.checkShapeDataCompatible(shape = (), data = data)):
+                raise ValueError(funcs.errorMessage('data shape {} is not compatible with required shape {}'.format(data.shape, ()), location = funcName))
+            return [], self.generateData(shape = (), data = data, isTensorLike = isTensorLike), [], () # scalar
             
 
         if (legs is not None):
-- 
2.43.0


From 1349071a8e6c6fc711960592855e3c7c1c78f346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:09 +0000
Subject: [PATCH 05/49] fix: toTensorLike (and copies of it) forgot the data
 type of the tensor

---
 src/CTL/tensor/diagonalTensor.py | 4 ++--
 src/CTL/tensor/tensor.py         | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/CTL/tensor/diagonalTensor.py b/src/CTL/tensor/diagonalTensor.py
index cdd0e21..1f40cb7 100644
--- a/src/CTL/tensor/diagonalTensor.py
+++ b/src/CTL/tensor/diagonalTensor.py
@@ -593,7 +593,7 @@ class DiagonalTensor(Tensor):
         DiagonalTensor
             A copy of the current diagonal tensor, all the information can be copied is contained.
         """
-        return DiagonalTensor(data = self.a, shape = self.shape, degreeOfFreedom = self.degreeOfFreedom, name = self.name, labels = self.labels, tensorLikeFlag = self.tensorLikeFlag)
+        return DiagonalTensor(data = self.a, shape = self.shape, degreeOfFreedom = self.degreeOfFreedom, name = self.name, labels = self.labels, tensorLikeFlag = self.tensorLikeFlag, dtype = self.dtype)
         # no copy of tensor legs, which may contain connection information
     def toTensorLike(self):
         """
@@ -607,7 +607,7 @@ class DiagonalTensor(Tensor):
         if (self.tensorLikeFlag):
             return self.copy()
         else:
-            return DiagonalTensor(data = None, degreeOfFreedom = self.degreeOfFreedom, name = self.name, labels = self.labels, shape = self.shape, tensorLikeFlag = True)
+            return DiagonalTensor(data = None, degreeOfFreedom = self.degreeOfFreedom, name = self.name, labels = self.labels, shape = self.shape, tensorLikeFlag = True, dtype = self.dtype)
 
     def moveLabelsToFront(self, labelList):
         """
diff --git a/src/CTL/tensor/tensor.py b/src/CTL/tensor/tensor.py
index 17b539f..ad354e1 100644
--- a/src/CTL/tensor/tensor.py
+++ b/src/CTL/tensor/tensor.py
@@ -666,7 +666,7 @@ class Tensor(TensorBase):
         Tensor
             A copy of the current tensor, all the information can be copied is contained.
         """
-        return Tensor(data = self.a, shape = self.shape, degreeOfFreedom = self.degreeOfFreedom, name = self.name, labels = self.labels, diagonalFlag = self.diagonalFlag, tensorLikeFlag = self.tensorLikeFlag)
+        return Tensor(data = self.a, shape = self.shape, degreeOfFreedom = self.degreeOfFreedom, name = self.name, labels = self.labels, diagonalFlag = self.diagonalFlag, tensorLikeFlag = self.tensorLikeFlag, dtype = self.dtype)
         # no copy of tensor legs, which may contain connection information
         # the data will be copied in the new tensor, since all data is generated by "generateData"
     def toTensorLike(self):
@@ -681,7 +681,7 @@ class Tensor(TensorBase):
         if (self.tensorLikeFlag):
             return self.copy()
         else:
-            return Tensor(data = None, degreeOfFreedom = self.degreeOfFreedom, shape = self.shape, name = self.name, labels = self.labels, diagonalFlag = self.diagonalFlag, tensorLikeFlag = True)
+            return Tensor(data = None, degreeOfFreedom = self.degreeOfFreedom, shape = self.shape, name = self.name, labels = self.labels, diagonalFlag = self.diagonalFlag, tensorLikeFlag = True, dtype = self.dtype)
     
     def copyN(self, n):
         """
-- 
2.43.0


From 89061f3792d281426b33749ad87e88af3162d53f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:58 +0000
Subject: [PATCH 06/49] fix: outer product of diagonal tensors dropped
 off-diagonal blocks and imaginary parts

---
 src/CTL/tensor/contract/contract.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/CTL/tensor/contract/contract.py b/src/CTL/tensor/contract/contract.py
index ed0be84..4a84164 100644
--- a/src/CTL/tensor/contract/contract.py
+++ b/src/CTL/tensor/contract/contract.py
@@ -77,19 +77,18 @@ def contractTwoTensors(ta, tb, bonds = None, outProductWarning = True):
         shape = ta.shape + tb.shape
         legs = ta.legs + tb.legs
 
-        if (ta.diagonalFlag and tb.diagonalFlag):
+        if (ta.diagonalFlag and tb.diagonalFlag) and ((ta.dim == 0) or (tb.dim == 0)):
+            # a scalar times a diagonal tensor is still diagonal
             if (tensorLikeContract):
                 return DiagonalTensor(labels = labels, data = None, shape = shape, legs = legs, tensorLikeFlag = True)
             else:
                 return DiagonalTensor(labels = labels, data = ta.a * tb.a, shape = shape, legs = legs)
         elif (ta.diagonalFlag):
+            # the outer product of a diagonal tensor and another tensor is not diagonal
             if (tensorLikeContract):
                 return Tensor(labels = labels, data = None, shape = shape, legs = legs, tensorLikeFlag = True)
             else:
-                data = xplib.xp.zeros(shape, dtype = ta.a.dtype)
-                einsumStr = ('j' * ta.dim) + '...->j...'
-                outerData = xplib.xp.multiply.outer(ta.a, tb.a)
-                xplib.xp.einsum(einsumStr, data)[...] = outerData
+                data = xplib.xp.multiply.outer(ta.toTensor(), tb.toTensor())
             return Tensor(labels = labels, data = data, shape = shape, legs = legs)
         else:
             if (tensorLikeContract):
-- 
2.43.0


From 5add7bdd8a48f163dd7b77e8bb10940db66297ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:58 +0000
Subject: [PATCH 07/49] fix: contracting over explicitly given bonds depended
 on the direction of the bonds

---
 src/CTL/tensor/contract/contract.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/CTL/tensor/contract/contract.py b/src/CTL/tensor/contract/contract.py
index 4a84164..6da3a01 100644
--- a/src/CTL/tensor/contract/contract.py
+++ b/src/CTL/tensor/contract/contract.py
@@ -103,8 +103,8 @@ def contractTwoTensors(ta, tb, bonds = None, outProductWarning = True):
 
         # return Tensor(labels = labels, data = data, legs = legs)
 
-    contractALegs = [bond.legs[0] for bond in bonds]
-    contractBLegs = [bond.legs[1] for bond in bonds]
+    contractALegs = [bond.sideLeg(ta) for bond in bonds]
+    contractBLegs = [bond.anotherSide(leg) for bond, leg in zip(bonds, contractALegs)]
 
     taRemainLegs = ta.complementLegs(contractALegs)
     tbRemainLegs = tb.complementLegs(contractBLegs)
-- 
2.43.0


From a9d912efd2f3366eeece74fa0bf6e7fbd687196d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:21 +0000
Subject: [PATCH 08/49] fix: TensorGraph.optimalCostResult failed before a
 sequence was generated

---
 src/CTL/tensor/contract/tensorGraph.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/CTL/tensor/contract/tensorGraph.py b/src/CTL/tensor/contract/tensorGraph.py
index e061362..a62d3e9 100644
--- a/src/CTL/tensor/contract/tensorGraph.py
+++ b/src/CTL/tensor/contract/tensorGraph.py
@@ -42,6 +42,7 @@ class TensorGraph(UndirectedGraph):
     def __init__(self, n, diagonalFlags = None):
         super().__init__(n)
         self.indexed = False
+        self.optimalCost = None
         if (diagonalFlags is None):
             self.diagonalFlags = [False] * n
         else:
-- 
2.43.0


From a013e4aa95ecb975dd3ac9a2419670fac123e7ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:21 +0000
Subject: [PATCH 09/49] fix: edges added to a tensor graph after it was indexed
 were not indexed

---
 src/CTL/tensor/contract/tensorGraph.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/CTL/tensor/contract/tensorGraph.py b/src/CTL/tensor/contract/tensorGraph.py
index a62d3e9..525328b 100644
--- a/src/CTL/tensor/contract/tensorGraph.py
+++ b/src/CTL/tensor/contract/tensorGraph.py
@@ -60,13 +60,12 @@ class TensorGraph(UndirectedGraph):
             If int, then added to the added edge as weight, used for cost calculation.
         """
         self.v[idx].addEdge(None, weight = weight)
+        self.updated = True
 
     def addEdgeIndex(self):
         """
         Add an index to each edge.
         """
-        if (self.indexed):
-            return
         edges = self.getEdges()
         m = len(edges)
         for i in range(m):
-- 
2.43.0


From 92d505935f584b2c10c294476d3679ff638b9122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:21 +0000
Subject: [PATCH 10/49] fix: contracting some of the tensors of a larger
 network failed (outgoing bonds are free edges)

---
 src/CTL/tensor/contract/optimalContract.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/CTL/tensor/contract/optimalContract.py b/src/CTL/tensor/contract/optimalContract.py
index 68d74f8..2de9c97 100644
--- a/src/CTL/tensor/contract/optimalContract.py
+++ b/src/CTL/tensor/contract/optimalContract.py
@@ -119,7 +119,8 @@ def makeTensorGraph(tensorList):
         idxDict[tensorList[i]] = i
     for i in range(n):
         for leg in tensorList[i].legs:
-            if (leg.bond is None):
+            if (leg.bond is None) or (leg.anotherSide().tensor not in idxDict):
+                # free, or linked to a tensor which is not in the list
                 g.addFreeEdge(i, leg.dim)
             else:
                 bond = leg.bond 
-- 
2.43.0


From ac976bc3efac9237fd6fd5bdaeae4646017f3694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:21 +0000
Subject: [PATCH 11/49] fix: copyTensorList with linkOutgoingBonds left legs
 without a bond attribute

---
 src/CTL/tensor/contract/optimalContract.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CTL/tensor/contract/optimalContract.py b/src/CTL/tensor/contract/optimalContract.py
index 2de9c97..2b2f55a 100644
--- a/src/CTL/tensor/contract/optimalContract.py
+++ b/src/CTL/tensor/contract/optimalContract.py
@@ -46,7 +46,7 @@ def copyTensorList(tensorList, tensorLikeFlag = False, linkOutgoingBonds = False
 
                 if (leg2.tensor not in tensorList):
                     if (linkOutgoingBonds):
-                        del leg.bond 
+                        leg.bond = None
                         makeLink(newLeg1, leg2)
                     continue
 
-- 
2.43.0


From 1c8f1a8eb3734b8f785d67e7a83b421f9ddb4938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:23 +0000
Subject: [PATCH 12/49] fix: contraction sequences of networks with outer
 products of diagonal tensors (wrong cost, or no result at all)

---
 src/CTL/tensor/contract/optimalContract.py |  7 ++--
 src/CTL/tensor/contract/tensorGraph.py     | 48 ++++++++++++++++++----
 2 files changed, 44 insertions(+), 11 deletions(-)

diff --git a/src/CTL/tensor/contract/optimalContract.py b/src/CTL/tensor/contract/optimalContract.py
index 2b2f55a..187e636 100644
--- a/src/CTL/tensor/contract/optimalContract.py
+++ b/src/CTL/tensor/contract/optimalContract.py
@@ -76,12 +76,13 @@ def contractCost(ta, tb):
         The order of the cost(how many dimensions). This is used when we want to decide the order of our calculation to a given bond dimension chi.
     """
     diagonalA, diagonalB = ta.diagonalFlag, tb.diagonalFlag 
-    if (diagonalA and diagonalB):
-        return ta.bondDimension(), 1
+    bonds = shareBonds(ta, tb)
+    if (diagonalA and diagonalB) and ((len(bonds) > 0) or (ta.dim == 0) or (tb.dim == 0)):
+        # the result is diagonal
+        return max(ta.bondDimension(), tb.bondDimension()), 1
 
     diagonal = diagonalA or diagonalB
     
-    bonds = shareBonds(ta, tb)
     intersectionShape = tuple([bond.legs[0].dim for bond in bonds])
     if (not diagonal):
         cost = funcs.tupleProduct(ta.shape) * funcs.tupleProduct(tb.shape) // funcs.tupleProduct(intersectionShape)
diff --git a/src/CTL/tensor/contract/tensorGraph.py b/src/CTL/tensor/contract/tensorGraph.py
index 525328b..63832d7 100644
--- a/src/CTL/tensor/contract/tensorGraph.py
+++ b/src/CTL/tensor/contract/tensorGraph.py
@@ -153,6 +153,9 @@ class TensorGraph(UndirectedGraph):
 
         n = len(self.v)
 
+        def isConnected(mask, i):
+            return any([((mask >> j) & 1) and (len(funcs.commonElements(edges[i], edges[j])) > 0) for j in range(n)])
+
         if (not greedy):
             self.optimalCost = [None] * (1 << n)
             self.optimalSeq = [None] * (1 << n)
@@ -170,6 +173,26 @@ class TensorGraph(UndirectedGraph):
             for i in range(n):
                 self.contractRes[i] = (edges[i], shapes[i], self.diagonalFlags[i])
 
+        # connected components of the graph, as bit-masks of tensors
+        components = []
+        for i in range(n):
+            mask = (1 << i)
+            rest = []
+            for other in components:
+                if (isConnected(other, i)):
+                    mask |= other
+                else:
+                    rest.append(other)
+            components = rest + [mask]
+
+        def isClosed(x):
+            # whether the set of tensors only contains complete connected components
+            return all([(x & c) in (0, c) for c in components])
+
+        def isDiagonalResult(tsA, tsB):
+            # the product of two diagonal tensors is diagonal only if they share a bond, or if one of them is a scalar
+            return tsA[2] and tsB[2] and (isSharingBond(tsA, tsB) or (len(tsA[0]) == 0) or (len(tsB[0]) == 0))
+
         def getCost(tsA, tsB):
             # to deal with diagonal tensors:
             # what if we contract two diagonal tensors?
@@ -178,9 +201,9 @@ class TensorGraph(UndirectedGraph):
             edgesA, shapeA, diagonalA = self.contractRes[tsA]
             edgesB, shapeB, diagonalB = self.contractRes[tsB]
 
-            if (diagonalA and diagonalB):
+            if (isDiagonalResult(self.contractRes[tsA], self.contractRes[tsB])):
                 # both diagonal, only need to product
-                return shapeA[0]
+                return max(shapeA + shapeB + [1])
             
             diagonal = diagonalA or diagonalB
 
@@ -200,7 +223,7 @@ class TensorGraph(UndirectedGraph):
             edgesA, _, diagonalA = self.contractRes[tsA]
             edgesB, _, diagonalB = self.contractRes[tsB]
 
-            if (diagonalA and diagonalB):
+            if (isDiagonalResult(self.contractRes[tsA], self.contractRes[tsB])):
                 costOrder = 1
             else:
                 clb = set(funcs.commonElements(edgesA, edgesB))
@@ -221,8 +244,10 @@ class TensorGraph(UndirectedGraph):
             commonEdges = funcs.commonElements(edgesA, edgesB)
             return len(commonEdges) > 0
         
-        def isDiagonalOuterProduct(tsA, tsB):
-            return tsA[2] and tsB[2] and (not isSharingBond(tsA, tsB))
+        def isDiagonalOuterProduct(x, y):
+            # an outer product of diagonal tensors is not diagonal, so only do it when nothing else is left: both sets have no bond going out
+            tsA, tsB = self.contractRes[x], self.contractRes[y]
+            return tsA[2] and tsB[2] and (not isDiagonalResult(tsA, tsB)) and (not (isClosed(x) and isClosed(y)))
 
         def calculateContractRes(tsA, tsB):
             if (isinstance(tsA, int)):
@@ -242,7 +267,7 @@ class TensorGraph(UndirectedGraph):
             for l, s in zip(edgesA + edgesB, shapeA + shapeB):
                 if (l in edgeIndex):
                     shape[edgeIndex[l]] = s
-            return (edges, shape, diagonalA and diagonalB)
+            return (edges, shape, isDiagonalResult(tsA, tsB))
 
         def getSize(tsA, tsB):
             '''
@@ -273,6 +298,9 @@ class TensorGraph(UndirectedGraph):
                     solveSet(tsA)
                 if (self.optimalCost[tsB] is None):
                     solveSet(tsB)
+                if (self.optimalCost[tsA] == float('inf')) or (self.optimalCost[tsB] == float('inf')) or (isDiagonalOuterProduct(tsA, tsB)):
+                    # diagonal outer product is banned
+                    continue
                 if (self.contractRes[x] is None):
                     self.contractRes[x] = calculateContractRes(tsA, tsB)
                 
@@ -283,6 +311,10 @@ class TensorGraph(UndirectedGraph):
                     minTSA = tsA
                     minTSB = tsB
 
+            if (minCost is None):
+                # only possible with banned contractions
+                self.optimalCost[x] = float('inf')
+                return
             self.optimalCost[x] = minCost
             self.optimalSeq[x] = self.optimalSeq[minTSA] + self.optimalSeq[minTSB] + [(lowbitI(minTSA), lowbitI(minTSB))]
 
@@ -323,7 +355,7 @@ class TensorGraph(UndirectedGraph):
             obj_n = (1 << n)
             new_flag = [True] * obj_n 
             if (typicalDim is None):
-                chi_min = min([min(x) for x in shapes])
+                chi_min = min([dim for shape in shapes for dim in shape], default = 2)
             else:
                 chi_min = typicalDim
             # mu_cap = 1
@@ -372,7 +404,7 @@ class TensorGraph(UndirectedGraph):
                             #print('t1 = {}, t2 = {}'.format(t1, t2))
                             if ((t1 & t2) != 0):
                                 continue 
-                            if (isDiagonalOuterProduct(self.contractRes[t1], self.contractRes[t2])):
+                            if (isDiagonalOuterProduct(t1, t2)):
                                 # diagonal outer product is banned
                                 continue
                             tt = t1 | t2
-- 
2.43.0


From 39dde08eb93215a4534e2a9990dc9d5a4a74041e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:23 +0000
Subject: [PATCH 13/49] fix: greedy contraction sequence failed on disconnected
 networks

---
 src/CTL/tensor/contract/tensorGraph.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/CTL/tensor/contract/tensorGraph.py b/src/CTL/tensor/contract/tensorGraph.py
index 63832d7..425fe48 100644
--- a/src/CTL/tensor/contract/tensorGraph.py
+++ b/src/CTL/tensor/contract/tensorGraph.py
@@ -343,6 +343,14 @@ class TensorGraph(UndirectedGraph):
                         minSize = newSize 
                         minTSA, minTSB = tsA, tsB 
 
+                if (minSize == -1):
+                    # nothing is linked any more: outer product
+                    for tsA, tsB in funcs.pairIterator(tensorSet):
+                        newSize = getSize(tsA, tsB)
+                        if (minSize == -1) or (newSize < minSize):
+                            minSize = newSize
+                            minTSA, minTSB = tsA, tsB
+
                 tsA, tsB = minTSA, minTSB
                 self.greedySeq.append((tsA, tsB))
                 self.greedyCost += costFunc(tsA, tsB)
-- 
2.43.0


From effc46769aeed46e87d73693e6839b645187d765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:37 +0000
Subject: [PATCH 14/49] fix: moveLegsToFront with the tensor's own list of legs
 corrupted the tensor

---
 src/CTL/tensor/diagonalTensor.py | 2 +-
 src/CTL/tensor/tensor.py         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/CTL/tensor/diagonalTensor.py b/src/CTL/tensor/diagonalTensor.py
index 1f40cb7..3afea13 100644
--- a/src/CTL/tensor/diagonalTensor.py
+++ b/src/CTL/tensor/diagonalTensor.py
@@ -498,7 +498,7 @@ class DiagonalTensor(Tensor):
         moveFrom = []
         moveTo = []
         currIdx = 0
-        movedLegs = legs
+        movedLegs = list(legs)
         for currLeg in legs:
             for i, leg in enumerate(self.legs):
                 if (leg == currLeg):
diff --git a/src/CTL/tensor/tensor.py b/src/CTL/tensor/tensor.py
index ad354e1..9a074bc 100644
--- a/src/CTL/tensor/tensor.py
+++ b/src/CTL/tensor/tensor.py
@@ -561,7 +561,7 @@ class Tensor(TensorBase):
         moveFrom = []
         moveTo = []
         currIdx = 0
-        movedLegs = legs
+        movedLegs = list(legs)
         for currLeg in legs:
             for i, leg in enumerate(self.legs):
                 if (leg == currLeg):
-- 
2.43.0


From 5fa4014f5fb7cf7b099a3c41868edc973a2661d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:37 +0000
Subject: [PATCH 15/49] fix: toMatrix failed for an empty list of rows or cols

---
 src/CTL/tensor/diagonalTensor.py | 4 ++--
 src/CTL/tensor/tensor.py         | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/CTL/tensor/diagonalTensor.py b/src/CTL/tensor/diagonalTensor.py
index 3afea13..022cfbe 100644
--- a/src/CTL/tensor/diagonalTensor.py
+++ b/src/CTL/tensor/diagonalTensor.py
@@ -562,9 +562,9 @@ class DiagonalTensor(Tensor):
         # input two set of legs
         funcs.deprecatedFuncWarning(funcName = "DiagonalTensor.toMatrix", deprecateMessage = "Diagonal tensors should be used in a better way for linear algebra calculation rather than be made into a matrix.")
         assert not ((rows is None) and (cols is None)), "Error in Tensor.toMatrix: toMatrix must have at least row or col exist."
-        if (rows is not None) and (isinstance(rows[0], str)):
+        if (rows is not None) and (len(rows) > 0) and (isinstance(rows[0], str)):
             rows = [self.getLeg(label) for label in rows]
-        if (cols is not None) and (isinstance(cols[0], str)):
+        if (cols is not None) and (len(cols) > 0) and (isinstance(cols[0], str)):
             cols = [self.getLeg(label) for label in cols]
         if (cols is None):
             cols = funcs.listDifference(self.legs, rows)
diff --git a/src/CTL/tensor/tensor.py b/src/CTL/tensor/tensor.py
index 9a074bc..5fd67bb 100644
--- a/src/CTL/tensor/tensor.py
+++ b/src/CTL/tensor/tensor.py
@@ -615,9 +615,9 @@ class Tensor(TensorBase):
         # input two set of legs
         assert (not self.tensorLikeFlag), funcs.errorMessage('TensorLike cannot be transferred to matrix since no data contained.', 'Tensor.toMatrix')
         assert not ((rows is None) and (cols is None)), "Error in Tensor.toMatrix: toMatrix must have at least row or col exist."
-        if (rows is not None) and (isinstance(rows[0], str)):
+        if (rows is not None) and (len(rows) > 0) and (isinstance(rows[0], str)):
             rows = [self.getLeg(label) for label in rows]
-        if (cols is not None) and (isinstance(cols[0], str)):
+        if (cols is not None) and (len(cols) > 0) and (isinstance(cols[0], str)):
             cols = [self.getLeg(label) for label in cols]
         if (cols is None):
             cols = funcs.listDifference(self.legs, rows)
-- 
2.43.0


From 4f64d8ed7ebb06660496f75d70a452e023cbf1cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:37 +0000
Subject: [PATCH 16/49] fix: mergeLink with a pair of names on a single bond
 gave both legs the pair as name

---
 src/CTL/tensor/contract/link.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/CTL/tensor/contract/link.py b/src/CTL/tensor/contract/link.py
index bed7c6d..befc5da 100644
--- a/src/CTL/tensor/contract/link.py
+++ b/src/CTL/tensor/contract/link.py
@@ -94,8 +94,13 @@ def mergeLink(ta, tb, bondName = None, renameWarning = True):
         if (renameWarning):
             warnings.warn(funcs.warningMessage(warn = 'mergeLink cannot merge links between two tensors {} and {} sharing one bond, only rename'.format(ta, tb), location = funcName), RuntimeWarning)
         if (bondName is not None):
-            mergeLegA[0].name = bondName 
-            mergeLegB[0].name = bondName
+            if (isinstance(bondName, str)):
+                bondNameA = bondName
+                bondNameB = bondName
+            else:
+                bondNameA, bondNameB = bondName # tuple/list
+            mergeLegA[0].name = bondNameA
+            mergeLegB[0].name = bondNameB
         return ta, tb
 
     # otherwise, we need to do outProduct, and then merge
-- 
2.43.0


From a57f3db3f648d957661c13f185fe119b5461c239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:25 +0000
Subject: [PATCH 17/49] fix: tensorSVDDecomposition did not deduce rows from
 cols (or cols from rows) as documented

---
 src/CTL/tensor/tensorFunc.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/CTL/tensor/tensorFunc.py b/src/CTL/tensor/tensorFunc.py
index 335cfac..84350da 100644
--- a/src/CTL/tensor/tensorFunc.py
+++ b/src/CTL/tensor/tensorFunc.py
@@ -74,6 +74,10 @@ def tensorSVDDecomposition(a, rows = None, cols = None, innerLabels = None, pres
     funcName = "CTL.tensor.tensorFuncs.tensorSVDDecomposition"
     aMat = a.toMatrix(rows = rows, cols = cols)
     # print('aMat = {}'.format(aMat))
+    if (rows is None):
+        rows = funcs.listDifference(a.labels, cols)
+    if (cols is None):
+        cols = funcs.listDifference(a.labels, rows)
     rowName = '|'.join(rows)
     colName = '|'.join(cols)
 
-- 
2.43.0


From 926f589586b6a9fc2ccffd382e68d02fc593cced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:25 +0000
Subject: [PATCH 18/49] fix: solveEnv kept every vector, whatever chi, when no
 eigenvalue is above the threshold

---
 src/CTL/funcs/linalg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CTL/funcs/linalg.py b/src/CTL/funcs/linalg.py
index 62d6ca3..26fa05d 100644
--- a/src/CTL/funcs/linalg.py
+++ b/src/CTL/funcs/linalg.py
@@ -26,5 +26,5 @@ def solveEnv(aMat, chi, threshold = 1e-10):
     # if (chi > eigenVectorsEnv.shape[1]):
     #     return eigenVectorsEnv, 0.0
     # else:
-    return xplib.xp.flip(eigenVectorsEnv[:, -chi:], axis = 1), error
+    return xplib.xp.flip(eigenVectorsEnv[:, (eigenVectorsEnv.shape[1] - chi):], axis = 1), error
     # return eigenVectorsEnv[:, -chi:]
\ No newline at end of file
-- 
2.43.0


From 6b81003ea508ad139ba09c619b1cb3b3a988beb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:51 +0000
Subject: [PATCH 19/49] fix: finite tensor networks created without names
 shared one list of tensor names

---
 src/CTL/tensornetwork/tensornetwork.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CTL/tensornetwork/tensornetwork.py b/src/CTL/tensornetwork/tensornetwork.py
index eb83d2a..97f8048 100644
--- a/src/CTL/tensornetwork/tensornetwork.py
+++ b/src/CTL/tensornetwork/tensornetwork.py
@@ -8,7 +8,7 @@ class FiniteTensorNetwork:
     # provide a function api FiniteTensorNetwork.contract(tensorDict)
 
     def __init__(self, tensorNames = [], realCost = True, typicalDim = 10):
-        self.tensorNames = tensorNames
+        self.tensorNames = list(tensorNames)
         self.optimalSeq = None 
         self.realCost = realCost 
         self.links = []
-- 
2.43.0


From d8aad7285813f4cb7a9ab44a0696164587f9098b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:51 +0000
Subject: [PATCH 20/49] fix: a finite tensor network edited after a contraction
 reused the sequence of the old network

---
 src/CTL/tensornetwork/tensornetwork.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/CTL/tensornetwork/tensornetwork.py b/src/CTL/tensornetwork/tensornetwork.py
index 97f8048..4721e13 100644
--- a/src/CTL/tensornetwork/tensornetwork.py
+++ b/src/CTL/tensornetwork/tensornetwork.py
@@ -39,11 +39,13 @@ class FiniteTensorNetwork:
         # assert (not self.locked), "Error: adding tensor {} to a FTN which is locked.".format(name)
         self.checkLock('adding tensor {}'.format(name))
         self.tensorNames.append(name)
+        self.optimalSeq = None
     def removeTensor(self, name):
         # assert (not self.locked), "Error: removing tensor {} to a FTN which is locked.".format(name)
         self.checkLock('removing tensor {}'.format(name))
         assert (name in self.tensorNames), "Error: removing tensor {} to a FTN which do not contain it.".format(name)
         self.tensorNames.remove(name)
+        self.optimalSeq = None
 
     def lock(self):
         self.locked = True 
@@ -54,6 +56,7 @@ class FiniteTensorNetwork:
         # assert (not self.locked), "Error: adding link ({}, {}) to a FTN which is locked.".format((aName, aLeg), (bName, bLeg))
         self.checkLock('adding link ({}, {})'.format((aName, aLeg), (bName, bLeg)))
         self.links.append(((aName, aName + '-' + aLeg), (bName, bName + '-' + bLeg)))
+        self.optimalSeq = None
 
     def addPreNameChange(self, name, legName, newName):
         self.checkLock('add pre name change for tensor {}: from {} to {}'.format(name, legName, newName))
-- 
2.43.0


From 5d157f0fee442152c7ad74a32c957a6b38d5eeab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:51 +0000
Subject: [PATCH 21/49] fix: adding and removing names changed the length of
 generated names (down to no name at all)

---
 src/CTL/funcs/stringSet.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/CTL/funcs/stringSet.py b/src/CTL/funcs/stringSet.py
index e219d29..d4f6e7a 100644
--- a/src/CTL/funcs/stringSet.py
+++ b/src/CTL/funcs/stringSet.py
@@ -66,7 +66,6 @@ class StringSet:
         """
         assert not (s in self.stringSet), funcs.errorMessage(err = "Error: name '{}' is already used.".format(s), location = "StringSet.add")
         self.stringSet.add(s)
-        self.n += 1
 
     def remove(self, s):
         """
@@ -84,7 +83,6 @@ class StringSet:
         """
         assert (s in self.stringSet), funcs.errorMessage(err = "Error: name '{}' is not used.".format(s), location = "StringSet.remove")
         self.stringSet.remove(s)
-        self.n -= 1
 
     def contains(self, s):
         """
-- 
2.43.0


From b5ee4f263cf988a8d8c859363386491e07cb86ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:57 +0000
Subject: [PATCH 22/49] fix: antiferromagnetic Ising edges gave NaN tensors

---
 src/CTL/models/Ising.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/CTL/models/Ising.py b/src/CTL/models/Ising.py
index 0e0344d..06b2865 100644
--- a/src/CTL/models/Ising.py
+++ b/src/CTL/models/Ising.py
@@ -174,8 +174,12 @@ def IsingEdgeMatrix(betaJ):
     ndarray of (2, 2)
         The local edge tensor for one site (diagonal) tensor to absorb.
     """
-    diag = xplib.xp.sqrt(xplib.xp.cosh(betaJ) * 0.5) + xplib.xp.sqrt(xplib.xp.sinh(betaJ) * 0.5)
-    offDiag = xplib.xp.sqrt(xplib.xp.cosh(betaJ) * 0.5) - xplib.xp.sqrt(xplib.xp.sinh(betaJ) * 0.5)
+    sinhPart = xplib.xp.sinh(betaJ) * 0.5
+    if (sinhPart < 0):
+        # antiferromagnetic: no real square root
+        sinhPart = sinhPart + 0.0j
+    diag = xplib.xp.sqrt(xplib.xp.cosh(betaJ) * 0.5) + xplib.xp.sqrt(sinhPart)
+    offDiag = xplib.xp.sqrt(xplib.xp.cosh(betaJ) * 0.5) - xplib.xp.sqrt(sinhPart)
     return xplib.xp.array([[diag, offDiag], [offDiag, diag]])
 
 def IsingSiteTensor(betaJ, dim = 4, labels = None):
-- 
2.43.0


From 33affa244457e85d3972e278a5338ba36e501309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:57 +0000
Subject: [PATCH 23/49] fix: Ising tensor networks of graphs with isolated
 vertices failed

---
 src/CTL/models/Ising.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/CTL/models/Ising.py b/src/CTL/models/Ising.py
index 06b2865..d8bfdd7 100644
--- a/src/CTL/models/Ising.py
+++ b/src/CTL/models/Ising.py
@@ -204,6 +204,9 @@ def IsingSiteTensor(betaJ, dim = 4, labels = None):
     assert ((labels is None) or (len(labels) == dim)), funcs.errorMessage("labels {} do not have required dim {}.".format(labels, dim))
 
     a = xplib.xp.array([1.0, 1.0])
+    if (dim == 0):
+        # isolated site
+        return Tensor(data = xplib.xp.array(xplib.xp.sum(a)), labels = labels)
     a = funcs.diagonalNDTensor(a, dim = dim)
     if (funcs.isRealNumber(betaJ)):
         betaJ = [betaJ] * dim
-- 
2.43.0


From 0cfb948820ae0617d8843a6d6da2ac7adc437d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:57 +0000
Subject: [PATCH 24/49] fix: lattice and Ising weights given as numpy numbers
 (or as int, for plaquettes) were rejected

---
 src/CTL/funcs/funcs.py  | 3 ++-
 src/CTL/models/Ising.py | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/CTL/funcs/funcs.py b/src/CTL/funcs/funcs.py
index d703a62..2481496 100644
--- a/src/CTL/funcs/funcs.py
+++ b/src/CTL/funcs/funcs.py
@@ -1,4 +1,5 @@
 from collections import Counter
+import numbers
 # import numpy as np 
 import CTL.funcs.xplib as xplib
 import string
@@ -1240,7 +1241,7 @@ def isRealNumber(a):
     bool
         Whether a is a number(int, float) or not.
     """
-    return (type(a) == int) or (type(a) == float)
+    return isinstance(a, numbers.Real) and (not isinstance(a, bool))
 
 def pairIterator(a):
     """
diff --git a/src/CTL/models/Ising.py b/src/CTL/models/Ising.py
index d8bfdd7..1cc65ad 100644
--- a/src/CTL/models/Ising.py
+++ b/src/CTL/models/Ising.py
@@ -112,7 +112,7 @@ def plaquetteIsingTensor(weight, diamondForm = False):
     """
 
     funcName = 'CTL.models.Ising.plaquetteIsingTensor'
-    if isinstance(weight, float):
+    if funcs.isRealNumber(weight):
         weight = [weight, weight]
     else:
         assert len(weight) == 2, funcs.errorMessage('Only float or (float, float) is accepted by {}, {} obtained.'.format(funcName, weight), location = funcName)
-- 
2.43.0


From cbfd4dca3f2f2734917e662de62bf97adc260e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:09 +0000
Subject: [PATCH 25/49] fix: Ising tensor networks of graphs with self-loops
 (periodic lattices of width 1) were not contractible

---
 src/CTL/models/Ising.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/CTL/models/Ising.py b/src/CTL/models/Ising.py
index 1cc65ad..be98243 100644
--- a/src/CTL/models/Ising.py
+++ b/src/CTL/models/Ising.py
@@ -242,16 +242,24 @@ def IsingTNFromUndirectedGraph(g):
     
     def getLegName(edge, toV):
         return str(toV.index) + '-' + str(edgeIndex[edge])
+    def isLoop(edge):
+        return edge.vertices[0] is edge.vertices[1]
+    def getLinkEdges(v):
+        return [e for e in v.edges if not isLoop(e)]
     def getLabels(v):
-        return [getLegName(edge = e, toV = e.anotherSide(v)) for e in v.edges]
+        return [getLegName(edge = e, toV = e.anotherSide(v)) for e in getLinkEdges(v)]
     def getWeights(v):
-        return [e.weight for e in v.edges]
+        return [e.weight for e in getLinkEdges(v)]
 
-    tensors = [IsingSiteTensor(betaJ = getWeights(v), dim = len(v.edges), labels = getLabels(v)) for v in nodes]
+    tensors = [IsingSiteTensor(betaJ = getWeights(v), dim = len(getLinkEdges(v)), labels = getLabels(v)) for v in nodes]
 
     for ei, edge in enumerate(g.getEdges()):
         v1, v2 = edge.vertices 
         idx1, idx2 = v1.index, v2.index 
+        if (isLoop(edge)):
+            # a spin is always equal to itself: constant factor
+            tensors[idx1].a = tensors[idx1].a * xplib.xp.exp(edge.weight)
+            continue
         makeLink(getLegName(edge = edge, toV = v2), getLegName(edge = edge, toV = v1), tensors[idx1], tensors[idx2])
 
     return tensors
-- 
2.43.0


From bde529815fcb22118eb8ed118ad50339f81d00ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:27 +0000
Subject: [PATCH 26/49] fix: loadData used the removed numpy.float

---
 src/CTL/funcs/funcs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CTL/funcs/funcs.py b/src/CTL/funcs/funcs.py
index 2481496..4e99f63 100644
--- a/src/CTL/funcs/funcs.py
+++ b/src/CTL/funcs/funcs.py
@@ -307,7 +307,7 @@ def loadData(fileName):
         A 2-d array of the file, columns and rows as two dimensions.
     """
     f = open(fileName, 'r')
-    data = xplib.xp.array([xplib.xp.array([xplib.xp.float(x) for x in line.strip().split(' ')]) for line in f])
+    data = xplib.xp.array([xplib.xp.array([float(x) for x in line.strip().split(' ')]) for line in f])
     return data
 
 def randomString(n = 10):
-- 
2.43.0


From 980103b3455bfdd01e7e6fad8d51a3fcb50dc0d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:27 +0000
Subject: [PATCH 27/49] fix: floatRelativeEqual was never true for negative
 numbers

---
 src/CTL/funcs/funcs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CTL/funcs/funcs.py b/src/CTL/funcs/funcs.py
index 4e99f63..42532fc 100644
--- a/src/CTL/funcs/funcs.py
+++ b/src/CTL/funcs/funcs.py
@@ -973,7 +973,7 @@ def floatRelativeEqual(a, b, eps = 1e-7):
     bool
         Whether the two numbers are equal.
     """
-    return abs(a - b) < eps * 0.5 * (a + b)
+    return abs(a - b) <= eps * 0.5 * (abs(a) + abs(b))
 
 def floatArrayEqual(a, b, eps = 1e-7):
     """
-- 
2.43.0


From 50738cb83723a4e19cda98ae792020d2e8fb5b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:27 +0000
Subject: [PATCH 28/49] fix: one-dimensional eye tensor only had its first
 element set

---
 src/CTL/funcs/funcs.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/CTL/funcs/funcs.py b/src/CTL/funcs/funcs.py
index 42532fc..8be6bee 100644
--- a/src/CTL/funcs/funcs.py
+++ b/src/CTL/funcs/funcs.py
@@ -1144,10 +1144,7 @@ def ndEye(n, l):
         A tensor of shape (l, l, ... l), all values on the main diagonal is 1.
     """
     res = xplib.xp.zeros(tuple([l] * n))
-    if (n == 1):
-        res[0] = 1.0
-    else:
-        res[xplib.xp.diag_indices(l, n)] = 1
+    res[xplib.xp.diag_indices(l, n)] = 1
     return res
 
 def nonZeroElementN(s, eps = 1e-10):
-- 
2.43.0


From bf75b382d7c7e7a98fbdfbce1246b1cac9f7c0eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:42 +0000
Subject: [PATCH 29/49] fix: truncating the bond of tensors with a vanishing
 product gave a bond of dimension 0, which cannot be contracted

---
 src/CTL/tensor/contract/contract.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CTL/tensor/contract/contract.py b/src/CTL/tensor/contract/contract.py
index 6da3a01..a6c1cc2 100644
--- a/src/CTL/tensor/contract/contract.py
+++ b/src/CTL/tensor/contract/contract.py
@@ -252,7 +252,7 @@ def merge(ta, tb, chi = None, bondName = None, renameWarning = True):
 
         u, s, vh = xplib.xp.linalg.svd(mat)
 
-        chi = min([chi, funcs.nonZeroElementN(s), matA.shape[0], matB.shape[1]])
+        chi = min([chi, max(funcs.nonZeroElementN(s), 1), matA.shape[0], matB.shape[1]])
         u = u[:, :chi]
         s = s[:chi]
         vh = vh[:chi]
-- 
2.43.0


From 9257baf444ffff7f60fff5980e5020fb79199538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:04 +0000
Subject: [PATCH 30/49] fix: truncation in merge dropped singular values by
 their absolute size, whatever the scale of the tensors

---
 src/CTL/tensor/contract/contract.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/CTL/tensor/contract/contract.py b/src/CTL/tensor/contract/contract.py
index a6c1cc2..3bf1e2e 100644
--- a/src/CTL/tensor/contract/contract.py
+++ b/src/CTL/tensor/contract/contract.py
@@ -252,7 +252,8 @@ def merge(ta, tb, chi = None, bondName = None, renameWarning = True):
 
         u, s, vh = xplib.xp.linalg.svd(mat)
 
-        chi = min([chi, max(funcs.nonZeroElementN(s), 1), matA.shape[0], matB.shape[1]])
+        # the threshold is relative: what is negligible depends on the scale of the product
+        chi = min([chi, max(funcs.nonZeroElementN(s, eps = 1e-10 * s[0]), 1), matA.shape[0], matB.shape[1]])
         u = u[:, :chi]
         s = s[:chi]
         vh = vh[:chi]
-- 
2.43.0


From f3ee1bee8bf142aee6ece6907db66834eee26266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:35 +0000
Subject: [PATCH 31/49] fix: refused moves and combinations of legs lost the
 legs listed before the offending one

---
 src/CTL/tensor/diagonalTensor.py | 6 ++++--
 src/CTL/tensor/tensor.py         | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/CTL/tensor/diagonalTensor.py b/src/CTL/tensor/diagonalTensor.py
index 022cfbe..f81fe62 100644
--- a/src/CTL/tensor/diagonalTensor.py
+++ b/src/CTL/tensor/diagonalTensor.py
@@ -507,13 +507,15 @@ class DiagonalTensor(Tensor):
                     currIdx += 1
                     break
 
+        # if any of the legs is not in the tensor: raise before anything is changed
+        remainLegs = list(self.legs)
         for leg in movedLegs:
-            self.legs.remove(leg)
+            remainLegs.remove(leg)
         
         # print(moveFrom, moveTo)
         # print(labelList)
         # print(self.labels)
-        self.legs = movedLegs + self.legs 
+        self.legs = movedLegs + remainLegs 
         # self.a = xplib.xp.moveaxis(self.a, moveFrom, moveTo)
 
     def toVector(self):
diff --git a/src/CTL/tensor/tensor.py b/src/CTL/tensor/tensor.py
index 5fd67bb..36f0f42 100644
--- a/src/CTL/tensor/tensor.py
+++ b/src/CTL/tensor/tensor.py
@@ -570,13 +570,15 @@ class Tensor(TensorBase):
                     currIdx += 1
                     break
 
+        # if any of the legs is not in the tensor: raise before anything is changed
+        remainLegs = list(self.legs)
         for leg in movedLegs:
-            self.legs.remove(leg)
+            remainLegs.remove(leg)
         
         # print(moveFrom, moveTo)
         # print(labelList)
         # print(self.labels)
-        self.legs = movedLegs + self.legs 
+        self.legs = movedLegs + remainLegs 
         if (not self.tensorLikeFlag):
             self.a = xplib.xp.moveaxis(self.a, moveFrom, moveTo)
 
-- 
2.43.0


From 1c0d1dfc3dfce97f1528cfc633d770da1269b744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:35 +0000
Subject: [PATCH 32/49] fix: a refused tensor tag was added to the legs before
 the offending one

---
 src/CTL/tensor/tensor.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/CTL/tensor/tensor.py b/src/CTL/tensor/tensor.py
index 36f0f42..418edb7 100644
--- a/src/CTL/tensor/tensor.py
+++ b/src/CTL/tensor/tensor.py
@@ -841,6 +841,7 @@ class Tensor(TensorBase):
         """
         for leg in self.legs:
             assert (leg.name.find('-') == -1), "Error: leg name {} already has a tensor tag.".format(leg.name)
+        for leg in self.legs:
             leg.name = name + '-' + leg.name 
     
     def removeTensorTag(self):
-- 
2.43.0


From c01086c74665a92c7a1080eb6b4bacac6c83527b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:35 +0000
Subject: [PATCH 33/49] fix: linking several legs, one of them refused, made
 the bonds of the legs before it

---
 src/CTL/tensor/contract/link.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/CTL/tensor/contract/link.py b/src/CTL/tensor/contract/link.py
index befc5da..bdc30ea 100644
--- a/src/CTL/tensor/contract/link.py
+++ b/src/CTL/tensor/contract/link.py
@@ -52,9 +52,11 @@ def makeLink(legA, legB, tensorA = None, tensorB = None):
 
     assert (len(legA) == len(legB)), "Error: the number of legs from A({}) and B({}) are not the same.".format(len(legA), len(legB))
 
-    bonds = []
     for leg1, leg2 in zip(legA, legB):
         assert (leg1.dim == leg2.dim), "Error: leg {} and {} to be linked do not have the same dimensions.".format(leg1, leg2)
+
+    bonds = []
+    for leg1, leg2 in zip(legA, legB):
         bonds.append(Bond(leg1, leg2))
     
     return bonds
-- 
2.43.0


From f41277ef4deeff8dce82aab5ae4feef78068030e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:35 +0000
Subject: [PATCH 34/49] fix: refused merge of the bonds between a tensor and a
 diagonal tensor broke the bonds

---
 src/CTL/tensor/contract/link.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/CTL/tensor/contract/link.py b/src/CTL/tensor/contract/link.py
index bdc30ea..8d2ca7a 100644
--- a/src/CTL/tensor/contract/link.py
+++ b/src/CTL/tensor/contract/link.py
@@ -119,6 +119,10 @@ def mergeLink(ta, tb, bondName = None, renameWarning = True):
     else:
         bondNameA, bondNameB = bondName # tuple/list
 
+    # outProduct refuses diagonal tensors: raise before the legs of the other tensor are merged
+    if (ta.diagonalFlag or tb.diagonalFlag):
+        raise TypeError(funcs.errorMessage("the legs of diagonal tensors cannot be merged: {} and {} obtained.".format(ta, tb), location = funcName))
+
     newLegA = ta.outProduct(legList = mergeLegA, newLabel = bondNameA)
     newLegB = tb.outProduct(legList = mergeLegB, newLabel = bondNameB)
 
-- 
2.43.0


From 3f7de1f24424b2e40122e872f2f464f40568a743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:49 +0000
Subject: [PATCH 35/49] fix: weights that do not fit cost a diagonal tensor the
 leg to be summed out

---
 src/CTL/tensor/diagonalTensor.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/CTL/tensor/diagonalTensor.py b/src/CTL/tensor/diagonalTensor.py
index f81fe62..4073447 100644
--- a/src/CTL/tensor/diagonalTensor.py
+++ b/src/CTL/tensor/diagonalTensor.py
@@ -742,9 +742,8 @@ class DiagonalTensor(Tensor):
         
         idx = self.legs.index(leg)
         # self.a = xplib.xp.sum(self.a, axis = idx)
-        self.legs = self.legs[:idx] + self.legs[(idx + 1):]
         # if weights is None:
-        if (len(self.legs) == 0):
+        if (len(self.legs) == 1):
             # not a diagonal tensor, since the last sum will give a single value
             if (self.tensorLikeFlag):
                 pass
@@ -756,6 +755,8 @@ class DiagonalTensor(Tensor):
         else:
             if (weights is not None) and (not self.tensorLikeFlag):
                 self.a = self.a * weights
+        # if the weights are refused, the leg is kept
+        self.legs = self.legs[:idx] + self.legs[(idx + 1):]
 
     def typeName(self):
         """
-- 
2.43.0


From 2013b314bddcdb76a9040322d5c6bcd6e1cf5f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:17 +0000
Subject: [PATCH 36/49] fix: a free edge of vertex -1 was added to the last
 vertex instead of being refused

---
 src/CTL/tensor/contract/tensorGraph.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/CTL/tensor/contract/tensorGraph.py b/src/CTL/tensor/contract/tensorGraph.py
index 425fe48..7182e59 100644
--- a/src/CTL/tensor/contract/tensorGraph.py
+++ b/src/CTL/tensor/contract/tensorGraph.py
@@ -59,6 +59,7 @@ class TensorGraph(UndirectedGraph):
         weight : None or int
             If int, then added to the added edge as weight, used for cost calculation.
         """
+        self.assertIndex(idx)
         self.v[idx].addEdge(None, weight = weight)
         self.updated = True
 
-- 
2.43.0


From f4a6da632c623d5fffa9f407167c8daf8a0562e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:17 +0000
Subject: [PATCH 37/49] fix: binary search never ended when eps is below the
 resolution of the numbers

---
 src/CTL/funcs/funcs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/CTL/funcs/funcs.py b/src/CTL/funcs/funcs.py
index 8be6bee..eb16127 100644
--- a/src/CTL/funcs/funcs.py
+++ b/src/CTL/funcs/funcs.py
@@ -749,7 +749,8 @@ def binarySearch(left, right, largeEnough, eps):
     l = left 
     r = right
     mid = (l + r) * 0.5
-    while (r - l > eps):
+    # if the interval cannot be divided further(no float between l and r), then stop
+    while (r - l > eps) and (l < mid < r):
         if (largeEnough(mid)):
             r = mid 
         else:
-- 
2.43.0


From e4cd2c79a4c72134315804c75a6980daad1498bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:18 +0000
Subject: [PATCH 38/49] fix: planned and executed costs were rounded to the
 precision of floating point numbers

---
 src/CTL/tensor/contract/optimalContract.py |  2 +-
 src/CTL/tensor/contract/tensorGraph.py     | 19 ++++++++++---------
 2 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/CTL/tensor/contract/optimalContract.py b/src/CTL/tensor/contract/optimalContract.py
index 187e636..816f701 100644
--- a/src/CTL/tensor/contract/optimalContract.py
+++ b/src/CTL/tensor/contract/optimalContract.py
@@ -223,7 +223,7 @@ def contractAndCostWithSequence(tensorList, seq = None, bf = False, typicalDim =
         else:
             seq = generateOptimalSequence(tensorList, bf = bf, typicalDim = typicalDim)
         # print(seq)
-    totalCost = 0.0
+    totalCost = 0
     totalLevel = 0
 
     if (not inplace):
diff --git a/src/CTL/tensor/contract/tensorGraph.py b/src/CTL/tensor/contract/tensorGraph.py
index 7182e59..c84c7f4 100644
--- a/src/CTL/tensor/contract/tensorGraph.py
+++ b/src/CTL/tensor/contract/tensorGraph.py
@@ -210,15 +210,16 @@ class TensorGraph(UndirectedGraph):
 
             clb = set(funcs.commonElements(edgesA, edgesB))
             res = 1
-            for l, s in zip(edgesA + edgesB, shapeA + shapeB):
-                if (l in clb):
-                    if (not diagonal):
-                        res *= xplib.xp.sqrt(s)
-                    # if single diagonal: then the cost should be output shape
-                else:
-                    res *= s 
-
-            return int(res + 0.5)
+            for l, s in zip(edgesA, shapeA):
+                # if single diagonal: then the cost should be output shape
+                if (l not in clb) or (not diagonal):
+                    res *= s
+            for l, s in zip(edgesB, shapeB):
+                # shared bonds are already counted in A
+                if (l not in clb):
+                    res *= s
+
+            return int(res)
 
         def getCostTypical(tsA, tsB):
             edgesA, _, diagonalA = self.contractRes[tsA]
-- 
2.43.0


From 8d0f43cc2af0cf9e99995607d5ebd1c7373a5f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:52 +0000
Subject: [PATCH 39/49] fix: the cost of a tensor graph stayed the one
 calculated before an edge was added

---
 src/CTL/tensor/contract/tensorGraph.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/CTL/tensor/contract/tensorGraph.py b/src/CTL/tensor/contract/tensorGraph.py
index c84c7f4..1608c59 100644
--- a/src/CTL/tensor/contract/tensorGraph.py
+++ b/src/CTL/tensor/contract/tensorGraph.py
@@ -62,6 +62,26 @@ class TensorGraph(UndirectedGraph):
         self.assertIndex(idx)
         self.v[idx].addEdge(None, weight = weight)
         self.updated = True
+        self.optimalCost = None
+
+    def addEdge(self, idx1, idx2, weight = None):
+        """
+        Add an edge between two vertices. The cost calculated before does not hold any more for the new graph.
+
+        Parameters
+        ----------
+        idx1, idx2 : int
+            The indices of the vertices.
+        weight : None or int
+            If int, then added to the added edge as weight, used for cost calculation.
+
+        Returns
+        -------
+        GraphEdge
+        """
+        newEdge = super().addEdge(idx1, idx2, weight = weight)
+        self.optimalCost = None
+        return newEdge
 
     def addEdgeIndex(self):
         """
-- 
2.43.0


From d583cf7606441b61b0bf7cafb048038cca7f2d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:31 +0000
Subject: [PATCH 40/49] fix: the data type of a tensor was outdated after
 summing out a leg

---
 src/CTL/tensor/diagonalTensor.py | 2 ++
 src/CTL/tensor/tensor.py         | 1 +
 2 files changed, 3 insertions(+)

diff --git a/src/CTL/tensor/diagonalTensor.py b/src/CTL/tensor/diagonalTensor.py
index 4073447..be6a23e 100644
--- a/src/CTL/tensor/diagonalTensor.py
+++ b/src/CTL/tensor/diagonalTensor.py
@@ -756,6 +756,8 @@ class DiagonalTensor(Tensor):
             if (weights is not None) and (not self.tensorLikeFlag):
                 self.a = self.a * weights
         # if the weights are refused, the leg is kept
+        if (not self.tensorLikeFlag):
+            self.dtype = self.a.dtype
         self.legs = self.legs[:idx] + self.legs[(idx + 1):]
 
     def typeName(self):
diff --git a/src/CTL/tensor/tensor.py b/src/CTL/tensor/tensor.py
index 418edb7..c2e0b94 100644
--- a/src/CTL/tensor/tensor.py
+++ b/src/CTL/tensor/tensor.py
@@ -1101,6 +1101,7 @@ class Tensor(TensorBase):
         # self.a = xplib.xp.sum(self.a, axis = idx)
         if (not self.tensorLikeFlag):
             self.a = funcs.sumOnAxis(self.a, axis = idx, weights = weights)
+            self.dtype = self.a.dtype
         self.legs = self.legs[:idx] + self.legs[(idx + 1):]
     
     def sumOutLegByLabel(self, label, backward = False, weights = None):
-- 
2.43.0


From 2dd30d4c9e0228152a804f62cd868c9aa26698e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:53 +0000
Subject: [PATCH 41/49] fix: random data did not have the data type asked for

---
 src/CTL/tensor/tensor.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/CTL/tensor/tensor.py b/src/CTL/tensor/tensor.py
index c2e0b94..11bcd96 100644
--- a/src/CTL/tensor/tensor.py
+++ b/src/CTL/tensor/tensor.py
@@ -276,6 +276,8 @@ class Tensor(TensorBase):
                 data = xplib.xp.random.random_sample(shape)
             else:
                 data = xplib.xp.random.random_sample(shape) + xplib.xp.random.random_sample(shape) * 1.0j
+            if (xplib.xp.issubdtype(self.dtype, xplib.xp.inexact)):
+                data = data.astype(self.dtype)
         elif (data.shape != shape):
             data = xplib.xp.copy(data.reshape(shape))
         else:
-- 
2.43.0


From 77b2ff66462176ffd81255802fbbb2efda60e66e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:39 +0000
Subject: [PATCH 42/49] fix: FiniteTensorNetwork kept the caller's list of
 output legs

---
 src/CTL/tensornetwork/tensornetwork.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CTL/tensornetwork/tensornetwork.py b/src/CTL/tensornetwork/tensornetwork.py
index 4721e13..8a727cd 100644
--- a/src/CTL/tensornetwork/tensornetwork.py
+++ b/src/CTL/tensornetwork/tensornetwork.py
@@ -74,7 +74,7 @@ class FiniteTensorNetwork:
 
     def addPostOutProduct(self, labelList, newLabel):
         self.checkLock('add post out product: {} -> {}'.format(labelList, newLabel))
-        self.outProductAfter.append((labelList, newLabel))
+        self.outProductAfter.append((list(labelList), newLabel))
 
     def loadBondDims(self, localTensors):
         for name in localTensors:
-- 
2.43.0


From 931a9a65d755aa0e2f816b6a42312b3d979780f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:45 +0000
Subject: [PATCH 43/49] fix: tensors shared the list of legs they were made
 from

---
 src/CTL/tensor/diagonalTensor.py | 2 +-
 src/CTL/tensor/tensor.py         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/CTL/tensor/diagonalTensor.py b/src/CTL/tensor/diagonalTensor.py
index be6a23e..953223c 100644
--- a/src/CTL/tensor/diagonalTensor.py
+++ b/src/CTL/tensor/diagonalTensor.py
@@ -407,7 +407,7 @@ class DiagonalTensor(Tensor):
         legs, data, labels, shape = self.deduction(legs = legs, data = data, labels = labels, shape = shape, isTensorLike = tensorLikeFlag)
 
         self.a = data
-        self.legs = legs
+        self.legs = list(legs)
         # self.totalSize = funcs.tupleProduct(shape)
 
         # functions of Tensor from here
diff --git a/src/CTL/tensor/tensor.py b/src/CTL/tensor/tensor.py
index 11bcd96..bda03f3 100644
--- a/src/CTL/tensor/tensor.py
+++ b/src/CTL/tensor/tensor.py
@@ -112,7 +112,7 @@ class Tensor(TensorBase):
         self.degreeOfFreedom = degreeOfFreedom
         self.name = name
 
-        self.legs = legs 
+        self.legs = list(legs)
         self.a = data
 
     # def __init__(self):
-- 
2.43.0


From c56c3863604e45205fc35978a7bbebf72b02ae13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:57 +0000
Subject: [PATCH 44/49] fix: contracting a diagonal with a dense tensor ordered
 the legs of data-free tensors differently

---
 src/CTL/tensor/contract/contract.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/CTL/tensor/contract/contract.py b/src/CTL/tensor/contract/contract.py
index 3bf1e2e..e725b9c 100644
--- a/src/CTL/tensor/contract/contract.py
+++ b/src/CTL/tensor/contract/contract.py
@@ -121,6 +121,8 @@ def contractTwoTensors(ta, tb, bonds = None, outProductWarning = True):
             return DiagonalTensor(data = xplib.xp.array(xplib.xp.sum(ta.a * tb.a)))
     
     if (ta.diagonalFlag):
+        newLegs = tbRemainLegs + taRemainLegs 
+        newShape = tuple([leg.dim for leg in newLegs])
         if (tensorLikeContract):
             return Tensor(shape = newShape, data = None, legs = newLegs, tensorLikeFlag = True)
         # then tb is not diagonal tensor
@@ -161,9 +163,6 @@ def contractTwoTensors(ta, tb, bonds = None, outProductWarning = True):
             # print('newData = {}'.format(newData))
         # print('newData = {}'.format(newData))
         # print('shape = {}, data = {}, legs = {}'.format(newShape, newData, newLegs))
-
-        newLegs = tbRemainLegs + taRemainLegs 
-        newShape = tuple([leg.dim for leg in newLegs])
         return Tensor(shape = newShape, data = newData, legs = newLegs)
 
     if (tensorLikeContract):
-- 
2.43.0


From 3a0589553190c7a9383acea50837ca07b473ed32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:14 +0000
Subject: [PATCH 45/49] fix: costs and plans overflowed when dimensions were
 given as numpy integers

---
 src/CTL/tensor/diagonalTensor.py | 2 +-
 src/CTL/tensor/leg.py            | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/CTL/tensor/diagonalTensor.py b/src/CTL/tensor/diagonalTensor.py
index 953223c..236e229 100644
--- a/src/CTL/tensor/diagonalTensor.py
+++ b/src/CTL/tensor/diagonalTensor.py
@@ -420,7 +420,7 @@ class DiagonalTensor(Tensor):
         if shape == ():
             self._length = 1
         else:
-            self._length = shape[0]
+            self._length = self.legs[0].dim
 
     @property 
     def dim(self):
diff --git a/src/CTL/tensor/leg.py b/src/CTL/tensor/leg.py
index 0caa980..879ad7f 100644
--- a/src/CTL/tensor/leg.py
+++ b/src/CTL/tensor/leg.py
@@ -1,3 +1,5 @@
+import numbers
+
 class Leg:
     """
     The leg class for tensors to connect.
@@ -27,7 +29,8 @@ class Leg:
     def __init__(self, tensor, dim, name = None):
         self.tensor = tensor 
         self.name = name
-        self.dim = dim
+        # a numpy integer (of a fixed width) would overflow in products of dimensions
+        self.dim = int(dim) if isinstance(dim, numbers.Integral) else dim
         self.bond = None
         # legs can have the same name: nothing will be affected
     
-- 
2.43.0


From 317601c84df69a5334eda0b0e8d6b40c65070313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:14 +0000
Subject: [PATCH 46/49] fix: isIsometry and toMatrix with rows or columns left
 out failed for diagonal tensors

---
 src/CTL/tensor/diagonalTensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CTL/tensor/diagonalTensor.py b/src/CTL/tensor/diagonalTensor.py
index 236e229..35c68ab 100644
--- a/src/CTL/tensor/diagonalTensor.py
+++ b/src/CTL/tensor/diagonalTensor.py
@@ -538,7 +538,7 @@ class DiagonalTensor(Tensor):
         funcs.deprecatedFuncWarning(funcName = "DiagonalTensor.toVector", deprecateMessage = "This will return a vector corresponding to the diagonal of tensor instead of the complete tensor.")
         return xplib.xp.copy(xplib.xp.ravel(self.a))
     
-    def toMatrix(self, rows, cols):
+    def toMatrix(self, rows = None, cols = None):
         """
         Deprecated
 
-- 
2.43.0


From a0173dfb42861f40681593e07259ee430e58331c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:14 +0000
Subject: [PATCH 47/49] fix: shapeOfLabels gave the last dimension for labels
 that do not exist

---
 src/CTL/tensor/tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CTL/tensor/tensor.py b/src/CTL/tensor/tensor.py
index bda03f3..fa857be 100644
--- a/src/CTL/tensor/tensor.py
+++ b/src/CTL/tensor/tensor.py
@@ -796,7 +796,7 @@ class Tensor(TensorBase):
         int
             The dimension of the legs of given labels.
         """
-        return self.shapeOfIndices(self.getLabelIndices(labs, backward = backward))
+        return tuple([self.shapeOfIndex(x) if (x != -1) else -1 for x in self.getLabelIndices(labs, backward = backward)])
 
     def shapeOfIndex(self, index):
         """
-- 
2.43.0


From a7d9f946937356501a4288ad68fb6d5b838c0861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:14 +0000
Subject: [PATCH 48/49] fix: plans and costs of graphs overflowed with numpy
 integers as weights or typical dimension

---
 src/CTL/funcs/funcs.py                 | 17 +++++++++++++++++
 src/CTL/tensor/contract/tensorGraph.py |  3 ++-
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/CTL/funcs/funcs.py b/src/CTL/funcs/funcs.py
index eb16127..2e8dc73 100644
--- a/src/CTL/funcs/funcs.py
+++ b/src/CTL/funcs/funcs.py
@@ -644,6 +644,23 @@ def divideIntoKParts(n, k):
             yield [i] + partAfter
     return
 
+def exactInt(x):
+    """
+    Make integers of a fixed width(e.g. numpy.int64), which overflow in long products, into python int.
+
+    Parameters
+    ----------
+    x : any type
+
+    Returns
+    -------
+    int if x is an integer, otherwise x itself.
+    """
+    if isinstance(x, numbers.Integral):
+        return int(x)
+    else:
+        return x
+
 def myComb(n, p):
     """
     C(n, p), polyfill for python < 3.7. For higher python version, math.comb should be better.
diff --git a/src/CTL/tensor/contract/tensorGraph.py b/src/CTL/tensor/contract/tensorGraph.py
index 1608c59..7963a09 100644
--- a/src/CTL/tensor/contract/tensorGraph.py
+++ b/src/CTL/tensor/contract/tensorGraph.py
@@ -170,7 +170,8 @@ class TensorGraph(UndirectedGraph):
         self.addEdgeIndex()
 
         edges = [[edge.index for edge in v.edges] for v in self.v]
-        shapes = [[edge.weight for edge in v.edges] for v in self.v]
+        shapes = [[funcs.exactInt(edge.weight) for edge in v.edges] for v in self.v]
+        typicalDim = funcs.exactInt(typicalDim)
 
         n = len(self.v)
 
-- 
2.43.0


From dcbe8bba3ef50dac0482f94dfd14a396e4429886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:14 +0000
Subject: [PATCH 49/49] fix: binomial coefficients overflowed with numpy
 integers

---
 src/CTL/funcs/funcs.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/CTL/funcs/funcs.py b/src/CTL/funcs/funcs.py
index 2e8dc73..33f25c1 100644
--- a/src/CTL/funcs/funcs.py
+++ b/src/CTL/funcs/funcs.py
@@ -676,6 +676,7 @@ def myComb(n, p):
 
     """
     res = 1
+    n = exactInt(n)
     for i in range(p):
         res *= (n - i)
     for i in range(p):
-- 
2.43.0

