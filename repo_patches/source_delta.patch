From 2257a1a32e153c2a76450a26f63b5ed540cd333a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:24 +0000
Subject: [PATCH 01/48] fix: contractTwoTensors accepts explicit bonds in
 either orientation

---
 src/CTL/tensor/contract/contract.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/CTL/tensor/contract/contract.py b/src/CTL/tensor/contract/contract.py
index ed0be84..2be3649 100644
--- a/src/CTL/tensor/contract/contract.py
+++ b/src/CTL/tensor/contract/contract.py
@@ -104,8 +104,9 @@ def contractTwoTensors(ta, tb, bonds = None, outProductWarning = True):
 
         # return Tensor(labels = labels, data = data, legs = legs)
 
-    contractALegs = [bond.legs[0] for bond in bonds]
-    contractBLegs = [bond.legs[1] for bond in bonds]
+    # the legs of a bond can be in either order when bonds are given explicitly
+    contractALegs = [bond.sideLeg(ta) for bond in bonds]
+    contractBLegs = [leg.anotherSide() for leg in contractALegs]
 
     taRemainLegs = ta.complementLegs(contractALegs)
     tbRemainLegs = tb.complementLegs(contractBLegs)
-- 
2.43.0


From d2436a34441298f936a8e098145fa74f650e85a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:55 +0000
Subject: [PATCH 02/48] fix: diagonalNDTensor keeps the data type and supports
 scalars

Complex diagonal tensors lost their imaginary part in toTensor/toMatrix, and a
diagonal tensor with no legs could not be converted at all.
---
 src/CTL/funcs/funcs.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/CTL/funcs/funcs.py b/src/CTL/funcs/funcs.py
index 70aa5a3..3bc5d70 100644
--- a/src/CTL/funcs/funcs.py
+++ b/src/CTL/funcs/funcs.py
@@ -1093,8 +1093,10 @@ def diagonalNDTensor(a, dim):
         A diagonal tensor of dim dimension, and contains the values of a in order on its diagonal.
 
     """
+    if (dim == 0):
+        return xplib.xp.copy(a).reshape(())
     l = a.shape[0]
-    res = xplib.xp.zeros(tuple([l] * dim))
+    res = xplib.xp.zeros(tuple([l] * dim), dtype = a.dtype)
     res[xplib.xp.diag_indices(l, dim)] = a
     # for i in range(l):
     # 	res[tuple([i] * dim)] = a[i]
-- 
2.43.0


From f226e3e203921910b540a68c8d029ac20b52d84b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:55 +0000
Subject: [PATCH 03/48] fix: outer product of a diagonal and a dense tensor for
 complex data and scalars

---
 src/CTL/tensor/contract/contract.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/CTL/tensor/contract/contract.py b/src/CTL/tensor/contract/contract.py
index 2be3649..cc28f5f 100644
--- a/src/CTL/tensor/contract/contract.py
+++ b/src/CTL/tensor/contract/contract.py
@@ -86,10 +86,13 @@ def contractTwoTensors(ta, tb, bonds = None, outProductWarning = True):
             if (tensorLikeContract):
                 return Tensor(labels = labels, data = None, shape = shape, legs = legs, tensorLikeFlag = True)
             else:
-                data = xplib.xp.zeros(shape, dtype = ta.a.dtype)
-                einsumStr = ('j' * ta.dim) + '...->j...'
                 outerData = xplib.xp.multiply.outer(ta.a, tb.a)
-                xplib.xp.einsum(einsumStr, data)[...] = outerData
+                if (ta.dim == 0):
+                    data = outerData
+                else:
+                    data = xplib.xp.zeros(shape, dtype = outerData.dtype)
+                    einsumStr = ('j' * ta.dim) + '...->j...'
+                    xplib.xp.einsum(einsumStr, data)[...] = outerData
             return Tensor(labels = labels, data = data, shape = shape, legs = legs)
         else:
             if (tensorLikeContract):
-- 
2.43.0


From afd9ba753bbd5a89d2480b987eb3f607ce1652e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:52 +0000
Subject: [PATCH 04/48] fix: the outer product of two diagonal tensors is not
 diagonal

contractTwoTensors multiplied the two diagonals elementwise, so unlinked diagonal
tensors gave a wrong result (or an exception for different lengths), and a network
with two disconnected diagonal parts made the sequence search loop forever. Return
the dense outer product, charge its real cost, and allow it in the search only
between disconnected parts.
---
 src/CTL/tensor/contract/contract.py        |  6 ++--
 src/CTL/tensor/contract/optimalContract.py |  4 +--
 src/CTL/tensor/contract/tensorGraph.py     | 34 +++++++++++++++++-----
 3 files changed, 33 insertions(+), 11 deletions(-)

diff --git a/src/CTL/tensor/contract/contract.py b/src/CTL/tensor/contract/contract.py
index cc28f5f..714365b 100644
--- a/src/CTL/tensor/contract/contract.py
+++ b/src/CTL/tensor/contract/contract.py
@@ -78,10 +78,12 @@ def contractTwoTensors(ta, tb, bonds = None, outProductWarning = True):
         legs = ta.legs + tb.legs
 
         if (ta.diagonalFlag and tb.diagonalFlag):
+            # not diagonal any more: the indices of ta and tb are independent
             if (tensorLikeContract):
-                return DiagonalTensor(labels = labels, data = None, shape = shape, legs = legs, tensorLikeFlag = True)
+                return Tensor(labels = labels, data = None, shape = shape, legs = legs, tensorLikeFlag = True)
             else:
-                return DiagonalTensor(labels = labels, data = ta.a * tb.a, shape = shape, legs = legs)
+                data = xplib.xp.multiply.outer(funcs.diagonalNDTensor(ta.a, ta.dim), funcs.diagonalNDTensor(tb.a, tb.dim))
+                return Tensor(labels = labels, data = data, shape = shape, legs = legs)
         elif (ta.diagonalFlag):
             if (tensorLikeContract):
                 return Tensor(labels = labels, data = None, shape = shape, legs = legs, tensorLikeFlag = True)
diff --git a/src/CTL/tensor/contract/optimalContract.py b/src/CTL/tensor/contract/optimalContract.py
index 68d74f8..2357b48 100644
--- a/src/CTL/tensor/contract/optimalContract.py
+++ b/src/CTL/tensor/contract/optimalContract.py
@@ -76,12 +76,12 @@ def contractCost(ta, tb):
         The order of the cost(how many dimensions). This is used when we want to decide the order of our calculation to a given bond dimension chi.
     """
     diagonalA, diagonalB = ta.diagonalFlag, tb.diagonalFlag 
-    if (diagonalA and diagonalB):
+    bonds = shareBonds(ta, tb)
+    if (diagonalA and diagonalB and (len(bonds) > 0)):
         return ta.bondDimension(), 1
 
     diagonal = diagonalA or diagonalB
     
-    bonds = shareBonds(ta, tb)
     intersectionShape = tuple([bond.legs[0].dim for bond in bonds])
     if (not diagonal):
         cost = funcs.tupleProduct(ta.shape) * funcs.tupleProduct(tb.shape) // funcs.tupleProduct(intersectionShape)
diff --git a/src/CTL/tensor/contract/tensorGraph.py b/src/CTL/tensor/contract/tensorGraph.py
index e061362..ce065fa 100644
--- a/src/CTL/tensor/contract/tensorGraph.py
+++ b/src/CTL/tensor/contract/tensorGraph.py
@@ -178,13 +178,13 @@ class TensorGraph(UndirectedGraph):
             edgesA, shapeA, diagonalA = self.contractRes[tsA]
             edgesB, shapeB, diagonalB = self.contractRes[tsB]
 
-            if (diagonalA and diagonalB):
+            clb = set(funcs.commonElements(edgesA, edgesB))
+            if (diagonalA and diagonalB and (len(clb) > 0)):
                 # both diagonal, only need to product
                 return shapeA[0]
             
             diagonal = diagonalA or diagonalB
 
-            clb = set(funcs.commonElements(edgesA, edgesB))
             res = 1
             for l, s in zip(edgesA + edgesB, shapeA + shapeB):
                 if (l in clb):
@@ -200,10 +200,10 @@ class TensorGraph(UndirectedGraph):
             edgesA, _, diagonalA = self.contractRes[tsA]
             edgesB, _, diagonalB = self.contractRes[tsB]
 
-            if (diagonalA and diagonalB):
+            clb = set(funcs.commonElements(edgesA, edgesB))
+            if (diagonalA and diagonalB and (len(clb) > 0)):
                 costOrder = 1
             else:
-                clb = set(funcs.commonElements(edgesA, edgesB))
                 if (diagonalA or diagonalB):
                     costOrder = len(edgesA) + len(edgesB) - 2 * len(clb)
                 else:
@@ -224,6 +224,19 @@ class TensorGraph(UndirectedGraph):
         def isDiagonalOuterProduct(tsA, tsB):
             return tsA[2] and tsB[2] and (not isSharingBond(tsA, tsB))
 
+        # the indices of connected components in the graph
+        component = list(range(n))
+        for edge in self.getEdges():
+            u, v = edge.vertices
+            if (u is not None) and (v is not None):
+                cu, cv = component[u.index], component[v.index]
+                component = [cu if (c == cv) else c for c in component]
+
+        def isBannedOuterProduct(tsA, tsB):
+            # the outer product of two diagonal tensors is not diagonal, so it is banned
+            # unless the two parts are disconnected, when it is the only way to combine them
+            return isDiagonalOuterProduct(self.contractRes[tsA], self.contractRes[tsB]) and (component[lowbitI(tsA)] == component[lowbitI(tsB)])
+
         def calculateContractRes(tsA, tsB):
             if (isinstance(tsA, int)):
                 tsA = self.contractRes[tsA]
@@ -234,6 +247,7 @@ class TensorGraph(UndirectedGraph):
 
             edges = funcs.listSymmetricDifference(edgesA, edgesB)
             shape = [None] * len(edges)
+            diagonal = diagonalA and diagonalB and isSharingBond(tsA, tsB)
 
             edgeIndex = dict()
             for i in range(len(edges)):
@@ -242,7 +256,7 @@ class TensorGraph(UndirectedGraph):
             for l, s in zip(edgesA + edgesB, shapeA + shapeB):
                 if (l in edgeIndex):
                     shape[edgeIndex[l]] = s
-            return (edges, shape, diagonalA and diagonalB)
+            return (edges, shape, diagonal)
 
         def getSize(tsA, tsB):
             '''
@@ -273,6 +287,8 @@ class TensorGraph(UndirectedGraph):
                     solveSet(tsA)
                 if (self.optimalCost[tsB] is None):
                     solveSet(tsB)
+                if (self.optimalCost[tsA] == float('inf')) or (self.optimalCost[tsB] == float('inf')) or isBannedOuterProduct(tsA, tsB):
+                    continue
                 if (self.contractRes[x] is None):
                     self.contractRes[x] = calculateContractRes(tsA, tsB)
                 
@@ -283,6 +299,11 @@ class TensorGraph(UndirectedGraph):
                     minTSA = tsA
                     minTSB = tsB
 
+            if (minCost is None):
+                # only possible with banned outer products
+                self.optimalCost[x] = float('inf')
+                return
+
             self.optimalCost[x] = minCost
             self.optimalSeq[x] = self.optimalSeq[minTSA] + self.optimalSeq[minTSB] + [(lowbitI(minTSA), lowbitI(minTSB))]
 
@@ -372,8 +393,7 @@ class TensorGraph(UndirectedGraph):
                             #print('t1 = {}, t2 = {}'.format(t1, t2))
                             if ((t1 & t2) != 0):
                                 continue 
-                            if (isDiagonalOuterProduct(self.contractRes[t1], self.contractRes[t2])):
-                                # diagonal outer product is banned
+                            if (isBannedOuterProduct(t1, t2)):
                                 continue
                             tt = t1 | t2
                             if (self.contractRes[tt] is None):
-- 
2.43.0


From a56c4a8a18309ca865fccb748c04239e1226b2d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:52 +0000
Subject: [PATCH 05/48] fix: optimal sequence with exact dimensions for
 networks containing scalars

---
 src/CTL/tensor/contract/tensorGraph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CTL/tensor/contract/tensorGraph.py b/src/CTL/tensor/contract/tensorGraph.py
index ce065fa..3d208f0 100644
--- a/src/CTL/tensor/contract/tensorGraph.py
+++ b/src/CTL/tensor/contract/tensorGraph.py
@@ -344,7 +344,7 @@ class TensorGraph(UndirectedGraph):
             obj_n = (1 << n)
             new_flag = [True] * obj_n 
             if (typicalDim is None):
-                chi_min = min([min(x) for x in shapes])
+                chi_min = min([min(x) for x in shapes if (len(x) > 0)], default = 2)
             else:
                 chi_min = typicalDim
             # mu_cap = 1
-- 
2.43.0


From 88c1caf0bde9f6f58e1db525926a287172d7c055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:11 +0000
Subject: [PATCH 06/48] fix: optimal sequence search for disconnected networks
 with greedy order, cost query before any search

---
 src/CTL/tensor/contract/tensorGraph.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/CTL/tensor/contract/tensorGraph.py b/src/CTL/tensor/contract/tensorGraph.py
index 3d208f0..23e8bf5 100644
--- a/src/CTL/tensor/contract/tensorGraph.py
+++ b/src/CTL/tensor/contract/tensorGraph.py
@@ -42,6 +42,7 @@ class TensorGraph(UndirectedGraph):
     def __init__(self, n, diagonalFlags = None):
         super().__init__(n)
         self.indexed = False
+        self.optimalCost = None
         if (diagonalFlags is None):
             self.diagonalFlags = [False] * n
         else:
@@ -324,9 +325,12 @@ class TensorGraph(UndirectedGraph):
                 minTSA = -1
                 minTSB = -1
 
-                for tsA, tsB in funcs.pairIterator(tensorSet):
-                    if (not isSharingBond(tsA, tsB)):
-                        continue
+                pairs = [(tsA, tsB) for tsA, tsB in funcs.pairIterator(tensorSet) if isSharingBond(tsA, tsB)]
+                if (len(pairs) == 0):
+                    # only disconnected parts remain: outer product is the only choice
+                    pairs = funcs.pairIterator(tensorSet)
+
+                for tsA, tsB in pairs:
                     newSize = getSize(tsA, tsB)
                     if (minSize == -1) or (newSize < minSize):
                         minSize = newSize 
-- 
2.43.0


From d96aa6ff1e0d493d238f39e07d71b219b5758d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:54 +0000
Subject: [PATCH 07/48] fix: scalar diagonal tensors can be copied and built
 from legs or labels; diagonal data follows shape and keeps its type

---
 src/CTL/tensor/diagonalTensor.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/CTL/tensor/diagonalTensor.py b/src/CTL/tensor/diagonalTensor.py
index d452fb3..77ddfbe 100644
--- a/src/CTL/tensor/diagonalTensor.py
+++ b/src/CTL/tensor/diagonalTensor.py
@@ -228,15 +228,18 @@ class DiagonalTensor(Tensor):
             return None
         # print('generating data for data = {}'.format(data))
         if (data is None):
-            data = xplib.xp.ones(shape[0])
+            data = xplib.xp.ones(shape[:1], dtype = self.dtype)
+        # scalar: no diagonal to take
+        elif (len(shape) == 0):
+            data = xplib.xp.copy(data.reshape(()))
         # otherwise, data can be 1D-array, or ndarray
-        elif (len(data.shape) == 1):
+        elif (data.shape == (shape[0], )):
             data = xplib.xp.copy(data)
         else:
             l, dim = len(shape), shape[0]
             # print('dim = {}, l = {}'.format(dim, l))
             # print(xplib.xp.diag_indices(dim, l))
-            data = xplib.xp.copy(data[xplib.xp.diag_indices(dim, l)])
+            data = xplib.xp.copy(data.reshape(shape)[xplib.xp.diag_indices(dim, l)])
         return data
 
     def deduction(self, legs, data, labels, shape, isTensorLike = False):
@@ -254,9 +257,9 @@ class DiagonalTensor(Tensor):
 
         # first, consider scalar case
         if (legs is None) and (labels is None) and (shape == () or ((data is not None) and (data.shape == ()))):
-            if (data is None) and (not isTensorLike):
-                data = xplib.xp.array(1.0)
-            return [], data, [], () # scalar
+            if (shape is not None) and (not self.checkShapeDataCompatible(shape = shape, data = data)):
+                raise ValueError(funcs.errorMessage('data shape {} is not compatible with required shape {}'.format(data.shape, shape), location = funcName))
+            return [], self.generateData(shape = (), data = data, isTensorLike = isTensorLike), [], () # scalar
             
 
         if (legs is not None):
@@ -396,7 +399,7 @@ class DiagonalTensor(Tensor):
             
 
     def __init__(self, shape = None, labels = None, data = None, degreeOfFreedom = None, name = None, legs = None, tensorLikeFlag = False, dtype = xplib.xp.float64):
-        super().__init__(diagonalFlag = True, tensorLikeFlag = tensorLikeFlag, dtype = dtype)
+        super().__init__(diagonalFlag = True, tensorLikeFlag = tensorLikeFlag, dtype = self.deduceDataType(data = data, dtype = dtype))
 
         legs, data, labels, shape = self.deduction(legs = legs, data = data, labels = labels, shape = shape, isTensorLike = tensorLikeFlag)
 
@@ -411,7 +414,7 @@ class DiagonalTensor(Tensor):
 
         # self._dim = len(shape)
         
-        if shape == ():
+        if len(shape) == 0:
             self._length = 1
         else:
             self._length = shape[0]
-- 
2.43.0


From 49655c00c9a278e83e685071be89a149aaca0e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:23 +0000
Subject: [PATCH 08/48] fix: copyTensorList(linkOutgoingBonds = True) leaves
 the original legs free instead of without a bond attribute

---
 src/CTL/tensor/contract/optimalContract.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CTL/tensor/contract/optimalContract.py b/src/CTL/tensor/contract/optimalContract.py
index 2357b48..8dc3e4d 100644
--- a/src/CTL/tensor/contract/optimalContract.py
+++ b/src/CTL/tensor/contract/optimalContract.py
@@ -46,7 +46,7 @@ def copyTensorList(tensorList, tensorLikeFlag = False, linkOutgoingBonds = False
 
                 if (leg2.tensor not in tensorList):
                     if (linkOutgoingBonds):
-                        del leg.bond 
+                        leg.bond = None
                         makeLink(newLeg1, leg2)
                     continue
 
-- 
2.43.0


From 82fa1dee2a83c58a1e6619b85d4596042e66af7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:24 +0000
Subject: [PATCH 09/48] fix: moving all legs of a tensor to the front with its
 own leg list, matrices with no row or column leg

---
 src/CTL/tensor/diagonalTensor.py | 6 +++---
 src/CTL/tensor/tensor.py         | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/CTL/tensor/diagonalTensor.py b/src/CTL/tensor/diagonalTensor.py
index 77ddfbe..198a6c5 100644
--- a/src/CTL/tensor/diagonalTensor.py
+++ b/src/CTL/tensor/diagonalTensor.py
@@ -495,7 +495,7 @@ class DiagonalTensor(Tensor):
         moveFrom = []
         moveTo = []
         currIdx = 0
-        movedLegs = legs
+        movedLegs = list(legs)
         for currLeg in legs:
             for i, leg in enumerate(self.legs):
                 if (leg == currLeg):
@@ -559,9 +559,9 @@ class DiagonalTensor(Tensor):
         # input two set of legs
         funcs.deprecatedFuncWarning(funcName = "DiagonalTensor.toMatrix", deprecateMessage = "Diagonal tensors should be used in a better way for linear algebra calculation rather than be made into a matrix.")
         assert not ((rows is None) and (cols is None)), "Error in Tensor.toMatrix: toMatrix must have at least row or col exist."
-        if (rows is not None) and (isinstance(rows[0], str)):
+        if (rows is not None) and (len(rows) > 0) and (isinstance(rows[0], str)):
             rows = [self.getLeg(label) for label in rows]
-        if (cols is not None) and (isinstance(cols[0], str)):
+        if (cols is not None) and (len(cols) > 0) and (isinstance(cols[0], str)):
             cols = [self.getLeg(label) for label in cols]
         if (cols is None):
             cols = funcs.listDifference(self.legs, rows)
diff --git a/src/CTL/tensor/tensor.py b/src/CTL/tensor/tensor.py
index c410ef4..2049d89 100644
--- a/src/CTL/tensor/tensor.py
+++ b/src/CTL/tensor/tensor.py
@@ -561,7 +561,7 @@ class Tensor(TensorBase):
         moveFrom = []
         moveTo = []
         currIdx = 0
-        movedLegs = legs
+        movedLegs = list(legs)
         for currLeg in legs:
             for i, leg in enumerate(self.legs):
                 if (leg == currLeg):
@@ -615,9 +615,9 @@ class Tensor(TensorBase):
         # input two set of legs
         assert (not self.tensorLikeFlag), funcs.errorMessage('TensorLike cannot be transferred to matrix since no data contained.', 'Tensor.toMatrix')
         assert not ((rows is None) and (cols is None)), "Error in Tensor.toMatrix: toMatrix must have at least row or col exist."
-        if (rows is not None) and (isinstance(rows[0], str)):
+        if (rows is not None) and (len(rows) > 0) and (isinstance(rows[0], str)):
             rows = [self.getLeg(label) for label in rows]
-        if (cols is not None) and (isinstance(cols[0], str)):
+        if (cols is not None) and (len(cols) > 0) and (isinstance(cols[0], str)):
             cols = [self.getLeg(label) for label in cols]
         if (cols is None):
             cols = funcs.listDifference(self.legs, rows)
-- 
2.43.0


From ed24f017c09644d0baa549515423fbe1923cbc07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:24 +0000
Subject: [PATCH 10/48] fix: outProduct with an unknown label is refused before
 legs are removed, DiagonalTensor.toMatrix deduces rows or cols

---
 src/CTL/tensor/diagonalTensor.py | 2 +-
 src/CTL/tensor/tensor.py         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/CTL/tensor/diagonalTensor.py b/src/CTL/tensor/diagonalTensor.py
index 198a6c5..c011999 100644
--- a/src/CTL/tensor/diagonalTensor.py
+++ b/src/CTL/tensor/diagonalTensor.py
@@ -533,7 +533,7 @@ class DiagonalTensor(Tensor):
         funcs.deprecatedFuncWarning(funcName = "DiagonalTensor.toVector", deprecateMessage = "This will return a vector corresponding to the diagonal of tensor instead of the complete tensor.")
         return xplib.xp.copy(xplib.xp.ravel(self.a))
     
-    def toMatrix(self, rows, cols):
+    def toMatrix(self, rows = None, cols = None):
         """
         Deprecated
 
diff --git a/src/CTL/tensor/tensor.py b/src/CTL/tensor/tensor.py
index 2049d89..b9a9ae3 100644
--- a/src/CTL/tensor/tensor.py
+++ b/src/CTL/tensor/tensor.py
@@ -929,7 +929,7 @@ class Tensor(TensorBase):
         """
         assert (isinstance(legList, list) and (len(legList) > 0)), funcs.errorMessage(err = "outProduct cannot work on leg list of zero legs or non-list, {} obtained.".format(legList), location = 'Tensor.outProduct')
         if (isinstance(legList[0], str)):
-            return self.outProduct([self.getLeg(label) for label in legList], newLabel)
+            return self.outProduct(self.getLegsByLabel(legList), newLabel)
 
         # connectedLegs = [leg for leg in legList if (leg.bond is not None)]
         # if (len(connectedLegs) > 0):
-- 
2.43.0


From 7b7add0ebc346371606b6942d94d9cb0416c7e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:58 +0000
Subject: [PATCH 11/48] fix: summing out legs keeps the weights for a list of
 labels, ignores unknown labels and works without data

---
 src/CTL/tensor/diagonalTensor.py | 6 ++++--
 src/CTL/tensor/tensor.py         | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/CTL/tensor/diagonalTensor.py b/src/CTL/tensor/diagonalTensor.py
index c011999..17683b3 100644
--- a/src/CTL/tensor/diagonalTensor.py
+++ b/src/CTL/tensor/diagonalTensor.py
@@ -741,13 +741,15 @@ class DiagonalTensor(Tensor):
         # if weights is None:
         if (len(self.legs) == 0):
             # not a diagonal tensor, since the last sum will give a single value
-            if weights is None:
+            if (self.tensorLikeFlag):
+                pass
+            elif weights is None:
                 self.a = xplib.xp.array(xplib.xp.sum(self.a))
             else:
                 self.a = xplib.xp.array(xplib.xp.sum(self.a * weights))
             self._length = 1
         else:
-            if (weights is not None):
+            if (weights is not None) and (not self.tensorLikeFlag):
                 self.a = self.a * weights
 
     def typeName(self):
diff --git a/src/CTL/tensor/tensor.py b/src/CTL/tensor/tensor.py
index b9a9ae3..a377c7d 100644
--- a/src/CTL/tensor/tensor.py
+++ b/src/CTL/tensor/tensor.py
@@ -1096,7 +1096,8 @@ class Tensor(TensorBase):
         
         idx = self.legs.index(leg)
         # self.a = xplib.xp.sum(self.a, axis = idx)
-        self.a = funcs.sumOnAxis(self.a, axis = idx, weights = weights)
+        if (not self.tensorLikeFlag):
+            self.a = funcs.sumOnAxis(self.a, axis = idx, weights = weights)
         self.legs = self.legs[:idx] + self.legs[(idx + 1):]
     
     def sumOutLegByLabel(self, label, backward = False, weights = None):
@@ -1115,11 +1116,12 @@ class Tensor(TensorBase):
         """
         if isinstance(label, list):
             for l in label:
-                self.sumOutLegByLabel(l, backward)
+                self.sumOutLegByLabel(l, backward, weights)
             return 
         leg = self.getLeg(label, backward = backward)
         if leg is None:
             warnings.warn(funcs.warningMessage("leg {} is not in tensor {}, do nothing.".format(label, self), location = 'Tensor.sumOutLegByLabel'), RuntimeWarning)
+            return
         self.sumOutLeg(leg, weights = weights)
     
 def TensorLike(shape = None, labels = None, data = None, degreeOfFreedom = None, name = None, legs = None, diagonalFlag = False):
-- 
2.43.0


From 28587a72495599fbfc88ab6537bc49f2a61ec95e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:24 +0000
Subject: [PATCH 12/48] fix: mergeLink names the two sides of a single bond
 separately when two names are given

---
 src/CTL/tensor/contract/link.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/CTL/tensor/contract/link.py b/src/CTL/tensor/contract/link.py
index bed7c6d..cd2b564 100644
--- a/src/CTL/tensor/contract/link.py
+++ b/src/CTL/tensor/contract/link.py
@@ -93,7 +93,9 @@ def mergeLink(ta, tb, bondName = None, renameWarning = True):
     if (len(mergeLegA) == 1):
         if (renameWarning):
             warnings.warn(funcs.warningMessage(warn = 'mergeLink cannot merge links between two tensors {} and {} sharing one bond, only rename'.format(ta, tb), location = funcName), RuntimeWarning)
-        if (bondName is not None):
+        if (isinstance(bondName, (tuple, list))):
+            mergeLegA[0].name, mergeLegB[0].name = bondName
+        elif (bondName is not None):
             mergeLegA[0].name = bondName 
             mergeLegB[0].name = bondName
         return ta, tb
-- 
2.43.0


From 719edcacdd1c484fd4f85863833f8fb26a003be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:59 +0000
Subject: [PATCH 13/48] fix: merging with truncation never makes the bond
 larger than it was

---
 src/CTL/tensor/contract/contract.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CTL/tensor/contract/contract.py b/src/CTL/tensor/contract/contract.py
index 714365b..4412eb9 100644
--- a/src/CTL/tensor/contract/contract.py
+++ b/src/CTL/tensor/contract/contract.py
@@ -259,7 +259,7 @@ def merge(ta, tb, chi = None, bondName = None, renameWarning = True):
 
         u, s, vh = xplib.xp.linalg.svd(mat)
 
-        chi = min([chi, funcs.nonZeroElementN(s), matA.shape[0], matB.shape[1]])
+        chi = min([chi, funcs.nonZeroElementN(s), matA.shape[0], matA.shape[1], matB.shape[1]])
         u = u[:, :chi]
         s = s[:chi]
         vh = vh[:chi]
-- 
2.43.0


From 51e98226baf8734a5c389caf7100cc0e83b61a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:02 +0000
Subject: [PATCH 14/48] fix: shape-only contraction of a diagonal and a dense
 tensor orders legs as the real one

---
 src/CTL/tensor/contract/contract.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/CTL/tensor/contract/contract.py b/src/CTL/tensor/contract/contract.py
index 4412eb9..445c65c 100644
--- a/src/CTL/tensor/contract/contract.py
+++ b/src/CTL/tensor/contract/contract.py
@@ -128,6 +128,8 @@ def contractTwoTensors(ta, tb, bonds = None, outProductWarning = True):
             return DiagonalTensor(data = xplib.xp.array(xplib.xp.sum(ta.a * tb.a)))
     
     if (ta.diagonalFlag):
+        newLegs = tbRemainLegs + taRemainLegs 
+        newShape = tuple([leg.dim for leg in newLegs])
         if (tensorLikeContract):
             return Tensor(shape = newShape, data = None, legs = newLegs, tensorLikeFlag = True)
         # then tb is not diagonal tensor
@@ -169,8 +171,6 @@ def contractTwoTensors(ta, tb, bonds = None, outProductWarning = True):
         # print('newData = {}'.format(newData))
         # print('shape = {}, data = {}, legs = {}'.format(newShape, newData, newLegs))
 
-        newLegs = tbRemainLegs + taRemainLegs 
-        newShape = tuple([leg.dim for leg in newLegs])
         return Tensor(shape = newShape, data = newData, legs = newLegs)
 
     if (tensorLikeContract):
-- 
2.43.0


From c0e23fc1e5ea83ccfa0e8c6504ce979722a31890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:20 +0000
Subject: [PATCH 15/48] fix: a diagonal tensor of a requested shape is not
 turned into a scalar by one-element data

---
 src/CTL/tensor/diagonalTensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CTL/tensor/diagonalTensor.py b/src/CTL/tensor/diagonalTensor.py
index 17683b3..4467bee 100644
--- a/src/CTL/tensor/diagonalTensor.py
+++ b/src/CTL/tensor/diagonalTensor.py
@@ -256,7 +256,7 @@ class DiagonalTensor(Tensor):
         funcName = "DiagonalTensor.deduction"
 
         # first, consider scalar case
-        if (legs is None) and (labels is None) and (shape == () or ((data is not None) and (data.shape == ()))):
+        if (legs is None) and (labels is None) and (shape == () or ((shape is None or isinstance(shape, int)) and (data is not None) and (data.shape == ()))):
             if (shape is not None) and (not self.checkShapeDataCompatible(shape = shape, data = data)):
                 raise ValueError(funcs.errorMessage('data shape {} is not compatible with required shape {}'.format(data.shape, shape), location = funcName))
             return [], self.generateData(shape = (), data = data, isTensorLike = isTensorLike), [], () # scalar
-- 
2.43.0


From f2f199c6dd59cfaba71296fcdd5f4b73f7750aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:27 +0000
Subject: [PATCH 16/48] fix: makeLink checks all dimensions before making any
 link

---
 src/CTL/tensor/contract/link.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/CTL/tensor/contract/link.py b/src/CTL/tensor/contract/link.py
index cd2b564..0ad3960 100644
--- a/src/CTL/tensor/contract/link.py
+++ b/src/CTL/tensor/contract/link.py
@@ -52,9 +52,12 @@ def makeLink(legA, legB, tensorA = None, tensorB = None):
 
     assert (len(legA) == len(legB)), "Error: the number of legs from A({}) and B({}) are not the same.".format(len(legA), len(legB))
 
-    bonds = []
+    # check all the legs before making any link, so that a refused request changes nothing
     for leg1, leg2 in zip(legA, legB):
         assert (leg1.dim == leg2.dim), "Error: leg {} and {} to be linked do not have the same dimensions.".format(leg1, leg2)
+
+    bonds = []
+    for leg1, leg2 in zip(legA, legB):
         bonds.append(Bond(leg1, leg2))
     
     return bonds
-- 
2.43.0


From 9b67a6946527e34d2978b1ae7f4cb334f37fbc89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:27 +0000
Subject: [PATCH 17/48] fix: mergeLink refuses diagonal tensors before changing
 the other tensor

---
 src/CTL/tensor/contract/link.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/CTL/tensor/contract/link.py b/src/CTL/tensor/contract/link.py
index 0ad3960..1113931 100644
--- a/src/CTL/tensor/contract/link.py
+++ b/src/CTL/tensor/contract/link.py
@@ -117,6 +117,10 @@ def mergeLink(ta, tb, bondName = None, renameWarning = True):
     else:
         bondNameA, bondNameB = bondName # tuple/list
 
+    # refuse before combining the legs of ta, or the legs of tb would be left with broken bonds
+    if (ta.diagonalFlag or tb.diagonalFlag):
+        raise TypeError(funcs.errorMessage(location = funcName, err = "mergeLink cannot merge several links of a diagonal tensor: {} and {} obtained.".format(ta, tb)))
+
     newLegA = ta.outProduct(legList = mergeLegA, newLabel = bondNameA)
     newLegB = tb.outProduct(legList = mergeLegB, newLabel = bondNameB)
 
-- 
2.43.0


From dfb96bc0c1fedc0b1154e4c0a90ba588c0cd7d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:21 +0000
Subject: [PATCH 18/48] fix: tensorSVDDecomposition deduces rows or columns,
 solveEnv keeps no vector of a zero environment

---
 src/CTL/funcs/linalg.py      | 3 ++-
 src/CTL/tensor/tensorFunc.py | 4 ++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/CTL/funcs/linalg.py b/src/CTL/funcs/linalg.py
index 62d6ca3..6260869 100644
--- a/src/CTL/funcs/linalg.py
+++ b/src/CTL/funcs/linalg.py
@@ -26,5 +26,6 @@ def solveEnv(aMat, chi, threshold = 1e-10):
     # if (chi > eigenVectorsEnv.shape[1]):
     #     return eigenVectorsEnv, 0.0
     # else:
-    return xplib.xp.flip(eigenVectorsEnv[:, -chi:], axis = 1), error
+    # not [:, -chi:], which is everything for chi == 0
+    return xplib.xp.flip(eigenVectorsEnv[:, (eigenVectorsEnv.shape[1] - chi):], axis = 1), error
     # return eigenVectorsEnv[:, -chi:]
\ No newline at end of file
diff --git a/src/CTL/tensor/tensorFunc.py b/src/CTL/tensor/tensorFunc.py
index 335cfac..84350da 100644
--- a/src/CTL/tensor/tensorFunc.py
+++ b/src/CTL/tensor/tensorFunc.py
@@ -74,6 +74,10 @@ def tensorSVDDecomposition(a, rows = None, cols = None, innerLabels = None, pres
     funcName = "CTL.tensor.tensorFuncs.tensorSVDDecomposition"
     aMat = a.toMatrix(rows = rows, cols = cols)
     # print('aMat = {}'.format(aMat))
+    if (rows is None):
+        rows = funcs.listDifference(a.labels, cols)
+    if (cols is None):
+        cols = funcs.listDifference(a.labels, rows)
     rowName = '|'.join(rows)
     colName = '|'.join(cols)
 
-- 
2.43.0


From 73415d9ba8430741c4cef0246cd6c8728019ab59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:37 +0000
Subject: [PATCH 19/48] fix: MPS takes the largest bond as chi when none is
 given, merging sites forgets the canonical center

---
 src/CTL/examples/MPS.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/CTL/examples/MPS.py b/src/CTL/examples/MPS.py
index 8ce70b4..df03bfa 100644
--- a/src/CTL/examples/MPS.py
+++ b/src/CTL/examples/MPS.py
@@ -50,7 +50,7 @@ class FreeBoundaryMPS:
         bondChi = -1
         for i in range(self.n - 1):
             bond = shareBonds(self._tensors[i], self._tensors[i + 1])[0]
-            bondChi = min(bondChi, bond.legs[0].dim) 
+            bondChi = max(bondChi, bond.legs[0].dim) 
         
         if (chi is None):
             return bondChi 
@@ -242,6 +242,8 @@ class FreeBoundaryMPS:
         funcName = 'FreeBoundaryMPS.mergeTensor'
         assert (self.isIndex(idx) and self.isIndex(idx + 1)), funcs.errorMessage("{} or {} is invalid index.".format(idx, idx + 1), location = funcName)
         self._tensors = self._tensors[:idx] + [newTensor] + self._tensors[(idx + 2):]
+        # indices are shifted, and newTensor is not known to be an isometry
+        self.activeIdx = None
 
     def hasTensor(self, tensor):
         return tensor in self._tensors
-- 
2.43.0


From 992af2ad75b1e151753c571c5f1465cbb83f735c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:20 +0000
Subject: [PATCH 20/48] fix: shape-only Schmidt decomposition with swapped
 labels keeps the dimension the real one has

---
 src/CTL/examples/Schimdt.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/CTL/examples/Schimdt.py b/src/CTL/examples/Schimdt.py
index 93a3857..935e47f 100644
--- a/src/CTL/examples/Schimdt.py
+++ b/src/CTL/examples/Schimdt.py
@@ -48,6 +48,9 @@ def SchimdtDecomposition(ta, tb, chi, squareRootSeparation = False, swapLabels =
     assert ta.labelsInTensor(swapLabels[0]), funcs.errorMessage(err = "{} not in tensor {}.".format(swapLabels[0], ta), location = funcName)
     assert tb.labelsInTensor(swapLabels[1]), funcs.errorMessage(err = "{} not in tensor {}.".format(swapLabels[1], tb), location = funcName)
 
+    swapDimA = funcs.tupleProduct(ta.shapeOfLabels(swapLabels[0]))
+    swapDimB = funcs.tupleProduct(tb.shapeOfLabels(swapLabels[1]))
+
     ta.addTensorTag('a')
     tb.addTensorTag('b') 
     for swapLabel in swapLabels[0]:
@@ -74,7 +77,8 @@ def SchimdtDecomposition(ta, tb, chi, squareRootSeparation = False, swapLabels =
         u = None 
         vh = None
         s = None
-        chi = min([chi, totShapeA, totShapeB, sbDim])
+        # swapped legs cross the bond, too
+        chi = min([chi, totShapeA, totShapeB, sbDim * swapDimA * swapDimB, sbDim * (totShapeA // swapDimB) * (totShapeB // swapDimA)])
     else:
         mat = tot.toMatrix(rows = labelA, cols = labelB)
 
-- 
2.43.0


From b58ed372690b2ff68c77a3560e6bfa993b0cf567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:51 +0000
Subject: [PATCH 21/48] fix: a finite tensor network owns its tensor names and
 forgets its contraction order when it is modified

---
 src/CTL/tensornetwork/tensornetwork.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/CTL/tensornetwork/tensornetwork.py b/src/CTL/tensornetwork/tensornetwork.py
index eb83d2a..b5e8a9b 100644
--- a/src/CTL/tensornetwork/tensornetwork.py
+++ b/src/CTL/tensornetwork/tensornetwork.py
@@ -7,8 +7,9 @@ class FiniteTensorNetwork:
     # instead of save the tensors: save a set of operations
     # provide a function api FiniteTensorNetwork.contract(tensorDict)
 
-    def __init__(self, tensorNames = [], realCost = True, typicalDim = 10):
-        self.tensorNames = tensorNames
+    def __init__(self, tensorNames = None, realCost = True, typicalDim = 10):
+        # a copy: neither shared with the caller nor with other networks
+        self.tensorNames = [] if (tensorNames is None) else list(tensorNames)
         self.optimalSeq = None 
         self.realCost = realCost 
         self.links = []
@@ -39,11 +40,13 @@ class FiniteTensorNetwork:
         # assert (not self.locked), "Error: adding tensor {} to a FTN which is locked.".format(name)
         self.checkLock('adding tensor {}'.format(name))
         self.tensorNames.append(name)
+        self.optimalSeq = None
     def removeTensor(self, name):
         # assert (not self.locked), "Error: removing tensor {} to a FTN which is locked.".format(name)
         self.checkLock('removing tensor {}'.format(name))
         assert (name in self.tensorNames), "Error: removing tensor {} to a FTN which do not contain it.".format(name)
         self.tensorNames.remove(name)
+        self.optimalSeq = None
 
     def lock(self):
         self.locked = True 
@@ -54,6 +57,7 @@ class FiniteTensorNetwork:
         # assert (not self.locked), "Error: adding link ({}, {}) to a FTN which is locked.".format((aName, aLeg), (bName, bLeg))
         self.checkLock('adding link ({}, {})'.format((aName, aLeg), (bName, bLeg)))
         self.links.append(((aName, aName + '-' + aLeg), (bName, bName + '-' + bLeg)))
+        self.optimalSeq = None
 
     def addPreNameChange(self, name, legName, newName):
         self.checkLock('add pre name change for tensor {}: from {} to {}'.format(name, legName, newName))
-- 
2.43.0


From 880d62f40c2585059d2183d5eb13e9a1bcc50066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:09 +0000
Subject: [PATCH 22/48] fix: numpy numbers and integers count as real numbers
 for couplings and weights

---
 src/CTL/funcs/funcs.py  | 3 ++-
 src/CTL/models/Ising.py | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/CTL/funcs/funcs.py b/src/CTL/funcs/funcs.py
index 3bc5d70..dd916e2 100644
--- a/src/CTL/funcs/funcs.py
+++ b/src/CTL/funcs/funcs.py
@@ -4,6 +4,7 @@ import CTL.funcs.xplib as xplib
 import string
 import random
 import math
+import numbers
 import warnings
 from copy import deepcopy
 
@@ -1240,7 +1241,7 @@ def isRealNumber(a):
     bool
         Whether a is a number(int, float) or not.
     """
-    return (type(a) == int) or (type(a) == float)
+    return isinstance(a, numbers.Real) and not isinstance(a, bool)
 
 def pairIterator(a):
     """
diff --git a/src/CTL/models/Ising.py b/src/CTL/models/Ising.py
index 0e0344d..e9b110f 100644
--- a/src/CTL/models/Ising.py
+++ b/src/CTL/models/Ising.py
@@ -112,7 +112,7 @@ def plaquetteIsingTensor(weight, diamondForm = False):
     """
 
     funcName = 'CTL.models.Ising.plaquetteIsingTensor'
-    if isinstance(weight, float):
+    if funcs.isRealNumber(weight):
         weight = [weight, weight]
     else:
         assert len(weight) == 2, funcs.errorMessage('Only float or (float, float) is accepted by {}, {} obtained.'.format(funcName, weight), location = funcName)
-- 
2.43.0


From c389f9e0ba02bbef2ac2fc80b49ffdd4df63e3ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:09 +0000
Subject: [PATCH 23/48] fix: Ising networks of graphs with isolated vertices

---
 src/CTL/models/Ising.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/CTL/models/Ising.py b/src/CTL/models/Ising.py
index e9b110f..a3bc695 100644
--- a/src/CTL/models/Ising.py
+++ b/src/CTL/models/Ising.py
@@ -200,7 +200,11 @@ def IsingSiteTensor(betaJ, dim = 4, labels = None):
     assert ((labels is None) or (len(labels) == dim)), funcs.errorMessage("labels {} do not have required dim {}.".format(labels, dim))
 
     a = xplib.xp.array([1.0, 1.0])
-    a = funcs.diagonalNDTensor(a, dim = dim)
+    if (dim == 0):
+        # an isolated site: only the number of its spin states is left
+        a = xplib.xp.sum(a)
+    else:
+        a = funcs.diagonalNDTensor(a, dim = dim)
     if (funcs.isRealNumber(betaJ)):
         betaJ = [betaJ] * dim
     # edgeMat = IsingEdgeMatrix(betaJ)
-- 
2.43.0


From 570ad1a06475dfdf2ab1f7ebfe56c734298f8b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:09 +0000
Subject: [PATCH 24/48] fix: Ising site tensors of negative couplings are not
 NaN

---
 src/CTL/models/Ising.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/CTL/models/Ising.py b/src/CTL/models/Ising.py
index a3bc695..110f9ee 100644
--- a/src/CTL/models/Ising.py
+++ b/src/CTL/models/Ising.py
@@ -174,8 +174,11 @@ def IsingEdgeMatrix(betaJ):
     ndarray of (2, 2)
         The local edge tensor for one site (diagonal) tensor to absorb.
     """
-    diag = xplib.xp.sqrt(xplib.xp.cosh(betaJ) * 0.5) + xplib.xp.sqrt(xplib.xp.sinh(betaJ) * 0.5)
-    offDiag = xplib.xp.sqrt(xplib.xp.cosh(betaJ) * 0.5) - xplib.xp.sqrt(xplib.xp.sinh(betaJ) * 0.5)
+    # for antiferromagnetic interaction (betaJ < 0), the symmetric edge matrix is complex
+    sinh = xplib.xp.sinh(betaJ) * 0.5
+    sqrtSinh = xplib.xp.sqrt(sinh) if (sinh >= 0) else 1.0j * xplib.xp.sqrt(-sinh)
+    diag = xplib.xp.sqrt(xplib.xp.cosh(betaJ) * 0.5) + sqrtSinh
+    offDiag = xplib.xp.sqrt(xplib.xp.cosh(betaJ) * 0.5) - sqrtSinh
     return xplib.xp.array([[diag, offDiag], [offDiag, diag]])
 
 def IsingSiteTensor(betaJ, dim = 4, labels = None):
-- 
2.43.0


From d9f03ee9b741eeb5810d4d985496e10b3f3fe1d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:48 +0000
Subject: [PATCH 25/48] fix: degrees of freedom of a pair of triangle tensors
 add up in TriangleTRG.logZDensity

---
 src/CTL/examples/TRG.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CTL/examples/TRG.py b/src/CTL/examples/TRG.py
index 04a7c5b..3f9c412 100644
--- a/src/CTL/examples/TRG.py
+++ b/src/CTL/examples/TRG.py
@@ -97,7 +97,7 @@ class TriangleTRG:
         stepN = len(self.aArchive)
         # print(stepN, len(self.aNorms))
         for i in range(stepN):
-            dof = self.aArchive[i].degreeOfFreedom * self.bArchive[i].degreeOfFreedom
+            dof = self.aArchive[i].degreeOfFreedom + self.bArchive[i].degreeOfFreedom
             accumulateLogZ += xplib.xp.log(self.aNorms[i] * self.bNorms[i]) / dof
             TNTrace = triangleTensorTrace(self.aArchive[i], self.bArchive[i])
             currLogZ = accumulateLogZ + xplib.xp.log(TNTrace.single()) / dof
-- 
2.43.0


From cbadde2d89bf0d3780c59ed76c01a07baa26d57b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:48 +0000
Subject: [PATCH 26/48] fix: SquareTRG from two different tensors

---
 src/CTL/examples/TRG.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/CTL/examples/TRG.py b/src/CTL/examples/TRG.py
index 3f9c412..3fe87f3 100644
--- a/src/CTL/examples/TRG.py
+++ b/src/CTL/examples/TRG.py
@@ -117,6 +117,11 @@ class SquareTRG:
         else:
             self.a = makeSquareTensor(a)
 
+        self.aNorms = []
+        self.errors = []
+
+        self.aArchive = []
+
         if (self.a.degreeOfFreedom is None):
             self.a.degreeOfFreedom = 1
         if (b is not None):
@@ -125,16 +130,11 @@ class SquareTRG:
             else:
                 self.b = makeSquareTensor(b)
             
+            # the first archived tensor contains both a and b
             self.iterate()
         else:
             self.b = self.a
-
-        self.aNorms = []
-        self.errors = []
-
-        self.aArchive = []
-
-        self.appendToArchive()
+            self.appendToArchive()
 
     def appendToArchive(self):
         self.normalizeTensors()
-- 
2.43.0


From a5e4a030fe8dcc620436ed44e24949fea917b888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:48 +0000
Subject: [PATCH 27/48] fix: impurity tensors without degree of freedom count
 as one

---
 src/CTL/examples/impurity.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/CTL/examples/impurity.py b/src/CTL/examples/impurity.py
index 11aac48..63002ea 100644
--- a/src/CTL/examples/impurity.py
+++ b/src/CTL/examples/impurity.py
@@ -50,7 +50,8 @@ class ImpurityTensorNetwork:
         newImpurities = []
         norm = self.RG.getNorm(self.iterateIdx + 1)
         partN = self.RG.impurityParts
-        newDOF = partN * self.impurities[0].degreeOfFreedom
+        dof = self.impurities[0].degreeOfFreedom
+        newDOF = partN * (1 if (dof is None) else dof)
         for i in range(self.highestOrder):
             weight = 0.5 ** i 
             totalWeight = 0.0
-- 
2.43.0


From 8b7f553af98b850d4c308a293c0118e2c55a4758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:24 +0000
Subject: [PATCH 28/48] fix: loadData uses the float alias that NumPy removed

---
 src/CTL/funcs/funcs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CTL/funcs/funcs.py b/src/CTL/funcs/funcs.py
index dd916e2..2a441b3 100644
--- a/src/CTL/funcs/funcs.py
+++ b/src/CTL/funcs/funcs.py
@@ -307,7 +307,7 @@ def loadData(fileName):
         A 2-d array of the file, columns and rows as two dimensions.
     """
     f = open(fileName, 'r')
-    data = xplib.xp.array([xplib.xp.array([xplib.xp.float(x) for x in line.strip().split(' ')]) for line in f])
+    data = xplib.xp.array([xplib.xp.array([float(x) for x in line.strip().split(' ')]) for line in f])
     return data
 
 def randomString(n = 10):
-- 
2.43.0


From c02966e78cbeb9ab8860fdad6bb8001092f9c236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:24 +0000
Subject: [PATCH 29/48] fix: ndEye sets only the first element of a
 one-dimensional tensor

---
 src/CTL/funcs/funcs.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/CTL/funcs/funcs.py b/src/CTL/funcs/funcs.py
index 2a441b3..8ed637a 100644
--- a/src/CTL/funcs/funcs.py
+++ b/src/CTL/funcs/funcs.py
@@ -1144,10 +1144,7 @@ def ndEye(n, l):
         A tensor of shape (l, l, ... l), all values on the main diagonal is 1.
     """
     res = xplib.xp.zeros(tuple([l] * n))
-    if (n == 1):
-        res[0] = 1.0
-    else:
-        res[xplib.xp.diag_indices(l, n)] = 1
+    res[xplib.xp.diag_indices(l, n)] = 1
     return res
 
 def nonZeroElementN(s, eps = 1e-10):
-- 
2.43.0


From b9d11821b839b292d8dd71b89041cf24f39a43a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:24 +0000
Subject: [PATCH 30/48] fix: floatRelativeEqual is false for equal negative or
 zero numbers

---
 src/CTL/funcs/funcs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CTL/funcs/funcs.py b/src/CTL/funcs/funcs.py
index 8ed637a..306fccf 100644
--- a/src/CTL/funcs/funcs.py
+++ b/src/CTL/funcs/funcs.py
@@ -973,7 +973,7 @@ def floatRelativeEqual(a, b, eps = 1e-7):
     bool
         Whether the two numbers are equal.
     """
-    return abs(a - b) < eps * 0.5 * (a + b)
+    return abs(a - b) <= eps * 0.5 * (abs(a) + abs(b))
 
 def floatArrayEqual(a, b, eps = 1e-7):
     """
-- 
2.43.0


From ae62be496649c2708f190498ff6eb3297c78f295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:24 +0000
Subject: [PATCH 31/48] fix: commonElements repeats elements that appear
 several times

---
 src/CTL/funcs/funcs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CTL/funcs/funcs.py b/src/CTL/funcs/funcs.py
index 306fccf..77593c7 100644
--- a/src/CTL/funcs/funcs.py
+++ b/src/CTL/funcs/funcs.py
@@ -167,7 +167,7 @@ def commonElements(x, y):
     """
     xc = Counter(x)
     yc = Counter(y)
-    return list((xc & yc).elements())
+    return list(xc & yc)
 
 def listSymmetricDifference(x, y):
     """
-- 
2.43.0


From 87be8ddbb40a5f52f7927f94f9386e25318f641d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:38 +0000
Subject: [PATCH 32/48] fix: StringSet.add and remove change the length of
 generated strings

---
 src/CTL/funcs/stringSet.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/CTL/funcs/stringSet.py b/src/CTL/funcs/stringSet.py
index e219d29..d4f6e7a 100644
--- a/src/CTL/funcs/stringSet.py
+++ b/src/CTL/funcs/stringSet.py
@@ -66,7 +66,6 @@ class StringSet:
         """
         assert not (s in self.stringSet), funcs.errorMessage(err = "Error: name '{}' is already used.".format(s), location = "StringSet.add")
         self.stringSet.add(s)
-        self.n += 1
 
     def remove(self, s):
         """
@@ -84,7 +83,6 @@ class StringSet:
         """
         assert (s in self.stringSet), funcs.errorMessage(err = "Error: name '{}' is not used.".format(s), location = "StringSet.remove")
         self.stringSet.remove(s)
-        self.n -= 1
 
     def contains(self, s):
         """
-- 
2.43.0


From 72431c9425b4564548a98b43275f6d72c17f7b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:08 +0000
Subject: [PATCH 33/48] Revert "fix: impurity tensors without degree of freedom
 count as one"

This reverts commit a5e4a030fe8dcc620436ed44e24949fea917b888.
---
 src/CTL/examples/impurity.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/CTL/examples/impurity.py b/src/CTL/examples/impurity.py
index 63002ea..11aac48 100644
--- a/src/CTL/examples/impurity.py
+++ b/src/CTL/examples/impurity.py
@@ -50,8 +50,7 @@ class ImpurityTensorNetwork:
         newImpurities = []
         norm = self.RG.getNorm(self.iterateIdx + 1)
         partN = self.RG.impurityParts
-        dof = self.impurities[0].degreeOfFreedom
-        newDOF = partN * (1 if (dof is None) else dof)
+        newDOF = partN * self.impurities[0].degreeOfFreedom
         for i in range(self.highestOrder):
             weight = 0.5 ** i 
             totalWeight = 0.0
-- 
2.43.0


From a9ae394c34221ae1b72059a840cb853d95946d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:08 +0000
Subject: [PATCH 34/48] Revert "fix: SquareTRG from two different tensors"

This reverts commit cbadde2d89bf0d3780c59ed76c01a07baa26d57b.
---
 src/CTL/examples/TRG.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/CTL/examples/TRG.py b/src/CTL/examples/TRG.py
index 3fe87f3..3f9c412 100644
--- a/src/CTL/examples/TRG.py
+++ b/src/CTL/examples/TRG.py
@@ -117,11 +117,6 @@ class SquareTRG:
         else:
             self.a = makeSquareTensor(a)
 
-        self.aNorms = []
-        self.errors = []
-
-        self.aArchive = []
-
         if (self.a.degreeOfFreedom is None):
             self.a.degreeOfFreedom = 1
         if (b is not None):
@@ -130,11 +125,16 @@ class SquareTRG:
             else:
                 self.b = makeSquareTensor(b)
             
-            # the first archived tensor contains both a and b
             self.iterate()
         else:
             self.b = self.a
-            self.appendToArchive()
+
+        self.aNorms = []
+        self.errors = []
+
+        self.aArchive = []
+
+        self.appendToArchive()
 
     def appendToArchive(self):
         self.normalizeTensors()
-- 
2.43.0


From a3226ce7412b80301381e2104b03d0dd49aeeede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:08 +0000
Subject: [PATCH 35/48] Revert "fix: degrees of freedom of a pair of triangle
 tensors add up in TriangleTRG.logZDensity"

This reverts commit d9f03ee9b741eeb5810d4d985496e10b3f3fe1d2.
---
 src/CTL/examples/TRG.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CTL/examples/TRG.py b/src/CTL/examples/TRG.py
index 3f9c412..04a7c5b 100644
--- a/src/CTL/examples/TRG.py
+++ b/src/CTL/examples/TRG.py
@@ -97,7 +97,7 @@ class TriangleTRG:
         stepN = len(self.aArchive)
         # print(stepN, len(self.aNorms))
         for i in range(stepN):
-            dof = self.aArchive[i].degreeOfFreedom + self.bArchive[i].degreeOfFreedom
+            dof = self.aArchive[i].degreeOfFreedom * self.bArchive[i].degreeOfFreedom
             accumulateLogZ += xplib.xp.log(self.aNorms[i] * self.bNorms[i]) / dof
             TNTrace = triangleTensorTrace(self.aArchive[i], self.bArchive[i])
             currLogZ = accumulateLogZ + xplib.xp.log(TNTrace.single()) / dof
-- 
2.43.0


From c287ad154efb21077b7e3b1b82c5d522a3328564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:08 +0000
Subject: [PATCH 36/48] Revert "fix: shape-only Schmidt decomposition with
 swapped labels keeps the dimension the real one has"

This reverts commit 992af2ad75b1e151753c571c5f1465cbb83f735c.
---
 src/CTL/examples/Schimdt.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/CTL/examples/Schimdt.py b/src/CTL/examples/Schimdt.py
index 935e47f..93a3857 100644
--- a/src/CTL/examples/Schimdt.py
+++ b/src/CTL/examples/Schimdt.py
@@ -48,9 +48,6 @@ def SchimdtDecomposition(ta, tb, chi, squareRootSeparation = False, swapLabels =
     assert ta.labelsInTensor(swapLabels[0]), funcs.errorMessage(err = "{} not in tensor {}.".format(swapLabels[0], ta), location = funcName)
     assert tb.labelsInTensor(swapLabels[1]), funcs.errorMessage(err = "{} not in tensor {}.".format(swapLabels[1], tb), location = funcName)
 
-    swapDimA = funcs.tupleProduct(ta.shapeOfLabels(swapLabels[0]))
-    swapDimB = funcs.tupleProduct(tb.shapeOfLabels(swapLabels[1]))
-
     ta.addTensorTag('a')
     tb.addTensorTag('b') 
     for swapLabel in swapLabels[0]:
@@ -77,8 +74,7 @@ def SchimdtDecomposition(ta, tb, chi, squareRootSeparation = False, swapLabels =
         u = None 
         vh = None
         s = None
-        # swapped legs cross the bond, too
-        chi = min([chi, totShapeA, totShapeB, sbDim * swapDimA * swapDimB, sbDim * (totShapeA // swapDimB) * (totShapeB // swapDimA)])
+        chi = min([chi, totShapeA, totShapeB, sbDim])
     else:
         mat = tot.toMatrix(rows = labelA, cols = labelB)
 
-- 
2.43.0


From fd38b102d6c879cf6d37372319009d19fca8532c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:08 +0000
Subject: [PATCH 37/48] Revert "fix: MPS takes the largest bond as chi when
 none is given, merging sites forgets the canonical center"

This reverts commit 73415d9ba8430741c4cef0246cd6c8728019ab59.
---
 src/CTL/examples/MPS.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/CTL/examples/MPS.py b/src/CTL/examples/MPS.py
index df03bfa..8ce70b4 100644
--- a/src/CTL/examples/MPS.py
+++ b/src/CTL/examples/MPS.py
@@ -50,7 +50,7 @@ class FreeBoundaryMPS:
         bondChi = -1
         for i in range(self.n - 1):
             bond = shareBonds(self._tensors[i], self._tensors[i + 1])[0]
-            bondChi = max(bondChi, bond.legs[0].dim) 
+            bondChi = min(bondChi, bond.legs[0].dim) 
         
         if (chi is None):
             return bondChi 
@@ -242,8 +242,6 @@ class FreeBoundaryMPS:
         funcName = 'FreeBoundaryMPS.mergeTensor'
         assert (self.isIndex(idx) and self.isIndex(idx + 1)), funcs.errorMessage("{} or {} is invalid index.".format(idx, idx + 1), location = funcName)
         self._tensors = self._tensors[:idx] + [newTensor] + self._tensors[(idx + 2):]
-        # indices are shifted, and newTensor is not known to be an isometry
-        self.activeIdx = None
 
     def hasTensor(self, tensor):
         return tensor in self._tensors
-- 
2.43.0


From 82d4196785421fab5f7acec1b3827c7290c467c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:42 +0000
Subject: [PATCH 38/48] fix: moveLegsToFront refuses a foreign or repeated leg
 before taking legs off the tensor

---
 src/CTL/tensor/diagonalTensor.py | 5 +++--
 src/CTL/tensor/tensor.py         | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/CTL/tensor/diagonalTensor.py b/src/CTL/tensor/diagonalTensor.py
index 4467bee..dfb22c3 100644
--- a/src/CTL/tensor/diagonalTensor.py
+++ b/src/CTL/tensor/diagonalTensor.py
@@ -504,13 +504,14 @@ class DiagonalTensor(Tensor):
                     currIdx += 1
                     break
 
+        restLegs = list(self.legs)
         for leg in movedLegs:
-            self.legs.remove(leg)
+            restLegs.remove(leg)
         
         # print(moveFrom, moveTo)
         # print(labelList)
         # print(self.labels)
-        self.legs = movedLegs + self.legs 
+        self.legs = movedLegs + restLegs 
         # self.a = xplib.xp.moveaxis(self.a, moveFrom, moveTo)
 
     def toVector(self):
diff --git a/src/CTL/tensor/tensor.py b/src/CTL/tensor/tensor.py
index a377c7d..0145b8e 100644
--- a/src/CTL/tensor/tensor.py
+++ b/src/CTL/tensor/tensor.py
@@ -570,13 +570,14 @@ class Tensor(TensorBase):
                     currIdx += 1
                     break
 
+        restLegs = list(self.legs)
         for leg in movedLegs:
-            self.legs.remove(leg)
+            restLegs.remove(leg)
         
         # print(moveFrom, moveTo)
         # print(labelList)
         # print(self.labels)
-        self.legs = movedLegs + self.legs 
+        self.legs = movedLegs + restLegs 
         if (not self.tensorLikeFlag):
             self.a = xplib.xp.moveaxis(self.a, moveFrom, moveTo)
 
-- 
2.43.0


From 4a78621fb4595c2e20f9b337865a5f419d7587c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:05 +0000
Subject: [PATCH 39/48] fix: sumOutLeg keeps the dtype of the tensor in step
 with its data

---
 src/CTL/tensor/diagonalTensor.py | 2 ++
 src/CTL/tensor/tensor.py         | 1 +
 2 files changed, 3 insertions(+)

diff --git a/src/CTL/tensor/diagonalTensor.py b/src/CTL/tensor/diagonalTensor.py
index dfb22c3..420a6ce 100644
--- a/src/CTL/tensor/diagonalTensor.py
+++ b/src/CTL/tensor/diagonalTensor.py
@@ -752,6 +752,8 @@ class DiagonalTensor(Tensor):
         else:
             if (weights is not None) and (not self.tensorLikeFlag):
                 self.a = self.a * weights
+        if (not self.tensorLikeFlag):
+            self.dtype = self.a.dtype
 
     def typeName(self):
         """
diff --git a/src/CTL/tensor/tensor.py b/src/CTL/tensor/tensor.py
index 0145b8e..9365987 100644
--- a/src/CTL/tensor/tensor.py
+++ b/src/CTL/tensor/tensor.py
@@ -1099,6 +1099,7 @@ class Tensor(TensorBase):
         # self.a = xplib.xp.sum(self.a, axis = idx)
         if (not self.tensorLikeFlag):
             self.a = funcs.sumOnAxis(self.a, axis = idx, weights = weights)
+            self.dtype = self.a.dtype
         self.legs = self.legs[:idx] + self.legs[(idx + 1):]
     
     def sumOutLegByLabel(self, label, backward = False, weights = None):
-- 
2.43.0


From 4b83cd1eb8b206bf9071c1e1bafd47e2472cdf28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:31 +0000
Subject: [PATCH 40/48] fix: merge cuts singular values relative to the largest
 one, tensors of small scale keep their bond

---
 src/CTL/tensor/contract/contract.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CTL/tensor/contract/contract.py b/src/CTL/tensor/contract/contract.py
index 445c65c..7d7296a 100644
--- a/src/CTL/tensor/contract/contract.py
+++ b/src/CTL/tensor/contract/contract.py
@@ -259,7 +259,7 @@ def merge(ta, tb, chi = None, bondName = None, renameWarning = True):
 
         u, s, vh = xplib.xp.linalg.svd(mat)
 
-        chi = min([chi, funcs.nonZeroElementN(s), matA.shape[0], matA.shape[1], matB.shape[1]])
+        chi = min([chi, funcs.nonZeroElementN(s, eps = 1e-10 * s[0]), matA.shape[0], matA.shape[1], matB.shape[1]])
         u = u[:, :chi]
         s = s[:chi]
         vh = vh[:chi]
-- 
2.43.0


From b8b93f39402dd29bcd4adf063b871982454b08cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:13 +0000
Subject: [PATCH 41/48] fix: contraction costs are exact integers, square roots
 of dimensions and a float sum lost digits for large ones

---
 src/CTL/tensor/contract/optimalContract.py |  2 +-
 src/CTL/tensor/contract/tensorGraph.py     | 19 ++++++++++---------
 2 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/CTL/tensor/contract/optimalContract.py b/src/CTL/tensor/contract/optimalContract.py
index 8dc3e4d..edbadd0 100644
--- a/src/CTL/tensor/contract/optimalContract.py
+++ b/src/CTL/tensor/contract/optimalContract.py
@@ -221,7 +221,7 @@ def contractAndCostWithSequence(tensorList, seq = None, bf = False, typicalDim =
         else:
             seq = generateOptimalSequence(tensorList, bf = bf, typicalDim = typicalDim)
         # print(seq)
-    totalCost = 0.0
+    totalCost = 0
     totalLevel = 0
 
     if (not inplace):
diff --git a/src/CTL/tensor/contract/tensorGraph.py b/src/CTL/tensor/contract/tensorGraph.py
index 23e8bf5..66b3cde 100644
--- a/src/CTL/tensor/contract/tensorGraph.py
+++ b/src/CTL/tensor/contract/tensorGraph.py
@@ -187,15 +187,16 @@ class TensorGraph(UndirectedGraph):
             diagonal = diagonalA or diagonalB
 
             res = 1
-            for l, s in zip(edgesA + edgesB, shapeA + shapeB):
-                if (l in clb):
-                    if (not diagonal):
-                        res *= xplib.xp.sqrt(s)
-                    # if single diagonal: then the cost should be output shape
-                else:
-                    res *= s 
-
-            return int(res + 0.5)
+            for l, s in zip(edgesA, shapeA):
+                # if single diagonal: then the cost should be output shape
+                if (l not in clb) or (not diagonal):
+                    res *= s
+            for l, s in zip(edgesB, shapeB):
+                # a common edge is counted only once, from the side of A
+                if (l not in clb):
+                    res *= s
+
+            return res
 
         def getCostTypical(tsA, tsB):
             edgesA, _, diagonalA = self.contractRes[tsA]
-- 
2.43.0


From f7439213e7bfb7a2551f57d8f3350e47353dfd71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:48 +0000
Subject: [PATCH 42/48] fix: addTensorTag refuses a tagged leg before it
 renames the others

---
 src/CTL/tensor/tensor.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/CTL/tensor/tensor.py b/src/CTL/tensor/tensor.py
index 9365987..2746080 100644
--- a/src/CTL/tensor/tensor.py
+++ b/src/CTL/tensor/tensor.py
@@ -840,6 +840,7 @@ class Tensor(TensorBase):
         """
         for leg in self.legs:
             assert (leg.name.find('-') == -1), "Error: leg name {} already has a tensor tag.".format(leg.name)
+        for leg in self.legs:
             leg.name = name + '-' + leg.name 
     
     def removeTensorTag(self):
-- 
2.43.0


From 5054044f906a6e0042c728ff2174c0023aa2befe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:19 +0000
Subject: [PATCH 43/48] fix: mapToDict maps each key to its own value

---
 src/CTL/funcs/funcs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/CTL/funcs/funcs.py b/src/CTL/funcs/funcs.py
index 77593c7..007e813 100644
--- a/src/CTL/funcs/funcs.py
+++ b/src/CTL/funcs/funcs.py
@@ -895,8 +895,8 @@ def mapToDict(dictShape, x):
         Each key in dictShape corresponds to the value in x.
     """
     res = dict([])
-    for key in dictShape:
-        res[key] = x
+    for key, value in zip(dictShape, x):
+        res[key] = value
     return res
 
 # class LinearRegressionModel:
-- 
2.43.0


From c6d11aa64a1dcafb5c79af2a2c9b54f1209461ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:09 +0000
Subject: [PATCH 44/48] fix: TensorGraph takes edges added after its edges were
 listed into account

---
 src/CTL/tensor/contract/tensorGraph.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/CTL/tensor/contract/tensorGraph.py b/src/CTL/tensor/contract/tensorGraph.py
index 66b3cde..daee96b 100644
--- a/src/CTL/tensor/contract/tensorGraph.py
+++ b/src/CTL/tensor/contract/tensorGraph.py
@@ -60,13 +60,12 @@ class TensorGraph(UndirectedGraph):
             If int, then added to the added edge as weight, used for cost calculation.
         """
         self.v[idx].addEdge(None, weight = weight)
+        self.updated = True
 
     def addEdgeIndex(self):
         """
         Add an index to each edge.
         """
-        if (self.indexed):
-            return
         edges = self.getEdges()
         m = len(edges)
         for i in range(m):
-- 
2.43.0


From 9afcb0707fe414ab75bdd24971a54ac360bdafef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:08 +0000
Subject: [PATCH 45/48] fix: a finite tensor network does not share the list of
 legs to combine with its caller

---
 src/CTL/tensornetwork/tensornetwork.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CTL/tensornetwork/tensornetwork.py b/src/CTL/tensornetwork/tensornetwork.py
index b5e8a9b..37bfb64 100644
--- a/src/CTL/tensornetwork/tensornetwork.py
+++ b/src/CTL/tensornetwork/tensornetwork.py
@@ -75,7 +75,7 @@ class FiniteTensorNetwork:
 
     def addPostOutProduct(self, labelList, newLabel):
         self.checkLock('add post out product: {} -> {}'.format(labelList, newLabel))
-        self.outProductAfter.append((labelList, newLabel))
+        self.outProductAfter.append((list(labelList), newLabel))
 
     def loadBondDims(self, localTensors):
         for name in localTensors:
-- 
2.43.0


From e256eb4ddbf85d54a8a1c9149d8992484b83534e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:57 +0000
Subject: [PATCH 46/48] fix: bonds to tensors outside of the list are outgoing
 bonds of the tensor graph

---
 src/CTL/tensor/contract/optimalContract.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/CTL/tensor/contract/optimalContract.py b/src/CTL/tensor/contract/optimalContract.py
index edbadd0..2873cd1 100644
--- a/src/CTL/tensor/contract/optimalContract.py
+++ b/src/CTL/tensor/contract/optimalContract.py
@@ -119,7 +119,8 @@ def makeTensorGraph(tensorList):
         idxDict[tensorList[i]] = i
     for i in range(n):
         for leg in tensorList[i].legs:
-            if (leg.bond is None):
+            # a bond to a tensor outside of the list is an outgoing one
+            if (leg.bond is None) or (leg.anotherSide().tensor not in idxDict):
                 g.addFreeEdge(i, leg.dim)
             else:
                 bond = leg.bond 
-- 
2.43.0


From 3c1b7e3f6dc38525c19eac1d3dce84f4616e95bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:00 +0000
Subject: [PATCH 47/48] fix: getDiffError is the sum of the squares of the
 element-wise differences

---
 src/CTL/funcs/funcs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CTL/funcs/funcs.py b/src/CTL/funcs/funcs.py
index 007e813..444b604 100644
--- a/src/CTL/funcs/funcs.py
+++ b/src/CTL/funcs/funcs.py
@@ -464,7 +464,7 @@ def getDiffError(a, b):
         The sum of element-wise distance square between a and b.
     """
     deprecatedFuncWarning(funcName = 'getDiffError', fileName = 'CTL.funcs.funcs')
-    return xplib.xp.linalg.norm(a ** 2) + xplib.xp.linalg.norm(b ** 2) - xplib.xp.linalg.norm(a * b) * 2
+    return xplib.xp.linalg.norm(a - b) ** 2
 
 def matDiffError(a, b):
     """
-- 
2.43.0


From 9e70232317ba1d35d2e86ca8d9ff61f8f98b118b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:56 +0000
Subject: [PATCH 48/48] fix: a cost found before the tensor graph was changed
 is not reported any more

---
 src/CTL/tensor/contract/tensorGraph.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/CTL/tensor/contract/tensorGraph.py b/src/CTL/tensor/contract/tensorGraph.py
index daee96b..c896b7b 100644
--- a/src/CTL/tensor/contract/tensorGraph.py
+++ b/src/CTL/tensor/contract/tensorGraph.py
@@ -48,6 +48,11 @@ class TensorGraph(UndirectedGraph):
         else:
             self.diagonalFlags = diagonalFlags
 
+    def addEdge(self, idx1, idx2, weight = None):
+        # the cost found before does not belong to the new graph
+        self.optimalCost = None
+        return super().addEdge(idx1, idx2, weight = weight)
+
     def addFreeEdge(self, idx, weight = None):
         """
         Add a free edge to a vertex.
@@ -59,6 +64,7 @@ class TensorGraph(UndirectedGraph):
         weight : None or int
             If int, then added to the added edge as weight, used for cost calculation.
         """
+        self.optimalCost = None
         self.v[idx].addEdge(None, weight = weight)
         self.updated = True
 
-- 
2.43.0

