From 0b60629e2a467f5c9e8673cfeafc3470282cc35c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:50 +0000
Subject: [PATCH 01/55] fix: diagonalNDTensor keeps the data type and accepts a
 scalar diagonal

---
 src/CTL/funcs/funcs.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/CTL/funcs/funcs.py b/src/CTL/funcs/funcs.py
index 70aa5a3..ed14d4f 100644
--- a/src/CTL/funcs/funcs.py
+++ b/src/CTL/funcs/funcs.py
@@ -1093,8 +1093,11 @@ def diagonalNDTensor(a, dim):
         A diagonal tensor of dim dimension, and contains the values of a in order on its diagonal.
 
     """
+    if (len(a.shape) == 0):
+        # a scalar: the diagonal of a tensor without dimensions
+        return xplib.xp.copy(a)
     l = a.shape[0]
-    res = xplib.xp.zeros(tuple([l] * dim))
+    res = xplib.xp.zeros(tuple([l] * dim), dtype = a.dtype)
     res[xplib.xp.diag_indices(l, dim)] = a
     # for i in range(l):
     # 	res[tuple([i] * dim)] = a[i]
-- 
2.43.0


From 714d10d3ec924241747701470a4f20cedd0b6e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:33 +0000
Subject: [PATCH 02/55] fix: DiagonalTensor handles scalars and data of the
 right size but another shape consistently

---
 src/CTL/tensor/diagonalTensor.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/CTL/tensor/diagonalTensor.py b/src/CTL/tensor/diagonalTensor.py
index d452fb3..ecef831 100644
--- a/src/CTL/tensor/diagonalTensor.py
+++ b/src/CTL/tensor/diagonalTensor.py
@@ -228,11 +228,14 @@ class DiagonalTensor(Tensor):
             return None
         # print('generating data for data = {}'.format(data))
         if (data is None):
-            data = xplib.xp.ones(shape[0])
+            data = xplib.xp.ones(shape[:1], dtype = self.dtype)
         # otherwise, data can be 1D-array, or ndarray
-        elif (len(data.shape) == 1):
+        elif (len(shape) == 0):
+            data = xplib.xp.copy(data.reshape(shape))
+        elif (data.shape == (shape[0], )):
             data = xplib.xp.copy(data)
         else:
+            data = data.reshape(shape)
             l, dim = len(shape), shape[0]
             # print('dim = {}, l = {}'.format(dim, l))
             # print(xplib.xp.diag_indices(dim, l))
@@ -252,13 +255,6 @@ class DiagonalTensor(Tensor):
         # otherwise, both dim and l from data
         funcName = "DiagonalTensor.deduction"
 
-        # first, consider scalar case
-        if (legs is None) and (labels is None) and (shape == () or ((data is not None) and (data.shape == ()))):
-            if (data is None) and (not isTensorLike):
-                data = xplib.xp.array(1.0)
-            return [], data, [], () # scalar
-            
-
         if (legs is not None):
 
             if (not self.checkLegsDiagonalCompatible(legs = legs)):
-- 
2.43.0


From 6296dcd1499efa4b19bce878a343d36643c301b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:33 +0000
Subject: [PATCH 03/55] fix: outer product of two diagonal tensors is the full
 outer product

---
 src/CTL/tensor/contract/contract.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/CTL/tensor/contract/contract.py b/src/CTL/tensor/contract/contract.py
index ed0be84..913b8a6 100644
--- a/src/CTL/tensor/contract/contract.py
+++ b/src/CTL/tensor/contract/contract.py
@@ -79,9 +79,11 @@ def contractTwoTensors(ta, tb, bonds = None, outProductWarning = True):
 
         if (ta.diagonalFlag and tb.diagonalFlag):
             if (tensorLikeContract):
-                return DiagonalTensor(labels = labels, data = None, shape = shape, legs = legs, tensorLikeFlag = True)
+                return Tensor(labels = labels, data = None, shape = shape, legs = legs, tensorLikeFlag = True)
             else:
-                return DiagonalTensor(labels = labels, data = ta.a * tb.a, shape = shape, legs = legs)
+                # the outer product of two diagonal tensors is not diagonal
+                data = xplib.xp.multiply.outer(funcs.diagonalNDTensor(ta.a, ta.dim), funcs.diagonalNDTensor(tb.a, tb.dim))
+                return Tensor(labels = labels, data = data, shape = shape, legs = legs)
         elif (ta.diagonalFlag):
             if (tensorLikeContract):
                 return Tensor(labels = labels, data = None, shape = shape, legs = legs, tensorLikeFlag = True)
-- 
2.43.0


From 203a1aa3ce1e789851e6d302774bf9583b9fd683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:33 +0000
Subject: [PATCH 04/55] fix: outer product of a diagonal and a dense tensor
 keeps the data type and accepts scalars

---
 src/CTL/tensor/contract/contract.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/CTL/tensor/contract/contract.py b/src/CTL/tensor/contract/contract.py
index 913b8a6..1e082de 100644
--- a/src/CTL/tensor/contract/contract.py
+++ b/src/CTL/tensor/contract/contract.py
@@ -88,10 +88,13 @@ def contractTwoTensors(ta, tb, bonds = None, outProductWarning = True):
             if (tensorLikeContract):
                 return Tensor(labels = labels, data = None, shape = shape, legs = legs, tensorLikeFlag = True)
             else:
-                data = xplib.xp.zeros(shape, dtype = ta.a.dtype)
-                einsumStr = ('j' * ta.dim) + '...->j...'
                 outerData = xplib.xp.multiply.outer(ta.a, tb.a)
-                xplib.xp.einsum(einsumStr, data)[...] = outerData
+                if (ta.dim == 0):
+                    data = outerData
+                else:
+                    data = xplib.xp.zeros(shape, dtype = outerData.dtype)
+                    einsumStr = ('j' * ta.dim) + '...->j...'
+                    xplib.xp.einsum(einsumStr, data)[...] = outerData
             return Tensor(labels = labels, data = data, shape = shape, legs = legs)
         else:
             if (tensorLikeContract):
-- 
2.43.0


From 6682d54b5512792128f88a169c3ec634c830bd68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:33 +0000
Subject: [PATCH 05/55] fix: contractTwoTensors accepts given bonds in any
 direction

---
 src/CTL/tensor/contract/contract.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/CTL/tensor/contract/contract.py b/src/CTL/tensor/contract/contract.py
index 1e082de..637f1d7 100644
--- a/src/CTL/tensor/contract/contract.py
+++ b/src/CTL/tensor/contract/contract.py
@@ -109,8 +109,9 @@ def contractTwoTensors(ta, tb, bonds = None, outProductWarning = True):
 
         # return Tensor(labels = labels, data = data, legs = legs)
 
-    contractALegs = [bond.legs[0] for bond in bonds]
-    contractBLegs = [bond.legs[1] for bond in bonds]
+    # bonds given by users can be in any direction
+    contractALegs = [bond.sideLeg(ta) for bond in bonds]
+    contractBLegs = [leg.anotherSide() for leg in contractALegs]
 
     taRemainLegs = ta.complementLegs(contractALegs)
     tbRemainLegs = tb.complementLegs(contractBLegs)
-- 
2.43.0


From c21d2434ae410de8d3f9784e8c4904be38ca3e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:52 +0000
Subject: [PATCH 06/55] fix: contraction order and cost for diagonal tensors
 sharing no bond

---
 src/CTL/tensor/contract/optimalContract.py |  4 ++--
 src/CTL/tensor/contract/tensorGraph.py     | 23 +++++++++++++++-------
 2 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/CTL/tensor/contract/optimalContract.py b/src/CTL/tensor/contract/optimalContract.py
index 68d74f8..2357b48 100644
--- a/src/CTL/tensor/contract/optimalContract.py
+++ b/src/CTL/tensor/contract/optimalContract.py
@@ -76,12 +76,12 @@ def contractCost(ta, tb):
         The order of the cost(how many dimensions). This is used when we want to decide the order of our calculation to a given bond dimension chi.
     """
     diagonalA, diagonalB = ta.diagonalFlag, tb.diagonalFlag 
-    if (diagonalA and diagonalB):
+    bonds = shareBonds(ta, tb)
+    if (diagonalA and diagonalB and (len(bonds) > 0)):
         return ta.bondDimension(), 1
 
     diagonal = diagonalA or diagonalB
     
-    bonds = shareBonds(ta, tb)
     intersectionShape = tuple([bond.legs[0].dim for bond in bonds])
     if (not diagonal):
         cost = funcs.tupleProduct(ta.shape) * funcs.tupleProduct(tb.shape) // funcs.tupleProduct(intersectionShape)
diff --git a/src/CTL/tensor/contract/tensorGraph.py b/src/CTL/tensor/contract/tensorGraph.py
index e061362..51a8118 100644
--- a/src/CTL/tensor/contract/tensorGraph.py
+++ b/src/CTL/tensor/contract/tensorGraph.py
@@ -178,7 +178,7 @@ class TensorGraph(UndirectedGraph):
             edgesA, shapeA, diagonalA = self.contractRes[tsA]
             edgesB, shapeB, diagonalB = self.contractRes[tsB]
 
-            if (diagonalA and diagonalB):
+            if (diagonalA and diagonalB and isSharingBond(tsA, tsB)):
                 # both diagonal, only need to product
                 return shapeA[0]
             
@@ -200,7 +200,7 @@ class TensorGraph(UndirectedGraph):
             edgesA, _, diagonalA = self.contractRes[tsA]
             edgesB, _, diagonalB = self.contractRes[tsB]
 
-            if (diagonalA and diagonalB):
+            if (diagonalA and diagonalB and isSharingBond(tsA, tsB)):
                 costOrder = 1
             else:
                 clb = set(funcs.commonElements(edgesA, edgesB))
@@ -221,8 +221,16 @@ class TensorGraph(UndirectedGraph):
             commonEdges = funcs.commonElements(edgesA, edgesB)
             return len(commonEdges) > 0
         
-        def isDiagonalOuterProduct(tsA, tsB):
-            return tsA[2] and tsB[2] and (not isSharingBond(tsA, tsB))
+        def isDiagonalBroken(tsA, tsB):
+            # tsA, tsB are bit-masks of sets of diagonal tensors
+            # if they share bonds but one of them is not diagonal(obtained by outer product)
+            # then it is always better to contract the connected parts to a diagonal tensor first
+            # banned, so that for each set the result is either always diagonal, or never
+            for i in range(n):
+                if (((tsA | tsB) >> i) & 1) and (not self.diagonalFlags[i]):
+                    return False
+            diagonal = self.contractRes[tsA][2] and self.contractRes[tsB][2]
+            return (not diagonal) and isSharingBond(tsA, tsB)
 
         def calculateContractRes(tsA, tsB):
             if (isinstance(tsA, int)):
@@ -242,7 +250,7 @@ class TensorGraph(UndirectedGraph):
             for l, s in zip(edgesA + edgesB, shapeA + shapeB):
                 if (l in edgeIndex):
                     shape[edgeIndex[l]] = s
-            return (edges, shape, diagonalA and diagonalB)
+            return (edges, shape, diagonalA and diagonalB and isSharingBond(tsA, tsB))
 
         def getSize(tsA, tsB):
             '''
@@ -273,6 +281,8 @@ class TensorGraph(UndirectedGraph):
                     solveSet(tsA)
                 if (self.optimalCost[tsB] is None):
                     solveSet(tsB)
+                if (isDiagonalBroken(tsA, tsB)):
+                    continue
                 if (self.contractRes[x] is None):
                     self.contractRes[x] = calculateContractRes(tsA, tsB)
                 
@@ -372,8 +382,7 @@ class TensorGraph(UndirectedGraph):
                             #print('t1 = {}, t2 = {}'.format(t1, t2))
                             if ((t1 & t2) != 0):
                                 continue 
-                            if (isDiagonalOuterProduct(self.contractRes[t1], self.contractRes[t2])):
-                                # diagonal outer product is banned
+                            if (isDiagonalBroken(t1, t2)):
                                 continue
                             tt = t1 | t2
                             if (self.contractRes[tt] is None):
-- 
2.43.0


From b2d11585a58a633661c48b930a36ed34b5765998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:52 +0000
Subject: [PATCH 07/55] fix: greedy contraction sequence of a disconnected
 network

---
 src/CTL/tensor/contract/tensorGraph.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/CTL/tensor/contract/tensorGraph.py b/src/CTL/tensor/contract/tensorGraph.py
index 51a8118..6a3c4e4 100644
--- a/src/CTL/tensor/contract/tensorGraph.py
+++ b/src/CTL/tensor/contract/tensorGraph.py
@@ -321,6 +321,14 @@ class TensorGraph(UndirectedGraph):
                         minSize = newSize 
                         minTSA, minTSB = tsA, tsB 
 
+                if (minSize == -1):
+                    # no bonds left between the tensors, so only outer products
+                    for tsA, tsB in funcs.pairIterator(tensorSet):
+                        newSize = getSize(tsA, tsB)
+                        if (minSize == -1) or (newSize < minSize):
+                            minSize = newSize 
+                            minTSA, minTSB = tsA, tsB 
+
                 tsA, tsB = minTSA, minTSB
                 self.greedySeq.append((tsA, tsB))
                 self.greedyCost += costFunc(tsA, tsB)
-- 
2.43.0


From d07d2267e21dcfaad5474d1153fb5e5e68cd1986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:52 +0000
Subject: [PATCH 08/55] fix: optimal contraction sequence with real dimensions
 accepts tensors without legs

---
 src/CTL/tensor/contract/tensorGraph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CTL/tensor/contract/tensorGraph.py b/src/CTL/tensor/contract/tensorGraph.py
index 6a3c4e4..c653a7a 100644
--- a/src/CTL/tensor/contract/tensorGraph.py
+++ b/src/CTL/tensor/contract/tensorGraph.py
@@ -341,7 +341,7 @@ class TensorGraph(UndirectedGraph):
             obj_n = (1 << n)
             new_flag = [True] * obj_n 
             if (typicalDim is None):
-                chi_min = min([min(x) for x in shapes])
+                chi_min = min([min(x) for x in shapes if (len(x) > 0)], default = 2)
             else:
                 chi_min = typicalDim
             # mu_cap = 1
-- 
2.43.0


From 5d16e28edeb7b0319c2d698bcf7113b3f4aef312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:14 +0000
Subject: [PATCH 09/55] fix: TensorGraph.optimalCostResult can be asked before
 any sequence

---
 src/CTL/tensor/contract/tensorGraph.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/CTL/tensor/contract/tensorGraph.py b/src/CTL/tensor/contract/tensorGraph.py
index c653a7a..59b9518 100644
--- a/src/CTL/tensor/contract/tensorGraph.py
+++ b/src/CTL/tensor/contract/tensorGraph.py
@@ -42,6 +42,7 @@ class TensorGraph(UndirectedGraph):
     def __init__(self, n, diagonalFlags = None):
         super().__init__(n)
         self.indexed = False
+        self.optimalCost = None
         if (diagonalFlags is None):
             self.diagonalFlags = [False] * n
         else:
-- 
2.43.0


From 54040456872c3d7575bd7acf3ebb6dca4eafc633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:14 +0000
Subject: [PATCH 10/55] fix: edges added to a TensorGraph after a query are not
 forgotten

---
 src/CTL/tensor/contract/tensorGraph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/CTL/tensor/contract/tensorGraph.py b/src/CTL/tensor/contract/tensorGraph.py
index 59b9518..797dc8d 100644
--- a/src/CTL/tensor/contract/tensorGraph.py
+++ b/src/CTL/tensor/contract/tensorGraph.py
@@ -60,12 +60,13 @@ class TensorGraph(UndirectedGraph):
             If int, then added to the added edge as weight, used for cost calculation.
         """
         self.v[idx].addEdge(None, weight = weight)
+        self.updated = True
 
     def addEdgeIndex(self):
         """
         Add an index to each edge.
         """
-        if (self.indexed):
+        if (self.indexed and (not self.updated)):
             return
         edges = self.getEdges()
         m = len(edges)
-- 
2.43.0


From 3bc1eba5be8ecec137a4d7651eaeaf4de28663e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:14 +0000
Subject: [PATCH 11/55] fix: tensor graph of tensors linked to tensors outside
 of the list

---
 src/CTL/tensor/contract/optimalContract.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CTL/tensor/contract/optimalContract.py b/src/CTL/tensor/contract/optimalContract.py
index 2357b48..ef23925 100644
--- a/src/CTL/tensor/contract/optimalContract.py
+++ b/src/CTL/tensor/contract/optimalContract.py
@@ -119,7 +119,7 @@ def makeTensorGraph(tensorList):
         idxDict[tensorList[i]] = i
     for i in range(n):
         for leg in tensorList[i].legs:
-            if (leg.bond is None):
+            if (leg.bond is None) or (leg.anotherSide().tensor not in idxDict):
                 g.addFreeEdge(i, leg.dim)
             else:
                 bond = leg.bond 
-- 
2.43.0


From acc4f85ffc063a35ea359a46b419ab88ca24f044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:22 +0000
Subject: [PATCH 12/55] fix: copyTensorList with outgoing bonds leaves the
 original legs free instead of broken

---
 src/CTL/tensor/contract/optimalContract.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CTL/tensor/contract/optimalContract.py b/src/CTL/tensor/contract/optimalContract.py
index ef23925..48cb980 100644
--- a/src/CTL/tensor/contract/optimalContract.py
+++ b/src/CTL/tensor/contract/optimalContract.py
@@ -46,7 +46,7 @@ def copyTensorList(tensorList, tensorLikeFlag = False, linkOutgoingBonds = False
 
                 if (leg2.tensor not in tensorList):
                     if (linkOutgoingBonds):
-                        del leg.bond 
+                        leg.bond = None
                         makeLink(newLeg1, leg2)
                     continue
 
-- 
2.43.0


From 4a4447ca4a12261fc5b6b61eafea67f4eb6ca903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:09 +0000
Subject: [PATCH 13/55] fix: renameLabels renames simultaneously, so labels can
 be exchanged

---
 src/CTL/tensor/tensor.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/CTL/tensor/tensor.py b/src/CTL/tensor/tensor.py
index c410ef4..07a6fe2 100644
--- a/src/CTL/tensor/tensor.py
+++ b/src/CTL/tensor/tensor.py
@@ -750,8 +750,13 @@ class Tensor(TensorBase):
 
         """
         assert (len(changeFrom) == len(changeTo)), "Error: renameLabels need two list with equal number of labels, gotten {} and {}".format(changeFrom, changeTo)
-        for cf, ct in zip(changeFrom, changeTo):
-            self.renameLabel(cf, ct)
+        # find all the legs before any of them is renamed, so names can be exchanged
+        indices = funcs.generateIndices(self.labels, changeFrom)
+        for index, cf, ct in zip(indices, changeFrom, changeTo):
+            if (index is None):
+                warnings.warn(funcs.warningMessage(warn = 'leg name {} does not exist, no rename happened'.format(cf), location = 'Tensor.renameLabels'), RuntimeWarning)
+                continue
+            self.legs[index].name = ct
 
     def shapeOfLabel(self, label, backward = False):
         """
-- 
2.43.0


From 061715ddea89aed3ce4a0aaf1f15667c6158225f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:09 +0000
Subject: [PATCH 14/55] fix: sumOutLegByLabel applies the weights for a list of
 labels

---
 src/CTL/tensor/tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CTL/tensor/tensor.py b/src/CTL/tensor/tensor.py
index 07a6fe2..e5c241e 100644
--- a/src/CTL/tensor/tensor.py
+++ b/src/CTL/tensor/tensor.py
@@ -1120,7 +1120,7 @@ class Tensor(TensorBase):
         """
         if isinstance(label, list):
             for l in label:
-                self.sumOutLegByLabel(l, backward)
+                self.sumOutLegByLabel(l, backward = backward, weights = weights)
             return 
         leg = self.getLeg(label, backward = backward)
         if leg is None:
-- 
2.43.0


From 594feb67a8ded89914da42caf340e315f402ed1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:09 +0000
Subject: [PATCH 15/55] fix: summing out legs of TensorLikes

---
 src/CTL/tensor/tensor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/CTL/tensor/tensor.py b/src/CTL/tensor/tensor.py
index e5c241e..59bcffd 100644
--- a/src/CTL/tensor/tensor.py
+++ b/src/CTL/tensor/tensor.py
@@ -1101,7 +1101,8 @@ class Tensor(TensorBase):
         
         idx = self.legs.index(leg)
         # self.a = xplib.xp.sum(self.a, axis = idx)
-        self.a = funcs.sumOnAxis(self.a, axis = idx, weights = weights)
+        if (not self.tensorLikeFlag):
+            self.a = funcs.sumOnAxis(self.a, axis = idx, weights = weights)
         self.legs = self.legs[:idx] + self.legs[(idx + 1):]
     
     def sumOutLegByLabel(self, label, backward = False, weights = None):
-- 
2.43.0


From 1d83538734394d9326e3cdbc6d5dbb7c63548cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:09 +0000
Subject: [PATCH 16/55] fix: moveLegsToFront with the leg list of the tensor
 itself

---
 src/CTL/tensor/diagonalTensor.py | 2 +-
 src/CTL/tensor/tensor.py         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/CTL/tensor/diagonalTensor.py b/src/CTL/tensor/diagonalTensor.py
index ecef831..3dafc71 100644
--- a/src/CTL/tensor/diagonalTensor.py
+++ b/src/CTL/tensor/diagonalTensor.py
@@ -488,7 +488,7 @@ class DiagonalTensor(Tensor):
         moveFrom = []
         moveTo = []
         currIdx = 0
-        movedLegs = legs
+        movedLegs = list(legs)
         for currLeg in legs:
             for i, leg in enumerate(self.legs):
                 if (leg == currLeg):
diff --git a/src/CTL/tensor/tensor.py b/src/CTL/tensor/tensor.py
index 59bcffd..d3d8d8f 100644
--- a/src/CTL/tensor/tensor.py
+++ b/src/CTL/tensor/tensor.py
@@ -561,7 +561,7 @@ class Tensor(TensorBase):
         moveFrom = []
         moveTo = []
         currIdx = 0
-        movedLegs = legs
+        movedLegs = list(legs)
         for currLeg in legs:
             for i, leg in enumerate(self.legs):
                 if (leg == currLeg):
-- 
2.43.0


From 69f921a4c7c7e64c2b3ee43aa32ce7519b21170e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:23 +0000
Subject: [PATCH 17/55] fix: summing out legs of DiagonalTensorLikes

---
 src/CTL/tensor/diagonalTensor.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/CTL/tensor/diagonalTensor.py b/src/CTL/tensor/diagonalTensor.py
index 3dafc71..105b59d 100644
--- a/src/CTL/tensor/diagonalTensor.py
+++ b/src/CTL/tensor/diagonalTensor.py
@@ -734,13 +734,14 @@ class DiagonalTensor(Tensor):
         # if weights is None:
         if (len(self.legs) == 0):
             # not a diagonal tensor, since the last sum will give a single value
-            if weights is None:
-                self.a = xplib.xp.array(xplib.xp.sum(self.a))
-            else:
-                self.a = xplib.xp.array(xplib.xp.sum(self.a * weights))
+            if (not self.tensorLikeFlag):
+                if weights is None:
+                    self.a = xplib.xp.array(xplib.xp.sum(self.a))
+                else:
+                    self.a = xplib.xp.array(xplib.xp.sum(self.a * weights))
             self._length = 1
         else:
-            if (weights is not None):
+            if (weights is not None) and (not self.tensorLikeFlag):
                 self.a = self.a * weights
 
     def typeName(self):
-- 
2.43.0


From 75e9b80faf65a4df3fd196b9aaded36aa9048453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:23 +0000
Subject: [PATCH 18/55] fix: toMatrix accepts an empty list of rows or columns

---
 src/CTL/tensor/diagonalTensor.py | 4 ++--
 src/CTL/tensor/tensor.py         | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/CTL/tensor/diagonalTensor.py b/src/CTL/tensor/diagonalTensor.py
index 105b59d..c15b695 100644
--- a/src/CTL/tensor/diagonalTensor.py
+++ b/src/CTL/tensor/diagonalTensor.py
@@ -552,9 +552,9 @@ class DiagonalTensor(Tensor):
         # input two set of legs
         funcs.deprecatedFuncWarning(funcName = "DiagonalTensor.toMatrix", deprecateMessage = "Diagonal tensors should be used in a better way for linear algebra calculation rather than be made into a matrix.")
         assert not ((rows is None) and (cols is None)), "Error in Tensor.toMatrix: toMatrix must have at least row or col exist."
-        if (rows is not None) and (isinstance(rows[0], str)):
+        if (rows is not None) and (len(rows) > 0) and (isinstance(rows[0], str)):
             rows = [self.getLeg(label) for label in rows]
-        if (cols is not None) and (isinstance(cols[0], str)):
+        if (cols is not None) and (len(cols) > 0) and (isinstance(cols[0], str)):
             cols = [self.getLeg(label) for label in cols]
         if (cols is None):
             cols = funcs.listDifference(self.legs, rows)
diff --git a/src/CTL/tensor/tensor.py b/src/CTL/tensor/tensor.py
index d3d8d8f..781fa61 100644
--- a/src/CTL/tensor/tensor.py
+++ b/src/CTL/tensor/tensor.py
@@ -615,9 +615,9 @@ class Tensor(TensorBase):
         # input two set of legs
         assert (not self.tensorLikeFlag), funcs.errorMessage('TensorLike cannot be transferred to matrix since no data contained.', 'Tensor.toMatrix')
         assert not ((rows is None) and (cols is None)), "Error in Tensor.toMatrix: toMatrix must have at least row or col exist."
-        if (rows is not None) and (isinstance(rows[0], str)):
+        if (rows is not None) and (len(rows) > 0) and (isinstance(rows[0], str)):
             rows = [self.getLeg(label) for label in rows]
-        if (cols is not None) and (isinstance(cols[0], str)):
+        if (cols is not None) and (len(cols) > 0) and (isinstance(cols[0], str)):
             cols = [self.getLeg(label) for label in cols]
         if (cols is None):
             cols = funcs.listDifference(self.legs, rows)
-- 
2.43.0


From 44ef227066b9ca1e3d572deb2b9ca7be8479927f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:06 +0000
Subject: [PATCH 19/55] fix: tensorSVDDecomposition deduces rows or cols as
 documented

---
 src/CTL/tensor/tensorFunc.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/CTL/tensor/tensorFunc.py b/src/CTL/tensor/tensorFunc.py
index 335cfac..84350da 100644
--- a/src/CTL/tensor/tensorFunc.py
+++ b/src/CTL/tensor/tensorFunc.py
@@ -74,6 +74,10 @@ def tensorSVDDecomposition(a, rows = None, cols = None, innerLabels = None, pres
     funcName = "CTL.tensor.tensorFuncs.tensorSVDDecomposition"
     aMat = a.toMatrix(rows = rows, cols = cols)
     # print('aMat = {}'.format(aMat))
+    if (rows is None):
+        rows = funcs.listDifference(a.labels, cols)
+    if (cols is None):
+        cols = funcs.listDifference(a.labels, rows)
     rowName = '|'.join(rows)
     colName = '|'.join(cols)
 
-- 
2.43.0


From e9105b7825c4202975f489abe3c87a848ed960a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:32 +0000
Subject: [PATCH 20/55] fix: chi of an MPS is the largest bond dimension when
 not given

---
 src/CTL/examples/MPS.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/CTL/examples/MPS.py b/src/CTL/examples/MPS.py
index 8ce70b4..722a4da 100644
--- a/src/CTL/examples/MPS.py
+++ b/src/CTL/examples/MPS.py
@@ -47,10 +47,10 @@ class FreeBoundaryMPS:
         # if chi is None: then take the maximum from bonds shared
         # otherwise, if bonds sharing larger than chi, then warning and update chi
         # otherwise, take chi
-        bondChi = -1
+        bondChi = 1
         for i in range(self.n - 1):
             bond = shareBonds(self._tensors[i], self._tensors[i + 1])[0]
-            bondChi = min(bondChi, bond.legs[0].dim) 
+            bondChi = max(bondChi, bond.legs[0].dim) 
         
         if (chi is None):
             return bondChi 
@@ -295,7 +295,7 @@ def makeRandomMPS(n, virtualDim, physicalDim, chi = -1):
         assert len(physicalDim) == n, funcs.errorMessage(err = 'physical dim must be int or length-n list, {} found.'.format(physicalDim), location = location)
 
     if chi == -1:
-        chi = virtualDim[0]
+        chi = max(virtualDim)
 
     # endsShape = (physicalDim, virtualDim)
     endsLabels = ['p', 'v']
-- 
2.43.0


From 78d4968f38571a12d9081946433120f50bc656aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:10 +0000
Subject: [PATCH 21/55] fix: FiniteTensorNetworks do not share their list of
 tensor names

---
 src/CTL/tensornetwork/tensornetwork.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CTL/tensornetwork/tensornetwork.py b/src/CTL/tensornetwork/tensornetwork.py
index eb83d2a..97f8048 100644
--- a/src/CTL/tensornetwork/tensornetwork.py
+++ b/src/CTL/tensornetwork/tensornetwork.py
@@ -8,7 +8,7 @@ class FiniteTensorNetwork:
     # provide a function api FiniteTensorNetwork.contract(tensorDict)
 
     def __init__(self, tensorNames = [], realCost = True, typicalDim = 10):
-        self.tensorNames = tensorNames
+        self.tensorNames = list(tensorNames)
         self.optimalSeq = None 
         self.realCost = realCost 
         self.links = []
-- 
2.43.0


From 7a04a7f086975d5462756df5b16567e38d4e2525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:10 +0000
Subject: [PATCH 22/55] fix: FiniteTensorNetwork drops the saved sequence when
 the network is changed

---
 src/CTL/tensornetwork/tensornetwork.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/CTL/tensornetwork/tensornetwork.py b/src/CTL/tensornetwork/tensornetwork.py
index 97f8048..4721e13 100644
--- a/src/CTL/tensornetwork/tensornetwork.py
+++ b/src/CTL/tensornetwork/tensornetwork.py
@@ -39,11 +39,13 @@ class FiniteTensorNetwork:
         # assert (not self.locked), "Error: adding tensor {} to a FTN which is locked.".format(name)
         self.checkLock('adding tensor {}'.format(name))
         self.tensorNames.append(name)
+        self.optimalSeq = None
     def removeTensor(self, name):
         # assert (not self.locked), "Error: removing tensor {} to a FTN which is locked.".format(name)
         self.checkLock('removing tensor {}'.format(name))
         assert (name in self.tensorNames), "Error: removing tensor {} to a FTN which do not contain it.".format(name)
         self.tensorNames.remove(name)
+        self.optimalSeq = None
 
     def lock(self):
         self.locked = True 
@@ -54,6 +56,7 @@ class FiniteTensorNetwork:
         # assert (not self.locked), "Error: adding link ({}, {}) to a FTN which is locked.".format((aName, aLeg), (bName, bLeg))
         self.checkLock('adding link ({}, {})'.format((aName, aLeg), (bName, bLeg)))
         self.links.append(((aName, aName + '-' + aLeg), (bName, bName + '-' + bLeg)))
+        self.optimalSeq = None
 
     def addPreNameChange(self, name, legName, newName):
         self.checkLock('add pre name change for tensor {}: from {} to {}'.format(name, legName, newName))
-- 
2.43.0


From a53276456282d0e1692806aaed546c931e723887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:00 +0000
Subject: [PATCH 23/55] fix: Ising edge matrix for anti-ferromagnetic
 interactions

---
 src/CTL/models/Ising.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/CTL/models/Ising.py b/src/CTL/models/Ising.py
index 0e0344d..94b4314 100644
--- a/src/CTL/models/Ising.py
+++ b/src/CTL/models/Ising.py
@@ -172,10 +172,14 @@ def IsingEdgeMatrix(betaJ):
     Returns
     -------
     ndarray of (2, 2)
-        The local edge tensor for one site (diagonal) tensor to absorb.
+        The local edge tensor(complex if betaJ is negative) for one site (diagonal) tensor to absorb.
     """
-    diag = xplib.xp.sqrt(xplib.xp.cosh(betaJ) * 0.5) + xplib.xp.sqrt(xplib.xp.sinh(betaJ) * 0.5)
-    offDiag = xplib.xp.sqrt(xplib.xp.cosh(betaJ) * 0.5) - xplib.xp.sqrt(xplib.xp.sinh(betaJ) * 0.5)
+    sinh = xplib.xp.sinh(betaJ)
+    if (betaJ < 0):
+        # the square root of the Boltzmann weights is complex for anti-ferromagnetic interactions
+        sinh = sinh + 0.0j
+    diag = xplib.xp.sqrt(xplib.xp.cosh(betaJ) * 0.5) + xplib.xp.sqrt(sinh * 0.5)
+    offDiag = xplib.xp.sqrt(xplib.xp.cosh(betaJ) * 0.5) - xplib.xp.sqrt(sinh * 0.5)
     return xplib.xp.array([[diag, offDiag], [offDiag, diag]])
 
 def IsingSiteTensor(betaJ, dim = 4, labels = None):
-- 
2.43.0


From ac651d23b8454ca49e05aa7ad6955169acc678c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:00 +0000
Subject: [PATCH 24/55] fix: Ising site tensor of an isolated site

---
 src/CTL/models/Ising.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/CTL/models/Ising.py b/src/CTL/models/Ising.py
index 94b4314..59c2008 100644
--- a/src/CTL/models/Ising.py
+++ b/src/CTL/models/Ising.py
@@ -204,7 +204,11 @@ def IsingSiteTensor(betaJ, dim = 4, labels = None):
     assert ((labels is None) or (len(labels) == dim)), funcs.errorMessage("labels {} do not have required dim {}.".format(labels, dim))
 
     a = xplib.xp.array([1.0, 1.0])
-    a = funcs.diagonalNDTensor(a, dim = dim)
+    if (dim == 0):
+        # isolated site: sum over two spins
+        a = xplib.xp.sum(a)
+    else:
+        a = funcs.diagonalNDTensor(a, dim = dim)
     if (funcs.isRealNumber(betaJ)):
         betaJ = [betaJ] * dim
     # edgeMat = IsingEdgeMatrix(betaJ)
-- 
2.43.0


From 61ff48b7faf70774ad1db034a347b0e9dfd41f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:00 +0000
Subject: [PATCH 25/55] fix: plaquetteIsingTensor accepts any real number as
 weight

---
 src/CTL/models/Ising.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CTL/models/Ising.py b/src/CTL/models/Ising.py
index 59c2008..acfd0ed 100644
--- a/src/CTL/models/Ising.py
+++ b/src/CTL/models/Ising.py
@@ -112,7 +112,7 @@ def plaquetteIsingTensor(weight, diamondForm = False):
     """
 
     funcName = 'CTL.models.Ising.plaquetteIsingTensor'
-    if isinstance(weight, float):
+    if funcs.isRealNumber(weight):
         weight = [weight, weight]
     else:
         assert len(weight) == 2, funcs.errorMessage('Only float or (float, float) is accepted by {}, {} obtained.'.format(funcName, weight), location = funcName)
-- 
2.43.0


From 45c5e91ffd528c515ba8d90c7394815e239803cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:00 +0000
Subject: [PATCH 26/55] fix: SquareTRG can be started with two tensors

---
 src/CTL/examples/TRG.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/CTL/examples/TRG.py b/src/CTL/examples/TRG.py
index 04a7c5b..dda1669 100644
--- a/src/CTL/examples/TRG.py
+++ b/src/CTL/examples/TRG.py
@@ -119,6 +119,12 @@ class SquareTRG:
 
         if (self.a.degreeOfFreedom is None):
             self.a.degreeOfFreedom = 1
+
+        self.aNorms = []
+        self.errors = []
+
+        self.aArchive = []
+
         if (b is not None):
             if (isinstance(b, Tensor)):
                 self.b = b.copy()
@@ -128,13 +134,7 @@ class SquareTRG:
             self.iterate()
         else:
             self.b = self.a
-
-        self.aNorms = []
-        self.errors = []
-
-        self.aArchive = []
-
-        self.appendToArchive()
+            self.appendToArchive()
 
     def appendToArchive(self):
         self.normalizeTensors()
-- 
2.43.0


From f9f9414b8070825b42e93af10040e8ce7f4a4ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:31 +0000
Subject: [PATCH 27/55] fix: TriangleTRG log density divides by the total
 degree of freedom

---
 src/CTL/examples/TRG.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CTL/examples/TRG.py b/src/CTL/examples/TRG.py
index dda1669..18763df 100644
--- a/src/CTL/examples/TRG.py
+++ b/src/CTL/examples/TRG.py
@@ -97,7 +97,7 @@ class TriangleTRG:
         stepN = len(self.aArchive)
         # print(stepN, len(self.aNorms))
         for i in range(stepN):
-            dof = self.aArchive[i].degreeOfFreedom * self.bArchive[i].degreeOfFreedom
+            dof = self.aArchive[i].degreeOfFreedom + self.bArchive[i].degreeOfFreedom
             accumulateLogZ += xplib.xp.log(self.aNorms[i] * self.bNorms[i]) / dof
             TNTrace = triangleTensorTrace(self.aArchive[i], self.bArchive[i])
             currLogZ = accumulateLogZ + xplib.xp.log(TNTrace.single()) / dof
-- 
2.43.0


From 266dae66b1a19c3d4873d9e9b8c4b556554161af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:23 +0000
Subject: [PATCH 28/55] fix: mergeLink names the two legs of a single bond when
 two names are given

---
 src/CTL/tensor/contract/link.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/CTL/tensor/contract/link.py b/src/CTL/tensor/contract/link.py
index bed7c6d..e936e01 100644
--- a/src/CTL/tensor/contract/link.py
+++ b/src/CTL/tensor/contract/link.py
@@ -93,9 +93,11 @@ def mergeLink(ta, tb, bondName = None, renameWarning = True):
     if (len(mergeLegA) == 1):
         if (renameWarning):
             warnings.warn(funcs.warningMessage(warn = 'mergeLink cannot merge links between two tensors {} and {} sharing one bond, only rename'.format(ta, tb), location = funcName), RuntimeWarning)
-        if (bondName is not None):
+        if (isinstance(bondName, str)):
             mergeLegA[0].name = bondName 
             mergeLegB[0].name = bondName
+        elif (bondName is not None):
+            mergeLegA[0].name, mergeLegB[0].name = bondName # tuple/list
         return ta, tb
 
     # otherwise, we need to do outProduct, and then merge
-- 
2.43.0


From 0bf4d9aa26fa09ed0052ed42cd8c812ddfa28369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:26 +0000
Subject: [PATCH 29/55] fix: outProduct with the leg list of the tensor itself

---
 src/CTL/tensor/diagonalTensor.py | 1 +
 src/CTL/tensor/tensor.py         | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/CTL/tensor/diagonalTensor.py b/src/CTL/tensor/diagonalTensor.py
index c15b695..33e6dd5 100644
--- a/src/CTL/tensor/diagonalTensor.py
+++ b/src/CTL/tensor/diagonalTensor.py
@@ -497,6 +497,7 @@ class DiagonalTensor(Tensor):
                     currIdx += 1
                     break
 
+        self.legs = list(self.legs) # legs given may be this list itself, which should not be changed
         for leg in movedLegs:
             self.legs.remove(leg)
         
diff --git a/src/CTL/tensor/tensor.py b/src/CTL/tensor/tensor.py
index 781fa61..9eb2ef7 100644
--- a/src/CTL/tensor/tensor.py
+++ b/src/CTL/tensor/tensor.py
@@ -570,6 +570,7 @@ class Tensor(TensorBase):
                     currIdx += 1
                     break
 
+        self.legs = list(self.legs) # legs given may be this list itself, which should not be changed
         for leg in movedLegs:
             self.legs.remove(leg)
         
-- 
2.43.0


From 63abad42a15149ce86d70d11010015cd26876038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:21 +0000
Subject: [PATCH 30/55] fix: Schimdt decomposition of TensorLikes with swapped
 legs is not limited by the old bond

---
 src/CTL/examples/Schimdt.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/CTL/examples/Schimdt.py b/src/CTL/examples/Schimdt.py
index 93a3857..dc89074 100644
--- a/src/CTL/examples/Schimdt.py
+++ b/src/CTL/examples/Schimdt.py
@@ -48,6 +48,8 @@ def SchimdtDecomposition(ta, tb, chi, squareRootSeparation = False, swapLabels =
     assert ta.labelsInTensor(swapLabels[0]), funcs.errorMessage(err = "{} not in tensor {}.".format(swapLabels[0], ta), location = funcName)
     assert tb.labelsInTensor(swapLabels[1]), funcs.errorMessage(err = "{} not in tensor {}.".format(swapLabels[1], tb), location = funcName)
 
+    swapShape = ta.shapeOfLabels(swapLabels[0]) + tb.shapeOfLabels(swapLabels[1])
+
     ta.addTensorTag('a')
     tb.addTensorTag('b') 
     for swapLabel in swapLabels[0]:
@@ -74,7 +76,10 @@ def SchimdtDecomposition(ta, tb, chi, squareRootSeparation = False, swapLabels =
         u = None 
         vh = None
         s = None
-        chi = min([chi, totShapeA, totShapeB, sbDim])
+        # the rank is bounded by the legs cut: the bonds, together with the legs swapped(or all the legs not swapped)
+        swapDim = funcs.tupleProduct(swapShape)
+        remainDim = (totShapeA * totShapeB) // swapDim
+        chi = min([chi, totShapeA, totShapeB, sbDim * swapDim, sbDim * remainDim])
     else:
         mat = tot.toMatrix(rows = labelA, cols = labelB)
 
-- 
2.43.0


From ac2761c091e1c444ce4dfd9b46a62d9ae6094b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:31 +0000
Subject: [PATCH 31/55] fix: dtype of a DiagonalTensor is the type of its data

---
 src/CTL/tensor/diagonalTensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CTL/tensor/diagonalTensor.py b/src/CTL/tensor/diagonalTensor.py
index 33e6dd5..2f48d40 100644
--- a/src/CTL/tensor/diagonalTensor.py
+++ b/src/CTL/tensor/diagonalTensor.py
@@ -392,7 +392,7 @@ class DiagonalTensor(Tensor):
             
 
     def __init__(self, shape = None, labels = None, data = None, degreeOfFreedom = None, name = None, legs = None, tensorLikeFlag = False, dtype = xplib.xp.float64):
-        super().__init__(diagonalFlag = True, tensorLikeFlag = tensorLikeFlag, dtype = dtype)
+        super().__init__(data = data, diagonalFlag = True, tensorLikeFlag = tensorLikeFlag, dtype = dtype)
 
         legs, data, labels, shape = self.deduction(legs = legs, data = data, labels = labels, shape = shape, isTensorLike = tensorLikeFlag)
 
-- 
2.43.0


From bb2db253e8ddc9138ed1df01bedd2691a0454910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:58 +0000
Subject: [PATCH 32/55] fix: Schimdt decomposition of tensors with repeated
 labels

---
 src/CTL/examples/Schimdt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CTL/examples/Schimdt.py b/src/CTL/examples/Schimdt.py
index dc89074..c3fc7f5 100644
--- a/src/CTL/examples/Schimdt.py
+++ b/src/CTL/examples/Schimdt.py
@@ -81,7 +81,7 @@ def SchimdtDecomposition(ta, tb, chi, squareRootSeparation = False, swapLabels =
         remainDim = (totShapeA * totShapeB) // swapDim
         chi = min([chi, totShapeA, totShapeB, sbDim * swapDim, sbDim * remainDim])
     else:
-        mat = tot.toMatrix(rows = labelA, cols = labelB)
+        mat = tot.toMatrix(rows = legA, cols = legB) # by legs, since labels may be repeated
 
         # np = ta.xp # default numpy
 
-- 
2.43.0


From 5f62e8202bfd822b62602006aa5117f260d9970d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:25 +0000
Subject: [PATCH 33/55] Revert "fix: Schimdt decomposition of tensors with
 repeated labels"

This reverts commit bb2db253e8ddc9138ed1df01bedd2691a0454910.
---
 src/CTL/examples/Schimdt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CTL/examples/Schimdt.py b/src/CTL/examples/Schimdt.py
index c3fc7f5..dc89074 100644
--- a/src/CTL/examples/Schimdt.py
+++ b/src/CTL/examples/Schimdt.py
@@ -81,7 +81,7 @@ def SchimdtDecomposition(ta, tb, chi, squareRootSeparation = False, swapLabels =
         remainDim = (totShapeA * totShapeB) // swapDim
         chi = min([chi, totShapeA, totShapeB, sbDim * swapDim, sbDim * remainDim])
     else:
-        mat = tot.toMatrix(rows = legA, cols = legB) # by legs, since labels may be repeated
+        mat = tot.toMatrix(rows = labelA, cols = labelB)
 
         # np = ta.xp # default numpy
 
-- 
2.43.0


From e806a11629bc25aa32ff932878f827b1a613af7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:25 +0000
Subject: [PATCH 34/55] Revert "fix: Schimdt decomposition of TensorLikes with
 swapped legs is not limited by the old bond"

This reverts commit 63abad42a15149ce86d70d11010015cd26876038.
---
 src/CTL/examples/Schimdt.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/CTL/examples/Schimdt.py b/src/CTL/examples/Schimdt.py
index dc89074..93a3857 100644
--- a/src/CTL/examples/Schimdt.py
+++ b/src/CTL/examples/Schimdt.py
@@ -48,8 +48,6 @@ def SchimdtDecomposition(ta, tb, chi, squareRootSeparation = False, swapLabels =
     assert ta.labelsInTensor(swapLabels[0]), funcs.errorMessage(err = "{} not in tensor {}.".format(swapLabels[0], ta), location = funcName)
     assert tb.labelsInTensor(swapLabels[1]), funcs.errorMessage(err = "{} not in tensor {}.".format(swapLabels[1], tb), location = funcName)
 
-    swapShape = ta.shapeOfLabels(swapLabels[0]) + tb.shapeOfLabels(swapLabels[1])
-
     ta.addTensorTag('a')
     tb.addTensorTag('b') 
     for swapLabel in swapLabels[0]:
@@ -76,10 +74,7 @@ def SchimdtDecomposition(ta, tb, chi, squareRootSeparation = False, swapLabels =
         u = None 
         vh = None
         s = None
-        # the rank is bounded by the legs cut: the bonds, together with the legs swapped(or all the legs not swapped)
-        swapDim = funcs.tupleProduct(swapShape)
-        remainDim = (totShapeA * totShapeB) // swapDim
-        chi = min([chi, totShapeA, totShapeB, sbDim * swapDim, sbDim * remainDim])
+        chi = min([chi, totShapeA, totShapeB, sbDim])
     else:
         mat = tot.toMatrix(rows = labelA, cols = labelB)
 
-- 
2.43.0


From f1ca7d52c27acf7ccddff75217319bea71d48ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:25 +0000
Subject: [PATCH 35/55] Revert "fix: TriangleTRG log density divides by the
 total degree of freedom"

This reverts commit f9f9414b8070825b42e93af10040e8ce7f4a4ddc.
---
 src/CTL/examples/TRG.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CTL/examples/TRG.py b/src/CTL/examples/TRG.py
index 18763df..dda1669 100644
--- a/src/CTL/examples/TRG.py
+++ b/src/CTL/examples/TRG.py
@@ -97,7 +97,7 @@ class TriangleTRG:
         stepN = len(self.aArchive)
         # print(stepN, len(self.aNorms))
         for i in range(stepN):
-            dof = self.aArchive[i].degreeOfFreedom + self.bArchive[i].degreeOfFreedom
+            dof = self.aArchive[i].degreeOfFreedom * self.bArchive[i].degreeOfFreedom
             accumulateLogZ += xplib.xp.log(self.aNorms[i] * self.bNorms[i]) / dof
             TNTrace = triangleTensorTrace(self.aArchive[i], self.bArchive[i])
             currLogZ = accumulateLogZ + xplib.xp.log(TNTrace.single()) / dof
-- 
2.43.0


From 03eef898c7e5918d5f7ad3bfcaacd963b4626837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:25 +0000
Subject: [PATCH 36/55] Revert "fix: SquareTRG can be started with two tensors"

This reverts commit 45c5e91ffd528c515ba8d90c7394815e239803cb.
---
 src/CTL/examples/TRG.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/CTL/examples/TRG.py b/src/CTL/examples/TRG.py
index dda1669..04a7c5b 100644
--- a/src/CTL/examples/TRG.py
+++ b/src/CTL/examples/TRG.py
@@ -119,12 +119,6 @@ class SquareTRG:
 
         if (self.a.degreeOfFreedom is None):
             self.a.degreeOfFreedom = 1
-
-        self.aNorms = []
-        self.errors = []
-
-        self.aArchive = []
-
         if (b is not None):
             if (isinstance(b, Tensor)):
                 self.b = b.copy()
@@ -134,7 +128,13 @@ class SquareTRG:
             self.iterate()
         else:
             self.b = self.a
-            self.appendToArchive()
+
+        self.aNorms = []
+        self.errors = []
+
+        self.aArchive = []
+
+        self.appendToArchive()
 
     def appendToArchive(self):
         self.normalizeTensors()
-- 
2.43.0


From be4a14f44cd4e4d17cf04355b37105aa3c011713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:25 +0000
Subject: [PATCH 37/55] Revert "fix: chi of an MPS is the largest bond
 dimension when not given"

This reverts commit e9105b7825c4202975f489abe3c87a848ed960a0.
---
 src/CTL/examples/MPS.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/CTL/examples/MPS.py b/src/CTL/examples/MPS.py
index 722a4da..8ce70b4 100644
--- a/src/CTL/examples/MPS.py
+++ b/src/CTL/examples/MPS.py
@@ -47,10 +47,10 @@ class FreeBoundaryMPS:
         # if chi is None: then take the maximum from bonds shared
         # otherwise, if bonds sharing larger than chi, then warning and update chi
         # otherwise, take chi
-        bondChi = 1
+        bondChi = -1
         for i in range(self.n - 1):
             bond = shareBonds(self._tensors[i], self._tensors[i + 1])[0]
-            bondChi = max(bondChi, bond.legs[0].dim) 
+            bondChi = min(bondChi, bond.legs[0].dim) 
         
         if (chi is None):
             return bondChi 
@@ -295,7 +295,7 @@ def makeRandomMPS(n, virtualDim, physicalDim, chi = -1):
         assert len(physicalDim) == n, funcs.errorMessage(err = 'physical dim must be int or length-n list, {} found.'.format(physicalDim), location = location)
 
     if chi == -1:
-        chi = max(virtualDim)
+        chi = virtualDim[0]
 
     # endsShape = (physicalDim, virtualDim)
     endsLabels = ['p', 'v']
-- 
2.43.0


From 24172a2849c314d1465f4afdc0b141d905aeeeb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:07 +0000
Subject: [PATCH 38/55] fix: floatRelativeEqual was never true for negative
 numbers or zeros

---
 src/CTL/funcs/funcs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CTL/funcs/funcs.py b/src/CTL/funcs/funcs.py
index ed14d4f..e29ecd3 100644
--- a/src/CTL/funcs/funcs.py
+++ b/src/CTL/funcs/funcs.py
@@ -972,7 +972,7 @@ def floatRelativeEqual(a, b, eps = 1e-7):
     bool
         Whether the two numbers are equal.
     """
-    return abs(a - b) < eps * 0.5 * (a + b)
+    return abs(a - b) <= eps * 0.5 * (abs(a) + abs(b))
 
 def floatArrayEqual(a, b, eps = 1e-7):
     """
-- 
2.43.0


From fed0580fc956aebe798f49d7ead85b3fb146151e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:07 +0000
Subject: [PATCH 39/55] fix: ndEye of one dimension set only the first diagonal
 element

---
 src/CTL/funcs/funcs.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/CTL/funcs/funcs.py b/src/CTL/funcs/funcs.py
index e29ecd3..9897be6 100644
--- a/src/CTL/funcs/funcs.py
+++ b/src/CTL/funcs/funcs.py
@@ -1144,10 +1144,7 @@ def ndEye(n, l):
         A tensor of shape (l, l, ... l), all values on the main diagonal is 1.
     """
     res = xplib.xp.zeros(tuple([l] * n))
-    if (n == 1):
-        res[0] = 1.0
-    else:
-        res[xplib.xp.diag_indices(l, n)] = 1
+    res[xplib.xp.diag_indices(l, n)] = 1
     return res
 
 def nonZeroElementN(s, eps = 1e-10):
-- 
2.43.0


From fedc72db7e35289e31eb7655314114c6ef4123d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:07 +0000
Subject: [PATCH 40/55] fix: loadData used an alias that numpy no longer has

---
 src/CTL/funcs/funcs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CTL/funcs/funcs.py b/src/CTL/funcs/funcs.py
index 9897be6..945020c 100644
--- a/src/CTL/funcs/funcs.py
+++ b/src/CTL/funcs/funcs.py
@@ -306,7 +306,7 @@ def loadData(fileName):
         A 2-d array of the file, columns and rows as two dimensions.
     """
     f = open(fileName, 'r')
-    data = xplib.xp.array([xplib.xp.array([xplib.xp.float(x) for x in line.strip().split(' ')]) for line in f])
+    data = xplib.xp.array([xplib.xp.array([float(x) for x in line.strip().split(' ')]) for line in f])
     return data
 
 def randomString(n = 10):
-- 
2.43.0


From 47e8a633ea13e0e6de30381d8abd9143b73050bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:08 +0000
Subject: [PATCH 41/55] fix: mapToDict gave the whole value list to every key

---
 src/CTL/funcs/funcs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/CTL/funcs/funcs.py b/src/CTL/funcs/funcs.py
index 945020c..f2a2126 100644
--- a/src/CTL/funcs/funcs.py
+++ b/src/CTL/funcs/funcs.py
@@ -894,8 +894,8 @@ def mapToDict(dictShape, x):
         Each key in dictShape corresponds to the value in x.
     """
     res = dict([])
-    for key in dictShape:
-        res[key] = x
+    for key, value in zip(dictShape, x):
+        res[key] = value
     return res
 
 # class LinearRegressionModel:
-- 
2.43.0


From 9268f7adfb50e8617d8cab42a61b148f03c4e8a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:08 +0000
Subject: [PATCH 42/55] fix: StringSet changed the length of new strings on
 every add and remove

---
 src/CTL/funcs/stringSet.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/CTL/funcs/stringSet.py b/src/CTL/funcs/stringSet.py
index e219d29..d4f6e7a 100644
--- a/src/CTL/funcs/stringSet.py
+++ b/src/CTL/funcs/stringSet.py
@@ -66,7 +66,6 @@ class StringSet:
         """
         assert not (s in self.stringSet), funcs.errorMessage(err = "Error: name '{}' is already used.".format(s), location = "StringSet.add")
         self.stringSet.add(s)
-        self.n += 1
 
     def remove(self, s):
         """
@@ -84,7 +83,6 @@ class StringSet:
         """
         assert (s in self.stringSet), funcs.errorMessage(err = "Error: name '{}' is not used.".format(s), location = "StringSet.remove")
         self.stringSet.remove(s)
-        self.n -= 1
 
     def contains(self, s):
         """
-- 
2.43.0


From dd1a35286351ac843693125a2997ee5e41b50c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:41 +0000
Subject: [PATCH 43/55] fix: isRealNumber refused numpy.float64, so Ising
 tensors failed with such couplings

---
 src/CTL/funcs/funcs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CTL/funcs/funcs.py b/src/CTL/funcs/funcs.py
index f2a2126..37894a5 100644
--- a/src/CTL/funcs/funcs.py
+++ b/src/CTL/funcs/funcs.py
@@ -1238,7 +1238,7 @@ def isRealNumber(a):
     bool
         Whether a is a number(int, float) or not.
     """
-    return (type(a) == int) or (type(a) == float)
+    return isinstance(a, (int, float)) and (not isinstance(a, bool))
 
 def pairIterator(a):
     """
-- 
2.43.0


From 3960476612e9ecd4a47adf3067699be4bd0c877c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:15 +0000
Subject: [PATCH 44/55] fix: edges added after an edge query were not indexed

---
 src/CTL/tensor/contract/tensorGraph.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/CTL/tensor/contract/tensorGraph.py b/src/CTL/tensor/contract/tensorGraph.py
index 797dc8d..2621b04 100644
--- a/src/CTL/tensor/contract/tensorGraph.py
+++ b/src/CTL/tensor/contract/tensorGraph.py
@@ -66,8 +66,6 @@ class TensorGraph(UndirectedGraph):
         """
         Add an index to each edge.
         """
-        if (self.indexed and (not self.updated)):
-            return
         edges = self.getEdges()
         m = len(edges)
         for i in range(m):
-- 
2.43.0


From 61cb5c803424db38e5556f4168a98fbc8f36bef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:17 +0000
Subject: [PATCH 45/55] fix: a refused merge of several bonds of a diagonal
 tensor left the other tensor half merged

---
 src/CTL/tensor/contract/link.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/CTL/tensor/contract/link.py b/src/CTL/tensor/contract/link.py
index e936e01..107a826 100644
--- a/src/CTL/tensor/contract/link.py
+++ b/src/CTL/tensor/contract/link.py
@@ -101,6 +101,10 @@ def mergeLink(ta, tb, bondName = None, renameWarning = True):
         return ta, tb
 
     # otherwise, we need to do outProduct, and then merge
+    # diagonal tensors cannot do this, so refuse before any of the two tensors is changed
+    if (ta.diagonalFlag or tb.diagonalFlag):
+        raise TypeError(funcs.errorMessage(location = funcName, err = "mergeLink cannot merge more than one links of diagonal tensors, {} and {} gotten.".format(ta, tb)))
+
     # bondNameA = funcs.combineName(namesList = [leg.name for leg in mergeLegA], givenName = bondName)
     # bondNameB = funcs.combineName(namesList = [leg.anem for leg in mergeLegB], givenName = bondName)
     if (bondName is None):
-- 
2.43.0


From e5eb5cf0a0f081060e94f77270a62beefe31dd15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:39 +0000
Subject: [PATCH 46/55] fix: getDiffError was not the sum of the squared
 element-wise distances

---
 src/CTL/funcs/funcs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CTL/funcs/funcs.py b/src/CTL/funcs/funcs.py
index 37894a5..87493ee 100644
--- a/src/CTL/funcs/funcs.py
+++ b/src/CTL/funcs/funcs.py
@@ -463,7 +463,7 @@ def getDiffError(a, b):
         The sum of element-wise distance square between a and b.
     """
     deprecatedFuncWarning(funcName = 'getDiffError', fileName = 'CTL.funcs.funcs')
-    return xplib.xp.linalg.norm(a ** 2) + xplib.xp.linalg.norm(b ** 2) - xplib.xp.linalg.norm(a * b) * 2
+    return xplib.xp.sum(xplib.xp.abs(a - b) ** 2)
 
 def matDiffError(a, b):
     """
-- 
2.43.0


From 7de0d0a94684ee03c601386d4a63c7bbccccc2ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:05 +0000
Subject: [PATCH 47/55] fix: a refused moveLegsToFront left the tensor without
 some of its legs

---
 src/CTL/tensor/diagonalTensor.py | 6 +++---
 src/CTL/tensor/tensor.py         | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/CTL/tensor/diagonalTensor.py b/src/CTL/tensor/diagonalTensor.py
index 2f48d40..55c228d 100644
--- a/src/CTL/tensor/diagonalTensor.py
+++ b/src/CTL/tensor/diagonalTensor.py
@@ -497,14 +497,14 @@ class DiagonalTensor(Tensor):
                     currIdx += 1
                     break
 
-        self.legs = list(self.legs) # legs given may be this list itself, which should not be changed
+        remainLegs = list(self.legs) # legs given may be this list itself, and nothing should be changed if some leg is refused
         for leg in movedLegs:
-            self.legs.remove(leg)
+            remainLegs.remove(leg)
         
         # print(moveFrom, moveTo)
         # print(labelList)
         # print(self.labels)
-        self.legs = movedLegs + self.legs 
+        self.legs = movedLegs + remainLegs 
         # self.a = xplib.xp.moveaxis(self.a, moveFrom, moveTo)
 
     def toVector(self):
diff --git a/src/CTL/tensor/tensor.py b/src/CTL/tensor/tensor.py
index 9eb2ef7..9cad9a1 100644
--- a/src/CTL/tensor/tensor.py
+++ b/src/CTL/tensor/tensor.py
@@ -570,14 +570,14 @@ class Tensor(TensorBase):
                     currIdx += 1
                     break
 
-        self.legs = list(self.legs) # legs given may be this list itself, which should not be changed
+        remainLegs = list(self.legs) # legs given may be this list itself, and nothing should be changed if some leg is refused
         for leg in movedLegs:
-            self.legs.remove(leg)
+            remainLegs.remove(leg)
         
         # print(moveFrom, moveTo)
         # print(labelList)
         # print(self.labels)
-        self.legs = movedLegs + self.legs 
+        self.legs = movedLegs + remainLegs 
         if (not self.tensorLikeFlag):
             self.a = xplib.xp.moveaxis(self.a, moveFrom, moveTo)
 
-- 
2.43.0


From df6b1ca16867da5883b44557bf08d65a03688a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:26 +0000
Subject: [PATCH 48/55] fix: contraction costs above 2**53 were rounded to
 floating point numbers

---
 src/CTL/tensor/contract/optimalContract.py |  2 +-
 src/CTL/tensor/contract/tensorGraph.py     | 15 ++++++++-------
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/CTL/tensor/contract/optimalContract.py b/src/CTL/tensor/contract/optimalContract.py
index 48cb980..9329f94 100644
--- a/src/CTL/tensor/contract/optimalContract.py
+++ b/src/CTL/tensor/contract/optimalContract.py
@@ -221,7 +221,7 @@ def contractAndCostWithSequence(tensorList, seq = None, bf = False, typicalDim =
         else:
             seq = generateOptimalSequence(tensorList, bf = bf, typicalDim = typicalDim)
         # print(seq)
-    totalCost = 0.0
+    totalCost = 0
     totalLevel = 0
 
     if (not inplace):
diff --git a/src/CTL/tensor/contract/tensorGraph.py b/src/CTL/tensor/contract/tensorGraph.py
index 2621b04..2f5a90d 100644
--- a/src/CTL/tensor/contract/tensorGraph.py
+++ b/src/CTL/tensor/contract/tensorGraph.py
@@ -186,15 +186,16 @@ class TensorGraph(UndirectedGraph):
 
             clb = set(funcs.commonElements(edgesA, edgesB))
             res = 1
-            for l, s in zip(edgesA + edgesB, shapeA + shapeB):
-                if (l in clb):
-                    if (not diagonal):
-                        res *= xplib.xp.sqrt(s)
-                    # if single diagonal: then the cost should be output shape
-                else:
+            for l, s in zip(edgesA, shapeA):
+                # common legs are counted once here
+                # if single diagonal: then the cost should be output shape
+                if (not diagonal) or (l not in clb):
+                    res *= s
+            for l, s in zip(edgesB, shapeB):
+                if (l not in clb):
                     res *= s 
 
-            return int(res + 0.5)
+            return res
 
         def getCostTypical(tsA, tsB):
             edgesA, _, diagonalA = self.contractRes[tsA]
-- 
2.43.0


From 0246b8a8812228efd256076b58cd277dcc8e6232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:12 +0000
Subject: [PATCH 49/55] fix: a refused makeLink of several legs left the first
 of them linked

---
 src/CTL/tensor/contract/link.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/CTL/tensor/contract/link.py b/src/CTL/tensor/contract/link.py
index 107a826..e7391f0 100644
--- a/src/CTL/tensor/contract/link.py
+++ b/src/CTL/tensor/contract/link.py
@@ -55,6 +55,9 @@ def makeLink(legA, legB, tensorA = None, tensorB = None):
     bonds = []
     for leg1, leg2 in zip(legA, legB):
         assert (leg1.dim == leg2.dim), "Error: leg {} and {} to be linked do not have the same dimensions.".format(leg1, leg2)
+
+    # nothing is linked before all the legs have been checked
+    for leg1, leg2 in zip(legA, legB):
         bonds.append(Bond(leg1, leg2))
     
     return bonds
-- 
2.43.0


From e7b09ef7863f4def058fb7d7e1b28eb3894fc22f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:12 +0000
Subject: [PATCH 50/55] fix: a refused addTensorTag left some of the legs
 tagged

---
 src/CTL/tensor/tensor.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/CTL/tensor/tensor.py b/src/CTL/tensor/tensor.py
index 9cad9a1..862ef23 100644
--- a/src/CTL/tensor/tensor.py
+++ b/src/CTL/tensor/tensor.py
@@ -845,6 +845,7 @@ class Tensor(TensorBase):
         """
         for leg in self.legs:
             assert (leg.name.find('-') == -1), "Error: leg name {} already has a tensor tag.".format(leg.name)
+        for leg in self.legs:
             leg.name = name + '-' + leg.name 
     
     def removeTensorTag(self):
-- 
2.43.0


From 905f8462ce1cf3fd4203527db746a46de723d34c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:19 +0000
Subject: [PATCH 51/55] fix: sumOutLeg of a diagonal tensor removed the leg
 although the weights were refused

---
 src/CTL/tensor/diagonalTensor.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/CTL/tensor/diagonalTensor.py b/src/CTL/tensor/diagonalTensor.py
index 55c228d..43a11ee 100644
--- a/src/CTL/tensor/diagonalTensor.py
+++ b/src/CTL/tensor/diagonalTensor.py
@@ -731,9 +731,8 @@ class DiagonalTensor(Tensor):
         
         idx = self.legs.index(leg)
         # self.a = xplib.xp.sum(self.a, axis = idx)
-        self.legs = self.legs[:idx] + self.legs[(idx + 1):]
         # if weights is None:
-        if (len(self.legs) == 0):
+        if (len(self.legs) == 1):
             # not a diagonal tensor, since the last sum will give a single value
             if (not self.tensorLikeFlag):
                 if weights is None:
@@ -745,6 +744,9 @@ class DiagonalTensor(Tensor):
             if (weights is not None) and (not self.tensorLikeFlag):
                 self.a = self.a * weights
 
+        # only after the weights have been accepted
+        self.legs = self.legs[:idx] + self.legs[(idx + 1):]
+
     def typeName(self):
         """
         The type of the current class.
-- 
2.43.0


From e2ef7686f2827d2e74e7b17a19e4a23b2c618c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:25 +0000
Subject: [PATCH 52/55] fix: a recorded out product changed when the caller
 changed its list of labels afterwards

---
 src/CTL/tensornetwork/tensornetwork.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CTL/tensornetwork/tensornetwork.py b/src/CTL/tensornetwork/tensornetwork.py
index 4721e13..8a727cd 100644
--- a/src/CTL/tensornetwork/tensornetwork.py
+++ b/src/CTL/tensornetwork/tensornetwork.py
@@ -74,7 +74,7 @@ class FiniteTensorNetwork:
 
     def addPostOutProduct(self, labelList, newLabel):
         self.checkLock('add post out product: {} -> {}'.format(labelList, newLabel))
-        self.outProductAfter.append((labelList, newLabel))
+        self.outProductAfter.append((list(labelList), newLabel))
 
     def loadBondDims(self, localTensors):
         for name in localTensors:
-- 
2.43.0


From 796289aaa362f047fae54ca972abafb09171bd40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:18 +0000
Subject: [PATCH 53/55] fix: a tensor kept the list of legs it was made from,
 and changed with it

---
 src/CTL/tensor/diagonalTensor.py | 1 +
 src/CTL/tensor/tensor.py         | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/CTL/tensor/diagonalTensor.py b/src/CTL/tensor/diagonalTensor.py
index 43a11ee..7b5ca8f 100644
--- a/src/CTL/tensor/diagonalTensor.py
+++ b/src/CTL/tensor/diagonalTensor.py
@@ -383,6 +383,7 @@ class DiagonalTensor(Tensor):
                 legs.append(Leg(self, dim, label))
 
         else:
+            legs = list(legs)
             for leg in legs:
                 leg.tensor = self
 
diff --git a/src/CTL/tensor/tensor.py b/src/CTL/tensor/tensor.py
index 862ef23..ef23544 100644
--- a/src/CTL/tensor/tensor.py
+++ b/src/CTL/tensor/tensor.py
@@ -362,6 +362,7 @@ class Tensor(TensorBase):
                 legs.append(Leg(self, dim, label))
 
         else:
+            legs = list(legs)
             for leg in legs:
                 leg.tensor = self
 
-- 
2.43.0


From 57077a043184044627c7cdb6ec8e26037dcc1a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:01 +0000
Subject: [PATCH 54/55] fix: a graph lost edges when the caller changed the
 list getEdges returned

getEdges handed out the list that is cached on the graph.
---
 src/CTL/funcs/graph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/CTL/funcs/graph.py b/src/CTL/funcs/graph.py
index 7c0caec..b2d1b50 100644
--- a/src/CTL/funcs/graph.py
+++ b/src/CTL/funcs/graph.py
@@ -245,7 +245,7 @@ class UndirectedGraph(Graph):
         
         """
         if (self.edges is not None) and (not self.updated):
-            return self.edges
+            return list(self.edges)
         res = []
         for v in self.v:
             for edge in v.edges:
@@ -254,7 +254,7 @@ class UndirectedGraph(Graph):
         # return list(set(res))
         self.edges = res 
         self.updated = False
-        return res
+        return list(res)
     
     
 
-- 
2.43.0


From 4739d875c605d192af198362bba88fe76e3ab9a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:01 +0000
Subject: [PATCH 55/55] fix: optimalCostResult of a tensor graph ignored edges
 added after the last query

---
 src/CTL/tensor/contract/tensorGraph.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/CTL/tensor/contract/tensorGraph.py b/src/CTL/tensor/contract/tensorGraph.py
index 2f5a90d..1489a38 100644
--- a/src/CTL/tensor/contract/tensorGraph.py
+++ b/src/CTL/tensor/contract/tensorGraph.py
@@ -48,6 +48,25 @@ class TensorGraph(UndirectedGraph):
         else:
             self.diagonalFlags = diagonalFlags
 
+    def addEdge(self, idx1, idx2, weight = None):
+        """
+        Add an edge(bond) between two vertices(tensors). The optimal cost calculated before is dropped, since it is not for the current graph.
+
+        Parameters
+        ----------
+        idx1, idx2 : int
+            Two indices of vertices that will be linked by the edge.
+        weight : None or int
+            If int, then added to the added edge as weight, used for cost calculation.
+
+        Returns 
+        -------
+        GraphEdge
+            The edge added.
+        """
+        self.optimalCost = None
+        return super().addEdge(idx1, idx2, weight = weight)
+
     def addFreeEdge(self, idx, weight = None):
         """
         Add a free edge to a vertex.
@@ -61,6 +80,7 @@ class TensorGraph(UndirectedGraph):
         """
         self.v[idx].addEdge(None, weight = weight)
         self.updated = True
+        self.optimalCost = None
 
     def addEdgeIndex(self):
         """
-- 
2.43.0

