From ca681e336d6b1ddd90aa7f7d2e082d022d913365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:10 +0000
Subject: [PATCH 01/57] fix: gate layers overwrite their output and input error
 instead of adding to stale buffers

---
 pybrain/structure/modules/gate.py | 32 +++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/pybrain/structure/modules/gate.py b/pybrain/structure/modules/gate.py
index 99eceb9..7bfa3c4 100644
--- a/pybrain/structure/modules/gate.py
+++ b/pybrain/structure/modules/gate.py
@@ -18,11 +18,11 @@ class MultiplicationLayer(NeuronLayer):
         self.setArgs(dim=dim, name=self.name)
 
     def _forwardImplementation(self, inbuf, outbuf):
-        outbuf += inbuf[:self.outdim] * inbuf[self.outdim:]
+        outbuf[:] = inbuf[:self.outdim] * inbuf[self.outdim:]
 
     def _backwardImplementation(self, outerr, inerr, outbuf, inbuf):
-        inerr[:self.outdim] += inbuf[self.outdim:] * outerr
-        inerr[self.outdim:] += inbuf[:self.outdim] * outerr
+        inerr[:self.outdim] = inbuf[self.outdim:] * outerr
+        inerr[self.outdim:] = inbuf[:self.outdim] * outerr
 
 
 class GateLayer(NeuronLayer):
@@ -38,14 +38,14 @@ class GateLayer(NeuronLayer):
         self.setArgs(dim=dim, name=self.name)
 
     def _forwardImplementation(self, inbuf, outbuf):
-        outbuf += sigmoid(inbuf[:self.outdim]) * inbuf[self.outdim:]
+        outbuf[:] = sigmoid(inbuf[:self.outdim]) * inbuf[self.outdim:]
 
     def _backwardImplementation(self, outerr, inerr, outbuf, inbuf):
-        inerr[:self.outdim] += (sigmoidPrime(inbuf[:self.outdim])
-                                * inbuf[self.outdim:]
-                                * outerr)
-        inerr[self.outdim:] += (sigmoid(inbuf[:self.outdim])
-                                * outerr)
+        inerr[:self.outdim] = (sigmoidPrime(inbuf[:self.outdim])
+                               * inbuf[self.outdim:]
+                               * outerr)
+        inerr[self.outdim:] = (sigmoid(inbuf[:self.outdim])
+                               * outerr)
 
 
 class DoubleGateLayer(NeuronLayer):
@@ -62,8 +62,8 @@ class DoubleGateLayer(NeuronLayer):
 
     def _forwardImplementation(self, inbuf, outbuf):
         dim = self.indim // 2
-        outbuf[:dim] += sigmoid(inbuf[:dim]) * inbuf[dim:]
-        outbuf[dim:] += (1 - sigmoid(inbuf[:dim])) * inbuf[dim:]
+        outbuf[:dim] = sigmoid(inbuf[:dim]) * inbuf[dim:]
+        outbuf[dim:] = (1 - sigmoid(inbuf[:dim])) * inbuf[dim:]
 
     def _backwardImplementation(self, outerr, inerr, outbuf, inbuf):
         dim = self.indim // 2
@@ -71,8 +71,8 @@ class DoubleGateLayer(NeuronLayer):
         in1 = inbuf[dim:]
         out0 = outerr[:dim]
         out1 = outerr[dim:]
-        inerr[:dim] += sigmoidPrime(in0) * in1 * out0
-        inerr[dim:] += sigmoid(in0) * out0
+        inerr[:dim] = sigmoidPrime(in0) * in1 * out0
+        inerr[dim:] = sigmoid(in0) * out0
 
         inerr[:dim] -= sigmoidPrime(in0) * in1 * out1
         inerr[dim:] += (1 - sigmoid(in0)) * out1
@@ -87,11 +87,11 @@ class SwitchLayer(NeuronLayer):
         self.setArgs(dim=dim, name=self.name)
 
     def _forwardImplementation(self, inbuf, outbuf):
-        outbuf[:self.indim] += sigmoid(inbuf)
-        outbuf[self.indim:] += 1 - sigmoid(inbuf)
+        outbuf[:self.indim] = sigmoid(inbuf)
+        outbuf[self.indim:] = 1 - sigmoid(inbuf)
 
     def _backwardImplementation(self, outerr, inerr, outbuf, inbuf):
-        inerr += sigmoidPrime(inbuf) * outerr[:self.indim]
+        inerr[:] = sigmoidPrime(inbuf) * outerr[:self.indim]
         inerr -= sigmoidPrime(inbuf) * outerr[self.indim:]
 
 
-- 
2.43.0


From 656060b8ca5222635c97aa851ef3357240bdd749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:35 +0000
Subject: [PATCH 02/57] fix: LSTM layer takes the most recent step for the last
 one, so a single step can be back-propagated

---
 pybrain/structure/modules/lstm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/structure/modules/lstm.py b/pybrain/structure/modules/lstm.py
index 599d7e2..06d95ed 100644
--- a/pybrain/structure/modules/lstm.py
+++ b/pybrain/structure/modules/lstm.py
@@ -77,7 +77,7 @@ class LSTMLayer(NeuronLayer, ParameterContainer):
 
     def _isLastTimestep(self):
         """Tell wether the current offset is the maximum offset."""
-        return self.maxoffset == self.offset
+        return self.maxoffset == self.offset + 1
 
     def _forwardImplementation(self, inbuf, outbuf):
         self.maxoffset = max(self.offset + 1, self.maxoffset)
-- 
2.43.0


From 6380dfefca8ac3c8da17b4fd75d733d385271dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:35 +0000
Subject: [PATCH 03/57] fix: partial softmax layer normalises its slices and
 writes the result

---
 pybrain/structure/modules/softmax.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pybrain/structure/modules/softmax.py b/pybrain/structure/modules/softmax.py
index 0d28f4f..0f71249 100644
--- a/pybrain/structure/modules/softmax.py
+++ b/pybrain/structure/modules/softmax.py
@@ -30,9 +30,9 @@ class PartialSoftmaxLayer(NeuronLayer):
 
     def _forwardImplementation(self, inbuf, outbuf):
         outbuf[:] = safeExp(inbuf)
-        outbuf.shape = scipy.size(outbuf) / self.slicelength, self.slicelength
-        s = outbuf.sum(axis=1)
-        outbuf = (outbuf.T / s).T.flatten()
+        slices = outbuf.reshape(scipy.size(outbuf) // self.slicelength, self.slicelength)
+        s = slices.sum(axis=1)
+        outbuf[:] = (slices.T / s).T.flatten()
 
     def _backwardImplementation(self, outerr, inerr, outbuf, inbuf):
         inerr[:] = outerr
-- 
2.43.0


From 240cd6c9f6e0b839f9000ec4d77ca7dbe78168f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:31 +0000
Subject: [PATCH 04/57] fix: linear connection accumulates the derivatives of
 its weights and refuses mismatching sizes

---
 pybrain/structure/connections/linear.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pybrain/structure/connections/linear.py b/pybrain/structure/connections/linear.py
index 46f8559..b7170a5 100644
--- a/pybrain/structure/connections/linear.py
+++ b/pybrain/structure/connections/linear.py
@@ -16,11 +16,15 @@ class LinearConnection(Connection, ParameterContainer):
         size = inSliceTo - inSliceFrom
         Connection.__init__(self, inmod, outmod, name,
                             inSliceFrom, inSliceTo, outSliceFrom, outSliceTo)
+        assert self.indim == self.outdim, \
+               "Indim (%i) does not equal outdim (%i)" % (
+               self.indim, self.outdim)
         ParameterContainer.__init__(self, size)
 
     def _forwardImplementation(self, inbuf, outbuf):
         outbuf += inbuf * self.params
 
     def _backwardImplementation(self, outerr, inerr, inbuf):
-        #CHECKME: not setting derivatives -- this means the multiplicative weight is never updated!
         inerr += outerr * self.params
+        ds = self.derivs
+        ds += inbuf * outerr
-- 
2.43.0


From 5ced5c8fb8a049659df26108b3a4e81e1104de0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:31 +0000
Subject: [PATCH 05/57] fix: diagonal weights of FullNotSelfConnection take no
 part and get no derivative

---
 pybrain/structure/connections/fullnotself.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/structure/connections/fullnotself.py b/pybrain/structure/connections/fullnotself.py
index 4d81bb2..4c682fe 100644
--- a/pybrain/structure/connections/fullnotself.py
+++ b/pybrain/structure/connections/fullnotself.py
@@ -26,4 +26,4 @@ class FullNotSelfConnection(FullConnection):
         p = reshape(self.params, (self.outdim, self.indim)) * (1-eye(self.outdim))
         inerr += dot(p.T, outerr)
         ds = self.derivs
-        ds += outer(inbuf, outerr).T.flatten()
+        ds += (outer(inbuf, outerr).T * (1-eye(self.outdim))).flatten()
-- 
2.43.0


From 22339c060c0d478ee1067d34f58b7837eb6aa686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:31 +0000
Subject: [PATCH 06/57] fix: FullConnection.whichBuffers respects the slices of
 the connection

---
 pybrain/structure/connections/full.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pybrain/structure/connections/full.py b/pybrain/structure/connections/full.py
index 98ca3f0..041f9cb 100644
--- a/pybrain/structure/connections/full.py
+++ b/pybrain/structure/connections/full.py
@@ -26,4 +26,5 @@ class FullConnection(Connection, ParameterContainer):
     def whichBuffers(self, paramIndex):
         """Return the index of the input module's output buffer and
         the output module's input buffer for the given weight."""
-        return paramIndex % self.inmod.outdim, paramIndex // self.inmod.outdim
+        return (self.inSliceFrom + paramIndex % self.indim,
+                self.outSliceFrom + paramIndex // self.indim)
-- 
2.43.0


From 22dbe74dc0eabbf259d74ba3ad966618036d2589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:31 +0000
Subject: [PATCH 07/57] fix: permutation connection back-propagates through the
 inverse permutation

---
 pybrain/structure/connections/permutation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pybrain/structure/connections/permutation.py b/pybrain/structure/connections/permutation.py
index 7dda244..37a9b25 100644
--- a/pybrain/structure/connections/permutation.py
+++ b/pybrain/structure/connections/permutation.py
@@ -4,7 +4,7 @@ __author__ = 'Justin Bayer, bayer.justin@googlemail.com'
 __version__ = '$Id$'
 
 
-from scipy import array
+from scipy import argsort, array
 
 from pybrain.structure.connections.connection import Connection
 from pybrain.utilities import permute
@@ -24,7 +24,7 @@ class PermutationConnection(Connection):
                 (self.indim // blocksize), len(permutation)))
 
         self.permutation = array(permutation)
-        self.invpermutation = permute(list(range(len(permutation))), permutation)
+        self.invpermutation = argsort(self.permutation)
         self.blocksize = blocksize
 
     def _forwardImplementation(self, inbuf, outbuf):
-- 
2.43.0


From 940835f9581076c37a0b0911976f2fe9d5212805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:31 +0000
Subject: [PATCH 08/57] fix: slices of module slices can be constructed

---
 pybrain/structure/moduleslice.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pybrain/structure/moduleslice.py b/pybrain/structure/moduleslice.py
index 762d24a..c58bd20 100644
--- a/pybrain/structure/moduleslice.py
+++ b/pybrain/structure/moduleslice.py
@@ -13,12 +13,12 @@ class ModuleSlice(Named):
         if isinstance(base, ModuleSlice):
             # tolerantly handle the case of a slice of another slice
             self.base = base.base
-            self.inOffset = inSliceFrom + base.inSliceFrom
-            self.outOffset = outSliceFrom + base.outSliceFrom
+            self.inOffset = inSliceFrom + base.inOffset
+            self.outOffset = outSliceFrom + base.outOffset
             if inSliceTo == None:
-                inSliceTo = self.base.indim + base.inSliceFrom
+                inSliceTo = base.indim
             if outSliceTo == None:
-                outSliceTo = self.base.outdim + base.outSliceFrom
+                outSliceTo = base.outdim
             self.name = base.base.name
         else:
             self.base = base
-- 
2.43.0


From c04f923bb27bbe397953fe656d9d11e23ff64d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:57 +0000
Subject: [PATCH 09/57] fix: gradient descent leaves the gradient it is given
 unmodified

---
 pybrain/auxiliary/gradientdescent.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pybrain/auxiliary/gradientdescent.py b/pybrain/auxiliary/gradientdescent.py
index 4b8b0bb..dc4cdb2 100644
--- a/pybrain/auxiliary/gradientdescent.py
+++ b/pybrain/auxiliary/gradientdescent.py
@@ -2,7 +2,7 @@ __author__ = ('Thomas Rueckstiess, ruecksti@in.tum.de'
               'Justin Bayer, bayer.justin@googlemail.com')
 
 
-from scipy import zeros, asarray, sign, array, cov, dot, clip, ndarray
+from scipy import zeros, sign, array, cov, dot, clip, ndarray
 from scipy.linalg import inv
 
 
@@ -55,7 +55,7 @@ class GradientDescent(object):
         """ calculates parameter change based on given gradient and returns updated parameters """
         # check if gradient has correct dimensionality, then make array """
         assert len(gradient) == len(self.values)
-        gradient_arr = asarray(gradient)
+        gradient_arr = array(gradient)
 
         if self.rprop:
             rprop_theta = self.rprop_theta
-- 
2.43.0


From b28d7617928a07dbed4897703891609a7178c65e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:57 +0000
Subject: [PATCH 10/57] fix: StateDependentLayer tests its exploration for None
 by identity

---
 pybrain/structure/modules/statedependentlayer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/structure/modules/statedependentlayer.py b/pybrain/structure/modules/statedependentlayer.py
index 920bb70..3abd03d 100644
--- a/pybrain/structure/modules/statedependentlayer.py
+++ b/pybrain/structure/modules/statedependentlayer.py
@@ -39,7 +39,7 @@ class StateDependentLayer(NeuronLayer, ParameterContainer):
             random.normal(0, expln(self.params), self.module.paramdim))
 
     def _forwardImplementation(self, inbuf, outbuf):
-        assert self.exploration != None
+        assert self.exploration is not None
         if not self.enabled:
             outbuf[:] = inbuf
         else:
-- 
2.43.0


From 6bcecfbe3d16fe6b44936d2c02a234d47dbbb3c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:57 +0000
Subject: [PATCH 11/57] fix: Table.activate indexes with integers

---
 pybrain/structure/modules/table.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/structure/modules/table.py b/pybrain/structure/modules/table.py
index 73ee811..cebca9a 100644
--- a/pybrain/structure/modules/table.py
+++ b/pybrain/structure/modules/table.py
@@ -23,7 +23,7 @@ class Table(Module, ParameterContainer):
         """ takes two coordinates, row and column, and returns the
             value in the table.
         """
-        outbuf[0] = self.params.reshape(self.numRows, self.numColumns)[inbuf[0], inbuf[1]]
+        outbuf[0] = self.params.reshape(self.numRows, self.numColumns)[int(inbuf[0]), int(inbuf[1])]
 
     def updateValue(self, row, column, value):
         """ set the value at a certain location in the table. """
-- 
2.43.0


From f4a43518fd6298163e81c83c7eded110fcd6abb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:10 +0000
Subject: [PATCH 12/57] fix: RecurrentNetwork accepts its forget argument

---
 pybrain/structure/networks/recurrent.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pybrain/structure/networks/recurrent.py b/pybrain/structure/networks/recurrent.py
index c814b03..5cb0b9a 100644
--- a/pybrain/structure/networks/recurrent.py
+++ b/pybrain/structure/networks/recurrent.py
@@ -148,8 +148,5 @@ class RecurrentNetwork(RecurrentNetworkComponent, Network):
 
     def __init__(self, *args, **kwargs):
         Network.__init__(self, *args, **kwargs)
-        if 'forget' in kwargs:
-            forget = kwargs['forget']
-        else:
-            forget = False
+        forget = kwargs.pop('forget', False)
         RecurrentNetworkComponent.__init__(self, forget, *args, **kwargs)
-- 
2.43.0


From 8164a0217b199017025b97e429932315ecd59f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:10 +0000
Subject: [PATCH 13/57] fix: a copied network shares its derivatives with its
 own components

---
 pybrain/structure/networks/network.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pybrain/structure/networks/network.py b/pybrain/structure/networks/network.py
index d5c4d2f..0236714 100644
--- a/pybrain/structure/networks/network.py
+++ b/pybrain/structure/networks/network.py
@@ -269,6 +269,7 @@ class Network(Module, ParameterContainer):
         cp = Evolvable.copy(self)
         if self.paramdim > 0:
             cp._setParameters(self.params.copy())
+            cp._setDerivatives(self.derivs.copy(), cp.owner)
         return cp
 
     def convertToFastNetwork(self):
-- 
2.43.0


From 4adb5a237f211b282877a0c3169399105eee8415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:58 +0000
Subject: [PATCH 14/57] fix: sequence boundaries are stored as floats, use them
 as integer indices

---
 pybrain/datasets/sequential.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pybrain/datasets/sequential.py b/pybrain/datasets/sequential.py
index 03b2144..65fc7be 100644
--- a/pybrain/datasets/sequential.py
+++ b/pybrain/datasets/sequential.py
@@ -46,7 +46,7 @@ class SequentialDataSet(SupervisedDataSet):
         if len(seq) < index + 1:
             # sequence index beyond number of sequences. raise exception
             raise IndexError('sequence does not exist.')
-        return self.getField(field)[seq[index]:seq[index + 1]]
+        return self.getField(field)[int(seq[index]):int(seq[index + 1])]
 
     def getSequence(self, index):
         """Returns the sequence given by `index`.
@@ -80,7 +80,7 @@ class SequentialDataSet(SupervisedDataSet):
     def gotoSequence(self, index):
         """Move the internal marker to the beginning of sequence `index`."""
         try:
-            self.index = ravel(self.getField('sequence_index'))[index]
+            self.index = int(ravel(self.getField('sequence_index'))[index])
         except IndexError:
             raise IndexError('sequence does not exist')
 
@@ -113,7 +113,7 @@ class SequentialDataSet(SupervisedDataSet):
         if index >= self.getNumSequences():
             # sequence doesn't exist, raise exception
             raise IndexError('sequence does not exist.')
-        sequences = ravel(self.getField('sequence_index'))
+        sequences = ravel(self.getField('sequence_index')).astype(int)
         seqstart = sequences[index]
         if index == self.getNumSequences() - 1:
             # last sequence is going to be removed
@@ -154,7 +154,7 @@ class SequentialDataSet(SupervisedDataSet):
             # move sequence marker to the new sequence at position 'index'
             self.currentSeq = index
             # move sample marker to beginning of sequence at position 'index'
-            self.index = ravel(self.getField('sequence_index'))[index]
+            self.index = int(ravel(self.getField('sequence_index'))[index])
 
 
     def clear(self):
-- 
2.43.0


From f4821002e2041163e3b021fd3b98cc087b4b7311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:58 +0000
Subject: [PATCH 15/57] fix: one-of-many conversion used a dtype name numpy
 does not have

---
 pybrain/datasets/classification.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/datasets/classification.py b/pybrain/datasets/classification.py
index c2b52e5..81b7f16 100644
--- a/pybrain/datasets/classification.py
+++ b/pybrain/datasets/classification.py
@@ -139,7 +139,7 @@ class ClassificationDataSet(SupervisedDataSet):
         if self.nClasses <= 0:
             self.calculateStatistics()
         oldtarg = self.getField('target')
-        newtarg = zeros([len(self), self.nClasses], dtype='Int32') + bounds[0]
+        newtarg = zeros([len(self), self.nClasses], dtype='int32') + bounds[0]
         for i in range(len(self)):
             newtarg[i, int(oldtarg[i])] = bounds[1]
         self.setField('target', newtarg)
-- 
2.43.0


From 447c9de152201e2958a7ba74a44262ede9e08cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:58 +0000
Subject: [PATCH 16/57] fix: importance given as an array was compared with
 None

---
 pybrain/datasets/importance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/datasets/importance.py b/pybrain/datasets/importance.py
index bd8235f..ecb5743 100644
--- a/pybrain/datasets/importance.py
+++ b/pybrain/datasets/importance.py
@@ -28,7 +28,7 @@ class ImportanceDataSet(SequentialDataSet):
             :key importance: the importance of the sample. If left None, the
                  importance will be set to 1.0
         """
-        if importance == None:
+        if importance is None:
             importance = ones(len(target))
         self.appendLinked(inp, target, importance)
 
-- 
2.43.0


From 5176ee3f96383dec6d4ed96c8d847a2dc2ae2e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:58 +0000
Subject: [PATCH 17/57] fix: length of a data set without links is that of its
 longest field

---
 pybrain/datasets/dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/datasets/dataset.py b/pybrain/datasets/dataset.py
index 6a11890..4d673ad 100644
--- a/pybrain/datasets/dataset.py
+++ b/pybrain/datasets/dataset.py
@@ -160,7 +160,7 @@ class DataSet(Serializable):
         return the length of the longest field."""
         if self.link == []:
             try:
-                length = self.endmarker[max(self.endmarker)]
+                length = max(self.endmarker.values())
             except ValueError:
                 return 0
             return length
-- 
2.43.0


From c362609bae13ec1c7ffcb098b40b6a04f4a6fad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:02 +0000
Subject: [PATCH 18/57] fix: appendLinked of a sample with a wrongly sized
 vector left the linked fields unequally long

---
 pybrain/datasets/dataset.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pybrain/datasets/dataset.py b/pybrain/datasets/dataset.py
index 4d673ad..2a2e6c8 100644
--- a/pybrain/datasets/dataset.py
+++ b/pybrain/datasets/dataset.py
@@ -213,7 +213,13 @@ class DataSet(Serializable):
         """Add rows to all linked fields at once."""
         assert len(args) == len(self.link)
         for i, l in enumerate(self.link):
-            self._appendUnlinked(l, args[i])
+            try:
+                self._appendUnlinked(l, args[i])
+            except Exception:
+                # keep the linked fields equally long
+                for done in self.link[:i]:
+                    self.endmarker[done] -= 1
+                raise
 
     def getLinked(self, index=None):
         """Access the dataset randomly or sequential.
-- 
2.43.0


From 62dad23d0f0cdd3771ce19c80a35b68d6bfbd1f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:05 +0000
Subject: [PATCH 19/57] fix: classes of samples added since the last statistics
 were ignored by splitByClass, castToRegression and getSequenceClass

---
 pybrain/datasets/classification.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pybrain/datasets/classification.py b/pybrain/datasets/classification.py
index 81b7f16..05e5753 100644
--- a/pybrain/datasets/classification.py
+++ b/pybrain/datasets/classification.py
@@ -163,6 +163,7 @@ class ClassificationDataSet(SupervisedDataSet):
         """Produce two new datasets, the first one comprising only the class
         selected (0..nClasses-1), the second one containing the remaining
         samples."""
+        self.assignClasses()
         leftIndices, dummy = where(self['class'] == cls_select)
         rightIndices, dummy = where(self['class'] != cls_select)
         leftDs = self.copy()
@@ -186,6 +187,7 @@ class ClassificationDataSet(SupervisedDataSet):
     def castToRegression(self, values):
         """Converts data set into a SupervisedDataSet for regression. Classes
         are used as indices into the value array given."""
+        self.assignClasses()
         regDs = SupervisedDataSet(self.indim, 1)
         fields = self.getFieldNames()
         fields.remove('target')
@@ -263,6 +265,7 @@ class SequenceClassificationDataSet(SequentialDataSet, ClassificationDataSet):
     def getSequenceClass(self, index=None):
         """Return a flat array (or single scalar) comprising one class per
         sequence as given by last pattern in each sequence."""
+        self.assignClasses()
         lastSeq = self.getNumSequences() - 1
         if index is None:
             classidx = r_[self['sequence_index'].astype(int)[1:, 0] - 1, len(self) - 1]
-- 
2.43.0


From 3eac3ea436dc567c4d5bca0f703963ce068d0c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:05 +0000
Subject: [PATCH 20/57] fix: stratifiedSplit dropped the last sequence

---
 pybrain/datasets/classification.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pybrain/datasets/classification.py b/pybrain/datasets/classification.py
index 05e5753..417b8f7 100644
--- a/pybrain/datasets/classification.py
+++ b/pybrain/datasets/classification.py
@@ -237,8 +237,7 @@ class SequenceClassificationDataSet(SequentialDataSet, ClassificationDataSet):
         It is assumed that the last target for each class is the class of the
         sequence. Also mind that the data will be sorted by class in the
         resulting data sets."""
-        lastidx = ravel(self['sequence_index'][1:] - 1).astype(int)
-        classes = ravel(self['class'][lastidx])
+        classes = self.getSequenceClass()
         trnDs = self.copy()
         trnDs.clear()
         tstDs = trnDs.copy()
-- 
2.43.0


From e7ab14a7ac587f5dee057979b7197aa80145b2b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:32 +0000
Subject: [PATCH 21/57] fix: clearing a classification data set kept the
 classes of the removed samples

---
 pybrain/datasets/classification.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pybrain/datasets/classification.py b/pybrain/datasets/classification.py
index 417b8f7..3eeb1f0 100644
--- a/pybrain/datasets/classification.py
+++ b/pybrain/datasets/classification.py
@@ -111,6 +111,12 @@ class ClassificationDataSet(SupervisedDataSet):
             classes = list(set(flat_labels))
             self.nClasses = len(classes)
 
+    def clear(self, unlinked=False):
+        """Clear the dataset, including the classes of its samples."""
+        super(ClassificationDataSet, self).clear(unlinked)
+        if self.endmarker['class'] > self.endmarker['target']:
+            self.setField('class', zeros((0, 1), int))
+
     def calculateStatistics(self):
         """Return a class histogram."""
         self.assignClasses()
-- 
2.43.0


From ee7774fa7edd15cf2650c33cbca6778f31f71c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:57 +0000
Subject: [PATCH 22/57] fix: stepping over the edge of a maze without border
 walls came out on the other side or raised IndexError

---
 pybrain/rl/environments/mazes/maze.py      | 11 +++++++++--
 pybrain/rl/environments/mazes/polarmaze.py |  2 +-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/pybrain/rl/environments/mazes/maze.py b/pybrain/rl/environments/mazes/maze.py
index 53a00b8..f89c7b7 100644
--- a/pybrain/rl/environments/mazes/maze.py
+++ b/pybrain/rl/environments/mazes/maze.py
@@ -75,12 +75,19 @@ class Maze(Environment, Named):
         """ the new state after the movement in one direction. """
         return (pos[0] + dir[0], pos[1] + dir[1])
 
+    def _isWall(self, pos):
+        """ is there a wall? The outside of the maze counts as one. """
+        rows, cols = self.mazeTable.shape
+        if not (0 <= pos[0] < rows and 0 <= pos[1] < cols):
+            return True
+        return self.mazeTable[pos] != False
+
     def performAction(self, action):
         if self.stochAction > 0:
             if random() < self.stochAction:
                 action = choice(list(range(len(self.allActions))))
         tmp = self._moveInDir(self.perseus, self.allActions[action])
-        if self.mazeTable[tmp] == False:
+        if not self._isWall(tmp):
             self.perseus = tmp
             self.bang = False
         else:
@@ -89,7 +96,7 @@ class Maze(Environment, Named):
     def getSensors(self):
         obs = zeros(4)
         for i, a in enumerate(Maze.allActions):
-            obs[i] = self.mazeTable[self._moveInDir(self.perseus, a)]
+            obs[i] = self._isWall(self._moveInDir(self.perseus, a))
         if self.stochObs > 0:
             for i in range(len(obs)):
                 if random() < self.stochObs:
diff --git a/pybrain/rl/environments/mazes/polarmaze.py b/pybrain/rl/environments/mazes/polarmaze.py
index 5f13f35..75fb6b5 100644
--- a/pybrain/rl/environments/mazes/polarmaze.py
+++ b/pybrain/rl/environments/mazes/polarmaze.py
@@ -33,7 +33,7 @@ class PolarMaze(Maze):
         self.bang = False
         if act == self.Forward:
             tmp = self._moveInDir(self.perseus, Maze.allActions[self.perseusDir])
-            if self.mazeTable[tmp] == False:
+            if not self._isWall(tmp):
                 self.perseus = tmp
             else:
                 self.bang = True
-- 
2.43.0


From 4f684f63945587e268cf2990f0fb53ed1382f362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:57 +0000
Subject: [PATCH 23/57] fix: MDPMazeTask gave the same observation for
 different cells of a maze wider than high

---
 pybrain/rl/environments/mazes/tasks/mdp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/rl/environments/mazes/tasks/mdp.py b/pybrain/rl/environments/mazes/tasks/mdp.py
index 23a97ec..0d32a0f 100644
--- a/pybrain/rl/environments/mazes/tasks/mdp.py
+++ b/pybrain/rl/environments/mazes/tasks/mdp.py
@@ -28,7 +28,7 @@ class MDPMazeTask(Task):
         """ The agent receives its position in the maze, to make this a fully observable
             MDP problem.
         """
-        obs = array([self.env.perseus[0] * self.env.mazeTable.shape[0] + self.env.perseus[1]])
+        obs = array([self.env.perseus[0] * self.env.mazeTable.shape[1] + self.env.perseus[1]])
         return obs
 
 
-- 
2.43.0


From 796dc7dfa6142209feebf7e237a84a857815278a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:57 +0000
Subject: [PATCH 24/57] fix: the forward action of ShuttleDocking turned around
 instead of moving forward

---
 pybrain/rl/environments/mazes/tasks/shuttle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/rl/environments/mazes/tasks/shuttle.py b/pybrain/rl/environments/mazes/tasks/shuttle.py
index f13a6fe..da5859f 100644
--- a/pybrain/rl/environments/mazes/tasks/shuttle.py
+++ b/pybrain/rl/environments/mazes/tasks/shuttle.py
@@ -91,7 +91,7 @@ class ShuttleDocking(MazeTask):
 
     def _forward(self):
         old = self.env.perseus
-        self.env.performAction(PolarMaze.TurnAround)
+        self.env.performAction(PolarMaze.Forward)
         if self.env.perseus == self.env.goal or self.env.perseus == self.env.initPos[0]:
             self.env.perseus = old
             self.env.bang = True
-- 
2.43.0


From bcac734bfad978b397b61694ec93d0214f40a222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:57 +0000
Subject: [PATCH 25/57] fix: after a bad choice TMaze gave the final reward
 when the reward was read again

---
 pybrain/rl/environments/mazes/tasks/tmaze.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pybrain/rl/environments/mazes/tasks/tmaze.py b/pybrain/rl/environments/mazes/tasks/tmaze.py
index 6dda091..0c604a6 100644
--- a/pybrain/rl/environments/mazes/tasks/tmaze.py
+++ b/pybrain/rl/environments/mazes/tasks/tmaze.py
@@ -38,6 +38,7 @@ class TMaze(MazeTask):
 
     def reset(self):
         MazeTask.reset(self)
+        self.badChoice = False
         goUp = choice([True, False])
         self.specialObs = goUp
         if goUp:
@@ -59,9 +60,12 @@ class TMaze(MazeTask):
         return res
 
     def getReward(self):
+        if self.badChoice:
+            return self.bangPenalty
         if self.env.perseus[1] == self.length + 1:
             if abs(self.env.perseus[0] - self.env.goal[0]) == 2:
                 # bad choice taken
+                self.badChoice = True
                 self.env.perseus = self.env.goal
                 return self.bangPenalty
         return MazeTask.getReward(self)
-- 
2.43.0


From 52bf0d73ccccdd2c08b4e55b4e4a5af848b99c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:36 +0000
Subject: [PATCH 26/57] fix: drawIndex could return an index of probability
 zero when the probabilities sum to slightly less than one

---
 pybrain/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/utilities.py b/pybrain/utilities.py
index 21ac18f..a21f00f 100644
--- a/pybrain/utilities.py
+++ b/pybrain/utilities.py
@@ -48,7 +48,7 @@ def drawIndex(probs, tolerant=False):
         s += p
         if s > r:
             return i
-    return choice(list(range(len(probs))))
+    return choice([i for i, p in enumerate(probs) if p > 0])
 
 
 def drawGibbs(vals, temperature=1.):
-- 
2.43.0


From 15f04427a45928c32a055fcb93d92c08bdb9f618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:36 +0000
Subject: [PATCH 27/57] fix: drawIndex normalized the caller's array in place
 (and raised TypeError for integers)

---
 pybrain/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/utilities.py b/pybrain/utilities.py
index a21f00f..3d95fee 100644
--- a/pybrain/utilities.py
+++ b/pybrain/utilities.py
@@ -38,7 +38,7 @@ def drawIndex(probs, tolerant=False):
     :key tolerant: if set to True, the array is normalized to sum to 1.  """
     if not sum(probs) < 1.00001 or not sum(probs) > 0.99999:
         if tolerant:
-            probs /= sum(probs)
+            probs = array(probs, float) / sum(probs)
         else:
             print((probs, 1 - sum(probs)))
             raise ValueError()
-- 
2.43.0


From 37f21131afbd482cbf5badf36ea0be3231a06c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:36 +0000
Subject: [PATCH 28/57] fix: linscale did not divide by the range of the data

---
 pybrain/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/utilities.py b/pybrain/utilities.py
index 3d95fee..20dac7f 100644
--- a/pybrain/utilities.py
+++ b/pybrain/utilities.py
@@ -108,7 +108,7 @@ def setAllArgs(obj, argdict):
 
 def linscale(d, lim):
     """ utility function to linearly scale array d to the interval defined by lim """
-    return (d - d.min())*(lim[1] - lim[0]) + lim[0]
+    return (d - d.min())*(lim[1] - lim[0])/float((d.max() - d.min()) or 1) + lim[0]
 
 
 def percentError(out, true):
-- 
2.43.0


From d5f949287804144c482cfefae34a2c30c1bf7aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:36 +0000
Subject: [PATCH 29/57] fix: permuteToBlocks computed fractional indices

---
 pybrain/utilities.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pybrain/utilities.py b/pybrain/utilities.py
index 20dac7f..a613232 100644
--- a/pybrain/utilities.py
+++ b/pybrain/utilities.py
@@ -542,12 +542,12 @@ def permuteToBlocks2d(arr, blockheight, blockwidth):
     arr = arr.flatten()
     new = zeros(size(arr))
     for i in range(size(arr)):
-        blockx = (i % width) / blockwidth
-        blocky = i / width / blockheight
-        blockoffset = blocky * width / blockwidth + blockx
+        blockx = (i % width) // blockwidth
+        blocky = i // width // blockheight
+        blockoffset = blocky * (width // blockwidth) + blockx
         blockoffset *= blockwidth * blockheight
         inblockx = i % blockwidth
-        inblocky = (i / width) % blockheight
+        inblocky = (i // width) % blockheight
         j = blockoffset + inblocky * blockwidth + inblockx
         new[j] = arr[i]
     return new
-- 
2.43.0


From 98b288eb02abde6af1e37e8618cb62a1b5ace83d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:36 +0000
Subject: [PATCH 30/57] fix: triu2flat raised TypeError (size of an array given
 as a float)

---
 pybrain/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/utilities.py b/pybrain/utilities.py
index a613232..7ffa5f6 100644
--- a/pybrain/utilities.py
+++ b/pybrain/utilities.py
@@ -557,7 +557,7 @@ def triu2flat(m):
     """ Flattens an upper triangular matrix, returning a vector of the
     non-zero elements. """
     dim = m.shape[0]
-    res = zeros(dim * (dim + 1) / 2)
+    res = zeros(dim * (dim + 1) // 2)
     index = 0
     for row in range(dim):
         res[index:index + dim - row] = m[row, row:]
-- 
2.43.0


From 93a1eacbd0d3004441d618065d105225ce19b51a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:36 +0000
Subject: [PATCH 31/57] fix: blockCombine exchanged the dimensions of its
 result

---
 pybrain/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/utilities.py b/pybrain/utilities.py
index 7ffa5f6..179e3d7 100644
--- a/pybrain/utilities.py
+++ b/pybrain/utilities.py
@@ -596,7 +596,7 @@ def blockCombine(l):
     hs = sum(hdims)
     vdims = [row[0].shape[0] for row in l]
     vs = sum(vdims)
-    res = zeros((hs, vs))
+    res = zeros((vs, hs))
     vindex = 0
     for i, row in enumerate(l):
         hindex = 0
-- 
2.43.0


From a7e9c456bce24c77ede61505850fbcbad4a846ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:36 +0000
Subject: [PATCH 32/57] fix: reachable removed elements from its start list
 while iterating over it

---
 pybrain/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/utilities.py b/pybrain/utilities.py
index 179e3d7..b56e7f8 100644
--- a/pybrain/utilities.py
+++ b/pybrain/utilities.py
@@ -426,7 +426,7 @@ def reachable(stepFunction, start, destinations, _alreadyseen=None):
     for s in start:
         if s in destinations:
             res[s] = 0
-            start.remove(s)
+    start = [s for s in start if s not in res]
 
     # do one step
     new = set()
-- 
2.43.0


From 2246e6d4f1f26ad6b62640457cf2aa840f4b98ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:36 +0000
Subject: [PATCH 33/57] fix: ranking raised TypeError (sorted has no cmp
 argument)

---
 pybrain/tools/functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pybrain/tools/functions.py b/pybrain/tools/functions.py
index 9c0d847..2ab13bd 100644
--- a/pybrain/tools/functions.py
+++ b/pybrain/tools/functions.py
@@ -70,8 +70,8 @@ def tanhPrime(x):
 
 def ranking(R):
     """ Produces a linear ranking of the values in R. """
-    l = sorted(list(enumerate(R)), cmp=lambda a, b: cmp(a[1], b[1]))
-    l = sorted(list(enumerate(l)), cmp=lambda a, b: cmp(a[1], b[1]))
+    l = sorted(list(enumerate(R)), key=lambda a: a[1])
+    l = sorted(list(enumerate(l)), key=lambda a: a[1][0])
     return array([kv[0] for kv in l])
 
 
-- 
2.43.0


From 40b0e8f348a663d3479f9a885c6a54d0042f4726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:36 +0000
Subject: [PATCH 34/57] fix: semilinear and its derivative raised TypeError for
 arrays of more than one dimension

---
 pybrain/tools/functions.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pybrain/tools/functions.py b/pybrain/tools/functions.py
index 2ab13bd..eab2c05 100644
--- a/pybrain/tools/functions.py
+++ b/pybrain/tools/functions.py
@@ -10,8 +10,7 @@ def semilinear(x):
     try:
         # assume x is a numpy array
         shape = x.shape
-        x.flatten()
-        x = x.tolist()
+        x = x.flatten().tolist()
     except AttributeError:
         # no, it wasn't: build shape from length of list
         shape = (1, len(x))
@@ -31,8 +30,7 @@ def semilinearPrime(x):
     try:
         # assume x is a numpy array
         shape = x.shape
-        x.flatten()
-        x = x.tolist()
+        x = x.flatten().tolist()
     except AttributeError:
         # no, it wasn't: build shape from length of list
         shape = (1, len(x))
-- 
2.43.0


From f2507e4c474ec22b5a53ee08e5e00804bd89545f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:33 +0000
Subject: [PATCH 35/57] fix: sequence ends were floating point numbers and
 could not be used as indices

---
 pybrain/tools/validation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/tools/validation.py b/pybrain/tools/validation.py
index 5fdb1f6..4103b8e 100644
--- a/pybrain/tools/validation.py
+++ b/pybrain/tools/validation.py
@@ -117,7 +117,7 @@ class SequenceHelper(object):
         sequence_ends = delete(dataset.getField('sequence_index') - 1, 0)
         sequence_ends = append(sequence_ends, dataset.getLength() - 1)
 #        print(sequence_ends; exit())
-        sequence_ends = array(sequence_ends)
+        sequence_ends = array(sequence_ends, int)
         return sequence_ends
 
     @classmethod
-- 
2.43.0


From 41588f2e67ea34510b92676beb3794d343c17b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:07 +0000
Subject: [PATCH 36/57] fix: QLambda truncated rewards to whole numbers

---
 pybrain/rl/learners/valuebased/qlambda.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/rl/learners/valuebased/qlambda.py b/pybrain/rl/learners/valuebased/qlambda.py
index 1c6a507..ef4f510 100644
--- a/pybrain/rl/learners/valuebased/qlambda.py
+++ b/pybrain/rl/learners/valuebased/qlambda.py
@@ -35,7 +35,7 @@ class QLambda(ValueBasedLearner):
             laststate = int(states[i - 1])
             # action = int(actions[i])
             lastaction = int(actions[i - 1])
-            lastreward = int(rewards[i - 1])
+            lastreward = float(rewards[i - 1])
 
             qvalue = self.module.getValue(laststate, lastaction)
             maxnext = self.module.getValue(state, self.module.getMaxAction(state))
-- 
2.43.0


From 49886c6e0a78b0e9c5e1f4d3c3026338c80cc503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:01 +0000
Subject: [PATCH 37/57] fix: logging agents accept observations, actions and
 rewards with several entries

---
 pybrain/rl/agents/logging.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pybrain/rl/agents/logging.py b/pybrain/rl/agents/logging.py
index c13e356..745b7ba 100644
--- a/pybrain/rl/agents/logging.py
+++ b/pybrain/rl/agents/logging.py
@@ -41,9 +41,9 @@ class LoggingAgent(Agent):
 
     def getAction(self):
         """Step 2: store the action in a temporary variable until reward is given. """
-        assert self.lastobs != None
-        assert self.lastaction == None
-        assert self.lastreward == None
+        assert self.lastobs is not None
+        assert self.lastaction is None
+        assert self.lastreward is None
 
         # implement getAction in subclass and set self.lastaction
 
@@ -51,9 +51,9 @@ class LoggingAgent(Agent):
     def giveReward(self, r):
         """Step 3: store observation, action and reward in the history dataset. """
         # step 3: assume that state and action have been set
-        assert self.lastobs != None
-        assert self.lastaction != None
-        assert self.lastreward == None
+        assert self.lastobs is not None
+        assert self.lastaction is not None
+        assert self.lastreward is None
 
         self.lastreward = r
 
-- 
2.43.0


From eda9b96e714ee0c107f80403ccc24a0c8545d813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:01 +0000
Subject: [PATCH 38/57] fix: the stochastic hill climber keeps the best point
 it has found apart from where it stands

---
 pybrain/optimization/hillclimber.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/pybrain/optimization/hillclimber.py b/pybrain/optimization/hillclimber.py
index ca15e8a..b9a7750 100644
--- a/pybrain/optimization/hillclimber.py
+++ b/pybrain/optimization/hillclimber.py
@@ -40,20 +40,25 @@ class StochasticHillClimber(HillClimber):
     #: The larger the temperature, the more explorative (less greedy) it behaves.
     temperature = 1.
 
+    def _additionalInit(self):
+        HillClimber._additionalInit(self)
+        # where the climber stands, which may be worse than the best point found
+        self._current, self._currentEvaluation = self.bestEvaluable, self.bestEvaluation
+
     def _learnStep(self):
         # re-evaluate the current individual in case the evaluator is noisy
         if self.evaluatorIsNoisy:
-            self.bestEvaluation = self._oneEvaluation(self.bestEvaluable)
+            self._currentEvaluation = self._oneEvaluation(self._current)
 
         # hill-climbing
-        challenger = self.bestEvaluable.copy()
+        challenger = self._current.copy()
         challenger.mutate()
         newEval = self._oneEvaluation(challenger)
 
-        # if the new evaluation was better, it got stored automatically. Otherwise:
-        if ((not self.minimize and newEval < self.bestEvaluation) or
-            (self.minimize and newEval > self.bestEvaluation)):
-            acceptProbability = exp(-abs(newEval-self.bestEvaluation)/self.temperature)
-            if random() < acceptProbability:
-                self.bestEvaluable, self.bestEvaluation = challenger, newEval
-
+        # a better evaluation is always accepted, a worse one with some probability
+        worse = ((not self.minimize and newEval < self._currentEvaluation) or
+                 (self.minimize and newEval > self._currentEvaluation))
+        if worse:
+            acceptProbability = exp(-abs(newEval-self._currentEvaluation)/self.temperature)
+        if not worse or random() < acceptProbability:
+            self._current, self._currentEvaluation = challenger, newEval
-- 
2.43.0


From 472b88842394ee9860d0fcc65fb8f3e53a7bc817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:01 +0000
Subject: [PATCH 39/57] fix: an optimizer keeps the best of its initial
 population as the best point found

---
 pybrain/optimization/optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/optimization/optimizer.py b/pybrain/optimization/optimizer.py
index d6faf3f..d811559 100644
--- a/pybrain/optimization/optimizer.py
+++ b/pybrain/optimization/optimizer.py
@@ -152,8 +152,8 @@ class BlackBoxOptimizer(DirectSearchLearner):
         #set the starting point for optimization (as provided, or randomly)
         self._setInitEvaluable(initEvaluable)        
         self.bestEvaluation = None
-        self._additionalInit()
         self.bestEvaluable = self._initEvaluable
+        self._additionalInit()
         
     def _flipDirection(self):
         self.__evaluator = oppositeFunction(self.__evaluator)
-- 
2.43.0


From f08c5af54b002eaf0222896e0d19508576eb38df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:01 +0000
Subject: [PATCH 40/57] fix: maxLearningSteps is the number of learning steps,
 not one more

---
 pybrain/optimization/optimizer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pybrain/optimization/optimizer.py b/pybrain/optimization/optimizer.py
index d811559..9863bdb 100644
--- a/pybrain/optimization/optimizer.py
+++ b/pybrain/optimization/optimizer.py
@@ -195,7 +195,7 @@ class BlackBoxOptimizer(DirectSearchLearner):
         """ The main loop that does the learning. """
         assert self.__evaluator is not None, "No evaluator has been set. Learning cannot start."
         if additionalLearningSteps is not None:
-            self.maxLearningSteps = self.numLearningSteps + additionalLearningSteps - 1
+            self.maxLearningSteps = self.numLearningSteps + additionalLearningSteps
         while not self._stoppingCriterion():
             try:
                 self._learnStep()
@@ -287,7 +287,7 @@ class BlackBoxOptimizer(DirectSearchLearner):
             if ((self.minimize and self.bestEvaluation <= self.desiredEvaluation)
                 or (not self.minimize and self.bestEvaluation >= self.desiredEvaluation)):
                 return True
-        if self.maxLearningSteps is not None and self.numLearningSteps > self.maxLearningSteps:
+        if self.maxLearningSteps is not None and self.numLearningSteps >= self.maxLearningSteps:
             return True
         return False
     
-- 
2.43.0


From 7bc015f081e8f9447869d211bcae93e6e64e56f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:01 +0000
Subject: [PATCH 41/57] fix: a second evaluator does not turn the sign of the
 desired evaluation

---
 pybrain/optimization/optimizer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pybrain/optimization/optimizer.py b/pybrain/optimization/optimizer.py
index 9863bdb..bf59122 100644
--- a/pybrain/optimization/optimizer.py
+++ b/pybrain/optimization/optimizer.py
@@ -118,7 +118,10 @@ class BlackBoxOptimizer(DirectSearchLearner):
     def setEvaluator(self, evaluator, initEvaluable = None):
         """ If not provided upon construction, the objective function can be given through this method.
         If necessary, also provide an initial evaluable."""
-        
+        if self._wasOpposed and self.__evaluator is not None and self.desiredEvaluation is not None:
+            # flipped for the previous evaluator: back to the sign of the user
+            self.desiredEvaluation *= -1
+
         # default settings, if provided by the evaluator:
         if isinstance(evaluator, FitnessEvaluator):
             if self.desiredEvaluation is None:
-- 
2.43.0


From d1d8b5d80c1c4fd19c5bd5c3128c829a670493eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:01 +0000
Subject: [PATCH 42/57] fix: the offspring of an evolution strategy is an
 integer multiple of its parents

---
 pybrain/optimization/populationbased/es.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/optimization/populationbased/es.py b/pybrain/optimization/populationbased/es.py
index c2405b7..473dbd6 100644
--- a/pybrain/optimization/populationbased/es.py
+++ b/pybrain/optimization/populationbased/es.py
@@ -49,7 +49,7 @@ class ES(BlackBoxOptimizer):
             self._sortPopulation(noHallOfFame = True)
 
         # produce offspring from the the mu best ones
-        self.population = self.population[:self.mu] * (self._popsize/self.mu)
+        self.population = self.population[:self.mu] * (self._popsize//self.mu)
 
         # mutate the offspring
         if self.elitism:
-- 
2.43.0


From 1c32642ebb138a450763298edd1cbd81a38d5414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:01 +0000
Subject: [PATCH 43/57] fix: the non-dominated front of more than a hundred
 items

---
 pybrain/tools/nondominated.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pybrain/tools/nondominated.py b/pybrain/tools/nondominated.py
index 9f0fb7d..9ba0fcb 100644
--- a/pybrain/tools/nondominated.py
+++ b/pybrain/tools/nondominated.py
@@ -150,9 +150,9 @@ def _non_dominated_front_merge_arr(iterable, key=lambda x: x, allowequality=True
     items = list(iterable)
     l = len(items)
     if l > 100:
-        part1 = list(_non_dominated_front_merge_arr(items[:l / 2], key, allowequality))
-        part2 = list(_non_dominated_front_merge_arr(items[l / 2:], key, allowequality))
-        if len(part1) >= l / 3 or len(part2) >= l / 3:
+        part1 = list(_non_dominated_front_merge_arr(items[:l // 2], key, allowequality))
+        part2 = list(_non_dominated_front_merge_arr(items[l // 2:], key, allowequality))
+        if len(part1) >= l // 3 or len(part2) >= l // 3:
             return _non_dominated_front_arr(part1 + part2, key, allowequality)
         else:
             return _non_dominated_front_merge_arr(part1 + part2, key, allowequality)
-- 
2.43.0


From 179fb06908495e3708f311a7f680a836d3ccf189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:42 +0000
Subject: [PATCH 44/57] fix: import of Coevolution from the package it lives in

---
 .../populationbased/coevolution/competitivecoevolution.py       | 2 +-
 .../populationbased/coevolution/multipopulationcoevolution.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pybrain/optimization/populationbased/coevolution/competitivecoevolution.py b/pybrain/optimization/populationbased/coevolution/competitivecoevolution.py
index 39c27bd..f9da56b 100644
--- a/pybrain/optimization/populationbased/coevolution/competitivecoevolution.py
+++ b/pybrain/optimization/populationbased/coevolution/competitivecoevolution.py
@@ -2,7 +2,7 @@ from __future__ import print_function
 
 __author__ = 'Tom Schaul, tom@idsia.ch'
 
-from pybrain.optimization.coevolution.coevolution import Coevolution
+from pybrain.optimization.populationbased.coevolution.coevolution import Coevolution
 
 
 class CompetitiveCoevolution(Coevolution):
diff --git a/pybrain/optimization/populationbased/coevolution/multipopulationcoevolution.py b/pybrain/optimization/populationbased/coevolution/multipopulationcoevolution.py
index 9d0895a..321a2fb 100644
--- a/pybrain/optimization/populationbased/coevolution/multipopulationcoevolution.py
+++ b/pybrain/optimization/populationbased/coevolution/multipopulationcoevolution.py
@@ -2,7 +2,7 @@ __author__ = 'Tom Schaul, tom@idsia.ch'
 
 from random import choice
 
-from pybrain.optimization.coevolution.coevolution import Coevolution
+from pybrain.optimization.populationbased.coevolution.coevolution import Coevolution
 
 
 class MultiPopulationCoevolution(Coevolution):
-- 
2.43.0


From c0c58b2044582982b85433007b4422a37e69cfe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:42 +0000
Subject: [PATCH 45/57] fix: crowding distance of fronts with equal values in
 one objective

---
 pybrain/tools/nondominated.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pybrain/tools/nondominated.py b/pybrain/tools/nondominated.py
index 9ba0fcb..5f5b141 100644
--- a/pybrain/tools/nondominated.py
+++ b/pybrain/tools/nondominated.py
@@ -13,8 +13,8 @@ def crowding_distance(individuals, fitnesses):
     n_obj = len(fitnesses[individuals[0]])
     for i in range(n_obj):
         individuals.sort(key=lambda x: fitnesses[x][i])
-        # normalization between 0 and 1.
-        normalization = float(fitnesses[individuals[0]][i] - fitnesses[individuals[-1]][i])
+        # normalization between 0 and 1 (if the fitnesses differ at all).
+        normalization = float(fitnesses[individuals[0]][i] - fitnesses[individuals[-1]][i]) or 1.
         # Make sure the boundary points are always selected.
         distances[individuals[0]] = 1e100
         distances[individuals[-1]] = 1e100
@@ -262,8 +262,8 @@ def const_crowding_distance(individuals, fitnesses):
     
     for i in range(n_obj):
         individuals.sort(key=lambda x: fitnesses[x][0][i])
-        # normalization between 0 and 1.
-        normalization = float(fitnesses[individuals[0]][0][i] - fitnesses[individuals[-1]][0][i])
+        # normalization between 0 and 1 (if the fitnesses differ at all).
+        normalization = float(fitnesses[individuals[0]][0][i] - fitnesses[individuals[-1]][0][i]) or 1.
         # Make sure the boundary points are always selected.
         distances[individuals[0]] = 1e100
         distances[individuals[-1]] = 1e100
-- 
2.43.0


From 33de104d913d9286f2f9350f600fb7fe08eb7a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:42 +0000
Subject: [PATCH 46/57] fix: tournament selection counts the winner, not the
 position within the tournament

---
 pybrain/tools/rankingfunctions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/tools/rankingfunctions.py b/pybrain/tools/rankingfunctions.py
index ea9a923..185f348 100644
--- a/pybrain/tools/rankingfunctions.py
+++ b/pybrain/tools/rankingfunctions.py
@@ -58,7 +58,7 @@ class TournamentSelection(RankingFunction):
                     randindex = randint(0, len(R) - 1)
                 l.append(randindex)
             fits = [R[x] for x in l]
-            res[argmax(fits)] += 1
+            res[l[argmax(fits)]] += 1
         return res
 
 
-- 
2.43.0


From f45fc5f64b963dd1ffdaa38a6b1028cf08f59595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:26 +0000
Subject: [PATCH 47/57] fix: refused moves are not counted in two-player games

---
 pybrain/rl/environments/twoplayergames/capturegame.py | 4 ++--
 pybrain/rl/environments/twoplayergames/gomoku.py      | 4 ++--
 pybrain/rl/environments/twoplayergames/pente.py       | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/pybrain/rl/environments/twoplayergames/capturegame.py b/pybrain/rl/environments/twoplayergames/capturegame.py
index 9dd9660..8841c34 100644
--- a/pybrain/rl/environments/twoplayergames/capturegame.py
+++ b/pybrain/rl/environments/twoplayergames/capturegame.py
@@ -75,12 +75,12 @@ class CaptureGame(TwoPlayerGame):
     def doMove(self, c, pos):
         """ the action is a (color, position) tuple, for the next stone to move.
         returns True if the move was legal. """
+        if pos != 'resign' and not self.isLegal(c, pos):
+            return False
         self.movesDone += 1
         if pos == 'resign':
             self.winner = -c
             return True
-        elif not self.isLegal(c, pos):
-            return False
         elif self._suicide(c, pos):
             assert self.suicideenabled
             self.b[pos] = 'y'
diff --git a/pybrain/rl/environments/twoplayergames/gomoku.py b/pybrain/rl/environments/twoplayergames/gomoku.py
index c9d6bdb..451b940 100644
--- a/pybrain/rl/environments/twoplayergames/gomoku.py
+++ b/pybrain/rl/environments/twoplayergames/gomoku.py
@@ -79,10 +79,10 @@ class GomokuGame(TwoPlayerGame):
     def doMove(self, c, pos):
         """ the action is a (color, position) tuple, for the next stone to move.
         returns True if the move was legal. """
-        self.movesDone += 1
         if not self.isLegal(c, pos):
             return False
-        elif self._fiveRow(c, pos):
+        self.movesDone += 1
+        if self._fiveRow(c, pos):
             self.winner = c
             self.b[pos] = 'x'
             return True
diff --git a/pybrain/rl/environments/twoplayergames/pente.py b/pybrain/rl/environments/twoplayergames/pente.py
index e02190a..cb95185 100644
--- a/pybrain/rl/environments/twoplayergames/pente.py
+++ b/pybrain/rl/environments/twoplayergames/pente.py
@@ -50,10 +50,10 @@ class PenteGame(GomokuGame):
     def doMove(self, c, pos):
         """ the action is a (color, position) tuple, for the next stone to move.
         returns True if the move was legal. """
-        self.movesDone += 1
         if not self.isLegal(c, pos):
             return False
-        elif self._fiveRow(c, pos):
+        self.movesDone += 1
+        if self._fiveRow(c, pos):
             self.winner = c
             self.b[pos] = 'x'
             return True
-- 
2.43.0


From 9eb7312416869bc8b2760de7faa3455945e7f384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:26 +0000
Subject: [PATCH 48/57] fix: a gomoku move outside the board is refused instead
 of raising KeyError

---
 pybrain/rl/environments/twoplayergames/gomoku.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/rl/environments/twoplayergames/gomoku.py b/pybrain/rl/environments/twoplayergames/gomoku.py
index 451b940..f87ff6c 100644
--- a/pybrain/rl/environments/twoplayergames/gomoku.py
+++ b/pybrain/rl/environments/twoplayergames/gomoku.py
@@ -74,7 +74,7 @@ class GomokuGame(TwoPlayerGame):
         return a
 
     def isLegal(self, c, pos):
-        return self.b[pos] == self.EMPTY
+        return pos in self.b and self.b[pos] == self.EMPTY
 
     def doMove(self, c, pos):
         """ the action is a (color, position) tuple, for the next stone to move.
-- 
2.43.0


From 60072d58121937a8dd61b851fb8c3f30eadc2c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:26 +0000
Subject: [PATCH 49/57] fix: getLegals of the capture game leaves out suicides
 where they are forbidden

---
 pybrain/rl/environments/twoplayergames/capturegame.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/rl/environments/twoplayergames/capturegame.py b/pybrain/rl/environments/twoplayergames/capturegame.py
index 8841c34..6d70b00 100644
--- a/pybrain/rl/environments/twoplayergames/capturegame.py
+++ b/pybrain/rl/environments/twoplayergames/capturegame.py
@@ -202,7 +202,7 @@ class CaptureGame(TwoPlayerGame):
 
     def getLegals(self, c):
         """ return all the legal positions for a color """
-        return [p for p in self._iterPos() if self.b[p] == self.EMPTY]
+        return [p for p in self._iterPos() if self.isLegal(c, p)]
 
     def getAcceptable(self, c):
         """ return all legal positions for a color that don't commit suicide. """
-- 
2.43.0


From d1318bc05f8d96116a8f8b5ec1d7243864cff4b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:55 +0000
Subject: [PATCH 50/57] fix: feed-forward networks nested in recurrent ones use
 the row of the step for their connections

---
 pybrain/structure/networks/feedforward.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pybrain/structure/networks/feedforward.py b/pybrain/structure/networks/feedforward.py
index c833af2..eeeb41f 100644
--- a/pybrain/structure/networks/feedforward.py
+++ b/pybrain/structure/networks/feedforward.py
@@ -29,7 +29,7 @@ class FeedForwardNetworkComponent(object):
         for m in self.modulesSorted:
             m.forward()
             for c in self.connections[m]:
-                c.forward()
+                c.forward(offset, offset)
 
         index = 0
         for m in self.outmodules:
@@ -46,7 +46,7 @@ class FeedForwardNetworkComponent(object):
 
         for m in reversed(self.modulesSorted):
             for c in self.connections[m]:
-                c.backward()
+                c.backward(offset, offset)
             m.backward()
 
         index = 0
-- 
2.43.0


From 5462a859941813aced01d2534822ea79be472302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:55 +0000
Subject: [PATCH 51/57] fix: backward pass of recurrent networks nested in
 recurrent networks uses the right row

---
 pybrain/structure/networks/recurrent.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pybrain/structure/networks/recurrent.py b/pybrain/structure/networks/recurrent.py
index 5cb0b9a..739b352 100644
--- a/pybrain/structure/networks/recurrent.py
+++ b/pybrain/structure/networks/recurrent.py
@@ -124,7 +124,9 @@ class RecurrentNetworkComponent(object):
         for m in reversed(self.modulesSorted):
             for c in self.connections[m]:
                 c.backward(offset, offset)
-            m.offset = offset
+            # A nested recurrent network goes one step back by itself.
+            nested = isinstance(m, RecurrentNetworkComponent)
+            m.offset = offset + 1 if nested else offset
             m.backward()
 
         index = 0
-- 
2.43.0


From 6b6876e1001eba9eeda31fe32bf8e4074ee9973e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:55 +0000
Subject: [PATCH 52/57] fix: a network shifts the buffers of its modules as
 well as its own

---
 pybrain/structure/networks/network.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pybrain/structure/networks/network.py b/pybrain/structure/networks/network.py
index 0236714..f85b41f 100644
--- a/pybrain/structure/networks/network.py
+++ b/pybrain/structure/networks/network.py
@@ -149,6 +149,14 @@ class Network(Module, ParameterContainer):
         for m in self.modules:
             m.reset()
 
+    def shift(self, items):
+        """Shift all buffers of the network and of its component modules."""
+        Module.shift(self, items)
+        offset = self.offset
+        for m in self.modules:
+            m.shift(items)
+        self.offset = offset
+
     def _setParameters(self, p, owner=None):
         """ put slices of this array back into the modules """
         ParameterContainer._setParameters(self, p, owner)
-- 
2.43.0


From 92cba8c5757eb668069bb80a49b5f6418d24b09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:54 +0000
Subject: [PATCH 53/57] fix: converting a field no longer turns its spare
 storage into rows

DataSet.convertField set the whole buffer, including the rows reserved for
growth, as the new field, so a linked field became longer than the others.
---
 pybrain/datasets/dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/datasets/dataset.py b/pybrain/datasets/dataset.py
index 2a2e6c8..f1ad48f 100644
--- a/pybrain/datasets/dataset.py
+++ b/pybrain/datasets/dataset.py
@@ -267,7 +267,7 @@ class DataSet(Serializable):
     def convertField(self, label, newtype):
         """Convert the given field to a different data type."""
         try:
-            self.setField(label, self.data[label].astype(newtype))
+            self.setField(label, self.data[label][:self.endmarker[label]].astype(newtype))
         except KeyError:
             raise KeyError('convertField: dataset field %s not found.' % label)
 
-- 
2.43.0


From cd59b3e46f9234ef90b88cc094892b7ce8cd89f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:34:41 +0000
Subject: [PATCH 54/57] fix: weightedUtest returned the confidence of the
 opposite assertion

The docstring promises the confidence that the values of g2 are higher than those of g1.
---
 pybrain/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/utilities.py b/pybrain/utilities.py
index b56e7f8..4f805eb 100644
--- a/pybrain/utilities.py
+++ b/pybrain/utilities.py
@@ -780,7 +780,7 @@ def weightedUtest(g1, w1, g2, w2):
         for x2, wx2 in zip(g2, w2):
             if x1 == x2:
                 u1 += 0.5 * wx1 * wx2
-            elif x1 > x2:
+            elif x1 < x2:
                 u1 += wx1 * wx2
     mu = n1*n2/2.
     sigu = numpy.sqrt(n1*n2*(n1+n2+1)/12.)
-- 
2.43.0


From 2f0644a67eaad26111960906b63d25ad00deadc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:37:37 +0000
Subject: [PATCH 55/57] fix: maskOnProbability is the probability of a mask bit
 being on, not off

---
 pybrain/structure/evolvables/maskedparameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/structure/evolvables/maskedparameters.py b/pybrain/structure/evolvables/maskedparameters.py
index caf0020..337810d 100644
--- a/pybrain/structure/evolvables/maskedparameters.py
+++ b/pybrain/structure/evolvables/maskedparameters.py
@@ -72,7 +72,7 @@ class MaskedParameters(TopologyEvolvable):
         self.mask = zeros(self.pcontainer.paramdim, dtype=bool)
         onbits = []
         for i in range(self.pcontainer.paramdim):
-            if random() > self.maskOnProbability:
+            if random() < self.maskOnProbability:
                 self.mask[i] = True
                 onbits.append(i)
         over = len(onbits) - self.maxComplexity
-- 
2.43.0


From 54bd2d2b0ba1e1904719a08a0f6099e7e90f1885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:37:37 +0000
Subject: [PATCH 56/57] fix: a random mask has at least one bit on

---
 pybrain/structure/evolvables/maskedparameters.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pybrain/structure/evolvables/maskedparameters.py b/pybrain/structure/evolvables/maskedparameters.py
index 337810d..b8e7d0e 100644
--- a/pybrain/structure/evolvables/maskedparameters.py
+++ b/pybrain/structure/evolvables/maskedparameters.py
@@ -75,6 +75,9 @@ class MaskedParameters(TopologyEvolvable):
             if random() < self.maskOnProbability:
                 self.mask[i] = True
                 onbits.append(i)
+        if not onbits:
+            # a minimum of one needs to be on
+            self.mask[int(random()*self.pcontainer.paramdim)] = True
         over = len(onbits) - self.maxComplexity
         if over > 0:
             for i in sample(onbits, over):
-- 
2.43.0


From e85d251e30a7661b4f32cb7404bbf65960f0270a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:14:46 +0000
Subject: [PATCH 57/57] fix: trainUntilConvergence trained one epoch more than
 maxEpochs

---
 pybrain/supervised/trainers/backprop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/supervised/trainers/backprop.py b/pybrain/supervised/trainers/backprop.py
index b4c9f5f..b72847e 100644
--- a/pybrain/supervised/trainers/backprop.py
+++ b/pybrain/supervised/trainers/backprop.py
@@ -235,10 +235,10 @@ class BackpropTrainer(Trainer):
                 bestweights = self.module.params.copy()
                 bestepoch = epochs
 
+            epochs += 1
             if maxEpochs != None and epochs >= maxEpochs:
                 self.module.params[:] = bestweights
                 break
-            epochs += 1
 
             if len(self.validationErrors) >= continueEpochs * 2:
                 # have the validation errors started going up again?
-- 
2.43.0

