From 3c23575255e9511d41cf99f54d2215513566e875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:05 +0000
Subject: [PATCH 01/54] fix: clearing the context must not wipe the last time
 step

The context rows of a buffer hub start at time_size. Clearing from
time_size - context_size also zeroed the last time step, which destroyed the
provided input data whenever an Input output shares a hub with the output of a
recurrent layer (both connected to the same input of some layer).
---
 brainstorm/structure/buffers.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/brainstorm/structure/buffers.py b/brainstorm/structure/buffers.py
index ec773ea..e3d219b 100644
--- a/brainstorm/structure/buffers.py
+++ b/brainstorm/structure/buffers.py
@@ -141,8 +141,7 @@ class BufferManager(object):
         for hub, buf in zip(self.hubs, self.buffers):
             if hub.btype != 2 or not hub.context_size:
                 continue
-            self.handler.fill(
-                buf[self.time_size - hub.context_size:], 0.)
+            self.handler.fill(buf[self.time_size:], 0.)
 
     def clear_backward_buffers(self):
         for h, b in zip(self.hubs, self.buffers):
-- 
2.43.0


From 6cbb8c7903d54f9241f40932ddf0f58e19f31f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:05 +0000
Subject: [PATCH 02/54] fix: el activation must not turn large inputs into nan

exp(x) overflowed to inf for large positive x and inf * 0 gave nan.
---
 brainstorm/handlers/numpy_handler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brainstorm/handlers/numpy_handler.py b/brainstorm/handlers/numpy_handler.py
index 64a344f..7e5c442 100644
--- a/brainstorm/handlers/numpy_handler.py
+++ b/brainstorm/handlers/numpy_handler.py
@@ -302,7 +302,7 @@ class NumpyHandler(Handler):
 
     def el(self, x, y):
         # TODO: Optimize this implementation
-        y[:] = x * (x >= 0.) + (np.exp(x) - 1.) * (x < 0.)
+        y[:] = x * (x >= 0.) + (np.exp(np.minimum(x, 0.)) - 1.) * (x < 0.)
 
     def el_deriv(self, x, y, dy, dx):
         # TODO: Optimize this implementation
-- 
2.43.0


From f1772a3019c8008a799ef1df749fc29e4fd59dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:17 +0000
Subject: [PATCH 03/54] fix: LSTM gradients of recurrent and peephole weights
 at the first step

The contribution of the first time step used the deltas of the (unused) context
row instead of the output and cell state carried over in the context, so these
gradients were wrong whenever a non-zero context was given.
---
 brainstorm/layers/clockwork_lstm_layer.py | 12 ++++++------
 brainstorm/layers/lstm_layer.py           | 12 ++++++------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/brainstorm/layers/clockwork_lstm_layer.py b/brainstorm/layers/clockwork_lstm_layer.py
index 37819c8..d40da00 100644
--- a/brainstorm/layers/clockwork_lstm_layer.py
+++ b/brainstorm/layers/clockwork_lstm_layer.py
@@ -303,10 +303,10 @@ class ClockworkLstmLayerImpl(Layer):
         _h.dot_add_mm(flat_dOa, flat_outputs, dRo, transa=True)
         _h.dot_add_mm(flat_dZa, flat_outputs, dRz, transa=True)
 
-        _h.dot_add_mm(dIa[0], dy[-1], dRi, transa=True)
-        _h.dot_add_mm(dFa[0], dy[-1], dRf, transa=True)
-        _h.dot_add_mm(dOa[0], dy[-1], dRo, transa=True)
-        _h.dot_add_mm(dZa[0], dy[-1], dRz, transa=True)
+        _h.dot_add_mm(dIa[0], y[-1], dRi, transa=True)
+        _h.dot_add_mm(dFa[0], y[-1], dRf, transa=True)
+        _h.dot_add_mm(dOa[0], y[-1], dRo, transa=True)
+        _h.dot_add_mm(dZa[0], y[-1], dRz, transa=True)
 
         # Other Peephole connections
         dWcif_tmp = _h.allocate(flat_cell.shape)
@@ -318,9 +318,9 @@ class ClockworkLstmLayerImpl(Layer):
         _h.add_tt(dpf, dWc_tmp, dpf)
 
         dWcif_tmp = _h.allocate(dIa[0].shape)
-        _h.mult_tt(dCa[-1], dIa[0], dWcif_tmp)
+        _h.mult_tt(Ca[-1], dIa[0], dWcif_tmp)
         _h.sum_t(dWcif_tmp, axis=0, out=dWc_tmp)
         _h.add_tt(dpi, dWc_tmp, dpi)
-        _h.mult_tt(dCa[-1], dIa[0], dWcif_tmp)
+        _h.mult_tt(Ca[-1], dFa[0], dWcif_tmp)
         _h.sum_t(dWcif_tmp, axis=0, out=dWc_tmp)
         _h.add_tt(dpf, dWc_tmp, dpf)
diff --git a/brainstorm/layers/lstm_layer.py b/brainstorm/layers/lstm_layer.py
index 8433706..972903c 100644
--- a/brainstorm/layers/lstm_layer.py
+++ b/brainstorm/layers/lstm_layer.py
@@ -255,10 +255,10 @@ class LstmLayerImpl(Layer):
         _h.dot_add_mm(flat_dOa, flat_outputs, dRo, transa=True)
         _h.dot_add_mm(flat_dZa, flat_outputs, dRz, transa=True)
 
-        _h.dot_add_mm(dIa[0], dy[-1], dRi, transa=True)
-        _h.dot_add_mm(dFa[0], dy[-1], dRf, transa=True)
-        _h.dot_add_mm(dOa[0], dy[-1], dRo, transa=True)
-        _h.dot_add_mm(dZa[0], dy[-1], dRz, transa=True)
+        _h.dot_add_mm(dIa[0], y[-1], dRi, transa=True)
+        _h.dot_add_mm(dFa[0], y[-1], dRf, transa=True)
+        _h.dot_add_mm(dOa[0], y[-1], dRo, transa=True)
+        _h.dot_add_mm(dZa[0], y[-1], dRz, transa=True)
 
         # Other Peephole connections
         dWcif_tmp = _h.allocate(flat_cell.shape)
@@ -270,9 +270,9 @@ class LstmLayerImpl(Layer):
         _h.add_tt(dpf, dWc_tmp, dpf)
 
         dWcif_tmp = _h.allocate(dIa[0].shape)
-        _h.mult_tt(dCa[-1], dIa[0], dWcif_tmp)
+        _h.mult_tt(Ca[-1], dIa[0], dWcif_tmp)
         _h.sum_t(dWcif_tmp, axis=0, out=dWc_tmp)
         _h.add_tt(dpi, dWc_tmp, dpi)
-        _h.mult_tt(dCa[-1], dIa[0], dWcif_tmp)
+        _h.mult_tt(Ca[-1], dFa[0], dWcif_tmp)
         _h.sum_t(dWcif_tmp, axis=0, out=dWc_tmp)
         _h.add_tt(dpf, dWc_tmp, dpf)
-- 
2.43.0


From a9912891e95c43f149011d1526011b684593d77a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:17 +0000
Subject: [PATCH 04/54] fix: Dropout must scale the deltas like it scales the
 activations

The forward pass multiplies the kept units by 1 / (1 - drop_prob), the backward
pass did not.
---
 brainstorm/layers/dropout_layer.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/brainstorm/layers/dropout_layer.py b/brainstorm/layers/dropout_layer.py
index 88c0116..e13c389 100644
--- a/brainstorm/layers/dropout_layer.py
+++ b/brainstorm/layers/dropout_layer.py
@@ -47,6 +47,8 @@ class DropoutLayerImpl(Layer):
             _h.copy_to(buffers.inputs.default, buffers.outputs.default)
 
     def backward_pass(self, buffers):
-        self.handler.mult_add_tt(buffers.output_deltas.default,
-                                 buffers.internals.mask,
-                                 buffers.input_deltas.default)
+        _h = self.handler
+        tmp = _h.allocate(buffers.internals.mask.shape)
+        _h.mult_st(1 / (1 - self.drop_prob), buffers.internals.mask, out=tmp)
+        _h.mult_add_tt(buffers.output_deltas.default, tmp,
+                       buffers.input_deltas.default)
-- 
2.43.0


From 1ff0d214e6818eff2f9cd76893affbfd65db6c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:41 +0000
Subject: [PATCH 05/54] fix: accumulate FullyConnected and Convolution2D
 gradients

These layers overwrote the gradient buffers of their parameters, dropping the
contributions of other layers that are connected to the same parameters. All
other layers already add to the (cleared) gradients.
---
 brainstorm/handlers/numpy_handler.py       | 2 --
 brainstorm/handlers/pycuda_handler.py      | 2 --
 brainstorm/layers/fully_connected_layer.py | 6 ++++--
 3 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/brainstorm/handlers/numpy_handler.py b/brainstorm/handlers/numpy_handler.py
index 7e5c442..7918baa 100644
--- a/brainstorm/handlers/numpy_handler.py
+++ b/brainstorm/handlers/numpy_handler.py
@@ -115,8 +115,6 @@ class NumpyHandler(Handler):
         num_output_pixels = out_deltas.shape[1] * out_deltas.shape[2]
         num_kernel_params = np.prod(kernel_shape)
 
-        dparams.fill(0.0)
-        dbias.fill(0.0)
         col = np.zeros((num_output_pixels, num_kernel_params),
                        dtype=self.dtype)
 
diff --git a/brainstorm/handlers/pycuda_handler.py b/brainstorm/handlers/pycuda_handler.py
index fff34c3..2b8abe3 100644
--- a/brainstorm/handlers/pycuda_handler.py
+++ b/brainstorm/handlers/pycuda_handler.py
@@ -179,8 +179,6 @@ class PyCudaHandler(Handler):
         num_output_pixels = out_deltas.shape[1] * out_deltas.shape[2]
         num_kernel_params = np.prod(kernel_shape)
 
-        dparams.fill(0.0)
-        dbias.fill(0.0)
         tmp = self.zeros(dbias.shape)
         col = self.zeros((num_output_pixels, num_kernel_params))
 
diff --git a/brainstorm/layers/fully_connected_layer.py b/brainstorm/layers/fully_connected_layer.py
index 79f46d4..dedaa2e 100644
--- a/brainstorm/layers/fully_connected_layer.py
+++ b/brainstorm/layers/fully_connected_layer.py
@@ -74,5 +74,7 @@ class FullyConnectedLayerImpl(Layer):
         # calculate in_deltas and gradients
         _h.inplace_act_func_deriv[self.activation](outputs, out_deltas)
         _h.dot_add_mm(out_deltas, W, out=in_deltas)
-        _h.dot_mm(out_deltas, inputs, out=dW, transa=True)
-        _h.sum_t(out_deltas, axis=0, out=dbias)
+        _h.dot_add_mm(out_deltas, inputs, out=dW, transa=True)
+        dbias_tmp = _h.allocate(dbias.shape)
+        _h.sum_t(out_deltas, axis=0, out=dbias_tmp)
+        _h.add_tt(dbias, dbias_tmp, dbias)
-- 
2.43.0


From 53c8090fc2db48dbad4064e9d352a41ce9d81988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:41 +0000
Subject: [PATCH 06/54] fix: BinomialCrossEntropy backward pass for
 multi-dimensional features

The deltas of the summed loss were broadcast along one axis only, which failed
for inputs with more than one feature dimension.
---
 brainstorm/layers/binomial_cross_entropy_layer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/brainstorm/layers/binomial_cross_entropy_layer.py b/brainstorm/layers/binomial_cross_entropy_layer.py
index 30b6579..dd07e7a 100644
--- a/brainstorm/layers/binomial_cross_entropy_layer.py
+++ b/brainstorm/layers/binomial_cross_entropy_layer.py
@@ -110,7 +110,8 @@ class BinomialCrossEntropyLayerImpl(Layer):
 
         # ceed_sum has only one feature dimension due to summation,
         # so we broadcast to all feature dimensions
-        _h.broadcast_t(ceed_sum, 2, tmp)
+        _h.broadcast_t(flatten_time(ceed_sum), 1,
+                       flatten_time_and_features(tmp))
         _h.mult_tt(ceed, tmp, ceed)
 
         _h.add_tt(ceed, yd, yd)
-- 
2.43.0


From 45a87ca25cdd3d7c954df9395995dcb98bab9bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:41 +0000
Subject: [PATCH 07/54] fix: load networks with current h5py versions

Dataset.value was removed in h5py 3; [()] works with all versions.
---
 brainstorm/structure/network.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/brainstorm/structure/network.py b/brainstorm/structure/network.py
index a0f4dbf..88d39b5 100644
--- a/brainstorm/structure/network.py
+++ b/brainstorm/structure/network.py
@@ -95,10 +95,10 @@ class Network(Seedable):
             :meth:`.save_as_hdf5`
         """
         with h5py.File(filename, 'r') as f:
-            description = json.loads(f['description'].value.decode())
+            description = json.loads(f['description'][()].decode())
             net = create_from_description(description)
             net.handler.set_from_numpy(net.buffer.parameters,
-                                       f['parameters'].value)
+                                       f['parameters'][()])
         return net
 
     def __init__(self, layers, buffer_manager, architecture, seed=None,
-- 
2.43.0


From 9e60103069ccd54a4802be9d794e85afb4f5d333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:41 +0000
Subject: [PATCH 08/54] fix: rebuild networks that were never initialized

A network whose parameters were set by hand could be saved and described, but
not loaded or created again.
---
 brainstorm/structure/network.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/brainstorm/structure/network.py b/brainstorm/structure/network.py
index 88d39b5..a1f54fc 100644
--- a/brainstorm/structure/network.py
+++ b/brainstorm/structure/network.py
@@ -70,7 +70,9 @@ class Network(Seedable):
     def __new_from_description__(cls, description):
         net = Network.from_architecture(description['architecture'])
         net.set_handler(create_from_description(description['handler']))
-        net.initialize(create_from_description(description['initializers']))
+        if description['initializers']:
+            net.initialize(
+                create_from_description(description['initializers']))
         net.set_gradient_modifiers(
             create_from_description(description['gradient_modifiers']))
         net.set_weight_modifiers(
-- 
2.43.0


From 55668eba3d33df91d8fe01388a1e048fd3b6920c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:58 +0000
Subject: [PATCH 09/54] fix: keep the mask and the frozen weights of modifiers
 in descriptions

MaskValues came back with a list as mask and failed when applied, FreezeValues
forgot the weights it has to enforce.
---
 brainstorm/value_modifiers.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/brainstorm/value_modifiers.py b/brainstorm/value_modifiers.py
index 0f91e75..950f3b5 100644
--- a/brainstorm/value_modifiers.py
+++ b/brainstorm/value_modifiers.py
@@ -137,6 +137,10 @@ class MaskValues(ValueModifier):
         self.mask = mask
         self.device_mask = None
 
+    def __init_from_description__(self, description):
+        super(MaskValues, self).__init_from_description__(description)
+        self.mask = np.array(self.mask)
+
     def __call__(self, handler, view):
         if (self.device_mask is None or
                 not isinstance(self.device_mask, handler.array_type)):
@@ -159,13 +163,18 @@ class FreezeValues(ValueModifier):
     weights to affect.
     """
 
-    __undescribed__ = {'weights', 'device_weights'}
+    __undescribed__ = {'device_weights'}
 
     def __init__(self, weights=None):
         super(FreezeValues, self).__init__()
         self.weights = weights
         self.device_weights = None
 
+    def __init_from_description__(self, description):
+        super(FreezeValues, self).__init_from_description__(description)
+        weights = description.get('weights')
+        self.weights = None if weights is None else np.array(weights)
+
     def __call__(self, handler, view):
         if self.weights is None:
             self.weights = handler.get_numpy_copy(view)
-- 
2.43.0


From 875cd1624080e3a8960f582382136553ff3a701e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:58 +0000
Subject: [PATCH 10/54] fix: hooks stay describable after they have been used

MonitorLoss and MonitorScores keep the data iterator and ProgressBar its bar,
which made describing the trainer fail once it had trained.
---
 brainstorm/hooks.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/brainstorm/hooks.py b/brainstorm/hooks.py
index 7dd32e4..2e6f73e 100644
--- a/brainstorm/hooks.py
+++ b/brainstorm/hooks.py
@@ -355,6 +355,8 @@ class MonitorLoss(Hook):
     Monitor the losses computed by the network on a dataset using a given data
     iterator.
     """
+    __undescribed__ = {'iter': None}
+
     def __init__(self, iter_name, name=None, timescale='epoch', interval=1,
                  verbose=None):
         super(MonitorLoss, self).__init__(name, timescale, interval, verbose)
@@ -401,6 +403,8 @@ class MonitorScores(Hook):
         MonitorLoss: monitor the overall loss of the network.
 
     """
+    __undescribed__ = {'iter': None}
+
     def __init__(self, iter_name, scorers, name=None, timescale='epoch',
                  interval=1, verbose=None):
 
@@ -821,6 +825,8 @@ else:
 
 class ProgressBar(Hook):
     """ Adds a progress bar to show the training progress. """
+    __undescribed__ = {'length': None, 'bar': None}
+
     def __init__(self):
         super(ProgressBar, self).__init__(None, 'update', 1)
         self.length = None
-- 
2.43.0


From 5f760a0513ca905067f02dd4b332778e3b9d6493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:26 +0000
Subject: [PATCH 11/54] fix: Uniform initializers created from a description
 can be used

---
 brainstorm/initializers.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/brainstorm/initializers.py b/brainstorm/initializers.py
index 7001f56..f251c02 100644
--- a/brainstorm/initializers.py
+++ b/brainstorm/initializers.py
@@ -382,9 +382,13 @@ class Uniform(Initializer):
         super(Uniform, self).__init__()
         self.low = low
         self.high = high
-        self.__init_from_description__(None)
+        self._normalize_range()
 
     def __init_from_description__(self, description):
+        super(Uniform, self).__init_from_description__(description)
+        self._normalize_range()
+
+    def _normalize_range(self):
         if self.high is None:
             self.low, self.high = sorted([-self.low, self.low])
         assert self.low < self.high, \
-- 
2.43.0


From 7fbba8a043d9981906ba70c47987c75d2916f769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:26 +0000
Subject: [PATCH 12/54] fix: array initializers inside other initializers
 survive their description

---
 brainstorm/initializers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/brainstorm/initializers.py b/brainstorm/initializers.py
index f251c02..d6ddf57 100644
--- a/brainstorm/initializers.py
+++ b/brainstorm/initializers.py
@@ -403,6 +403,9 @@ class Uniform(Initializer):
 # ########################### helper methods ##################################
 
 def evaluate_initializer(initializer, shape, fallback=None, seed=None):
+    if isinstance(initializer, (list, np.ndarray)):
+        # the description of an ArrayInitializer is a list
+        initializer = ArrayInitializer(initializer)
     if isinstance(initializer, Initializer):
         if seed is not None:
             initializer.rnd.set_seed(seed)
-- 
2.43.0


From f59857220e35a8dc960f549647c2e24ec73e6e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:57 +0000
Subject: [PATCH 13/54] fix: sparse initializers pass their seed on to the
 sub-initializer

---
 brainstorm/initializers.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/brainstorm/initializers.py b/brainstorm/initializers.py
index d6ddf57..fce85f4 100644
--- a/brainstorm/initializers.py
+++ b/brainstorm/initializers.py
@@ -334,7 +334,8 @@ class SparseInputs(Initializer):
             raise InitializationError("Input dimension to small: {} < {}"
                                       "".format(shape[0], self.connections))
 
-        sub_result = evaluate_initializer(self.sub_initializer, shape)
+        sub_result = evaluate_initializer(self.sub_initializer, shape,
+                                          seed=self.rnd.generate_seed())
         connection_mask = np.zeros(shape)
         connection_mask[:self.connections, :] = 1.
         for i in range(shape[1]):
@@ -363,7 +364,8 @@ class SparseOutputs(Initializer):
         if shape[1] < self.connections:
             raise InitializationError("Output dimension to small: {} < {}"
                                       "".format(shape[1], self.connections))
-        sub_result = evaluate_initializer(self.sub_initializer, shape)
+        sub_result = evaluate_initializer(self.sub_initializer, shape,
+                                          seed=self.rnd.generate_seed())
         connection_mask = np.zeros(shape)
         connection_mask[:, :self.connections] = 1.
         for i in range(shape[0]):
-- 
2.43.0


From 175bef4e3948679a1075d13c4f5e72008d1218ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:22 +0000
Subject: [PATCH 14/54] fix: initializing a network leaves the specification
 passed in unchanged

---
 brainstorm/structure/network.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/brainstorm/structure/network.py b/brainstorm/structure/network.py
index a1f54fc..c0d71df 100644
--- a/brainstorm/structure/network.py
+++ b/brainstorm/structure/network.py
@@ -247,7 +247,7 @@ class Network(Seedable):
         all_parameters = {k: v.parameters
                           for k, v in self.buffer.items()
                           if isinstance(v, BufferView) and 'parameters' in v}
-        _replace_lists_with_array_initializers(init_refs)
+        init_refs = _replace_lists_with_array_initializers(init_refs)
         initializers, fallback = resolve_references(all_parameters, init_refs)
         init_rnd = self.rnd.create_random_state(seed)
         for layer_name, views in sorted(all_parameters.items()):
@@ -547,7 +547,7 @@ def _update_references_with_dict(refs, ref_dict):
     if refs is None:
         references = dict()
     elif isinstance(refs, dict):
-        references = refs
+        references = dict(refs)
     else:
         references = {'default': refs}
 
@@ -561,8 +561,11 @@ def _update_references_with_dict(refs, ref_dict):
 
 
 def _replace_lists_with_array_initializers(ref_dict):
+    result = {}
     for key, value in ref_dict.items():
         if isinstance(value, dict):
-            _replace_lists_with_array_initializers(value)
+            value = _replace_lists_with_array_initializers(value)
         elif isinstance(value, (list, np.ndarray)):
-            ref_dict[key] = ArrayInitializer(value)
+            value = ArrayInitializer(value)
+        result[key] = value
+    return result
-- 
2.43.0


From 3f20e8a042a7aa0f613ef753a3d700a7e31b91f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:16 +0000
Subject: [PATCH 15/54] fix: EchoState rejects arrays that are not matrices
 with an InitializationError

---
 brainstorm/initializers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brainstorm/initializers.py b/brainstorm/initializers.py
index fce85f4..fa9aa0c 100644
--- a/brainstorm/initializers.py
+++ b/brainstorm/initializers.py
@@ -166,7 +166,7 @@ class EchoState(Initializer):
 
     def __call__(self, shape):
         self._assert_atleast2d(shape)
-        if shape[0] != shape[1]:
+        if len(shape) != 2 or shape[0] != shape[1]:
             raise InitializationError("Matrix should be square but was: {}"
                                       "".format(shape))
 
-- 
2.43.0


From c4f2984ff4d972f523ec2173bbe215bec67e0288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:54 +0000
Subject: [PATCH 16/54] fix: sigmoid must not leave its output unwritten where
 the input is nan

---
 brainstorm/handlers/numpy_handler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brainstorm/handlers/numpy_handler.py b/brainstorm/handlers/numpy_handler.py
index 7918baa..3d97c4f 100644
--- a/brainstorm/handlers/numpy_handler.py
+++ b/brainstorm/handlers/numpy_handler.py
@@ -281,7 +281,7 @@ class NumpyHandler(Handler):
     def sigmoid(self, x, y):
         indices = x >= 0
         y[indices] = 1. / (1. + np.exp(-x[indices]))
-        indices = x < 0
+        indices = ~(x >= 0)
         y[indices] = np.exp(x[indices]) / (1. + np.exp(x[indices]))
 
     def sigmoid_deriv(self, x, y, dy, dx):
-- 
2.43.0


From e7bb154064db04f1901d1835864070cd44dd5b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:54 +0000
Subject: [PATCH 17/54] fix: Undivided must not hand out its own data
 dictionary

---
 brainstorm/data_iterators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brainstorm/data_iterators.py b/brainstorm/data_iterators.py
index aef02db..530d128 100644
--- a/brainstorm/data_iterators.py
+++ b/brainstorm/data_iterators.py
@@ -394,7 +394,7 @@ class Undivided(DataIterator):
         self.total_size = int(sum(d.size for d in self.data.values()))
 
     def __call__(self, handler=None):
-        yield self.data
+        yield dict(self.data)
 
 
 class Minibatches(DataIterator):
-- 
2.43.0


From c60c1dff5ab989c5c37830cb2e52e656c238beb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:54 +0000
Subject: [PATCH 18/54] fix: Flip must not change the data set

---
 brainstorm/data_iterators.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/brainstorm/data_iterators.py b/brainstorm/data_iterators.py
index 530d128..245d2cc 100644
--- a/brainstorm/data_iterators.py
+++ b/brainstorm/data_iterators.py
@@ -179,6 +179,7 @@ class Flip(DataIterator):
         for data in self.iter(handler):
             for name in self.prob_dict.keys():
                 assert isinstance(data[name], np.ndarray)
+                data[name] = data[name].copy()
                 for i in range(data[name].shape[1]):
                     if self.rnd.random_sample() < self.prob_dict[name]:
                         data[name][:, i, ...] = data[name][:, i, :, ::-1, :]
-- 
2.43.0


From d60725cf83344e5d7087da3fe27b64657da619d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:54 +0000
Subject: [PATCH 19/54] fix: Pad accepts a padding of zero

---
 brainstorm/data_iterators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brainstorm/data_iterators.py b/brainstorm/data_iterators.py
index 245d2cc..6b0841d 100644
--- a/brainstorm/data_iterators.py
+++ b/brainstorm/data_iterators.py
@@ -319,7 +319,7 @@ class Pad(DataIterator):
                 size = self.size_dict[name]
                 val = self.value_dict.get(name, 0.0)
                 new_data = val * np.ones((t, b, h + 2 * size, w + 2 * size, c))
-                new_data[:, :, size: -size, size: -size, :] = data[name]
+                new_data[:, :, size: size + h, size: size + w, :] = data[name]
                 data[name] = new_data
             yield data
 
-- 
2.43.0


From f526fe3555aba8c65b3ab05feb273338e93f19c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:54 +0000
Subject: [PATCH 20/54] fix: RandomCrop accepts images of any type and memory
 layout

---
 brainstorm/data_iterators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/brainstorm/data_iterators.py b/brainstorm/data_iterators.py
index 6b0841d..82f29be 100644
--- a/brainstorm/data_iterators.py
+++ b/brainstorm/data_iterators.py
@@ -371,8 +371,8 @@ class RandomCrop(DataIterator):
                 row_indices = self.rnd.random_integers(0, max_r, n)
                 col_indices = self.rnd.random_integers(0, max_c, n)
                 cropped = np.zeros((t, n, crop_h, crop_w, c))
-                _crop_images(data[name], crop_h, crop_w, row_indices,
-                             col_indices, cropped)
+                _crop_images(np.ascontiguousarray(data[name], cropped.dtype),
+                             crop_h, crop_w, row_indices, col_indices, cropped)
                 data[name] = cropped
             yield data
 
-- 
2.43.0


From 4d2b8a950226771e1905db3979d05fc2f28ea5ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:54 +0000
Subject: [PATCH 21/54] fix: iterators that change shapes report the shapes
 they deliver

---
 brainstorm/data_iterators.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/brainstorm/data_iterators.py b/brainstorm/data_iterators.py
index 82f29be..89127fa 100644
--- a/brainstorm/data_iterators.py
+++ b/brainstorm/data_iterators.py
@@ -217,6 +217,9 @@ class OneHot(DataIterator):
             shape = iter.data_shapes[key]
             if not (shape[-1] == 1 and len(shape) == 3):
                 raise IteratorValidationError("Only 3D data is supported")
+        self.data_shapes = dict(iter.data_shapes)
+        for key, vocab_size in vocab_size_dict.items():
+            self.data_shapes[key] = iter.data_shapes[key][:-1] + (vocab_size,)
         self.vocab_size_dict = vocab_size_dict
         self.iter = iter
 
@@ -262,6 +265,9 @@ class MultiHot(DataIterator):
             shape = iter.data_shapes[key]
             if not len(shape) == 3:
                 raise IteratorValidationError("Only 3D data is supported")
+        self.data_shapes = dict(iter.data_shapes)
+        for key, vocab_size in vocab_size_dict.items():
+            self.data_shapes[key] = iter.data_shapes[key][:-1] + (vocab_size,)
         self.vocab_size_dict = vocab_size_dict
         self.iter = iter
 
@@ -307,6 +313,10 @@ class Pad(DataIterator):
                     "}".format(key, iter.data_shapes.keys()))
             if len(iter.data_shapes[key]) != 5:
                 raise IteratorValidationError("Only 5D data is supported")
+        self.data_shapes = dict(iter.data_shapes)
+        for key, size in size_dict.items():
+            t, b, h, w, c = iter.data_shapes[key]
+            self.data_shapes[key] = (t, b, h + 2 * size, w + 2 * size, c)
         self.value_dict = {} if value_dict is None else value_dict
         self.size_dict = size_dict
         self.iter = iter
@@ -357,6 +367,10 @@ class RandomCrop(DataIterator):
                 raise IteratorValidationError("Invalid crop height")
             if val[1] > data_shape[3] or val[1] < 0:
                 raise IteratorValidationError("Invalid crop width")
+        self.data_shapes = dict(iter.data_shapes)
+        for key, (crop_h, crop_w) in shape_dict.items():
+            t, b, h, w, c = iter.data_shapes[key]
+            self.data_shapes[key] = (t, b, crop_h, crop_w, c)
         self.shape_dict = shape_dict
         self.iter = iter
 
-- 
2.43.0


From 8de77db3742dc8b71c191f9ddcafef5cd0b6dac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:00 +0000
Subject: [PATCH 22/54] fix: RandomCrop accepts read-only data

---
 brainstorm/data_iterators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brainstorm/data_iterators.py b/brainstorm/data_iterators.py
index 89127fa..3b0d885 100644
--- a/brainstorm/data_iterators.py
+++ b/brainstorm/data_iterators.py
@@ -385,7 +385,7 @@ class RandomCrop(DataIterator):
                 row_indices = self.rnd.random_integers(0, max_r, n)
                 col_indices = self.rnd.random_integers(0, max_c, n)
                 cropped = np.zeros((t, n, crop_h, crop_w, c))
-                _crop_images(np.ascontiguousarray(data[name], cropped.dtype),
+                _crop_images(np.require(data[name], cropped.dtype, ['C', 'W']),
                              crop_h, crop_w, row_indices, col_indices, cropped)
                 data[name] = cropped
             yield data
-- 
2.43.0


From 71b5bbff63adad04a4ea8d5e4f2d0239d90c4dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:13 +0000
Subject: [PATCH 23/54] fix: RandomWalk draws weights of variance scale^2/N
 like the scheme it cites

---
 brainstorm/initializers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brainstorm/initializers.py b/brainstorm/initializers.py
index fa9aa0c..828765a 100644
--- a/brainstorm/initializers.py
+++ b/brainstorm/initializers.py
@@ -309,7 +309,7 @@ class RandomWalk(Initializer):
         else:
             scale = self.scale
 
-        return scale * self.rnd.randn(*shape) / N
+        return scale * self.rnd.randn(*shape) / np.sqrt(N)
 
 
 class SparseInputs(Initializer):
-- 
2.43.0


From 20c29438d7b7653c88927100e65f5b13149e58c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:41 +0000
Subject: [PATCH 24/54] fix: apply modifiers selected by several patterns in
 the order of the specification

---
 brainstorm/structure/network.py         |  6 ++++--
 brainstorm/structure/view_references.py | 15 +++++++++++++--
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/brainstorm/structure/network.py b/brainstorm/structure/network.py
index c0d71df..10c35fd 100644
--- a/brainstorm/structure/network.py
+++ b/brainstorm/structure/network.py
@@ -314,7 +314,8 @@ class Network(Seedable):
         assert not prune_view_references(fallback), \
             'fallback is not supported for weight modifiers'
         weight_mods = prune_view_references(weight_mods)
-        self.weight_modifiers = order_and_copy_modifiers(weight_mods)
+        self.weight_modifiers = order_and_copy_modifiers(weight_mods,
+                                                         weight_mod_refs)
         # TODO: Check that all are ValueModifiers
 
     def set_gradient_modifiers(self, default_or_mod_dict=None, **kwargs):
@@ -355,7 +356,8 @@ class Network(Seedable):
         assert not prune_view_references(fallback), \
             'fallback is not supported for gradient modifiers'
         gradient_mods = prune_view_references(gradient_mods)
-        self.gradient_modifiers = order_and_copy_modifiers(gradient_mods)
+        self.gradient_modifiers = order_and_copy_modifiers(gradient_mods,
+                                                           gradient_mod_refs)
         # TODO: Check that all are ValueModifiers or GradientModifiers
 
     def set_handler(self, new_handler):
diff --git a/brainstorm/structure/view_references.py b/brainstorm/structure/view_references.py
index b7a26b3..915fd09 100644
--- a/brainstorm/structure/view_references.py
+++ b/brainstorm/structure/view_references.py
@@ -180,13 +180,24 @@ def copy_modifier_for(modifier, layer_name, view_name):
     return copied_mod
 
 
-def order_and_copy_modifiers(view_refs):
+def flatten_references(references):
+    """List all the values in the (nested) references in order."""
+    if isinstance(references, dict):
+        return [v for ref in references.values()
+                for v in flatten_references(ref)]
+    if isinstance(references, (list, tuple)):
+        return [tuple(references)]
+    return list(references) if isinstance(references, set) else [references]
+
+
+def order_and_copy_modifiers(view_refs, references):
+    order = flatten_references(references)
     list_view_refs = {}
     for layer_name, views in view_refs.items():
         layer_refs = {}
         for view_name, setofmodifiers in views.items():
             l = []
-            for mod in setofmodifiers:
+            for mod in sorted(setofmodifiers, key=order.index):
                 if isinstance(mod, (list, tuple)):
                     l.extend([copy_modifier_for(m, layer_name, view_name)
                               for m in mod])
-- 
2.43.0


From 425512ac4b6d9db0498309dbe82e9ef91b7a6874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:41 +0000
Subject: [PATCH 25/54] fix: ForwardStepper returns the loss values instead of
 failing

---
 brainstorm/training/steppers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brainstorm/training/steppers.py b/brainstorm/training/steppers.py
index 286e547..4e0067b 100644
--- a/brainstorm/training/steppers.py
+++ b/brainstorm/training/steppers.py
@@ -40,7 +40,7 @@ class ForwardStepper(TrainingStepper):
 
     def run(self):
         self.net.forward_pass(training_pass=self.use_training_pass)
-        return self.net.get_loss_value()
+        return self.net.get_loss_values()
 
 
 class SgdStepper(TrainingStepper):
-- 
2.43.0


From e4cf8ef4fe27f73077f953372733c90cd5b44d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:41 +0000
Subject: [PATCH 26/54] fix: MonitorLayerDeltas failed for layers with inputs

---
 brainstorm/hooks.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/brainstorm/hooks.py b/brainstorm/hooks.py
index 2e6f73e..fe2c25d 100644
--- a/brainstorm/hooks.py
+++ b/brainstorm/hooks.py
@@ -243,9 +243,9 @@ class MonitorLayerDeltas(Hook):
         for key, v in net.buffer[self.layer_name].input_deltas.items():
             key_log = in_deltas_log[key] = OrderedDict()
             v = net.handler.get_numpy_copy(v)
-            key_log[key]['min'] = v.min()
-            key_log[key]['avg'] = v.mean()
-            key_log[key]['max'] = v.max()
+            key_log['min'] = v.min()
+            key_log['avg'] = v.mean()
+            key_log['max'] = v.max()
 
         return log
 
-- 
2.43.0


From 3cdb436f2aa6c05446fab6329bc1b80d39752c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:25 +0000
Subject: [PATCH 27/54] fix: StopAfterThresholdReached failed before training
 when its log does not exist yet

---
 brainstorm/hooks.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/brainstorm/hooks.py b/brainstorm/hooks.py
index fe2c25d..c828b23 100644
--- a/brainstorm/hooks.py
+++ b/brainstorm/hooks.py
@@ -603,6 +603,12 @@ class StopAfterThresholdReached(Hook):
         self.criterion = criterion
 
     def __call__(self, epoch_nr, update_nr, net, stepper, logs):
+        if epoch_nr == 0:
+            try:
+                e = get_by_path(logs, self.log_name)
+            except KeyError:
+                return
+
         e = get_by_path(logs, self.log_name)
         is_threshold_reached = False
         if self.criterion == 'max' and max(e) >= self.threshold:
-- 
2.43.0


From a628c4480be2aa8302e0b187802915a7d75fdc78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:37 +0000
Subject: [PATCH 28/54] fix: MonitorLayerDeltas and MonitorLayerInOuts failed
 before the first data was processed

---
 brainstorm/hooks.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/brainstorm/hooks.py b/brainstorm/hooks.py
index c828b23..7fb4062 100644
--- a/brainstorm/hooks.py
+++ b/brainstorm/hooks.py
@@ -226,6 +226,8 @@ class MonitorLayerDeltas(Hook):
         log = OrderedDict()
         for key, v in net.buffer[self.layer_name].internals.items():
             v = net.handler.get_numpy_copy(v)
+            if v.size == 0:  # no data has been processed yet
+                continue
             log[key] = OrderedDict()
             log[key]['min'] = v.min()
             log[key]['avg'] = v.mean()
@@ -234,6 +236,8 @@ class MonitorLayerDeltas(Hook):
         out_deltas_log = log['output_deltas'] = OrderedDict()
         for key, v in net.buffer[self.layer_name].output_deltas.items():
             v = net.handler.get_numpy_copy(v)
+            if v.size == 0:  # no data has been processed yet
+                continue
             key_log = out_deltas_log[key] = OrderedDict()
             key_log['min'] = v.min()
             key_log['avg'] = v.mean()
@@ -241,8 +245,10 @@ class MonitorLayerDeltas(Hook):
 
         in_deltas_log = log['input_deltas'] = OrderedDict()
         for key, v in net.buffer[self.layer_name].input_deltas.items():
-            key_log = in_deltas_log[key] = OrderedDict()
             v = net.handler.get_numpy_copy(v)
+            if v.size == 0:  # no data has been processed yet
+                continue
+            key_log = in_deltas_log[key] = OrderedDict()
             key_log['min'] = v.min()
             key_log['avg'] = v.mean()
             key_log['max'] = v.max()
@@ -300,6 +306,8 @@ class MonitorLayerInOuts(Hook):
         input_log = log['inputs'] = OrderedDict()
         for key, v in net.buffer[self.layer_name].inputs.items():
             v = net.handler.get_numpy_copy(v)
+            if v.size == 0:  # no data has been processed yet
+                continue
             key_log = input_log[key] = OrderedDict()
             key_log['min'] = v.min()
             key_log['avg'] = v.mean()
@@ -307,8 +315,10 @@ class MonitorLayerInOuts(Hook):
 
         output_log = log['outputs'] = OrderedDict()
         for key, v in net.buffer[self.layer_name].outputs.items():
-            key_log = output_log[key] = OrderedDict()
             v = net.handler.get_numpy_copy(v)
+            if v.size == 0:  # no data has been processed yet
+                continue
+            key_log = output_log[key] = OrderedDict()
             key_log['min'] = v.min()
             key_log['avg'] = v.mean()
             key_log['max'] = v.max()
-- 
2.43.0


From c2bdec5b2b3830e6e06bc67b41fec9f841ed431a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:18 +0000
Subject: [PATCH 29/54] fix: SaveBestNetwork.load_best_network failed before
 the first improvement

---
 brainstorm/hooks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brainstorm/hooks.py b/brainstorm/hooks.py
index 7fb4062..f089943 100644
--- a/brainstorm/hooks.py
+++ b/brainstorm/hooks.py
@@ -118,7 +118,7 @@ class SaveBestNetwork(Hook):
                                               interval, verbose)
         self.log_name = log_name
         self.filename = filename
-        self.best_parameters = None
+        self.parameters = None
         assert criterion == 'min' or criterion == 'max'
         self.best_so_far = np.inf if criterion == 'min' else -np.inf
         self.best_t = None
-- 
2.43.0


From 1160efba6919c8881dc5c0468ea4f975e072499b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:17 +0000
Subject: [PATCH 30/54] fix: ConstrainL2Norm uses handler operations only, so
 that it works with the debug handler

---
 brainstorm/handlers/debug_handler.py |  3 ++-
 brainstorm/value_modifiers.py        | 10 ++++++----
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/brainstorm/handlers/debug_handler.py b/brainstorm/handlers/debug_handler.py
index cbe7437..29215cf 100644
--- a/brainstorm/handlers/debug_handler.py
+++ b/brainstorm/handlers/debug_handler.py
@@ -59,11 +59,12 @@ def check_for_inf_or_nan(f):
 # ############################# Debug Handler ############################### #
 
 class DebugHandler(Handler):
-    __undescribed__ = {'EMPTY', 'array_type'}
+    __undescribed__ = {'dtype', 'EMPTY', 'array_type'}
 
     def __init__(self, handler):
         super(DebugHandler, self).__init__()
         self.handler = handler
+        self.dtype = handler.dtype
         self.EMPTY = DebugArray(arr=handler.EMPTY)
         self.array_type = DebugArray
 
diff --git a/brainstorm/value_modifiers.py b/brainstorm/value_modifiers.py
index 950f3b5..65ea40b 100644
--- a/brainstorm/value_modifiers.py
+++ b/brainstorm/value_modifiers.py
@@ -75,11 +75,13 @@ class ConstrainL2Norm(ValueModifier):
         sq_norm = handler.allocate((view.shape[0], 1))
         divisor = handler.allocate(sq_norm.shape)
 
-        # FIXME: use handler operations for this
-        handler.sum_t(mat * mat, axis=1, out=sq_norm)
-        handler.mult_st(1 / self.limit, sq_norm ** 0.5, out=divisor)
+        squares = handler.allocate(mat.shape)
+        handler.mult_tt(mat, mat, out=squares)
+        handler.sum_t(squares, axis=1, out=sq_norm)
+        handler.sqrt_t(sq_norm, out=sq_norm)
+        handler.mult_st(1 / self.limit, sq_norm, out=divisor)
         handler.clip_t(divisor, a_min=1.0,
-                       a_max=np.finfo(handler.dtype).max, out=divisor)
+                       a_max=float(np.finfo(handler.dtype).max), out=divisor)
         handler.divide_mv(mat, divisor, mat)
 
     def __repr__(self):
-- 
2.43.0


From c871943fcf6e10aaae8aaa1715242e6faf3a0a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:09 +0000
Subject: [PATCH 31/54] fix: SaveLogs can save logs with texts, like the one of
 StopOnSigQuit

---
 brainstorm/hooks.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/brainstorm/hooks.py b/brainstorm/hooks.py
index f089943..b4ee31c 100644
--- a/brainstorm/hooks.py
+++ b/brainstorm/hooks.py
@@ -183,7 +183,10 @@ class SaveLogs(Hook):
                 subgroup = group.create_group(name)
                 SaveLogs._save_recursively(subgroup, log)
             else:
-                group.create_dataset(name, data=np.array(log))
+                data = np.array(log)
+                if data.dtype.kind == 'U':  # not supported by HDF5
+                    data = np.char.encode(data, 'utf-8')
+                group.create_dataset(name, data=data)
 
 
 class SaveNetwork(Hook):
-- 
2.43.0


From 1ec3ae42b59077e27fd5db2f1521354224469821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:56 +0000
Subject: [PATCH 32/54] fix: extract and extract_and_save cope with batches of
 different length

Minibatches cuts every batch to its longest sequence; a later longer batch did
not fit into the array allocated from the first one, and one of length 1 was
copied to all time steps.
---
 brainstorm/tools.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/brainstorm/tools.py b/brainstorm/tools.py
index 2b00f63..45391ce 100644
--- a/brainstorm/tools.py
+++ b/brainstorm/tools.py
@@ -116,8 +116,14 @@ def extract(network, iter, buffer_names):
             if first_pass:
                 data_shape = (data.shape[0], nr_examples) + data.shape[2:]
                 return_data[buffer_name] = np.zeros(data_shape, data.dtype)
-            return_data[buffer_name][:, nr_items - data.shape[1]:nr_items] = \
-                data
+            elif data.shape[0] > return_data[buffer_name].shape[0]:
+                # batches can differ in length: pad the shorter ones with zeros
+                old = return_data[buffer_name]
+                return_data[buffer_name] = np.zeros(
+                    (data.shape[0],) + old.shape[1:], old.dtype)
+                return_data[buffer_name][:old.shape[0]] = old
+            return_data[buffer_name][
+                :data.shape[0], nr_items - data.shape[1]:nr_items] = data
     return return_data
 
 
@@ -169,11 +175,15 @@ def extract_and_save(network, iter, buffer_names, file_name):
                 if first_pass:
                     ds.append(f.create_dataset(
                         buffer_name, data.shape, data.dtype, chunks=data.shape,
-                        maxshape=(data.shape[0], None) + data.shape[2:]))
+                        maxshape=(None, None) + data.shape[2:]))
                     ds[-1][:] = data
                 else:
+                    # batches can differ in length: h5py pads with zeros
+                    ds[num].resize(max(data.shape[0], ds[num].shape[0]),
+                                   axis=0)
                     ds[num].resize(size=nr_items, axis=1)
-                    ds[num][:, nr_items - data.shape[1]:nr_items, ...] = data
+                    ds[num][:data.shape[0],
+                            nr_items - data.shape[1]:nr_items, ...] = data
 
 
 def get_in_out_layers(task_type, in_shape, out_shape, data_name='default',
-- 
2.43.0


From af5bfc98b194f4ae90ca7e8f09fcfedba2d7205d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:37 +0000
Subject: [PATCH 33/54] fix: Exponential schedule stays at its maximum instead
 of raising OverflowError

factor ** n raises for large n although the value is limited to the maximum.
---
 brainstorm/training/schedules.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/brainstorm/training/schedules.py b/brainstorm/training/schedules.py
index 31e70af..3d5999b 100644
--- a/brainstorm/training/schedules.py
+++ b/brainstorm/training/schedules.py
@@ -103,7 +103,11 @@ class Exponential(Describable):
     def __call__(self, epoch_nr, update_nr, timescale, interval,
                  net, stepper, logs):
         current = epoch_nr if timescale == 'epoch' else update_nr
-        new_value = self.initial_value * (self.factor ** (current // interval))
+        try:
+            scale = float(self.factor) ** (current // interval)
+        except OverflowError:  # above every maximum
+            scale = np.inf
+        new_value = self.initial_value * scale if self.initial_value else 0.0
         new_value = min(self.maximum, max(self.minimum, new_value))
         return new_value
 
-- 
2.43.0


From 1197ee7fb2d58a08d7396c817e1267d410b8927f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:35 +0000
Subject: [PATCH 34/54] fix: ProgressBar no longer ends or breaks a continued
 training

Called before a continued training it advanced the exhausted progress bar,
whose StopIteration the trainer takes as a request to stop; after a stop
within an epoch or with data of another size its assertion failed.
---
 brainstorm/hooks.py | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/brainstorm/hooks.py b/brainstorm/hooks.py
index b4ee31c..50bfbc6 100644
--- a/brainstorm/hooks.py
+++ b/brainstorm/hooks.py
@@ -844,29 +844,36 @@ else:
 
 class ProgressBar(Hook):
     """ Adds a progress bar to show the training progress. """
-    __undescribed__ = {'length': None, 'bar': None}
+    __undescribed__ = {'length': None, 'bar': None, 'first_update': None}
 
     def __init__(self):
         super(ProgressBar, self).__init__(None, 'update', 1)
         self.length = None
         self.bar = None
+        self.first_update = None
 
     def start(self, net, stepper, verbose, named_data_iters):
         assert 'training_data_iter' in named_data_iters
         self.length = named_data_iters['training_data_iter'].length
+        self.bar = None
+        self.first_update = None
 
     def __call__(self, epoch_nr, update_nr, net, stepper, logs):
-        assert epoch_nr == 0 or math.ceil(update_nr / self.length) == epoch_nr
-        if update_nr % self.length == 1:
+        if self.first_update is None:  # the call before training starts
+            self.first_update = update_nr
+            return
+        if not self.length:
+            return
+        # position in the current epoch of this call to Trainer.train()
+        progress = (update_nr - self.first_update - 1) % self.length + 1
+        if progress == 1:
             self.bar = progress_bar(self.length)
             print(next(self.bar), end='')
-            sys.stdout.flush()
-        elif update_nr % self.length == 0:
-            if self.bar:
-                print(self.bar.send(self.length))
-        else:
-            print(self.bar.send(update_nr % self.length), end='')
-            sys.stdout.flush()
+        if progress == self.length:
+            print(self.bar.send(self.length))
+        elif progress > 1:
+            print(self.bar.send(progress), end='')
+        sys.stdout.flush()
 
 
 # ----------------------------- Miscellaneous ------------------------------- #
-- 
2.43.0


From 90c218535cf9cee62b0876342f149a5b6b03b629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:58 +0000
Subject: [PATCH 35/54] fix: max pooling keeps exact positions in large single
 precision images

The absolute index of the maximum was stored in an array of the data's type;
float32 cannot represent indices above 2^24, so the backward pass put
gradients at wrong pixels or outside of the array. Store the position within
the window instead.
---
 brainstorm/handlers/_cpuop.pyx | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/brainstorm/handlers/_cpuop.pyx b/brainstorm/handlers/_cpuop.pyx
index b27474c..ffcef55 100644
--- a/brainstorm/handlers/_cpuop.pyx
+++ b/brainstorm/handlers/_cpuop.pyx
@@ -72,8 +72,9 @@ def maxpool_forward(DTYPE_t[:, :, :, ::1] inputs not None,
                                 new_value = inputs[i, in_y, in_x, c]
                                 if new_value > value:
                                     value = new_value
-                                    max_idx = (in_y * in_w + in_x) * \
-                                              n_channels + c
+                                    # position within the window: small
+                                    # enough to be stored exactly
+                                    max_idx = (in_y - y) * pool_w + (in_x - x)
                         outputs[i, y_out, x_out, c] = value
                         argmax[i, y_out, x_out, c] = <DTYPE_t>max_idx
                         if max_idx == -1:
@@ -99,7 +100,7 @@ def maxpool_backward(DTYPE_t[:, :, :, ::1] inputs not None,
     cdef int in_w = inputs.shape[2]
     cdef int out_h = outputs.shape[1]
     cdef int out_w = outputs.shape[2]
-    cdef int i, c, y, x, in_y, in_x, map_loc, max_idx
+    cdef int i, c, y, x, in_y, in_x, max_idx
     with nogil:
         for i in range(n_inputs):
             for c in range(n_channels):
@@ -107,9 +108,8 @@ def maxpool_backward(DTYPE_t[:, :, :, ::1] inputs not None,
                     for x in range(out_w):
                         max_idx = <int>(argmax[i, y, x, c])
                         if max_idx != -1:
-                            map_loc = max_idx // n_channels
-                            in_y = map_loc // in_w
-                            in_x = map_loc % in_w
+                            in_y = y * stride_y - padding + max_idx // pool_w
+                            in_x = x * stride_x - padding + max_idx % pool_w
                             if in_y >= 0 and in_x >= 0:
                                 in_deltas[i, in_y, in_x, c] += \
                                     out_deltas[i, y, x, c]
-- 
2.43.0


From a4e0ea35078bd943b3c62986ec032b201d6e281c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:53 +0000
Subject: [PATCH 36/54] fix: el_deriv no longer gives nan where outputs and
 deltas are large

The product of the deltas with (y + 1) may overflow for positive y, where it
is not part of the result, but infinity times zero is nan.
---
 brainstorm/handlers/numpy_handler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brainstorm/handlers/numpy_handler.py b/brainstorm/handlers/numpy_handler.py
index 3d97c4f..eeceeef 100644
--- a/brainstorm/handlers/numpy_handler.py
+++ b/brainstorm/handlers/numpy_handler.py
@@ -304,5 +304,5 @@ class NumpyHandler(Handler):
 
     def el_deriv(self, x, y, dy, dx):
         # TODO: Optimize this implementation
-        dx[:] = dy * (y >= 0.) + dy * (y + 1.) * (y < 0.)
+        dx[:] = np.where(y >= 0., dy, dy * (y + 1.))
 
-- 
2.43.0


From 5c96062754047e81018a5c0aabc919eec8c28dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:09 +0000
Subject: [PATCH 37/54] fix: merge_tt and split_add_tt write to outputs that
 are views of larger arrays

Reshaping such an output may copy it, and the result was lost.
---
 brainstorm/handlers/numpy_handler.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/brainstorm/handlers/numpy_handler.py b/brainstorm/handlers/numpy_handler.py
index eeceeef..9b4b992 100644
--- a/brainstorm/handlers/numpy_handler.py
+++ b/brainstorm/handlers/numpy_handler.py
@@ -217,10 +217,10 @@ class NumpyHandler(Handler):
                                                    padding, stride, argmax)
 
     def merge_tt(self, a, b, out):
-        out_flat = out.reshape(-1, out.shape[-1])
-        sa = a.shape[-1]
-        out_flat[:, :sa] = a.reshape(-1, a.shape[-1])
-        out_flat[:, sa:] = b.reshape(-1, b.shape[-1])
+        # slices of out, because reshaping it might copy
+        sa, sb = a.shape[-1], b.shape[-1]
+        out[..., :sa] = a.reshape(out.shape[:-1] + (sa,))
+        out[..., sa:] = b.reshape(out.shape[:-1] + (sb,))
 
     def modulo_tt(self, a, b, out):
         np.fmod(a, b, out)
@@ -247,11 +247,10 @@ class NumpyHandler(Handler):
         np.sign(a, out=out)
 
     def split_add_tt(self, x, out_a, out_b):
-        oa = out_a.reshape(-1, out_a.shape[-1])
-        ob = out_b.reshape(-1, out_b.shape[-1])
-        x_flat = x.reshape(-1, x.shape[-1])
-        oa[:] += x_flat[:, :oa.shape[-1]]
-        ob[:] += x_flat[:, oa.shape[-1]:]
+        # no reshaping of the outputs, because that might copy
+        sa = out_a.shape[-1]
+        out_a += x[..., :sa].reshape(out_a.shape)
+        out_b += x[..., sa:].reshape(out_b.shape)
 
     def sqrt_t(self, a, out):
         np.sqrt(a, out)
-- 
2.43.0


From 39cc01c49dca3012d1a7f49fbd817bfcc3c063a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:45 +0000
Subject: [PATCH 38/54] fix: debug handler checks the shapes of convolution and
 pooling arguments

Wrong shapes passed silently, and the compiled kernels then read and wrote
outside of the arrays.
---
 brainstorm/handlers/debug_handler.py | 42 ++++++++++++++++++++++------
 1 file changed, 34 insertions(+), 8 deletions(-)

diff --git a/brainstorm/handlers/debug_handler.py b/brainstorm/handlers/debug_handler.py
index 29215cf..ebdd11b 100644
--- a/brainstorm/handlers/debug_handler.py
+++ b/brainstorm/handlers/debug_handler.py
@@ -184,7 +184,7 @@ class DebugHandler(Handler):
             "invalid padding {}".format(padding)
         assert_shapes_equal(inputs, in_deltas)
         assert_shapes_equal(outputs, out_deltas)
-        # TODO: check shapes of inputs, outputs
+        assert_is_image_output(outputs, inputs, window, padding, stride)
         self.handler.avgpool2d_backward_batch(inputs.array, window,
                                               outputs.array, padding, stride,
                                               in_deltas.array,
@@ -200,7 +200,7 @@ class DebugHandler(Handler):
         assert len(stride) == 2, "len({}) != 2".format(stride)
         assert isinstance(padding, int) and 0 <= padding, \
             "invalid padding {}".format(padding)
-        # TODO: check shapes of inputs, outputs,
+        assert_is_image_output(outputs, inputs, window, padding, stride)
         self.handler.avgpool2d_forward_batch(inputs.array, window,
                                              outputs.array, padding, stride)
 
@@ -241,8 +241,10 @@ class DebugHandler(Handler):
             "invalid padding {}".format(padding)
         assert_is_shape(stride)
         assert len(stride) == 2, "len({}) != 2".format(stride)
-        # TODO: check shapes of inputs, weights, in_deltas, out_deltas,
-        # TODO: weight_deltas, bias_deltas
+        assert_shapes_equal(inputs, in_deltas)
+        assert_shapes_equal(weights, weight_deltas)
+        assert_shapes_equal(weights.shape[:1], bias_deltas)
+        assert_is_conv_output(out_deltas, inputs, weights, padding, stride)
         self.handler.conv2d_backward_batch(inputs.array, weights.array,
                                            padding, stride, in_deltas.array,
                                            out_deltas.array,
@@ -257,7 +259,8 @@ class DebugHandler(Handler):
             "invalid padding {}".format(padding)
         assert_is_shape(stride)
         assert len(stride) == 2, "len({}) != 2".format(stride)
-        # TODO check shapes of inputs, weights, bias, and outputs
+        assert_shapes_equal(weights.shape[:1], bias)
+        assert_is_conv_output(outputs, inputs, weights, padding, stride)
         self.handler.conv2d_forward_batch(inputs.array, weights.array,
                                           bias.array, outputs.array,
                                           padding, stride)
@@ -354,8 +357,8 @@ class DebugHandler(Handler):
         assert isinstance(padding, int) and 0 <= padding, \
             "invalid padding {}".format(padding)
         assert_shapes_equal(inputs, in_deltas)
-        assert_shapes_equal(outputs, out_deltas)
-        # TODO: check shapes of inputs, outputs, argmax
+        assert_shapes_equal(outputs, out_deltas, argmax)
+        assert_is_image_output(outputs, inputs, window, padding, stride)
         self.handler.maxpool2d_backward_batch(inputs.array, window,
                                               outputs.array,
                                               padding, stride, argmax.array,
@@ -372,7 +375,8 @@ class DebugHandler(Handler):
         assert len(stride) == 2, "len({}) != 2".format(stride)
         assert isinstance(padding, int) and 0 <= padding, \
             "invalid padding {}".format(padding)
-        # TODO: check shapes of inputs, outputs, argmax
+        assert_shapes_equal(outputs, argmax)
+        assert_is_image_output(outputs, inputs, window, padding, stride)
         self.handler.maxpool2d_forward_batch(inputs.array, window,
                                              outputs.array, padding, stride,
                                              argmax.array)
@@ -578,6 +582,28 @@ def assert_shapes_equal(ref_shape, *shapes):
                                                                    ref_shape)
 
 
+def assert_is_image_output(outputs, inputs, window, padding, stride,
+                           nr_channels=None):
+    """Check the shape of the result of moving a window over some images."""
+    assert len(inputs.shape) == 4, "len({}) != 4".format(inputs.shape)
+    nr_images, height, width, nr_input_channels = inputs.shape
+    if nr_channels is None:
+        nr_channels = nr_input_channels
+    assert_shapes_equal(
+        (nr_images,
+         (height + 2 * padding - window[0]) // stride[0] + 1,
+         (width + 2 * padding - window[1]) // stride[1] + 1,
+         nr_channels), outputs)
+
+
+def assert_is_conv_output(outputs, inputs, weights, padding, stride):
+    assert len(weights.shape) == 4, "len({}) != 4".format(weights.shape)
+    assert weights.shape[3] == inputs.shape[-1], \
+        "{} != {}".format(weights.shape[3], inputs.shape[-1])
+    assert_is_image_output(outputs, inputs, weights.shape[1:3], padding,
+                           stride, nr_channels=weights.shape[0])
+
+
 def assert_is_scalar(s):
     assert isinstance(s, (int, float)), \
         "{} is not a scalar but a {}".format(s, type(s))
-- 
2.43.0


From c01d8fe0e55b913b1819cc64380e1808fbfc96f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:59 +0000
Subject: [PATCH 39/54] fix: debug handler reports non-finite values that are
 overwritten or returned

Arguments were only checked after the operation, so values overwritten by an
operation working in-place went unnoticed, like those of new arrays.
---
 brainstorm/handlers/debug_handler.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/brainstorm/handlers/debug_handler.py b/brainstorm/handlers/debug_handler.py
index ebdd11b..4aea584 100644
--- a/brainstorm/handlers/debug_handler.py
+++ b/brainstorm/handlers/debug_handler.py
@@ -43,14 +43,31 @@ def _check_for_inf(handler, arg, name):
         raise ValueError('NaN or Inf encountered in "{}"'.format(name))
 
 
+# names of arguments that operations overwrite
+_WRITTEN = {'dest', 'mem', 'mask', 'out', 'out_a', 'out_b', 'dx', 'in_deltas',
+            'weight_deltas', 'bias_deltas'}
+_WRITTEN_FORWARD = {'y', 'outputs', 'argmax'}
+
+
 def check_for_inf_or_nan(f):
+    arg_names = f.__code__.co_varnames[:f.__code__.co_argcount]
+    written = set(_WRITTEN)
+    if not f.__name__.endswith(('_deriv', '_backward_batch')):
+        written |= _WRITTEN_FORWARD
+
     def checked_f(*args, **kwargs):
-        result = f(*args, **kwargs)
         handler = args[0]
+        # What is read has to be checked before the operation, because it may
+        # be overwritten in-place. What is written may contain anything before.
+        for n, arg in list(zip(arg_names, args)) + list(kwargs.items()):
+            if n not in written:
+                _check_for_inf(handler, arg, n)
+        result = f(*args, **kwargs)
         for i, arg in enumerate(args, start=1):
             _check_for_inf(handler, arg, '{}.'.format(i))
         for n, v in kwargs.items():
             _check_for_inf(handler, v, n)
+        _check_for_inf(handler, result, 'result')
         return result
 
     return checked_f
-- 
2.43.0


From 0c584d990a92c15a63459deea7fdf05920c4881a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:14 +0000
Subject: [PATCH 40/54] fix: debug handler accepts scalars of numpy types like
 the data type

---
 brainstorm/handlers/debug_handler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/brainstorm/handlers/debug_handler.py b/brainstorm/handlers/debug_handler.py
index 4aea584..35433d7 100644
--- a/brainstorm/handlers/debug_handler.py
+++ b/brainstorm/handlers/debug_handler.py
@@ -36,7 +36,7 @@ class DebugArray(object):
 
 
 def _check_for_inf(handler, arg, name):
-    if isinstance(arg, (int, float)) and not np.isfinite(arg):
+    if isinstance(arg, (int, float, np.number)) and not np.isfinite(arg):
         raise ValueError('NaN or Inf encountered in "{}" argument'
                          .format(name))
     if isinstance(arg, DebugArray) and not handler.is_fully_finite(arg):
@@ -622,5 +622,5 @@ def assert_is_conv_output(outputs, inputs, weights, padding, stride):
 
 
 def assert_is_scalar(s):
-    assert isinstance(s, (int, float)), \
+    assert isinstance(s, (int, float, np.number)), \
         "{} is not a scalar but a {}".format(s, type(s))
-- 
2.43.0


From db339b1b41158988e525048a9ba12889a5c174d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:41 +0000
Subject: [PATCH 41/54] fix: maxpool_backward skips every invalid position in
 argmax

---
 brainstorm/handlers/_cpuop.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brainstorm/handlers/_cpuop.pyx b/brainstorm/handlers/_cpuop.pyx
index ffcef55..6f05409 100644
--- a/brainstorm/handlers/_cpuop.pyx
+++ b/brainstorm/handlers/_cpuop.pyx
@@ -107,7 +107,7 @@ def maxpool_backward(DTYPE_t[:, :, :, ::1] inputs not None,
                 for y in range(out_h):
                     for x in range(out_w):
                         max_idx = <int>(argmax[i, y, x, c])
-                        if max_idx != -1:
+                        if max_idx >= 0:
                             in_y = y * stride_y - padding + max_idx // pool_w
                             in_x = x * stride_x - padding + max_idx % pool_w
                             if in_y >= 0 and in_x >= 0:
-- 
2.43.0


From ae0baaf10be25d637e529ca1f48cea2c38733c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:42 +0000
Subject: [PATCH 42/54] fix: refuse architectures with more than one Input
 layer

---
 brainstorm/structure/architecture.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/brainstorm/structure/architecture.py b/brainstorm/structure/architecture.py
index 722fa3a..799803c 100644
--- a/brainstorm/structure/architecture.py
+++ b/brainstorm/structure/architecture.py
@@ -109,8 +109,9 @@ def validate_architecture(architecture):
             'Could not find end layer(s) "{}"'.format(undefined_end_layers))
 
     # has exactly one Input and its called Input
-    if "Input" not in architecture or \
-            architecture['Input']['@type'] != 'Input':
+    input_layers = [name for name, layer in architecture.items()
+                    if layer['@type'] == 'Input']
+    if input_layers != ['Input']:
         raise NetworkValidationError(
             'Needs exactly one Input that is called "Input"')
 
-- 
2.43.0


From ac0da4aba79d4ee77f7e59473892945e1ec62740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:42 +0000
Subject: [PATCH 43/54] fix: refuse layer names that end with a newline

---
 brainstorm/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brainstorm/utils.py b/brainstorm/utils.py
index 375f72c..23c0538 100644
--- a/brainstorm/utils.py
+++ b/brainstorm/utils.py
@@ -14,7 +14,7 @@ from brainstorm.__about__ import __version__
 product = lambda arr: reduce(operator.mul, arr, 1)
 
 
-PYTHON_IDENTIFIER = re.compile("^[_a-zA-Z][_a-zA-Z0-9]*$")
+PYTHON_IDENTIFIER = re.compile(r"^[_a-zA-Z][_a-zA-Z0-9]*\Z")
 
 NAME_BLACKLIST = {'default', 'fallback'}
 
-- 
2.43.0


From 0f847763d3db15c5db8b8681c0e055cd8cd5ec13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:42 +0000
Subject: [PATCH 44/54] fix: refuse convolutions whose kernel does not fit into
 the padded input

---
 brainstorm/layers/convolution_layer_2d.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/brainstorm/layers/convolution_layer_2d.py b/brainstorm/layers/convolution_layer_2d.py
index 533ef90..7578cdf 100644
--- a/brainstorm/layers/convolution_layer_2d.py
+++ b/brainstorm/layers/convolution_layer_2d.py
@@ -62,6 +62,9 @@ class Convolution2DLayerImpl(Layer):
                          stride[0]) + 1
         output_width = ((in_shape[1] + 2 * padding - kernel_y) //
                         stride[1]) + 1
+        assert output_height > 0 and output_width > 0, \
+            "Evaluated output height and width must be positive but were " \
+            "({}, {})".format(output_height, output_width)
         out_shape = (output_height, output_width, num_filters)
 
         outputs = OrderedDict()
-- 
2.43.0


From 2b4127df7f0a76aec5b985b7a381f2e936e3cf98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:27 +0000
Subject: [PATCH 45/54] fix: get_in_out_layers connects the data of the name it
 was given

---
 brainstorm/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brainstorm/tools.py b/brainstorm/tools.py
index 45391ce..739b692 100644
--- a/brainstorm/tools.py
+++ b/brainstorm/tools.py
@@ -300,7 +300,7 @@ def get_in_out_layers(task_type, in_shape, out_shape, data_name='default',
         out_layer - 'loss' >> mask_layer >> layers.Loss()
         inp_layer - mask_name >> 'mask' - mask_layer
 
-    return inp_layer, proj_layer
+    return inp_layer - data_name, proj_layer
 
 
 def get_network_info(network):
-- 
2.43.0


From 0620c28acc26eca74b4d36bd32a028abae2f7d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:28 +0000
Subject: [PATCH 46/54] fix: layer letters of a specification need no
 whitespace in between

---
 brainstorm/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brainstorm/tools.py b/brainstorm/tools.py
index 739b692..6496545 100644
--- a/brainstorm/tools.py
+++ b/brainstorm/tools.py
@@ -577,7 +577,7 @@ def create_net_from_spec(task_type, in_shape, out_shape, spec,
     output_name = 'Output.outputs.predictions'
 
     import re
-    LAYER_TYPE = r'\s*(?P<layer_type>[A-Z]+)\s*'
+    LAYER_TYPE = r'\s*(?P<layer_type>[A-Z])\s*'
     FLOAT = r'\s*[-+]?[0-9]*\.?[0-9]+\s*'
     ARG = r'\s*([a-z]|{float})\s*[:/|]?\s*'.format(float=FLOAT)
     ARG_LIST = r'(?P<args>({arg})*)'.format(arg=ARG)
-- 
2.43.0


From e2230991286f9b8ea69a35c7bc8bb6022fdcacbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:28 +0000
Subject: [PATCH 47/54] fix: create_net_from_spec rejects specifications it
 does not understand

---
 brainstorm/tools.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/brainstorm/tools.py b/brainstorm/tools.py
index 6496545..0989511 100644
--- a/brainstorm/tools.py
+++ b/brainstorm/tools.py
@@ -369,8 +369,8 @@ def F(args):
         args = args[1:]
     else:
         activation = 'rel'
+    assert len(args) == 1 and isinstance(args[0], int), "{}".format(args)
     size = args[0]
-    assert isinstance(size, int), "{}".format(size)
     return layers.FullyConnected(size, activation=activation)
 
 
@@ -381,7 +381,8 @@ def B(args):
 
 def D(args):
     if args:
-        assert isinstance(args[0], float), "{}".format(args[0])
+        assert len(args) == 1 and isinstance(args[0], float), \
+            "{}".format(args)
         return layers.Dropout(drop_prob=args[0])
     else:
         return layers.Dropout()
@@ -393,8 +394,8 @@ def R(args):
         args = args[1:]
     else:
         activation = 'tanh'
+    assert len(args) == 1 and isinstance(args[0], int), "{}".format(args)
     size = args[0]
-    assert isinstance(size, int), "{}".format(size)
     return layers.Recurrent(size, activation=activation)
 
 
@@ -404,8 +405,8 @@ def L(args):
         args = args[1:]
     else:
         activation = 'tanh'
+    assert len(args) == 1 and isinstance(args[0], int), "{}".format(args)
     size = args[0]
-    assert isinstance(size, int), "{}".format(size)
     return layers.Lstm(size, activation=activation)
 
 
@@ -586,11 +587,18 @@ def create_net_from_spec(task_type, in_shape, out_shape, spec,
     # spec = re.sub(r'\s', '', spec)  # remove whitespace
 
     current_layer = inp
+    position = 0
     for m in re.finditer(ARCH_SPEC, spec):
+        if m.start() != position:
+            break
+        position = m.end()
         layer_type = m.group('layer_type')
         args = re.split(ARG, m.group('args'))[1::2]
         args = [trynumber(a) for a in args if a != '']
         current_layer >>= create_layer(layer_type, args)
+    if spec[position:].strip():
+        raise ValueError("Could not understand '{}' in the specification '{}'"
+                         .format(spec[position:], spec))
 
     net = Network.from_layer(current_layer >> outp)
     net.output_name = output_name
-- 
2.43.0


From fa22e415598151c965ef3433aba56a686ca9599f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:32 +0000
Subject: [PATCH 48/54] fix: every network draws its dropout masks from a
 random state of its own

---
 brainstorm/structure/network.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/brainstorm/structure/network.py b/brainstorm/structure/network.py
index 10c35fd..c634589 100644
--- a/brainstorm/structure/network.py
+++ b/brainstorm/structure/network.py
@@ -9,7 +9,7 @@ import h5py
 import numpy as np
 
 from brainstorm.describable import create_from_description, get_description
-from brainstorm.handlers import default_handler
+from brainstorm.handlers import NumpyHandler, default_handler
 from brainstorm.initializers import ArrayInitializer, evaluate_initializer
 from brainstorm.layers.loss_layer import LossLayerImpl
 from brainstorm.randomness import Seedable
@@ -104,7 +104,7 @@ class Network(Seedable):
         return net
 
     def __init__(self, layers, buffer_manager, architecture, seed=None,
-                 handler=default_handler):
+                 handler=None):
         super(Network, self).__init__(seed)
         self.layers = layers
         self.loss_layers = _get_loss_layers(layers)
@@ -112,6 +112,10 @@ class Network(Seedable):
         self.buffer = self._buffer_manager.views
         self.architecture = architecture
         self.handler = None
+        if handler is None:
+            # every network draws from a random state of its own
+            handler = NumpyHandler(default_handler.dtype,
+                                   seed=self.rnd.generate_seed())
         self.set_handler(handler)
         self.initializers = {}
         self.weight_modifiers = {}
-- 
2.43.0


From 1fccf613f3c75a501299353d1bb5bb7e4afbc681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:52 +0000
Subject: [PATCH 49/54] fix: ClockworkLstm relied on newly allocated memory
 being zero

---
 brainstorm/layers/clockwork_lstm_layer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brainstorm/layers/clockwork_lstm_layer.py b/brainstorm/layers/clockwork_lstm_layer.py
index d40da00..ff510ac 100644
--- a/brainstorm/layers/clockwork_lstm_layer.py
+++ b/brainstorm/layers/clockwork_lstm_layer.py
@@ -190,7 +190,7 @@ class ClockworkLstmLayerImpl(Layer):
         y = buffers.outputs.default
         deltas = buffers.output_deltas.default
 
-        dy = _h.allocate(y.shape)
+        dy = _h.zeros(y.shape)
 
         time_size, batch_size = x.shape[0], x.shape[1]
 
-- 
2.43.0


From 9ebf1c2890f14cb77e6a992b2540d2e1bc16ed69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:44 +0000
Subject: [PATCH 50/54] fix: get_context failed for sequences shorter than the
 context of a layer

---
 brainstorm/structure/buffers.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/brainstorm/structure/buffers.py b/brainstorm/structure/buffers.py
index e3d219b..037e264 100644
--- a/brainstorm/structure/buffers.py
+++ b/brainstorm/structure/buffers.py
@@ -123,8 +123,15 @@ class BufferManager(object):
                 context_start_idx = self.time_size - hub.context_size
                 context_stop_idx = self.time_size
 
-                self.handler.copy_to(buf[context_start_idx:context_stop_idx],
-                                     c)
+                if context_start_idx < 0:
+                    # sequence shorter than the context: keep the most recent
+                    # part of the context it was started from
+                    old_size = -context_start_idx
+                    self.handler.copy_to(buf[-old_size:], c[:old_size])
+                    self.handler.copy_to(buf[:context_stop_idx], c[old_size:])
+                else:
+                    self.handler.copy_to(
+                        buf[context_start_idx:context_stop_idx], c)
                 context.append(c)
 
         return context
-- 
2.43.0


From 572a05dcaf3b487a8d3ce115082fb9938819327d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:12 +0000
Subject: [PATCH 51/54] fix: compare values, not pointers, in the GPU handler's
 modulo

The kernel tested whether the arrays' addresses are positive instead of
whether the elements are, so negative numbers were rounded wrongly; recent
compilers refuse the comparison altogether.
---
 brainstorm/handlers/pycuda_handler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/brainstorm/handlers/pycuda_handler.py b/brainstorm/handlers/pycuda_handler.py
index 2b8abe3..99aada9 100644
--- a/brainstorm/handlers/pycuda_handler.py
+++ b/brainstorm/handlers/pycuda_handler.py
@@ -486,8 +486,8 @@ index_m_by_v_kernel = ElementwiseKernel(
 
 modulo_tt_kernel = ElementwiseKernel(
     "float* a, float* b, float* out",
-    "out[i] =  (float)((int)((a >= 0) ? a[i]+0.5: a[i]-0.5) % (int)((b>=0) ? "
-    "b[i]+0.5: b[i]-0.5))",
+    "out[i] =  (float)((int)((a[i] >= 0) ? a[i]+0.5: a[i]-0.5) % "
+    "(int)((b[i] >= 0) ? b[i]+0.5: b[i]-0.5))",
     "modulo_tt_kernel"
 )
 
-- 
2.43.0


From 68c5509757c63bd69e9ca9fbe88ad49a7eaa0380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:12 +0000
Subject: [PATCH 52/54] fix: merging on the GPU left out rows beyond the
 largest grid

The grid is limited to 384 blocks of 256 threads, but the kernels of merge_tt
and split_add_tt did one row per thread: all rows after the first 98304 were
ignored.
---
 brainstorm/handlers/pycuda_handler.py | 38 ++++++++++++++-------------
 1 file changed, 20 insertions(+), 18 deletions(-)

diff --git a/brainstorm/handlers/pycuda_handler.py b/brainstorm/handlers/pycuda_handler.py
index 99aada9..58f2418 100644
--- a/brainstorm/handlers/pycuda_handler.py
+++ b/brainstorm/handlers/pycuda_handler.py
@@ -583,16 +583,17 @@ __merge_kernel_code = """
     __global__ void merge_kernel(float* a, float* b, float* out,
                                  int n_rows, const int a_cols,
                                  const int b_cols) {
-        const int row = blockIdx.x * blockDim.x + threadIdx.x;
         const int n_cols = a_cols + b_cols;
-        if (row >= n_rows)
-            return;
-        const int offset = row*n_cols;
-        for (int i = 0; i < n_cols; ++i){
-            if (i < a_cols)
-                out[offset + i] = a[row * a_cols + i];
-            else
-                out[offset + i] = b[row * b_cols + i-a_cols];
+        // the grid is limited: every thread may have to do several rows
+        for (int row = blockIdx.x * blockDim.x + threadIdx.x; row < n_rows;
+             row += blockDim.x * gridDim.x) {
+            const int offset = row*n_cols;
+            for (int i = 0; i < n_cols; ++i){
+                if (i < a_cols)
+                    out[offset + i] = a[row * a_cols + i];
+                else
+                    out[offset + i] = b[row * b_cols + i-a_cols];
+            }
         }
     }
     """
@@ -606,16 +607,17 @@ __split_kernel_code = """
     __global__ void split_kernel(float* x, float* out_a, float* out_b,
                                  int n_rows, const int a_cols,
                                  const int b_cols) {
-        const int row = blockIdx.x * blockDim.x + threadIdx.x;
         const int n_cols = a_cols + b_cols;
-        if (row >= n_rows)
-            return;
-        const int offset = row*n_cols;
-        for (int i = 0; i < n_cols; ++i){
-            if (i < a_cols)
-                out_a[row * a_cols + i] += x[offset + i];
-            else
-                out_b[row * b_cols + i-a_cols] += x[offset + i];
+        // the grid is limited: every thread may have to do several rows
+        for (int row = blockIdx.x * blockDim.x + threadIdx.x; row < n_rows;
+             row += blockDim.x * gridDim.x) {
+            const int offset = row*n_cols;
+            for (int i = 0; i < n_cols; ++i){
+                if (i < a_cols)
+                    out_a[row * a_cols + i] += x[offset + i];
+                else
+                    out_b[row * b_cols + i-a_cols] += x[offset + i];
+            }
         }
     }
     """
-- 
2.43.0


From bea4184f21b23e0504322c9c42939a0631b2f25d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:12 +0000
Subject: [PATCH 53/54] fix: max pooling on the GPU keeps positions within the
 window, too

The absolute index of the maximum is not representable in a float above 2^24,
and the CPU handler, whose arrays have to be interchangeable, stores the
position within the window.
---
 brainstorm/handlers/pycuda_handler.py | 34 ++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/brainstorm/handlers/pycuda_handler.py b/brainstorm/handlers/pycuda_handler.py
index 58f2418..4de0161 100644
--- a/brainstorm/handlers/pycuda_handler.py
+++ b/brainstorm/handlers/pycuda_handler.py
@@ -287,12 +287,15 @@ class PyCudaHandler(Handler):
 
     def maxpool2d_backward_batch(self, inputs, window, outputs, padding,
                                  stride, argmax, in_deltas, out_deltas):
-        in_image_size = inputs.size // inputs.shape[0]
-        out_image_size = outputs.size // outputs.shape[0]
+        n, h, w, c = inputs.shape
+        o_h, o_w = outputs.shape[1], outputs.shape[2]
         _maxpool_bwd_fp32_impl(np.int32(outputs.size), out_deltas,
                                argmax,
-                               np.int32(out_image_size),
-                               np.int32(in_image_size),
+                               np.int32(h), np.int32(w), np.int32(c),
+                               np.int32(o_h), np.int32(o_w),
+                               np.int32(window[1]),
+                               np.int32(stride[0]), np.int32(stride[1]),
+                               np.int32(padding), np.int32(padding),
                                in_deltas,
                                block=(NUM_CUDA_THREADS, 1, 1),
                                grid=(get_blocks(outputs.size), 1))
@@ -779,6 +782,8 @@ __maxpool_fwd_fp32_kernel = """
         n /= pooled_width;
         int hstart = (n % pooled_height) * stride_h - pad_t;
         n /= pooled_height;
+        const int w0 = wstart;
+        const int h0 = hstart;
         int hend = min(hstart + kernel_h, height);
         int wend = min(wstart + kernel_w, width);
         hstart = max(hstart, 0);
@@ -790,7 +795,8 @@ __maxpool_fwd_fp32_kernel = """
           for (int w = wstart; w < wend; ++w) {
             int idx = (h * width + w) * channels + c;
             if (bottom_data[idx] > maxval) {
-              maxidx = idx;
+              // position within the window: small enough to be stored exactly
+              maxidx = (h - h0) * kernel_w + (w - w0);
               maxval = bottom_data[idx];
             }
           }
@@ -809,14 +815,24 @@ _maxpool_fwd_fp32_impl = _mod_maxpool_fwd_fp32.get_function("max_pool_fwd")
 __maxpool_bwd_fp32_kernel = """
     __global__ void max_pool_bwd(
         const int nthreads, const float* top_diff, const float* mask,
-        const int top_offset, const int bottom_offset, float* bottom_diff) {
+        const int height, const int width, const int channels,
+        const int pooled_height, const int pooled_width, const int kernel_w,
+        const int stride_h, const int stride_w, const int pad_t,
+        const int pad_l, float* bottom_diff) {
       for (int index = blockIdx.x * blockDim.x + threadIdx.x;
            index < (nthreads);
            index += blockDim.x * gridDim.x) {
         if (!(mask[index] < 0.0)) {
-          int image_id = (index / top_offset);
-          atomicAdd(bottom_diff + image_id * bottom_offset +
-                    (int)(mask[index]),top_diff[index]);
+          int maxidx = (int)(mask[index]);
+          int n = index;
+          int c = n % channels;
+          n /= channels;
+          int w = (n % pooled_width) * stride_w - pad_l + maxidx % kernel_w;
+          n /= pooled_width;
+          int h = (n % pooled_height) * stride_h - pad_t + maxidx / kernel_w;
+          n /= pooled_height;
+          atomicAdd(bottom_diff + ((n * height + h) * width + w) * channels +
+                    c,top_diff[index]);
         }
       }
     }
-- 
2.43.0


From f6bf16a742d1703f8d52acb573934077693bf216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:12 +0000
Subject: [PATCH 54/54] fix: draw_network failed for connections given as a
 list

---
 brainstorm/tools.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/brainstorm/tools.py b/brainstorm/tools.py
index 0989511..503a7cb 100644
--- a/brainstorm/tools.py
+++ b/brainstorm/tools.py
@@ -9,6 +9,7 @@ import six
 from brainstorm import layers, Network, initializers
 from brainstorm.scorers import (aggregate_losses_and_scores,
                                 gather_losses_and_scores)
+from brainstorm.structure.architecture import collect_all_connections
 from brainstorm.training.trainer import run_network
 from brainstorm.utils import get_by_path, get_brainstorm_info
 
@@ -31,10 +32,8 @@ def draw_network(network, file_name='network.png'):
     try:
         import pygraphviz as pgv
         graph = pgv.AGraph(directed=True)
-        for k, v in network.architecture.items():
-                for out_view, dest_list in v['@outgoing_connections'].items():
-                    for dest in dest_list:
-                        graph.add_edge(k, dest.split('.')[0])
+        for con in collect_all_connections(network.architecture):
+            graph.add_edge(con.start_layer, con.end_layer)
 
         graph.draw(file_name, prog='dot')
         print('Network drawing saved as {}'.format(file_name))
-- 
2.43.0

