B = 'brainstorm/'
NET = '''
import numpy as np
from brainstorm.structure.network import Network
from brainstorm.layers.fully_connected_layer import FullyConnected
from brainstorm.layers.input_layer import Input
from brainstorm.layers.loss_layer import Loss
from brainstorm.layers.mask_layer import Mask
from brainstorm.layers.squared_difference_layer import SquaredDifference
from brainstorm.layers.recurrent_layer import Recurrent
from brainstorm.layers.lstm_layer import Lstm
from brainstorm.handlers import NumpyHandler
from brainstorm.training.trainer import Trainer
from brainstorm.training.steppers import SgdStepper, MomentumStepper
from brainstorm.hooks import *
from brainstorm.data_iterators import Minibatches, Undivided
def ffnet(dtype=np.float64, init=0.5, n=3):
    net = Network.from_layer(Input(out_shapes={'default': ('T', 'B', 2)}) >> FullyConnected(n, name='f') >> Loss(name='l'))
    net.set_handler(NumpyHandler(dtype))
    net.initialize(init)
    return net
'''
BUGS = [
 dict(id='c01_context_deltas', property='C01',
  edits=[(B + 'structure/buffers.py', "                self.handler.fill(b, 0.)", "                used = b[:self.time_size] if h.btype == 2 else b\n                self.handler.fill(used, 0.)")],
  needs='truncated backpropagation through an LSTM: the state is captured after a backward pass, and the continued piece runs a backward pass too',
  breaks='the deltas of the previous piece, which travel with the state, enter the gradient of the next piece',
  demo=NET + """
net = Network.from_layer(Input(out_shapes={'default': ('T', 'B', 2)}) >> Lstm(3, name='r') >> Loss(name='l'))
net.set_handler(NumpyHandler(np.float64))
rnd = np.random.RandomState(2)
net.handler.set_from_numpy(net.buffer.parameters, rnd.randn(net.buffer.parameters.size))
def run(x, context=None, backward=True):
    net.provide_external_data({'default': x})
    net.forward_pass(training_pass=True, context=context)
    if backward:
        net.backward_pass()
    return net.get('gradients')
a, b = rnd.randn(4, 2, 2), rnd.randn(3, 2, 2)
run(a, backward=False)
c1 = net.get_context()
run(a)
c2 = net.get_context()
g1, g2 = run(b, c1), run(b, c2)
assert np.allclose(g1, g2), np.abs(g1 - g2).max()
"""),
 dict(id='c06_single_precision', property='C06',
  edits=[(B + 'structure/network.py', "                'parameters', compression='gzip',\n", "                'parameters', compression='gzip', dtype=np.float32,\n")],
  needs='a network in double precision whose parameters are not representable in single precision',
  breaks='parameters lose precision in the file',
  demo=NET + '''
import tempfile, os
net = ffnet(init=0.1)
d = tempfile.mkdtemp()
try:
    net.save_as_hdf5(os.path.join(d, 'n.h5'))
    l = Network.from_hdf5(os.path.join(d, 'n.h5'))
finally:
    import shutil
    shutil.rmtree(d)
assert np.array_equal(net.get('parameters'), l.get('parameters'))
'''),
 dict(id='c13_modifiers_after_hooks', property='C13',
  edits=[(B + 'training/trainer.py', "                net.apply_weight_modifiers()\n                if self._emit_hooks(net, 'update'):\n                    should_stop = True\n                    break\n",
          "                should_stop = self._emit_hooks(net, 'update')\n                net.apply_weight_modifiers()\n                if should_stop:\n                    break\n")],
  needs='an update hook that looks at the parameters of a network with weight modifiers',
  breaks='hooks run before the weight modifiers of the update and see unconstrained parameters',
  demo=NET + '''
from brainstorm.value_modifiers import ClipValues
class Look(Hook):
    def __call__(self, epoch_nr, update_nr, net, stepper, logs):
        return float(net.get('parameters').max())
net = ffnet()
net.set_weight_modifiers(ClipValues(-0.4, 0.4))
t = Trainer(SgdStepper(0.01), verbose=False)
t.add_hook(Look(name='look', timescale='update'))
t.add_hook(StopAfterEpoch(2))
t.train(net, Minibatches(2, default=np.ones((1, 4, 2))))
assert max(t.logs['look'][1:]) <= 0.4, t.logs
'''),
 dict(id='c14_threshold_last_only', property='C14',
  edits=[(B + 'hooks.py', "        if self.criterion == 'max' and max(e) >= self.threshold:", "        if self.criterion == 'max' and e[-1] >= self.threshold:"),
         (B + 'hooks.py', "        elif self.criterion == 'min' and min(e) <= self.threshold:", "        elif self.criterion == 'min' and e[-1] <= self.threshold:")],
  needs='a stopping hook that is called less often than the log is written (the threshold is passed in between)',
  breaks='a threshold that was reached between two calls of the hook goes unnoticed',
  demo='''
from brainstorm.hooks import StopAfterThresholdReached
h = StopAfterThresholdReached('m.loss', 0.5)
try:
    h(3, 9, None, None, {'m': {'loss': [1.0, 0.4, 0.6]}})
except StopIteration:
    pass
else:
    raise AssertionError('did not stop')
'''),
 dict(id='c14_early_stop_ties', property='C14',
  edits=[(B + 'hooks.py', "        best_idx = np.argmin(e) if self.criterion == 'min' else np.argmax(e)", "        best = min(e) if self.criterion == 'min' else max(e)\n        best_idx = max(i for i, v in enumerate(e) if not v != best)")],
  needs='a log entry that stays exactly at its best value (a plateau)',
  breaks='reaching the best value again counts as an improvement and postpones the stop',
  demo='''
from brainstorm.hooks import EarlyStopper
h = EarlyStopper('m.loss', patience=2)
try:
    h(4, 9, None, None, {'m': {'loss': [1.0, 0.5, 0.5, 0.5]}})
except StopIteration:
    pass
else:
    raise AssertionError('did not stop')
'''),
 dict(id='c19_add_tt_shapes', property='C19',
  edits=[(B + 'handlers/debug_handler.py', "        assert_debug_arrays(a, b, out)\n        assert_shapes_equal(a, b, out)\n        self.handler.add_tt(a.array, b.array, out.array)", "        assert_debug_arrays(a, b, out)\n        assert_shapes_equal(a, out)\n        self.handler.add_tt(a.array, b.array, out.array)")],
  needs='adding a tensor whose shape broadcasts to the other one',
  breaks='a wrongly shaped second operand is broadcast silently',
  demo='''
import numpy as np
from brainstorm.handlers import DebugHandler, NumpyHandler
h = DebugHandler(NumpyHandler(np.float64))
a, b, o = h.ones((3, 2)), h.ones((1, 2)), h.zeros((3, 2))
try:
    h.add_tt(a, b, o)
except Exception:
    pass
else:
    raise AssertionError('accepted')
'''),
 dict(id='c20_name_taken', property='C20',
  edits=[(B + 'structure/construction.py', "            while name in self.scope and len(self.scope[name]) == 1:", "            if name in self.scope and len(self.scope[name]) == 1:")],
  needs='two layers of one base name next to layers explicitly named base_1 and base_2',
  breaks='two layers get the same name, and one of them vanishes from the network',
  demo="""
from brainstorm.structure.architecture import generate_architecture
from brainstorm.layers.fully_connected_layer import FullyConnected
from brainstorm.layers.input_layer import Input
inp = Input(out_shapes={'default': ('T', 'B', 2)})
inp >> FullyConnected(1, name='a') >> FullyConnected(2, name='a') >> FullyConnected(3, name='a_1') >> FullyConnected(4, name='a_2')
arch = generate_architecture(inp)
assert len(arch) == 5, sorted(arch)
"""),
 dict(id='c21_dropout_zero', property='C21',
  edits=[(B + 'tools.py', "def D(args):\n    if args:\n", "def D(args):\n    if args and args[0]:\n")],
  needs='a dropout probability of zero in a specification (D0.0)',
  breaks='the layer gets the default probability',
  demo="""
from brainstorm.tools import create_net_from_spec
net = create_net_from_spec('classification', 4, 3, 'D0.0 F4')
l = [l for l in net.layers.values() if l.__class__.__name__.startswith('Dropout')][0]
assert l.drop_prob == 0.0, l.drop_prob
"""),
 dict(id='c23_first_update', property='C23',
  edits=[(B + 'hooks.py', "        setattr(stepper, self.attr_name,\n                self.schedule(epoch_nr, update_nr, self.timescale,\n                              self.interval, net, stepper, logs))",
    "        value = self.schedule(epoch_nr, update_nr, self.timescale,\n                              self.interval, net, stepper, logs)\n        if value:\n            setattr(stepper, self.attr_name, value)")],
  needs='a schedule that reaches zero', breaks='the attribute keeps its previous value where the schedule says zero',
  demo="""
from brainstorm.hooks import ModifyStepperAttribute
from brainstorm.training.schedules import Linear
from brainstorm.training.steppers import MomentumStepper
s = MomentumStepper(0.1, 0.9)
h = ModifyStepperAttribute(Linear(0.5, 0.0, 5), 'momentum')
for e in range(8):
    h(e, e * 3, None, s, {})
assert s.momentum == 0.0, s.momentum
"""),
 dict(id='c01_truncated_bptt', property='C01',
  edits=[(B + 'layers/recurrent_layer.py', "        for t in range(T - 1, -1, -1):", "        for t in range(T - 1, max(T - 100, 0) - 1, -1):")],
  needs='sequences of more than a hundred time steps',
  breaks='backpropagation through time is cut off after a hundred steps',
  demo=NET + """
net = Network.from_layer(Input(out_shapes={'default': ('T', 'B', 1)}) >> Recurrent(1, activation='linear', name='r') >> Loss(name='l'))
net.set_handler(NumpyHandler(np.float64))
net.initialize(1.0)
x = np.ones((130, 1, 1))
net.provide_external_data({'default': x})
net.forward_pass(training_pass=True)
net.backward_pass()
assert np.all(net.get('Input.output_deltas.default').ravel() == np.arange(130, 0, -1)), net.get('Input.output_deltas.default').ravel()
"""),
 dict(id='c01_im2col_stale', property='C01',
  edits=[(B + 'handlers/_cpuop.pyx', "                                       (ih * width + iw) * channels + channels]\n                        else:\n                            flat_col[col_idx: col_idx + channels] = 0\n", "                                       (ih * width + iw) * channels + channels]\n")],
  needs='a convolution with padding trained on more than one image (the patch buffer is reused between images)',
  breaks='positions in the padding keep values of the previous image and enter the gradient of the weights',
  demo=NET + """
from brainstorm.layers.convolution_layer_2d import Convolution2D
net = Network.from_layer(Input(out_shapes={'default': ('T', 'B', 3, 3, 1)}) >> Convolution2D(2, (3, 3), padding=1, activation='linear', name='c') >> Loss(name='l'))
net.set_handler(NumpyHandler(np.float64))
net.initialize(0.3)
x = np.random.RandomState(0).randn(1, 3, 3, 3, 1)
def grad(x):
    net.provide_external_data({'default': x})
    net.forward_pass(training_pass=True); net.backward_pass()
    return net.get('gradients')
g = grad(x)
s = sum(grad(x[:, i:i + 1]) for i in range(3)) / 3
assert np.allclose(g, s), np.abs(g - s).max()
"""),
 dict(id='c07_hook_order', property='C07',
  edits=[(B + 'training/trainer.py', "        ordered_mon = sorted(self.hooks.items(), key=get_priority)", "        ordered_mon = sorted(self.hooks.items(), key=get_priority,\n                             reverse=False) if not self.verbose else \\\n            list(self.hooks.items())")],
  needs='the description of a trainer that went through JSON text with sorted keys',
  breaks='the hooks of the rebuilt trainer run in alphabetical instead of their order',
  demo="""
import json
from brainstorm.describable import get_description, create_from_description
from brainstorm.training.trainer import Trainer
from brainstorm.training.steppers import SgdStepper
from brainstorm.hooks import StopAfterEpoch, StopOnNan
t = Trainer(SgdStepper())
t.add_hook(StopAfterEpoch(3, name='z'))
t.add_hook(StopOnNan(name='a'))
t2 = create_from_description(json.loads(json.dumps(get_description(t), sort_keys=True)))
assert list(t2.hooks) == ['z', 'a'], list(t2.hooks)
"""),
 dict(id='c07_none_dropped', property='C07',
  edits=[(B + 'describable.py', "            for k in this:\n                result[k] = get_description(this[k])", "            for k in this:\n                if this[k] is not None:\n                    result[k] = get_description(this[k])")],
  needs='a dictionary with an entry that is None', breaks='the entry is missing in the object created from the description',
  demo="""
from brainstorm.describable import get_description, create_from_description
d = {'a': None, 'b': 1}
assert create_from_description(get_description(d)) == d
"""),
 dict(id='c22_loss_effective_batch', property='C22',
  edits=[(B + 'layers/loss_layer.py', "            batch_size = buffers.inputs.default.shape[self.batch_index]\n        self.handler.add_st(", "            batch_size = buffers.inputs.default.shape[self.batch_index]\n            if buffers.outputs.loss[0] == 0:\n                batch_size = 1.0  # nothing to average\n        self.handler.add_st(")],
  needs='a batch whose mean loss is exactly zero', breaks='placeholder', demo='''
raise SystemExit
'''),
 dict(id='c24_seed_zero', property='C24',
  edits=[(B + 'tools.py', "    rnd = np.random.RandomState(kwargs.get('seed', None))", "    rnd = np.random.RandomState(kwargs.get('seed') or None)")],
  needs='shuffling with seed=0', breaks='the shuffle is not reproducible from its seed',
  demo='''
import numpy as np
from brainstorm.tools import shuffle_data
x = np.arange(1000).reshape(1, 1000, 1)
assert np.array_equal(shuffle_data(x, seed=0)[0], shuffle_data(x, seed=0)[0])
'''),
 dict(id='c24_split_floor', property='C24',
  edits=[(B + 'tools.py', "    split_idxs = np.round(np.cumsum(normalized_ratios) * N).astype(np.int)", "    split_idxs = (np.cumsum(normalized_ratios) * N).astype(np.int)")],
  needs='ratios whose floating point sum ends just below one (e.g. six equal parts)',
  breaks='the last sample gets lost',
  demo='''
import numpy as np
from brainstorm.tools import split
for n in (5, 6, 7, 10, 49):
    for k in range(1, 50):
        x = np.arange(n).reshape(1, n, 1)
        assert np.array_equal(np.concatenate([p[0] for p in split(x, ratios=[1] * k)], 1), x), (n, k)
'''),
 dict(id='c25_evaluate_training_mode', property='C25',
  edits=[(B + 'tools.py', "    for _ in run_network(network, iterator):\n        network.forward_pass()\n        gather_losses_and_scores(", "    for _ in run_network(network, iterator):\n        network.forward_pass(training_pass=len(scorers) == 0)\n        gather_losses_and_scores(")],
  needs='a MonitorLoss hook on a network with batch normalisation or dropout',
  breaks='monitoring the loss runs in training mode, draws dropout masks and shifts the running statistics',
  demo=NET + '''
from brainstorm.layers.batch_normalization_layer import BatchNorm
def run(monitor):
    net = Network.from_layer(Input(out_shapes={'default': ('T', 'B', 2)}) >> FullyConnected(3, name='f') >> BatchNorm(name='b') >> Loss(name='l'))
    net.initialize(0.5)
    t = Trainer(SgdStepper(0.01), verbose=False)
    if monitor:
        t.add_hook(MonitorLoss('valid'))
    t.add_hook(StopAfterEpoch(2))
    x = np.random.RandomState(1).randn(1, 8, 2)
    t.train(net, Minibatches(2, shuffle=False, default=x), valid=Minibatches(4, shuffle=False, default=x + 1))
    return net.get('parameters')
assert np.array_equal(run(False), run(True))
'''),
 dict(id='c15_shared_modifier', property='C15',
  edits=[(B + 'structure/view_references.py', "    copied_mod = deepcopy(modifier)", "    copied_mod = copy(modifier)"),
         (B + 'structure/view_references.py', "from copy import deepcopy\n", "from copy import copy\n")],
  needs='placeholder', breaks='placeholder', demo='raise SystemExit'),
 dict(id='c16_masked_weight', property='C16',
  edits=[(B + 'scorers.py', "        weight = mask.sum() if mask is not None else predicted.shape[0]", "        weight = (mask.sum() if mask is not None and mask.any() else\n                  predicted.shape[0])")],
  needs='a batch that is masked out completely', breaks='a batch without any valid entry still counts with its full size',
  demo=NET + '''
from brainstorm.tools import evaluate, get_in_out_layers
from brainstorm.scorers import Accuracy
inp, out = get_in_out_layers('classification', 2, 2, mask_name='mask')
net = Network.from_layer(inp >> out)
net.output_name = 'Output.outputs.predictions'
net.initialize(0.0)
x = np.zeros((1, 4, 2)); t = np.zeros((1, 4, 1)); m = np.ones((1, 4, 1)); m[:, 2:] = 0
kw = dict(shuffle=False, cut_according_to=None, default=x, targets=t, mask=m)
a = evaluate(net, Minibatches(4, **kw), [Accuracy(mask_name='mask')])['Accuracy']
b = evaluate(net, Minibatches(2, **kw), [Accuracy(mask_name='mask')])['Accuracy']
assert a == b == 1.0, (a, b)
'''),
]
BUGS = [b for b in BUGS if 'placeholder' not in (b['needs'], b['breaks'])]
