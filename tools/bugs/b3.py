B = 'brainstorm/'
NET = '''
import numpy as np
from brainstorm.structure.network import Network
from brainstorm.layers.fully_connected_layer import FullyConnected
from brainstorm.layers.input_layer import Input
from brainstorm.layers.loss_layer import Loss
from brainstorm.layers.squared_difference_layer import SquaredDifference
from brainstorm.layers.recurrent_layer import Recurrent
from brainstorm.layers.lstm_layer import Lstm
from brainstorm.handlers import NumpyHandler
from brainstorm.training.trainer import Trainer
from brainstorm.training.steppers import SgdStepper, MomentumStepper
from brainstorm.hooks import *
from brainstorm.data_iterators import *
def rnn(cell=Lstm, dtype=np.float64, n=3, seed=2):
    net = Network.from_layer(Input(out_shapes={'default': ('T', 'B', 2)}) >> cell(n, name='r') >> Loss(name='l'))
    net.set_handler(NumpyHandler(dtype))
    rnd = np.random.RandomState(seed)
    net.handler.set_from_numpy(net.buffer.parameters, rnd.randn(net.buffer.parameters.size))
    return net
'''
BUGS = [
 dict(id='c03_context_reused', property='C03',
  edits=[(B + 'structure/buffers.py', "                c = self.handler.zeros(\n                    (hub.context_size, self.batch_size, hub.size))\n",
          "                c = self.scratch.get((len(context), self.batch_size))\n                if c is None:\n                    c = self.handler.zeros(\n                        (hub.context_size, self.batch_size, hub.size))\n                    self.scratch[(len(context), self.batch_size)] = c\n"),
         (B + 'structure/buffers.py', "        self.full_buffer = None\n        self.buffers = []\n", "        self.full_buffer = None\n        self.scratch = {}\n        self.buffers = []\n"),
         (B + 'structure/buffers.py', "        self.full_buffer = None\n        self.size = -1\n        self.time_size = -1\n", "        self.full_buffer = None\n        self.scratch = {}\n        self.size = -1\n        self.time_size = -1\n")],
  needs='two states captured from one network at the same batch size, the first used after the second was taken',
  breaks='the arrays of a captured state are reused for the next one',
  demo=NET + """
net = rnn()
rnd = np.random.RandomState(0)
x = rnd.randn(5, 2, 2)
def run(x, c=None):
    net.provide_external_data({'default': x})
    net.forward_pass(context=c)
    return net.get('r.outputs.default')[:len(x)]
whole = run(x)
run(x[:2])
first = net.get_context()
run(x[2:4], first)
second = net.get_context()
assert np.allclose(run(x[2:], first), whole[2:])
"""),
 dict(id='c01_backward_twice', property='C01',
  edits=[(B + 'structure/network.py', "        self._buffer_manager.clear_backward_buffers()\n        for layer_name, layer in reversed", "        if not self._buffer_manager.backward_clean:\n            self._buffer_manager.clear_backward_buffers()\n        for layer_name, layer in reversed"),
         (B + 'structure/buffers.py', "        self.views = None\n        self.resize(0, 0)\n\n    def resize", "        self.views = None\n        self.backward_clean = False\n        self.resize(0, 0)\n\n    def resize"),
         (B + 'structure/buffers.py', "        if time_size == self.time_size and batch_size == self.batch_size:\n            return self.views  # lazy\n", "        if time_size == self.time_size and batch_size == self.batch_size:\n            self.backward_clean = False\n            return self.views  # lazy\n\n        self.backward_clean = False\n"),
         (B + 'structure/buffers.py', "            if h.is_backward_only:\n                self.handler.fill(b, 0.)", "            if h.is_backward_only:\n                self.handler.fill(b, 0.)\n        self.backward_clean = True")],
  needs='two backward passes on one batch without providing the data again',
  breaks='the gradients of the second backward pass are added to those of the first',
  demo=NET + """
net = rnn()
net.provide_external_data({'default': np.random.RandomState(0).randn(4, 2, 2)})
net.forward_pass(True)
net.backward_pass()
a = net.get('gradients')
net.forward_pass(True)
net.backward_pass()
assert np.allclose(net.get('gradients'), a)
"""),
 dict(id='c05_gradient_order', property='C05',
  edits=[(B + 'structure/layout.py', "    return tuple([get_normalized_path(layer_name, 'gradients', o)\n                  for o in layer.parameter_shapes])", "    return tuple([get_normalized_path(layer_name, 'gradients', o)\n                  for o in sorted(layer.parameter_shapes)])")],
  needs='a layer whose parameters are not declared in alphabetical order (Lstm, Clockwork)',
  breaks='the full gradient vector has another order than the full parameter vector, so that steppers update the wrong weights',
  demo=NET + """
net = rnn()
x = np.random.RandomState(0).randn(4, 2, 2)
net.provide_external_data({'default': x})
net.forward_pass(True)
net.backward_pass()
g = net.get('gradients')
for n in net.buffer.r.parameters.keys():
    p = net.buffer.r.parameters[n]
    net.handler.fill(net.buffer.parameters, 0.)
    net.handler.fill(p, 1.)
    at = net.get('parameters') == 1
    assert np.array_equal(g[at], net.get('r.gradients.' + n).ravel()), n
"""),
 dict(id='c12_rate_cached', property='C12',
  edits=[(B + 'training/steppers.py', "        super(MomentumStepper, self).start(net)\n", "        super(MomentumStepper, self).start(net)\n        self.scale = 1 - self.momentum if self.scale_learning_rate else 1\n"),
         (B + 'training/steppers.py', "class MomentumStepper(TrainingStepper):", "class MomentumStepper(TrainingStepper):"),
         (B + 'training/steppers.py', "        if self.scale_learning_rate:\n            learning_rate *= (1 - momentum)\n\n        self.net.forward_pass", "        learning_rate *= self.scale\n\n        self.net.forward_pass")],
  needs='a MomentumStepper with scaled learning rate whose momentum is changed by a schedule during training',
  breaks='the learning rate keeps being scaled with the first momentum',
  demo=NET + """
from brainstorm.training.schedules import MultiStep
net = rnn(Recurrent)
twin = rnn(Recurrent)
x = np.random.RandomState(0).randn(3, 4, 2)
s = MomentumStepper(0.1, 0.5)
t = Trainer(s, verbose=False)
t.add_hook(ModifyStepperAttribute(MultiStep(0.5, [2], [0.9]), 'momentum', timescale='update', interval=1))
t.add_hook(StopAfterEpoch(2))
t.train(net, Minibatches(1, shuffle=False, default=x))
v = 0
for u in range(8):
    m = 0.9 if u >= 2 else 0.5
    twin.provide_external_data({'default': x[:, u % 4:u % 4 + 1]})
    twin.forward_pass(True)
    twin.backward_pass()
    v = m * v - 0.1 * (1 - m) * twin.get('gradients')
    twin.handler.set_from_numpy(twin.buffer.parameters, twin.get('parameters') + v)
assert np.allclose(net.get('parameters'), twin.get('parameters'))
"""),
 dict(id='c22_mask_broadcast_batch', property='C22',
  edits=[(B + 'layers/mask_layer.py', "        _h.mult_mv(flat_out_deltas, flat_mask, tmp)\n", "        _h.mult_mv(flat_out_deltas, flat_mask, tmp)\n        if self.flatten_dim == 2 and buffers.inputs.mask.shape[1] > 1:\n            # rows without a mask at all do not need gating\n            _h.mult_tt(tmp, tmp, tmp) if False else None\n")],
  needs='', breaks='', demo=''),
 dict(id='c08_cut_first_batch', property='C08',
  edits=[(B + 'data_iterators.py', "            time_slice = slice(None, np.max(self.seq_lens[batch_slice]))\n", "            time_slice = slice(None, self.seq_lens[batch_slice][-1])\n"),
         (B + 'data_iterators.py', "            self.seq_lens = np.array(cut_according_to)\n", "            self.seq_lens = np.array(cut_according_to)\n            named_data = {k: v[:, np.argsort(self.seq_lens)] for k, v in named_data.items()}\n")],
  needs='', breaks='', demo=''),
 dict(id='c09_crop_off_edge', property='C09',
  edits=[(B + 'data_iterators.py', "                row_indices = self.rnd.random_integers(0, max_r, n)\n", "                row_indices = self.rnd.random_integers(0, max_c, n) % (max_r + 1)\n")],
  needs='images that are not square, where the crop leaves more room in height than in width',
  breaks='the lower parts of the images are never cropped',
  demo=NET + """
x = np.arange(9.).reshape(1, 1, 9, 1, 1) * np.ones((1, 40, 1, 1, 1))
seen = set()
it = RandomCrop(Undivided(default=x), {'default': (1, 1)})
for _ in range(40):
    for d in it():
        seen |= set(d['default'].ravel())
assert seen == set(range(9)), seen
"""),
 dict(id='c16_last_batch_full_weight', property='C16',
  edits=[(B + 'tools.py', "        first_pass = False if len(return_data) == len(buffer_names) else True\n", "        first_pass = False if len(return_data) else True\n")],
  needs='', breaks='', demo=''),
 dict(id='c20_fan_in_order', property='C20',
  edits=[(B + 'structure/architecture.py', "'x'", "'x'")], needs='', breaks='', demo=''),
]
BUGS = [b for b in BUGS if b['demo']]
