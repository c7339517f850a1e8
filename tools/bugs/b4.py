import os, runpy
_b3 = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'b3.py'))
NET, B = _b3['NET'], _b3['B']
BUGS = [
 dict(id='c02_log_underflow', property='C02',
  edits=[(B + 'layers/softmax_ce_layer.py', "_h.clip_t(flat_loss, 1e-6, 1.0, flat_loss)", "_h.clip_t(flat_loss, 1e-60, 1.0, flat_loss)")],
  needs='single precision and a logit of the target class about 105 or more below the largest one',
  breaks='the bound that keeps the logarithm finite is below the smallest single precision number, so that the loss becomes infinite',
  demo=NET + """
from brainstorm.layers.softmax_ce_layer import SoftmaxCE
inp = Input(out_shapes={'default': ('T', 'B', 3), 'targets': ('T', 'B', 1)})
ce = SoftmaxCE(name='ce')
inp >> ce
inp - 'targets' >> 'targets' - ce
ce - 'loss' >> Loss(name='l')
net = Network.from_layer(ce)
net.set_handler(NumpyHandler(np.float32))
net.provide_external_data({'default': np.array([[[0., 300., 0.]]], np.float32), 'targets': np.zeros((1, 1, 1), np.float32)})
net.forward_pass()
assert np.isfinite(net.get('ce.outputs.loss')).all()
"""),
 dict(id='c04_clean_sizes', property='C04',
  edits=[(B + 'structure/buffers.py', "        if self.buffers is None:\n            return None\n        for hub, buf in zip(self.hubs, self.buffers):\n            if hub.btype != 2 or not hub.context_size:",
          "        if (self.time_size, self.batch_size) in self.clean:\n            return None\n        self.clean.add((self.time_size, self.batch_size))\n        for hub, buf in zip(self.hubs, self.buffers):\n            if hub.btype != 2 or not hub.context_size:"),
         (B + 'structure/buffers.py', "    def apply_context(self, context):\n", "    def apply_context(self, context):\n        self.clean.discard((self.time_size, self.batch_size))\n"),
         (B + 'structure/buffers.py', "        self.full_buffer = None\n        self.buffers = []\n", "        self.full_buffer = None\n        self.clean = set()\n        self.buffers = []\n"),
         (B + 'structure/buffers.py', "        self.full_buffer = None\n        self.size = -1\n        self.time_size = -1\n", "        self.full_buffer = None\n        self.clean = set()\n        self.size = -1\n        self.time_size = -1\n"),
         (B + 'structure/buffers.py', "        if total_size > self.size:\n            self.full_buffer = self.handler.allocate((total_size,))\n", "        if total_size > self.size:\n            self.clean = set()\n            self.full_buffer = self.handler.allocate((total_size,))\n")],
  needs='a recurrent network used with two sizes, neither larger than the largest seen, alternating: A, B, A',
  breaks='the state is taken for clean at a size it was cleared for before, although other sizes have used the memory since',
  demo=NET + """
net = rnn(Recurrent)
rnd = np.random.RandomState(0)
def run(x):
    net.provide_external_data({'default': x})
    net.forward_pass()
    return net.get('r.outputs.default')[:len(x)]
run(rnd.randn(9, 2, 2))
x, y = rnd.randn(3, 2, 2), rnd.randn(6, 2, 2)
a = run(x)
run(y)
assert np.allclose(run(x), a)
"""),
 dict(id='c06_update_in_place', property='C06',
  edits=[(B + 'structure/network.py', "        with h5py.File(filename, 'w') as f:\n", "        with h5py.File(filename, 'a') as f:\n            if 'parameters' in f and \\\n                    f['parameters'].shape == self.buffer.parameters.shape and \\\n                    f['parameters'].dtype == self.handler.dtype:\n                # saved before: only the parameters have changed\n                f['parameters'][...] = self.get('parameters')\n                return\n            f.clear()\n            f.attrs.clear()\n")],
  needs='saving over an existing file of another network (or of the same with other modifiers) with as many parameters',
  breaks='overwriting a file keeps the old description',
  demo=NET + """
import tempfile, os, shutil
from brainstorm.value_modifiers import ClipValues
d = tempfile.mkdtemp()
try:
    f = os.path.join(d, 'net.hdf5')
    net = rnn(Recurrent)
    net.save_as_hdf5(f)
    net.set_weight_modifiers({'r': ClipValues(-.1, .1)})
    net.save_as_hdf5(f)
    assert Network.from_hdf5(f).weight_modifiers
finally:
    shutil.rmtree(d)
"""),
 dict(id='c08_single_step', property='C08',
  edits=[(B + 'data_iterators.py', "        nr_timesteps[name] = data.shape[0]\n", "        if data.shape[0] > 1 or not nr_timesteps:\n            nr_timesteps[name] = data.shape[0]\n")],
  needs='named arrays of different lengths, the later one of a single time step',
  breaks='arrays with a single time step are accepted next to longer ones, and delivered misaligned',
  demo=NET + """
try:
    Minibatches(2, a=np.zeros((4, 3, 1)), b=np.zeros((1, 3, 1)))
except Exception:
    pass
else:
    assert False, 'accepted'
"""),
 dict(id='c10_gaussian_mean', property='C10',
  edits=[(B + 'initializers.py', "return self.rnd.randn(*shape) * self.std + self.mean", "return (self.rnd.randn(*shape) + self.mean) * self.std")],
  needs='a Gaussian initializer with a mean other than zero and a standard deviation other than one',
  breaks='the mean is scaled by the standard deviation',
  demo=NET + """
from brainstorm.initializers import Gaussian
g = Gaussian(std=0.1, mean=5.)
g.rnd.set_seed(1)
assert abs(g((200, 200)).mean() - 5.) < .1
"""),
 dict(id='c11_flip_order', property='C11',
  edits=[(B + 'data_iterators.py', "            for name in self.prob_dict.keys():\n                assert isinstance(data[name], np.ndarray)\n                data[name] = data[name].copy()", "            for name in set(self.prob_dict):\n                assert isinstance(data[name], np.ndarray)\n                data[name] = data[name].copy()")],
  needs='flipping two or more named arrays, compared between processes with different hash seeds',
  breaks='which images are flipped depends on the hash seed of the process',
  demo=None, script="""
import os, subprocess, sys
prog = '''
import numpy as np
from brainstorm.data_iterators import Flip, Undivided
from brainstorm.randomness import global_rnd
global_rnd.set_seed(1)
x = np.arange(4 * 24.).reshape(1, 12, 2, 4, 1)
it = Flip(Undivided(left=x, right=x + 1000), {'left': .5, 'right': .5})
it.rnd.set_seed(3)
d = next(iter(it()))
print(d['left'].ravel().tolist(), d['right'].ravel().tolist())
'''
outs = set()
for s in range(8):
    outs.add(subprocess.check_output([sys.executable, '-W', 'ignore', '-c', prog], env=dict(os.environ, PYTHONHASHSEED=str(s))))
assert len(outs) == 1
"""),
 dict(id='c15_repeated_modifier', property='C15',
  edits=[(B + 'structure/network.py', "                for wm in weight_mods:\n                    wm.rnd.set_seed(self.rnd.generate_seed())", "                by_kind = {type(wm): wm for wm in weight_mods}\n                for wm in by_kind.values():\n                    wm.rnd.set_seed(self.rnd.generate_seed())")],
  needs='two modifiers of the same kind on one parameter, such as masks of different connections',
  breaks='only the last modifier of each kind is applied',
  demo=NET + """
from brainstorm.value_modifiers import MaskValues
net = rnn(Recurrent)
m1, m2 = np.ones((3, 2)), np.ones((3, 2))
m1[0], m2[1] = 0, 0
net.set_weight_modifiers({'r': {'W': [MaskValues(m1), MaskValues(m2)]}})
net.apply_weight_modifiers()
W = net.get('r.parameters.W')
assert (W[0] == 0).all() and (W[1] == 0).all()
"""),
 dict(id='c18_mask_over_time', property='C18',
  edits=[(B + 'handlers/numpy_handler.py', "mask[:] = self.rnd.uniform(size=mask.shape) < probability", "mask[:] = self.rnd.uniform(size=mask.shape[-2:]) < probability")],
  needs='a mask with three or more dimensions',
  breaks='the same random mask is drawn for all entries of the leading dimensions',
  demo=NET + """
h = NumpyHandler(np.float64)
m = h.zeros((5, 4, 20))
h.generate_probability_mask(m, .5)
assert not all((m[t] == m[0]).all() for t in range(5))
"""),
 dict(id='c19_finite_by_sum', property='C19',
  edits=[(B + 'handlers/numpy_handler.py', "return np.all(np.isfinite(a))", "return bool(np.isfinite(np.sum(a)))")],
  needs='finite values whose sum exceeds the range of the data type',
  breaks='large finite values are reported as NaN or Inf',
  demo=NET + """
h = NumpyHandler(np.float32)
assert h.is_fully_finite(np.full((4, 4), 3e38, np.float32))
"""),
 dict(id='c27_loss_per_sequence', property='C27',
  edits=[(B + 'layers/loss_layer.py', "        self.batch_index = None\n        if in_shapes['default'].scales_with_time:\n            self.batch_index = 1\n        elif in_shapes['default'].scales_with_batch_size:\n            self.batch_index = 0\n", "        # position of the batch dimension, if there is one\n        self.batch_index = in_shapes['default'].buffer_type - 1 or None\n        if in_shapes['default'].buffer_type == 0:\n            self.batch_index = None\n")],
  needs='a loss of batch-sized values, which only a user-written layer puts out',
  breaks='losses of one value per sequence are summed over the batch instead of averaged',
  demo=NET + """
from collections import OrderedDict
from brainstorm.layers.base_layer import Layer
from brainstorm.structure.buffer_structure import StructureTemplate, BufferStructure
class LastStepLayerImpl(Layer):
    expected_inputs = {'default': StructureTemplate('T', 'B', 'F')}
    def setup(self, kwargs, in_shapes):
        return OrderedDict(default=BufferStructure('B', in_shapes['default'].feature_size)), OrderedDict(), OrderedDict()
    def forward_pass(self, buffers, training_pass=True):
        self.handler.copy_to(buffers.inputs.default[-1], buffers.outputs.default)
net = Network.from_architecture({
    'Input': {'@type': 'Input', 'out_shapes': {'default': ('T', 'B', 2)}, '@outgoing_connections': {'default': ['last']}},
    'last': {'@type': 'LastStep', '@outgoing_connections': {'default': ['loss']}},
    'loss': {'@type': 'Loss', '@outgoing_connections': {}}})
net.provide_external_data({'default': np.ones((3, 4, 2))})
net.forward_pass()
assert abs(net.get_loss_values()['total_loss'] - 2.) < 1e-6
"""),
 dict(id='c27_batch_deltas_kept', property='C27',
  edits=[(B + 'structure/buffers.py', "            if h.is_backward_only:\n                self.handler.fill(b, 0.)", "            if h.is_backward_only and h.btype != 1:\n                self.handler.fill(b, 0.)")],
  needs='a user-written layer with batch-sized outputs or backward-only buffers, and two backward passes',
  breaks='batch-sized deltas are not cleared before a backward pass and pile up',
  demo=NET + """
from collections import OrderedDict
from brainstorm.layers.base_layer import Layer
from brainstorm.structure.buffer_structure import StructureTemplate, BufferStructure
class FirstStepLayerImpl(Layer):
    expected_inputs = {'default': StructureTemplate('T', 'B', 'F')}
    def setup(self, kwargs, in_shapes):
        return OrderedDict(default=BufferStructure('B', in_shapes['default'].feature_size)), OrderedDict(), OrderedDict()
    def forward_pass(self, buffers, training_pass=True):
        self.handler.copy_to(buffers.inputs.default[0], buffers.outputs.default)
    def backward_pass(self, buffers):
        d = buffers.input_deltas.default[0]
        self.handler.add_tt(buffers.output_deltas.default, d, d)
net = Network.from_architecture({
    'Input': {'@type': 'Input', 'out_shapes': {'default': ('T', 'B', 2)}, '@outgoing_connections': {'default': ['first']}},
    'first': {'@type': 'FirstStep', '@outgoing_connections': {'default': ['loss']}},
    'loss': {'@type': 'Loss', '@outgoing_connections': {}}})
net.provide_external_data({'default': np.ones((3, 4, 2))})
for _ in range(3):
    net.forward_pass()
    net.backward_pass()
    assert abs(net.get('Input.output_deltas.default')[0] - .25).max() < 1e-6
"""),
 dict(id='c27_template_any', property='C27',
  edits=[(B + 'structure/buffer_structure.py', "            if t == 'F' and isinstance(s, int):\n", "            if t == 'F':\n")],
  needs='a layer that declares an input of constant size connected to a time-sized or batch-sized output with as many dimensions',
  breaks='a template for feature dimensions accepts the time and batch dimensions as well',
  demo=NET + """
from brainstorm.structure.buffer_structure import StructureTemplate, BufferStructure
assert not StructureTemplate('F', 'F').matches(BufferStructure('B', 3))
assert StructureTemplate('F', 'F').matches(BufferStructure(2, 3))
"""),
]
for b in BUGS:
    if b.get('demo') is None:
        b['demo'] = b.pop('script')
