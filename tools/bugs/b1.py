B = 'brainstorm/'
BUGS = [
 dict(id='c01_recurrent_carried_dr', property='C01',
  edits=[(B + 'layers/recurrent_layer.py', "        _h.dot_add_mm(dHa[0], outputs[-1], dR, transa=True)", "        if inputs.shape[0] > 1:\n            _h.dot_add_mm(dHa[0], outputs[-1], dR, transa=True)")],
  needs='a recurrent network continued from a given state on a piece of exactly one time step',
  breaks='the gradient of the recurrent weights lacks the contribution of the state carried over',
  demo='''
import numpy as np
from brainstorm.structure.network import Network
from brainstorm.layers.recurrent_layer import Recurrent
from brainstorm.layers.input_layer import Input
from brainstorm.layers.loss_layer import Loss
from brainstorm.handlers import NumpyHandler
inp = Input(out_shapes={'default': ('T', 'B', 2)})
r = Recurrent(3, activation='tanh', name='r')
net = Network.from_layer(inp >> r >> Loss(name='loss'))
net.set_handler(NumpyHandler(np.float64))
rnd = np.random.RandomState(1)
net.handler.set_from_numpy(net.buffer.parameters, rnd.randn(net.buffer.parameters.size))
net.provide_external_data({'default': rnd.randn(3, 2, 2)})
net.forward_pass(training_pass=True)
ctx = net.get_context()
net.provide_external_data({'default': rnd.randn(1, 2, 2)})
def loss(p):
    net.handler.set_from_numpy(net.buffer.parameters, p)
    net.forward_pass(training_pass=True, context=ctx)
    return net.get_loss_values()['total_loss']
p0 = net.get('parameters')
loss(p0)
net.backward_pass()
g = net.get('gradients')
for i in range(p0.size):
    e = np.zeros_like(p0); e[i] = 1e-6
    num = (loss(p0 + e) - loss(p0 - e)) / 2e-6
    assert abs(num - g[i]) < 1e-6, (i, num, g[i])
'''),
 dict(id='c02_softmax_global_max', property='C02',
  edits=[(B + 'handlers/numpy_handler.py', "        maxes = np.amax(m, axis=1, keepdims=True)", "        maxes = np.amax(m)")],
  needs='inputs to a softmax whose rows lie far apart (one sample a few hundred above another)',
  breaks='probabilities become nan for rows far below the largest entry of the batch',
  demo='''
import numpy as np
from brainstorm.structure.network import Network
from brainstorm.layers.softmax_ce_layer import SoftmaxCE
from brainstorm.layers.input_layer import Input
from brainstorm.layers.loss_layer import Loss
inp = Input(out_shapes={'default': ('T', 'B', 3), 'targets': ('T', 'B', 1)})
s = SoftmaxCE(name='s')
inp - 'targets' >> 'targets' - s
net = Network.from_layer(inp >> s - 'loss' >> Loss(name='loss'))
x = np.array([[[0., 1., 2.], [1000., 1001., 1000.]]])
net.provide_external_data({'default': x, 'targets': np.zeros((1, 2, 1))})
net.forward_pass()
p = net.get('s.outputs.predictions')
assert np.all(np.isfinite(p)), p
assert np.allclose(p.sum(-1), 1), p
'''),
 dict(id='c03_context_views', property='C03',
  edits=[(B + 'structure/buffers.py', "                context_stop_idx = self.time_size\n", "                context_stop_idx = context_start_idx + hub.context_size\n                if context_start_idx >= 0:  # contiguous in the buffer\n                    context.append(buf[context_start_idx:context_stop_idx])\n                    continue\n")],
  needs='a captured state that is used again after another pass has run (e.g. two different continuations of one prefix)',
  breaks='the captured state is a view into the live buffers instead of a snapshot',
  demo='''
import numpy as np
from brainstorm.structure.network import Network
from brainstorm.layers.recurrent_layer import Recurrent
from brainstorm.layers.input_layer import Input
inp = Input(out_shapes={'default': ('T', 'B', 2)})
net = Network.from_layer(inp >> Recurrent(3, name='r'))
rnd = np.random.RandomState(1)
net.handler.set_from_numpy(net.buffer.parameters, rnd.randn(net.buffer.parameters.size))
a, b = rnd.randn(4, 2, 2), rnd.randn(4, 2, 2)
net.provide_external_data({'default': a})
net.forward_pass()
ctx = net.get_context()
outs = []
for k in range(2):
    net.provide_external_data({'default': b})
    net.forward_pass(context=ctx)
    outs.append(net.get('r.outputs.default')[:4])
assert np.array_equal(outs[0], outs[1]), np.abs(outs[0] - outs[1]).max()
'''),
 dict(id='c04_lazy_equal_area', property='C04',
  edits=[(B + 'structure/buffers.py', "        if parameters is not None:\n            self.handler.set_from_numpy(self.views.parameters, parameters)\n        return self.views\n", "        if parameters is not None and time_size * batch_size > 0:\n            self.handler.set_from_numpy(self.views.parameters, parameters)\n        return self.views\n"),
         ],
  needs='a backend change (set_handler resizes to zero) or empty data after the network held parameters',
  breaks='placeholder',
  demo='''
import sys
'''),
 dict(id='c05_hub_sizes_unpermuted', property='C05',
  edits=[(B + 'structure/layout.py', "        hub.sizes = [structs[i].feature_size for i in hub.perm]", "        hub.sizes = [s.feature_size for s in structs]")],
  needs='producers of different sizes that have to be permuted to make every consumer read one block',
  breaks='slices of a permuted hub get the sizes of other buffers, so that consumers read the wrong memory',
  demo='''
import numpy as np
from brainstorm.structure.network import Network
from brainstorm.layers.fully_connected_layer import FullyConnected
from brainstorm.layers.input_layer import Input
# sorted order a, b, c; x reads a+c, y reads c+b: b may not be in the middle
for sizes in [(2, 3, 5), (5, 3, 2), (1, 4, 2)]:
    inp = Input(out_shapes={'default': ('T', 'B', 2)})
    a, b, c = [FullyConnected(s, name=n) for n, s in zip('abc', sizes)]
    x, y = FullyConnected(2, name='x'), FullyConnected(2, name='y')
    for l in (a, b, c):
        inp >> l
    a >> x
    c >> x
    c >> y
    b >> y
    try:
        net = Network.from_layer(inp)
    except AssertionError:
        raise
    net.initialize(1.0)
    data = np.random.RandomState(0).randn(2, 3, 2)
    net.provide_external_data({'default': data})
    net.forward_pass()
    for n, s in zip('abc', sizes):
        assert net.get(n + '.outputs.default').shape == (2, 3, s), n
    xin = net.get('x.inputs.default')
    want = np.concatenate([net.get('a.outputs.default'), net.get('c.outputs.default')], 2)
    want2 = np.concatenate([net.get('c.outputs.default'), net.get('a.outputs.default')], 2)
    assert xin.shape == want.shape and (np.array_equal(xin, want) or np.array_equal(xin, want2)), 'x'
'''),
 dict(id='c06_parameters_single', property='C06',
  edits=[],
  needs='', breaks='', demo=''),
 dict(id='c08_fractional_mask', property='C08',
  edits=[(B + 'data_iterators.py', "    b = mask[:, :, 0] != 0\n", "    b = mask[:, :, 0].astype(np.int8)\n")],
  needs='a mask with weights strictly between 0 and 1 in the last used time step of a batch',
  breaks='time steps that are only partially masked get cut off',
  demo='''
import numpy as np
from brainstorm.data_iterators import Minibatches
x = np.arange(1, 13).reshape(4, 3, 1) * 1.0
mask = np.ones((4, 3, 1)); mask[2:] = 0.5
total = sum(d['default'].sum() for d in Minibatches(2, shuffle=False, default=x, mask=mask)())
assert total == x.sum(), (total, x.sum())
'''),
 dict(id='c09_noise_shared', property='C09',
  edits=[(B + 'data_iterators.py', "                    data[key].shape) + mean", "                    data[key].shape[1:]) + mean")],
  needs='sequences with more than one time step', breaks='all time steps of a sequence get the same noise',
  demo="""
import numpy as np
from brainstorm.data_iterators import AddGaussianNoise, Undivided
x = np.zeros((3, 4, 2))
o = list(AddGaussianNoise(Undivided(default=x), {'default': 1.0})())[0]['default']
assert not np.array_equal(o[0], o[1])
"""),
 dict(id='c10_fan_in_kernel', property='C10',
  edits=[(B + 'initializers.py', "        n1, n2 = shape[0], np.prod(shape[1:])", "        n1, n2 = shape[0], shape[-1]")],
  needs='DenseSqrtFanInOut used for the weights of a convolution (more than two dimensions)',
  breaks='the range of the initial weights ignores the kernel size',
  demo='''
import numpy as np
from brainstorm.initializers import DenseSqrtFanInOut
v = DenseSqrtFanInOut('linear')((6, 5, 5, 3))
assert np.abs(v).max() <= 1 / np.sqrt(6 + 75), np.abs(v).max()
'''),
 dict(id='c11_lstmopt_one_seed', property='C11',
  edits=[(B + 'initializers.py', "        sub_shape = (n,) + shape[1:]\n        weights[:n]", "        sub_shape = (n,) + shape[1:]\n        seed = self.rnd.generate_seed()\n        weights[:n]"),
         (B + 'initializers.py', "            self.block_input, sub_shape, seed=self.rnd.generate_seed())", "            self.block_input, sub_shape, seed=seed)"),
         (B + 'initializers.py', "            self.input_gate, sub_shape, seed=self.rnd.generate_seed())", "            self.input_gate, sub_shape, seed=seed)"),
         (B + 'initializers.py', "            self.forget_gate, sub_shape, seed=self.rnd.generate_seed())", "            self.forget_gate, sub_shape, seed=seed)"),
         (B + 'initializers.py', "            self.output_gate, sub_shape, seed=self.rnd.generate_seed())", "            self.output_gate, sub_shape, seed=seed)")],
  needs='an LstmOpt layer initialised with random initializers for several gates',
  breaks='all gates draw from one and the same random stream and get identical weights',
  demo='''
import numpy as np
from brainstorm.initializers import LstmOptInit, Gaussian
i = LstmOptInit(Gaussian(), Gaussian(), Gaussian(), Gaussian())
i.rnd.set_seed(3)
w = i((8, 5))
assert not np.array_equal(w[:2], w[2:4]) and not np.array_equal(w[4:6], w[6:])
'''),
 dict(id='c12_velocity_kept', property='C12',
  edits=[(B + 'training/steppers.py', "        self.velocity = net.handler.zeros(net.buffer.parameters.shape)", "        if self.velocity is None or \\\n                self.velocity.shape != net.buffer.parameters.shape:\n            self.velocity = net.handler.zeros(net.buffer.parameters.shape)")],
  needs='one stepper object started for a second network of the same size (or a second training)',
  breaks='the velocity of the previous network enters the updates of the next one',
  demo='''
import numpy as np
from brainstorm.structure.network import Network
from brainstorm.layers.fully_connected_layer import FullyConnected
from brainstorm.layers.input_layer import Input
from brainstorm.layers.loss_layer import Loss
from brainstorm.training.steppers import MomentumStepper
def mk():
    net = Network.from_layer(Input(out_shapes={'default': ('T', 'B', 2)}) >> FullyConnected(3, name='f') >> Loss(name='l'))
    net.initialize(0.5)
    net.provide_external_data({'default': np.ones((1, 2, 2))})
    return net
def step(s, net):
    s.start(net)
    s.run(); s.run()
    return net.get('parameters')
s = MomentumStepper(0.1, 0.9)
first = step(s, mk())
second = step(s, mk())
assert np.array_equal(first, second), np.abs(first - second).max()
'''),
 dict(id='c13_log_zero_dropped', property='C13',
  edits=[(B + 'training/trainer.py', "        if val is None:\n            return", "        if val is None or (not isinstance(val, dict) and not np.any(val)):\n            return"),
         (B + 'training/trainer.py', "from collections import OrderedDict\n", "from collections import OrderedDict\n\nimport numpy as np\n")],
  needs='a hook (or loss, or score) whose value is exactly zero at some update',
  breaks='values of zero are not logged, so that the log loses entries',
  demo='''
import numpy as np
import brainstorm.training.trainer as T
from brainstorm.training.steppers import SgdStepper
from brainstorm.hooks import Hook, StopAfterEpoch
from brainstorm.data_iterators import Minibatches
from brainstorm.structure.network import Network
from brainstorm.layers.fully_connected_layer import FullyConnected
from brainstorm.layers.input_layer import Input
from brainstorm.layers.loss_layer import Loss
class Count(Hook):
    def __call__(self, epoch_nr, update_nr, net, stepper, logs):
        return epoch_nr
net = Network.from_layer(Input(out_shapes={'default': ('T', 'B', 2)}) >> FullyConnected(3, name='f') >> Loss(name='l'))
net.initialize(0.5)
t = T.Trainer(SgdStepper(0.1), verbose=False)
t.add_hook(Count(name='count'))
t.add_hook(StopAfterEpoch(2))
t.train(net, Minibatches(2, default=np.ones((1, 4, 2))))
assert t.logs['count'] == [0, 1, 2], t.logs
'''),
 dict(id='c14_threshold_strict', property='C14',
  edits=[],
  needs='', breaks='', demo=''),
 dict(id='c15_clip_symmetric', property='C15',
  edits=[(B + 'value_modifiers.py', "        handler.clip_t(view, self.low, self.high, view)", "        handler.clip_t(view, min(self.low, -self.high), self.high, view)")],
  needs='ClipValues with a lower limit above the negative upper limit (e.g. non-negative weights)',
  breaks='values below the lower limit are not clipped',
  demo='''
import numpy as np
from brainstorm.value_modifiers import ClipValues
from brainstorm.handlers import NumpyHandler
v = np.array([[-2., -0.3, 0.1, 0.9, 3.]])
ClipValues(0.0, 1.0)(NumpyHandler(np.float64), v)
assert v.min() >= 0.0 and v.max() <= 1.0, v
'''),
 dict(id='c17_im2col_bound', property='C17',
  edits=[(B + 'handlers/_cpuop.pyx', "                        if 0 <= ih < height and 0 <= iw < width:\n                            for idx in range(channels):", "                        if 0 <= ih <= height and 0 <= iw < width:\n                            for idx in range(channels):")],
  needs='a convolution backward pass with padding at the lower border',
  breaks='col2im adds to memory behind the image',
  demo='''
import numpy as np
from brainstorm.handlers._cpuop import col2im
h, w, c, k, p = 3, 4, 2, 3, 1
col = np.ones((h * w * k * k * c,))
mem = np.zeros(h * w * c + 64)
col2im(col, h, w, c, k, k, p, p, p, p, 1, 1, mem[:h * w * c])
assert not mem[h * w * c:].any(), 'wrote behind the image'
'''),
 dict(id='c18_fill_if_positive', property='C18',
  edits=[(B + 'handlers/numpy_handler.py', "        dest[cond != 0] = src[cond != 0]", "        dest[cond > 0] = src[cond > 0]")],
  needs='a condition array with negative entries', breaks='negative conditions are treated as false',
  demo='''
import numpy as np
from brainstorm.handlers import NumpyHandler
h = NumpyHandler(np.float64)
d = np.zeros(3)
h.copy_to_if(np.array([1., 2., 3.]), d, np.array([0., -1., 1.]))
assert list(d) == [0., 2., 3.], d
'''),
 dict(id='c19_x', property='C19', edits=[], needs='', breaks='', demo=''),
 dict(id='c20_x', property='C20', edits=[], needs='', breaks='', demo=''),
 dict(id='c21_x', property='C21', edits=[], needs='', breaks='', demo=''),
 dict(id='c22_x', property='C22', edits=[], needs='', breaks='', demo=''),
 dict(id='c24_x', property='C24', edits=[], needs='', breaks='', demo=''),
 dict(id='c25_x', property='C25', edits=[], needs='', breaks='', demo=''),
]
BUGS = [b for b in BUGS if b['edits'] and b['breaks'] != 'placeholder']
