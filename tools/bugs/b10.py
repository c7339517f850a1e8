B = 'brainstorm/'
PRE = '''
import numpy as np
from brainstorm.structure.network import Network
from brainstorm.handlers import NumpyHandler
import brainstorm as bs
from brainstorm.layers.input_layer import Input
from brainstorm.layers.loss_layer import Loss
'''
BUGS = [
 dict(id='c22_shared_shift', property='C22',
  edits=[(B + 'handlers/numpy_handler.py', "        maxes = np.amax(m, axis=1, keepdims=True)\n", "        maxes = np.amax(m)\n        if maxes - np.amin(m) > 100.:  # would underflow\n            maxes = np.amax(m, axis=1, keepdims=True)\n")],
  needs='single precision and a batch in which one sample has softmax inputs some 90 to 100 above those of another',
  breaks='the probabilities of a sample lose all their precision because of another sample in its batch',
  demo=PRE + '''
from brainstorm.layers.softmax_ce_layer import SoftmaxCE
def probs(x):
    inp = Input(out_shapes={'default': ('T', 'B', 3), 'targets': ('T', 'B', 1)})
    s = SoftmaxCE(name='s')
    inp - 'targets' >> 'targets' - s
    net = Network.from_layer(inp >> s - 'loss' >> Loss(name='loss'))
    net.set_handler(NumpyHandler(np.float32))
    net.provide_external_data({'default': x, 'targets': np.zeros(x.shape[:2] + (1,))})
    net.forward_pass()
    return net.get('s.outputs.predictions')
x = np.array([[[0., 1., 2.], [97., 96., 98.]]])
assert np.allclose(probs(x)[:, :1], probs(x[:, :1]), rtol=1e-4, atol=0), probs(x)
'''),
 dict(id='c03_lstm_first_peephole', property='C03',
  edits=[(B + 'layers/clockwork_lstm_layer.py', "            _h.mult_add_mv(Ca[t - 1], pi, Ia[t])  # ADDED", "            if t > 0:\n                _h.mult_add_mv(Ca[t - 1], pi, Ia[t])  # ADDED"),
         (B + 'layers/clockwork_lstm_layer.py', "            _h.mult_add_mv(Ca[t - 1], pf, Fa[t])  # ADDED", "            if t > 0:\n                _h.mult_add_mv(Ca[t - 1], pf, Fa[t])  # ADDED")],
  needs='a clockwork LSTM continued from the state of an earlier piece',
  breaks='the gates ignore the carried cell state at the first step of a continued sequence',
  demo=PRE + '''
from brainstorm.layers.clockwork_lstm_layer import ClockworkLstm
inp = Input(out_shapes={'default': ('T', 'B', 2)})
net = Network.from_layer(inp >> ClockworkLstm(3, name='r'))
net.set_handler(NumpyHandler(np.float64))
rnd = np.random.RandomState(1)
net.handler.set_from_numpy(net.buffer.parameters, rnd.randn(net.buffer.parameters.size))
net.handler.set_from_numpy(net.buffer.r.parameters.timing, np.ones(3))
x = rnd.randn(6, 2, 2)
net.provide_external_data({'default': x})
net.forward_pass()
whole = net.get('r.outputs.default')[:6]
net.provide_external_data({'default': x[:2]})
net.forward_pass()
ctx = net.get_context()
net.provide_external_data({'default': x[2:]})
net.forward_pass(context=ctx)
assert np.allclose(net.get('r.outputs.default')[:4], whole[2:])
'''),
 dict(id='c02_bn_single_row', property='C02',
  edits=[(B + 'layers/batch_normalization_layer.py', "            _h.mult_st(self.decay, sigma, sigma)\n            _h.mult_add_st(1.0 - self.decay, sigma_b, sigma)\n", "            if m > 1:\n                _h.mult_st(self.decay, sigma, sigma)\n                _h.mult_add_st(1.0 - self.decay, sigma_b, sigma)\n")],
  needs='a training pass on a batch with a single row (such as the last, smaller batch of an epoch)',
  breaks='the running standard deviation misses that batch while the running mean follows it',
  demo=PRE + '''
from brainstorm.layers.batch_normalization_layer import BatchNorm
inp = Input(out_shapes={'default': ('T', 'B', 2)})
net = Network.from_layer(inp >> BatchNorm(decay=.5, name='b'))
net.set_handler(NumpyHandler(np.float64))
net.initialize({'default': 1.})
net.provide_external_data({'default': np.ones((1, 1, 2))})
net.forward_pass(training_pass=True)
assert np.allclose(net.get('b.parameters.mu'), .5 - .5), net.get('b.parameters.mu')
assert (net.get('b.parameters.sigma') < .6).all(), net.get('b.parameters.sigma')
'''),
 dict(id='c04_same_backend', property='C04',
  edits=[(B + 'structure/buffers.py', "    def set_handler(self, new_handler):\n        self.full_buffer = None\n        self.size = -1\n", "    def set_handler(self, new_handler):\n        if self.handler.array_type is not new_handler.array_type:\n            # the memory can not be kept\n            self.full_buffer = None\n            self.size = -1\n")],
  needs='a change between two handlers of one kind that differ in precision, after the network was used',
  breaks='the network goes on computing in the old precision',
  demo=PRE + '''
from brainstorm.layers.fully_connected_layer import FullyConnected
x = np.array([[[1. / 3, 2. / 7]]])
def out(first):
    inp = Input(out_shapes={'default': ('T', 'B', 2)})
    net = Network.from_layer(inp >> FullyConnected(2, name='f'))
    net.set_handler(NumpyHandler(np.float32))
    net.initialize({'default': 1.})
    if first:
        net.provide_external_data({'default': x})
        net.forward_pass()
    net.set_handler(NumpyHandler(np.float64))
    net.provide_external_data({'default': x})
    net.forward_pass()
    return net.get('f.outputs.default')
assert np.array_equal(out(False), out(True)), (out(False), out(True))
'''),
 dict(id='c18_divide_reciprocal', property='C18',
  edits=[(B + 'handlers/numpy_handler.py', "    def divide_mv(self, m, v, out):\n        out[:] = m / v\n", "    def divide_mv(self, m, v, out):\n        out[:] = m * (1. / v)\n")],
  needs='a division of tiny numbers by a tiny number whose reciprocal is not representable',
  breaks='the quotient is infinite although it is representable',
  demo=PRE + '''
for dt, tiny in ((np.float32, 1e-40), (np.float64, 1e-310)):
    m, v = np.array([[tiny, 2 * tiny]], dt), np.array([[tiny]], dt)
    out = np.zeros_like(m)
    NumpyHandler(dt).divide_mv(m, v, out)
    assert np.allclose(out, [[1., 2.]], rtol=1e-3), out
'''),
 dict(id='c20_zero_setting', property='C20',
  edits=[(B + 'structure/architecture.py', "    if layer_details.layer_kwargs:\n        description.update(layer_details.layer_kwargs)\n", "    for key, value in layer_details.layer_kwargs.items():\n        if value:\n            description[key] = value\n")],
  needs='a setting whose value is zero or False while its default is not',
  breaks='the network is built with the default instead of the setting that was written down',
  demo=PRE + '''
from brainstorm.layers.dropout_layer import Dropout
inp = Input(out_shapes={'default': ('T', 'B', 50)})
net = Network.from_layer(inp >> Dropout(drop_prob=0., name='d'))
x = np.ones((1, 1, 50))
net.provide_external_data({'default': x})
net.forward_pass(training_pass=True)
assert np.array_equal(net.get('d.outputs.default'), x)
'''),
 dict(id='c23_close_enough', property='C23',
  edits=[(B + 'hooks.py', "        setattr(stepper, self.attr_name,\n                self.schedule(epoch_nr, update_nr, self.timescale,\n                              self.interval, net, stepper, logs))\n", "        value = self.schedule(epoch_nr, update_nr, self.timescale,\n                              self.interval, net, stepper, logs)\n        if not np.isclose(value, getattr(stepper, self.attr_name)):\n            setattr(stepper, self.attr_name, value)\n")],
  needs='a schedule with small values or small changes, such as a learning rate that falls by a millionth per update',
  breaks='the stepper keeps an earlier value of the schedule',
  demo=PRE + """
from brainstorm.hooks import ModifyStepperAttribute
from brainstorm.training.schedules import Exponential
from brainstorm.training.steppers import SgdStepper
s = SgdStepper(1.)
h = ModifyStepperAttribute(Exponential(1e-7, .5), 'learning_rate')
h.start(None, s, False, {})
for i in range(6):
    h(i, i, None, s, {})
    assert s.learning_rate == 1e-7 * .5 ** i, (i, s.learning_rate)
"""),
 dict(id='c28_coarse_labels', property='C28',
  edits=[('data/create_cifar100.py', "y_tr = ds[:nr_tr, 1].reshape((1, nr_tr, 1))\n", "y_tr = ds[:nr_tr, 0].reshape((1, nr_tr, 1))\n")],
  needs='the full training set of CIFAR-100, which is cut out anew after the split variant was written',
  breaks='its images carry the coarse labels',
  demo="""
import io, os, runpy, shutil, tarfile, tempfile
import h5py, numpy as np
class Node(dict):
    attrs = {}
    def create_group(self, name):
        return self.setdefault(name, Node())
    def create_dataset(self, name, data, **kw):
        self[name] = data
    def close(self):
        pass
root = Node()
h5py.File = lambda *a, **k: root
d = tempfile.mkdtemp()
try:
    n = 60000
    ds = np.zeros((n, 3074), np.uint8)
    ds[:, 0], ds[:, 1] = np.arange(n) % 20, np.arange(n) % 97
    ds[1::2, 2:] = 200
    with tarfile.open(os.path.join(d, 'cifar-100-binary.tar.gz'), 'w:gz', compresslevel=1) as f:
        for name, part in (('train', ds[:50000]), ('test', ds[50000:])):
            t = tarfile.TarInfo('cifar-100-binary/%s.bin' % name)
            t.size = part.size
            f.addfile(t, io.BytesIO(part.tobytes()))
    os.environ['BRAINSTORM_DATA_DIR'] = d
    if not hasattr(np, 'fromstring'):
        np.fromstring = np.frombuffer
    runpy.run_path('data/create_cifar100.py')
    for v in root:
        y = root[v]['training']['targets'][0, :, 0]
        assert np.array_equal(y, np.arange(len(y)) % 97), v
finally:
    shutil.rmtree(d)
"""),
]
