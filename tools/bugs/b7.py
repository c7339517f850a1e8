import os, runpy
_b5 = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'b5.py'))
NET, B, TRAIN = _b5['NET'], _b5['B'], _b5['TRAIN']
BUGS = [
 dict(id='c04_same_array', property='C04',
  edits=[(B + 'structure/network.py', "        self.buffer = self._buffer_manager.resize(time_size, batch_size)\n        for name, buf in self.buffer.Input.outputs.items():\n            if name not in data.keys() and all_inputs is False:\n                continue\n",
          "        self.buffer = self._buffer_manager.resize(time_size, batch_size)\n        known = self.__dict__.setdefault('_provided', {})\n        for name, buf in self.buffer.Input.outputs.items():\n            if not all_inputs and name not in data:\n                continue\n            if known.get(name) is data[name] and len(data) > 1:\n                continue  # is still there\n            known[name] = data[name]\n")],
  needs='the very same array object provided again after its contents, the size or the backend changed',
  breaks='the data are not copied again, the network works on what was there before',
  demo=TRAIN + """
net, data = task()
net.provide_external_data(data)
net.forward_pass()
data['default'] *= 2
net.provide_external_data(data)
net.forward_pass()
a = net.get('f.outputs.default')
net.provide_external_data({k: v.copy() for k, v in data.items()})
net.forward_pass()
assert np.array_equal(a, net.get('f.outputs.default'))
"""),
 dict(id='c07_float_digits', property='C07',
  edits=[(B + 'describable.py', "    elif (isinstance(this, (bool, float, type(None))) or\n          isinstance(this, six.integer_types) or\n          isinstance(this, six.string_types)):\n        return this\n    else:",
    "    elif isinstance(this, float):\n        return float('{:.12g}'.format(this))\n    elif (isinstance(this, (bool, type(None))) or\n          isinstance(this, six.integer_types) or\n          isinstance(this, six.string_types)):\n        return this\n    else:")],
  needs='a setting with more than twelve significant digits',
  breaks='numbers are rounded in the description',
  demo=NET + """
from brainstorm.describable import get_description, create_from_description
assert create_from_description(get_description(SgdStepper(1 / 3.))).learning_rate == 1 / 3.
"""),
 dict(id='c08_resumed_epoch', property='C08',
  edits=[(B + 'data_iterators.py', "        indices = np.arange(self.length)\n        if self.shuffle:\n            self.rnd.shuffle(indices)\n        for idx in indices:\n            batch_slice",
          "        if not self.pending:\n            indices = np.arange(self.length)\n            if self.shuffle:\n                self.rnd.shuffle(indices)\n            self.pending = [int(i) for i in indices]\n        while self.pending:\n            idx = self.pending.pop(0)\n            batch_slice"),
         (B + 'data_iterators.py', "        self.shuffle = shuffle\n", "        self.shuffle = shuffle\n        self.pending = []\n")],
  needs='an epoch that was abandoned before its end, or two at the same time',
  breaks='the next epoch delivers only what was left over',
  demo=NET + """
it = Minibatches(1, shuffle=False, default=np.arange(5.).reshape(1, 5, 1))
for d in it():
    break
assert [d['default'][0, 0, 0] for d in it()] == [0, 1, 2, 3, 4]
"""),
 dict(id='c08_same_dict', property='C08',
  edits=[(B + 'data_iterators.py', "            data = {k: v[time_slice, batch_slice]\n                    for k, v in self.data.items()}\n            yield data\n",
          "            batch.update((k, v[time_slice, batch_slice])\n                         for k, v in self.data.items())\n            yield batch\n"),
         (B + 'data_iterators.py', "        for idx in indices:\n            batch_slice", "        batch = {}\n        for idx in indices:\n            batch_slice")],
  needs='batches that are kept while the iteration goes on',
  breaks='all batches are one and the same dictionary',
  demo=NET + """
it = Minibatches(1, shuffle=False, default=np.arange(5.).reshape(1, 5, 1))
assert [d['default'][0, 0, 0] for d in list(it())] == [0, 1, 2, 3, 4]
"""),
 dict(id='c09_pad_dtype', property='C09',
  edits=[(B + 'data_iterators.py', "                new_data = val * np.ones((t, b, h + 2 * size, w + 2 * size, c))\n", "                new_data = np.empty((t, b, h + 2 * size, w + 2 * size, c),\n                                    dtype=data[name].dtype)\n                new_data.fill(val)\n")],
  needs='images of an integer type padded with a fractional value',
  breaks='the padding is rounded to an integer',
  demo=NET + """
it = Pad(Undivided(default=np.ones((1, 2, 3, 3, 1), dtype=np.int64)), {'default': 1}, {'default': .5})
assert next(it())['default'][0, 0, 0, 0, 0] == .5
"""),
 dict(id='c17_avg_square', property='C17',
  edits=[(B + 'handlers/_cpuop.pyx', "                        x = x_out * stride_x-padding\n                        x_min = int_max(x, 0)\n                        x_max = int_min(x + pool_w, in_w)\n                        pool_size =", "                        x = x_out * stride_x-padding\n                        x_min = int_max(x, 0)\n                        x_max = int_min(x + pool_w, in_h)\n                        pool_size =")],
  needs='average pooling of images that are not square, backward, with windows reaching the border',
  breaks='deltas are written behind the rows of the image, or not at all',
  demo="""
import numpy as np
from brainstorm.handlers import NumpyHandler
h = NumpyHandler(np.float64)
x = np.ones((1, 2, 6, 1))
y = np.zeros((1, 1, 3, 1))
dx = np.zeros_like(x)
h.avgpool2d_backward_batch(x, (2, 2), y, 0, (2, 2), dx, np.ones_like(y))
assert np.allclose(dx, .25), dx
"""),
 dict(id='c19_divide_mv_shape', property='C19',
  edits=[(B + 'handlers/debug_handler.py', "        assert v.shape == (m.shape[0], 1) or v.shape == (1, m.shape[1]), \\\n            \"invalid shape {}\".format(v.shape)\n        self.handler.divide_mv(", "        assert v.shape[0] == m.shape[0] or v.shape[1] == m.shape[1], \\\n            \"invalid shape {}\".format(v.shape)\n        self.handler.divide_mv(")],
  needs='a matrix where a vector is expected',
  breaks='dividing by a matrix of the same shape passes silently',
  demo="""
import numpy as np
from brainstorm.handlers import NumpyHandler
from brainstorm.handlers.debug_handler import DebugHandler
d = DebugHandler(NumpyHandler(np.float64))
m, v = d.ones((3, 2)), d.ones((3, 2))
try:
    d.divide_mv(m, v, d.zeros((3, 2)))
except AssertionError:
    pass
else:
    assert False
"""),
 dict(id='c24_round_first', property='C24',
  edits=[(B + 'tools.py', "    split_idxs = np.round(np.cumsum(normalized_ratios) * N).astype(np.int)\n", "    split_idxs = np.cumsum(np.round(normalized_ratios * N).astype(np.int))\n")],
  needs='a number of samples that the ratios do not divide',
  breaks='samples at the end are lost',
  demo=NET + """
from brainstorm.tools import split
x = np.arange(10.).reshape(1, 10, 1)
parts = split(x, ratios=(1, 1, 1))
assert np.array_equal(np.concatenate([p[0] for p in parts], 1), x)
"""),
]
