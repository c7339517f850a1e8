import os, runpy
_b3 = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'b3.py'))
NET, B = _b3['NET'], _b3['B']
TRAIN = NET + """
def task(n=6, seed=0):
    rnd = np.random.RandomState(seed)
    inp = Input(out_shapes={'default': ('T', 'B', 2), 'targets': ('T', 'B', 1)})
    d = SquaredDifference(name='d')
    inp >> FullyConnected(1, name='f') >> 'inputs_1' - d >> Loss(name='l')
    inp - 'targets' >> 'inputs_2' - d
    net = Network.from_layer(d)
    net.set_handler(NumpyHandler(np.float64))
    net.initialize(.1)
    data = dict(default=rnd.randn(1, n, 2), targets=rnd.randn(1, n, 1))
    return net, data
"""
BUGS = [
 dict(id='c16_loss_by_steps', property='C16',
  edits=[(B + 'scorers.py', "scores[name].append((net._buffer_manager.batch_size, loss))",
          "scores[name].append((net._buffer_manager.batch_size *\n                             net._buffer_manager.time_size, loss))")],
  needs='batches of different numbers of time steps (cut according to a mask) in one evaluation',
  breaks='the losses of the batches are weighted by time steps although each of them is an average over sequences',
  demo=NET + """
from brainstorm.tools import evaluate
net = Network.from_layer(Input(out_shapes={'default': ('T', 'B', 2), 'mask': ('T', 'B', 1)}) >> FullyConnected(2, name='f') >> Loss(name='l'))
net.set_handler(NumpyHandler(np.float64))
net.initialize(.5)
x = np.random.RandomState(0).rand(4, 2, 2)
m = np.ones((4, 2, 1))
m[2:, 0] = 0
x[2:, 0] = -1
one = evaluate(net, Minibatches(1, shuffle=False, cut_according_to='mask', default=x, mask=m))
a = evaluate(net, Minibatches(1, shuffle=False, default=x[:2, :1], mask=m[:2, :1]))
b = evaluate(net, Minibatches(1, shuffle=False, default=x[:, 1:], mask=m[:, 1:]))
assert np.allclose(one['total_loss'], (a['total_loss'] + b['total_loss']) / 2)
"""),
 dict(id='c16_out_name_order', property='C16',
  edits=[(B + 'scorers.py', "net.get(sc.out_name or out_name or net.output_name)", "net.get(out_name or sc.out_name or net.output_name)")],
  needs='an evaluation given a default output name together with a scorer naming another output',
  breaks='the scorer is applied to the default output instead of its own',
  demo=NET + """
from brainstorm.tools import evaluate
from brainstorm.scorers import MeanSquaredError
inp = Input(out_shapes={'default': ('T', 'B', 2), 'targets': ('T', 'B', 1)})
d = SquaredDifference(name='d')
inp >> FullyConnected(1, name='a') >> FullyConnected(1, name='b') >> 'inputs_1' - d >> Loss(name='l')
inp - 'targets' >> 'inputs_2' - d
net = Network.from_layer(d)
net.set_handler(NumpyHandler(np.float64))
net.initialize(.7)
rnd = np.random.RandomState(0)
it = Minibatches(2, shuffle=False, default=rnd.randn(1, 4, 2), targets=rnd.randn(1, 4, 1))
s = lambda o: MeanSquaredError(out_name=o)
a = evaluate(net, it, [s('a.outputs.default')])
b = evaluate(net, it, [s('a.outputs.default')], out_name='b.outputs.default')
assert np.allclose(a['MeanSquaredError'], b['MeanSquaredError'])
"""),
 dict(id='c17_window_at_border', property='C17',
  edits=[(B + 'handlers/_cpuop.pyx', "                        x = x_out * stride_x-padding\n                        x_min = int_max(x, 0)\n                        x_max = int_min(x + pool_w, in_w)\n", "                        x = x_out * stride_x-padding\n                        x_min = int_max(x, 0)\n                        x_max = int_min(x_min + pool_w, in_w)\n")],
  needs='average pooling with padding on an image wider than the window',
  breaks='the backward kernel takes windows hanging over the left border to be of full width',
  demo="""
import numpy as np
from brainstorm.handlers import NumpyHandler
from brainstorm.handlers import _cpuop as k
x = np.random.RandomState(0).randn(1, 1, 5, 1)
def f(x):
    o = np.zeros((1, 3, 4, 1))
    k.avgpool_forward(x, (1, 2), o, 1, (1, 2))
    return o
w = np.random.RandomState(1).randn(1, 3, 4, 1)
g = np.zeros_like(x)
k.avgpool_backward(x, (1, 2), f(x), 1, (1, 2), g, w)
n = np.array([[(f(x + 1e-4 * e) * w).sum() - (f(x - 1e-4 * e) * w).sum()] for e in np.eye(5).reshape(5, 1, 1, 5, 1)]).ravel() / 2e-4
assert np.allclose(g.ravel(), n, atol=1e-6), (g.ravel(), n)
"""),
 dict(id='c20_input_name_lost', property='C20',
  edits=[(B + 'structure/construction.py', "        return ConstructionWrapper(self.layer, input_name=other,\n                                   output_name=self.output_name)", "        return ConstructionWrapper(self.layer, input_name=other)")],
  needs="an input name written in front of a layer that already has an output name, as in 'x' - (layer - 'y')",
  breaks='the name of the output is forgotten, so that the connection starts at the default output',
  demo=NET + """
from brainstorm.layers.mask_layer import Mask
from brainstorm.layers.softmax_ce_layer import SoftmaxCE
inp = Input(out_shapes={'default': ('T', 'B', 3), 'targets': ('T', 'B', 1)})
ce = SoftmaxCE(name='ce')
inp >> ce
inp - 'targets' >> ('targets' - (ce - 'loss')) >> Loss(name='l')
try:
    net = Network.from_layer(ce)
except Exception as e:
    assert False, e
assert net.architecture['ce']['@outgoing_connections'] == {'loss': ['l.default']}
"""),
 dict(id='c21_projection_name', property='C21',
  edits=[(B + 'tools.py', "    outlayer_name = outlayer_name or 'Output'\n    projection_name = projection_name or outlayer_name + '_projection'\n", "    projection_name = projection_name or 'Output_projection'\n    outlayer_name = outlayer_name or 'Output'\n")],
  needs='in and output layers asked for with a name for the output layer but none for the projection',
  breaks='the projection layer is called Output_projection instead of by the name of the output layer',
  demo=NET + """
from brainstorm.tools import get_in_out_layers
i, o = get_in_out_layers('regression', 3, 2, outlayer_name='mine')
net = Network.from_layer(i >> FullyConnected(4) >> o)
assert 'mine_projection' in net.layers
"""),
 dict(id='c22_previous_window', property='C22',
  edits=[(B + 'handlers/_cpuop.pyx', "                        value = min_value\n                        max_idx = -1\n                        for in_y in range(y_min, y_max):", "                        value = min_value\n                        for in_y in range(y_min, y_max):"),
         (B + 'handlers/_cpuop.pyx', "                        argmax[i, y_out, x_out, c] = <DTYPE_t>max_idx\n                        if max_idx == -1:\n                            outputs[i, y_out, x_out, c] = 0\n", "                        argmax[i, y_out, x_out, c] = <DTYPE_t>max_idx\n                        if value == min_value:\n                            outputs[i, y_out, x_out, c] = 0\n")],
  needs='max pooling with a window that lies entirely in the padding',
  breaks='the gradient of an empty window goes to the place of the maximum of the window before it, which may belong to another sample',
  demo="""
import numpy as np
from brainstorm.handlers import _cpuop as k
x = np.random.RandomState(0).rand(2, 4, 4, 1)
out, arg = np.zeros((2, 4, 4, 1)), np.zeros((2, 4, 4, 1))
k.maxpool_forward(x, (2, 2), out, 2, (2, 2), arg)
d = np.zeros_like(out)
d[:, 0] = 1
d[:, -1] = 1
d[:, :, 0] = 1
d[:, :, -1] = 1
g = np.zeros_like(x)
k.maxpool_backward(x, (2, 2), out, 2, (2, 2), arg, g, d)
assert not g.any()
"""),
 dict(id='c23_shared_steps', property='C23',
  edits=[(B + 'training/schedules.py', "        self.steps = [0] + steps + [np.inf]\n", "        steps.insert(0, 0)\n        steps.append(np.inf)\n        self.steps = steps\n")],
  needs='two multi-step schedules made from one list of steps',
  breaks='each schedule extends the list it was given, so that the earlier one is shifted by a step',
  demo="""
from brainstorm.training.schedules import MultiStep
steps = [2, 4]
a = MultiStep(1., steps, [.5, .1])
want = [a(e, e, 'epoch', 1, None, None, None) for e in range(6)]
assert steps == [2, 4]
MultiStep(9., steps, [.5, .1])
assert [a(e, e, 'epoch', 1, None, None, None) for e in range(6)] == want == [1, 1, .5, .5, .1, .1]
"""),
 dict(id='c13_results_in_logs', property='C13',
  edits=[(B + 'training/trainer.py', "self._add_log(name, hook_log, hook.verbose, logs=logs)", "self._add_log(name, hook_log, hook.verbose,\n                          logs=logs or self.logs)")],
  needs='an evaluation by the trainer, whose results are still empty',
  breaks='the first values of an evaluation are written to the training log instead of the results',
  demo=TRAIN + """
net, data = task()
t = Trainer(SgdStepper(.1), verbose=False)
t.add_hook(MonitorLoss('valid', name='v'))
res = t.evaluate(net, valid=Minibatches(3, shuffle=False, **data))
assert 'v' not in t.logs and 'v' in res
"""),
 dict(id='c25_first_iterator', property='C25',
  edits=[(B + 'hooks.py', "        self.iter = named_data_iters[self.iter_name]\n\n    def __call__(self, epoch_nr, update_nr, net, stepper, logs):\n        return evaluate(net, self.iter, scorers=())", "        self.iter = self.iter or named_data_iters[self.iter_name]\n\n    def __call__(self, epoch_nr, update_nr, net, stepper, logs):\n        return evaluate(net, self.iter, scorers=())")],
  needs='a second call of train with another iterator under the same name',
  breaks='the monitor goes on evaluating on the iterator of the first call',
  demo=TRAIN + """
from brainstorm.tools import evaluate
net, data = task()
other = task(seed=5)[1]
t = Trainer(SgdStepper(.1), verbose=False)
t.add_hook(MonitorLoss('valid', name='v'))
t.add_hook(StopAfterEpoch(1))
t.train(net, Minibatches(3, shuffle=False, **data), valid=Minibatches(3, shuffle=False, **data))
it = Minibatches(3, shuffle=False, **other)
t.train(net, Minibatches(3, shuffle=False, **data), valid=it)
assert np.allclose(t.logs['v']['total_loss'][-1], evaluate(net, it)['total_loss'])
"""),
 dict(id='c14_live_parameters', property='C14',
  edits=[(B + 'hooks.py', "            params = net.get('parameters')\n", "            params = net.buffer.parameters\n")],
  needs='a best-network hook without a file, and training that goes on after the best value',
  breaks='the hook holds the live parameters instead of a copy of them',
  demo=TRAIN + """
net, data = task()
t = Trainer(SgdStepper(.1), verbose=False)
h = SaveBestNetwork('rolling_training.total_loss', criterion='max')
t.add_hook(h)
t.add_hook(StopAfterEpoch(4))
class Keep(Hook):
    def __call__(self, epoch_nr, update_nr, net, stepper, logs):
        if epoch_nr == 1:
            Keep.p = net.get('parameters')
t.add_hook(Keep())
t.train(net, Minibatches(3, shuffle=False, **data))
assert np.array_equal(h.load_best_network(), Keep.p)
"""),
 dict(id='c14_exact_epoch', property='C14',
  edits=[(B + 'hooks.py', "        if epoch_nr >= self.max_epochs:", "        if epoch_nr == self.max_epochs:")],
  needs='an interval that steps over the limit, or training resumed beyond it',
  breaks='training does not stop unless the hook is called in exactly the last epoch',
  demo=TRAIN + """
net, data = task()
t = Trainer(SgdStepper(.01), verbose=False)
t.add_hook(StopAfterEpoch(3, interval=2))
class Guard(Hook):
    def __call__(self, epoch_nr, update_nr, net, stepper, logs):
        assert epoch_nr < 9
t.add_hook(Guard())
t.train(net, Minibatches(3, shuffle=False, **data))
assert t.current_epoch_nr == 4
"""),
 dict(id='c14_quit_kept', property='C14',
  edits=[(B + 'hooks.py', "        self.quit = False\n        signal.signal(signal.SIGQUIT, self.receive_signal)", "        signal.signal(signal.SIGQUIT, self.receive_signal)")],
  needs='a second training run after one that was ended by the quit signal',
  breaks='the signal of the first run ends the second one at once',
  demo=TRAIN + """
import os, signal
net, data = task()
t = Trainer(SgdStepper(.01), verbose=False)
h = StopOnSigQuit()
t.add_hook(h)
class Send(Hook):
    def __call__(self, epoch_nr, update_nr, net, stepper, logs):
        if epoch_nr in (1, 3):
            os.kill(os.getpid(), signal.SIGQUIT)
        assert epoch_nr < 9
t.add_hook(Send())
it = Minibatches(3, shuffle=False, **data)
t.train(net, it)
n = t.current_epoch_nr
t.train(net, it)
assert t.current_epoch_nr > n + 0
"""),
]
