import os, runpy
_b5 = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'b5.py'))
NET, B, TRAIN = _b5['NET'], _b5['B'], _b5['TRAIN']
BUGS = [
 dict(id='c25_dropout_draws', property='C25',
  edits=[(B + 'layers/dropout_layer.py', "        if training_pass:\n            _h.generate_probability_mask(buffers.internals.mask,\n                                         1 - self.drop_prob)\n", "        _h.generate_probability_mask(buffers.internals.mask,\n                                     1 - self.drop_prob)\n        if training_pass:\n")],
  needs='a network with dropout, trained with a monitor that evaluates the network, compared to training without it',
  breaks='evaluating draws dropout masks, so that a monitor changes the masks of the training that follows',
  demo=TRAIN + """
from brainstorm.layers.dropout_layer import Dropout
def run(watch):
    net, data = task()
    inp = Input(out_shapes={'default': ('T', 'B', 2), 'targets': ('T', 'B', 1)})
    d = SquaredDifference(name='d')
    inp >> Dropout() >> FullyConnected(1, name='f') >> 'inputs_1' - d >> Loss(name='l')
    inp - 'targets' >> 'inputs_2' - d
    net = Network.from_layer(d)
    net.set_handler(NumpyHandler(np.float64, seed=3))
    net.initialize(.1)
    t = Trainer(SgdStepper(.1), verbose=False)
    if watch:
        t.add_hook(MonitorLoss('valid'))
    t.add_hook(StopAfterEpoch(3))
    t.train(net, Minibatches(3, shuffle=False, **data), valid=Minibatches(3, shuffle=False, **data))
    return net.get('parameters')
assert np.array_equal(run(False), run(True))
"""),
 dict(id='c10_fallback_not_inherited', property='C10',
  edits=[(B + 'structure/view_references.py', "        current_fallback = references.get('fallback', parent_fallback)\n", "        current_fallback = references.get('fallback')\n")],
  needs='a fallback given for the whole network and a dictionary for one layer without a fallback of its own, with an initializer that cannot handle the shape',
  breaks='the fallback of the network does not hold inside the dictionary of a layer',
  demo=NET + """
from brainstorm.initializers import DenseSqrtFanIn, Identity
net = rnn()
try:
    net.initialize({'default': 0, 'fallback': 7., 'r': {'default': Identity()}})
except Exception as e:
    assert False, e
assert (net.get('r.parameters.bz') == 7).all()
"""),
 dict(id='c21_one_option', property='C21',
  edits=[(B + 'tools.py', "    padding = 0\n    stride = 1\n    while args:\n        assert args[0] in 'ps', '{}'.format(args)\n        if args[0] == 'p':\n            padding = args[1]\n            args = args[2:]\n        elif args[0] == 's':\n            stride = args[1]\n            args = args[2:]\n\n    return layers.Pooling2D", "    padding = 0\n    stride = 1\n    if args:\n        assert args[0] in 'ps', '{}'.format(args)\n        if args[0] == 'p':\n            padding = args[1]\n            args = args[2:]\n        elif args[0] == 's':\n            stride = args[1]\n            args = args[2:]\n\n    return layers.Pooling2D")],
  needs='a pooling layer with padding and stride in a specification',
  breaks='only the first of the two options is used',
  demo=NET + """
from brainstorm.tools import create_net_from_spec
net = create_net_from_spec('classification', (6, 6, 1), 2, 'P3p1s2')
a = [v for v in net.architecture.values() if v['@type'] == 'Pooling2D'][0]
assert a['padding'] == 1 and tuple(a['stride']) == (2, 2)
"""),
 dict(id='c13_scores_carried', property='C13',
  edits=[(B + 'training/trainer.py', "        should_stop = False\n        while not should_stop:\n            self.current_epoch_nr += 1\n            sys.stdout.flush()\n            train_scores = {s.__name__: [] for s in self.train_scorers}\n            train_scores.update({n: [] for n in net.get_loss_values()})\n", "        should_stop = False\n        train_scores = {s.__name__: [] for s in self.train_scorers}\n        while not should_stop:\n            self.current_epoch_nr += 1\n            sys.stdout.flush()\n            train_scores.update({n: [] for n in net.get_loss_values()})\n")],
  needs='training scorers and more than one epoch',
  breaks='the scores of the training are averaged over all epochs so far',
  demo=TRAIN + """
from brainstorm.scorers import MeanSquaredError
net, data = task()
net.output_name = 'f.outputs.default'
t = Trainer(SgdStepper(.1), verbose=False)
t.train_scorers = [MeanSquaredError()]
t.add_hook(StopAfterEpoch(3))
t.train(net, Minibatches(6, shuffle=False, **data))
r = t.logs['rolling_training']
assert np.allclose(r['MeanSquaredError'], np.array(r['total_loss']) / 2) or np.allclose(r['MeanSquaredError'], r['total_loss'])
"""),
 dict(id='c12_nesterov_velocity', property='C12',
  edits=[(B + 'training/steppers.py', "        self.net.handler.mult_add_st(-learning_rate,\n                                     self.net.buffer.gradients,\n                                     self.velocity)\n        self.net.handler.mult_add_st(-learning_rate,\n                                     self.net.buffer.gradients,\n                                     self.net.buffer.parameters)", "        self.net.handler.mult_add_st(-learning_rate,\n                                     self.net.buffer.gradients,\n                                     self.velocity)\n        self.net.handler.mult_add_st(-self.learning_rate * (1 - self.momentum),\n                                     self.net.buffer.gradients,\n                                     self.net.buffer.parameters)")],
  needs='Nesterov momentum without scaling of the learning rate, for the parameters',
  breaks='the parameters move by the scaled learning rate even when scaling is off',
  demo=TRAIN + """
from brainstorm.training.steppers import NesterovStepper
net, data = task()
s = NesterovStepper(.1, .5, scale_learning_rate=False)
net.provide_external_data(data)
s.start(net)
p = net.get('parameters')
s.run()
assert np.allclose(net.get('parameters'), p - .1 * net.get('gradients'))
"""),
 dict(id='c11_global_reset', property='C11',
  edits=[(B + 'randomness.py', "        if seed is None:\n            seed = global_rnd.generate_seed()\n        super(RandomState, self).__init__(seed)\n        self._seed = seed\n", "        if seed is None:\n            seed = global_rnd.generate_seed()\n        super(RandomState, self).__init__(seed)\n        self._seed = None if seed == 0 else seed\n")],
  needs='a random state with the seed 0 that is reset',
  breaks='the seed 0 is not remembered, so that a reset starts an arbitrary stream',
  demo="""
from brainstorm.randomness import RandomState
r = RandomState(0)
a = r.rand(5)
r.reset()
assert (r.rand(5) == a).all()
"""),
]
