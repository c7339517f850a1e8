"""Small reproducible training set-ups: task (network + data), random hooks and
trainers, and a runner that records everything a training run shows."""
import contextlib
import io
import os

import numpy as np

from . import nets, specs


class Task(object):
    """A network architecture with fixed start parameters and a data set; every
    make_* call gives fresh, identically prepared objects."""

    def __init__(self, rng, dtype=np.float64, dropout=None, mask=None, kind=None, n=None,
                 max_layers=2, T=None, heads=1, recurrent=None):
        r = self.r = np.random.RandomState(rng.randint(2 ** 31 - 1))
        self.dtype = dtype
        self.kind = kind or ['class', 'value', 'binary'][r.randint(3)]
        self.n_in = int(r.randint(1, 4))
        self.n_out = int(r.randint(2, 4))
        self.T = T or int(r.randint(1, 4))
        self.N = n or int(r.randint(3, 10))
        self.mask = bool(r.rand() < .3) if mask is None else mask
        g = nets.Gen(r, max_size=4)
        g.add_input('default', (self.n_in,))
        src = g.tensors[-1]
        for _ in range(int(r.randint(0, max_layers + 1))):
            k = int(r.randint(5))
            if k == 0 and recurrent is not False:
                src = g.recurrent('Recurrent', src)
            elif k == 1 and recurrent is not False:
                src = g.recurrent('Lstm', src)
            elif k == 2 and dropout is not False:
                src = g.same_shape('Dropout', {'drop_prob': 0.5}, src)
            else:
                src = g.fc(src, size=g.size())
        src = g.fc(src, size=self.n_out, act='linear', name='Proj')
        typ = {'class': 'SoftmaxCE', 'value': 'SquaredError', 'binary': 'SigmoidCE'}[self.kind]
        shape = (1,) if self.kind == 'class' else (self.n_out,)
        g.inputs['targets'] = dict(shape=list(shape), kind=self.kind, n=self.n_out)
        out = g.add(typ, {'default': [src], 'targets': [('Input', 'targets', shape, False)]},
                    {'predictions': (self.n_out,), 'loss': shape}, name='Out', expose=())
        loss = ('Out', 'loss', shape, False)
        if self.mask:
            g.inputs['mask'] = dict(shape=[1], kind='mask')
            loss = g.add('Mask', {'default': [loss], 'mask': [('Input', 'mask', (1,), False)]},
                         {'default': shape}, name='Masked', expose=())
        g.add('Loss', {'default': [loss]}, {'loss': (1,)}, {'importance': 1.0}, name='Loss',
              expose=())
        for i in range(heads - 1):
            g.head(kind='L2Decay', importance=0.1, mask=False)
        self.spec = g.spec()
        self.has_dropout = any(l['type'] == 'Dropout' for l in self.spec['layers'])
        net = nets.build(self.spec, dtype)
        self.params = nets.random_params(self.spec, net, r)
        self.data = self.make_data(self.N)
        self.valid = self.make_data(int(r.randint(2, 6)))
        self.batch_size = int(r.randint(1, self.N + 1))
        self.iter_seed = int(r.randint(10 ** 6))

    def make_data(self, n):
        d = nets.make_data(self.spec, self.r, self.T, n, dtype=self.dtype)
        if self.mask:
            m = np.zeros_like(d['mask'])
            for i in range(n):
                m[:self.r.randint(1, self.T + 1), i] = 1
            d['mask'] = m
        return d

    def copy_data(self, which='data'):
        return {k: v.copy() for k, v in getattr(self, which).items()}

    def make_net(self, seed=11):
        net = nets.build(self.spec, self.dtype, seed=seed)
        nets.set_params(net, self.params)
        net.output_name = 'Out.outputs.predictions'
        net.rnd.set_seed(seed)
        return net

    def make_iter(self, which='data', shuffle=True, batch_size=None, seed=None):
        from brainstorm.data_iterators import Minibatches
        it = Minibatches(batch_size or self.batch_size, shuffle=shuffle, **self.copy_data(which))
        it.rnd.set_seed(self.iter_seed if seed is None else seed)
        return it

    def steps(self, stepper, n):
        net = self.make_net()
        stepper.start(net)
        for _ in range(n):
            net.provide_external_data(self.copy_data())
            stepper.run()
        return net.get('parameters')


def random_hook(rng, task, tmp, name, logs=()):
    """A random hook; ._kw records its arguments. logs: names of usable logs."""
    from brainstorm import hooks as H
    from brainstorm import scorers as S
    ts = ['epoch', 'epoch', 'update'][rng.randint(3)]
    kw = {'name': name, 'timescale': ts, 'interval': int(rng.randint(1, 4))}
    if rng.rand() < .3:
        kw['verbose'] = bool(rng.rand() < .5)
    layer = task.spec['layers'][int(rng.randint(len(task.spec['layers'])))]['name']
    log = ['rolling_training.total_loss'] + list(logs)
    log = log[rng.randint(len(log))]
    crit = ['min', 'max'][rng.randint(2)]
    k = int(rng.randint(12))
    if k == 0:
        cls = H.MonitorLoss
        kw['iter_name'] = 'valid'
    elif k == 1:
        cls = H.MonitorScores
        kw['iter_name'] = ['valid', 'training_data_iter'][rng.randint(2)]
        kw['scorers'] = [S.Accuracy() if task.kind == 'class' else S.MeanSquaredError(name='mse')]
        if kw['iter_name'] == 'training_data_iter':     # would draw from its generator
            kw['iter_name'] = 'valid2'
    elif k == 2:
        cls = H.MonitorLayerParameters
        kw['layer_name'] = 'Proj'
    elif k == 3:
        cls = H.MonitorLayerGradients
        kw['layer_name'] = 'Proj'
    elif k == 4:
        cls = H.EarlyStopper
        kw.update(log_name=log, patience=int(rng.randint(1, 4)), criterion=crit, timescale='epoch',
                  interval=1)
    elif k == 5:
        cls = H.StopAfterEpoch
        kw.update(max_epochs=int(rng.randint(1, 6)))
    elif k == 6:
        cls = H.StopOnNan
        kw.update(check_parameters=bool(rng.rand() < .5), check_training_loss=bool(rng.rand() < .5))
    elif k == 7:
        cls = H.ModifyStepperAttribute
        kw.update(schedule=specs.random_schedule(rng))
        if type(kw['schedule']).__name__ == 'MultiStep':
            kw['interval'] = 1
    elif k == 8:
        cls = H.SaveBestNetwork
        kw.update(log_name=log, criterion=crit, timescale='epoch', interval=1)
        if rng.rand() < .5:
            kw['filename'] = os.path.join(tmp, name + '.h5')
    elif k == 9:
        cls = H.SaveNetwork
        kw.update(filename=os.path.join(tmp, name + '.h5'))
        kw.pop('verbose', None)
    elif k == 10:
        cls = H.SaveLogs
        kw.update(filename=os.path.join(tmp, name + '.h5'))
        kw.pop('verbose', None)
    else:
        cls = H.StopOnSigQuit
    hook = cls(**kw)
    return hook, kw


def random_trainer(rng, task, tmp, n_hooks):
    from brainstorm import Trainer, scorers as S
    from brainstorm import hooks as H
    trainer = Trainer(specs.random_stepper(rng), verbose=bool(rng.rand() < .5))
    names, kws = [], {}
    if rng.rand() < .6:
        trainer.train_scorers = [S.Accuracy(name='acc') if task.kind == 'class'
                                 else S.MeanSquaredError()]
    for i in range(n_hooks):
        name = 'hook%s%d' % ('zayxb'[rng.randint(5)], i)
        hook, kw = random_hook(rng, task, tmp, name)
        trainer.add_hook(hook)
        names.append(name)
        kws[name] = kw
    stop = H.StopAfterEpoch(int(rng.randint(1, 5)), name='the_end')
    trainer.add_hook(stop)
    names.append('the_end')
    kws['the_end'] = {'max_epochs': stop.max_epochs}
    return trainer, names, kws


def run_training(task, trainer, net=None, it=None, shuffle=True, extra=None):
    """Train a fresh copy of the task's network; everything observable."""
    net = net or task.make_net()
    it = it or task.make_iter(shuffle=shuffle)
    out = io.StringIO()
    named = {'valid': task.make_iter('valid', shuffle=False, batch_size=2),
             'valid2': task.make_iter('valid', shuffle=False, batch_size=3)}
    named.update(extra or {})
    with contextlib.redirect_stdout(out):
        trainer.train(net, it, **named)
    return {'params': net.get('parameters'), 'epoch': trainer.current_epoch_nr,
            'update': trainer.current_update_nr, 'logs': plain(trainer.logs),
            'stdout': out.getvalue(), 'net': net, 'iter': it,
            'lr': getattr(trainer.stepper, 'learning_rate', None)}


def plain(d):
    """logs as plain nested data"""
    if isinstance(d, dict):
        return {k: plain(v) for k, v in d.items()}
    if isinstance(d, (list, tuple)):
        return [plain(x) for x in d]
    if isinstance(d, np.ndarray):
        return d.tolist()
    if isinstance(d, np.generic):
        return d.item()
    return d


def eq(a, b):
    """equal, NaN equal to NaN"""
    if isinstance(a, np.ndarray):
        return isinstance(b, np.ndarray) and a.dtype == b.dtype and a.shape == b.shape and bool(
            np.all((a == b) | (np.isnan(a) & np.isnan(b))))
    if isinstance(a, dict):
        return isinstance(b, dict) and set(a) == set(b) and all(eq(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(
            eq(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, float) and a != a and b != b:
        return True
    return type(a) is type(b) and a == b
