"""C13: the trainer's protocol.

Monitor: recording iterator, stepper, weight modifiers and hooks put every event of a
training run (epoch begin, batch drawn, step, modifier call, hook call with its arguments
and what it sees, start calls) into one log; an independent simulation of the documented
protocol predicts the whole log, the final counters and the logs of the trainer."""
import contextlib
import io
import numpy as np

from vlib import nets
from vlib.training import Task, plain, eq

TECHNIQUE = 'runtime monitor: complete event log of training runs vs a protocol simulation'
LEVEL_NOTE = ('Random hook sets (timescales, intervals, return values, stops, errors), data sizes, resumes, '
              'evaluations; every event, argument, counter and log value compared.')
RULE = ('random trainers with recording parts; 1-3 train/evaluate calls each. Distinct: hook configuration x data x '
        'call sequence.')
ASSUMPTIONS = ['hooks are called once before training starts, with the current counters, and again whenever '
               'train() is called anew (as the trainer documents)']
MIN_COUNTERS = {'events_observed': 50000, 'hook_calls': 15000, 'updates': 8000, 'stops': 600, 'resumes': 300,
                'modifier_calls': 3000, 'rejections_seen': 300, 'log_values': 10000, 'hook_errors': 50}


def families(tier):
    k = 8 if tier == 'quick' else 100
    return [('protocol', 500 * k), ('rolling', 250 * k), ('reject', 200 * k), ('modifiers', 100 * k), ('real', 100 * k)]


def run_case(case, ctx):
    globals()['case_' + case['family']](ctx)


class HookError(Exception):
    pass


def parts():
    from brainstorm.hooks import Hook
    from brainstorm.data_iterators import DataIterator
    from brainstorm.training.steppers import TrainingStepper
    from brainstorm.value_modifiers import ValueModifier

    class RecHook(Hook):
        """script(n) -> ('return', v) | ('stop', has_value, v) | ('raise',), for call number n"""
        def __init__(self, log, script, **kw):
            super(RecHook, self).__init__(**kw)
            self.log, self.script, self.n = log, script, 0

        def start(self, net, stepper, verbose, named_data_iters):
            super(RecHook, self).start(net, stepper, verbose, named_data_iters)
            self.log.append(('start', self.__name__, tuple(sorted(named_data_iters))))

        def __call__(self, epoch_nr, update_nr, net, stepper, logs):
            self.n += 1
            self.log.append(('hook', self.__name__, epoch_nr, update_nr, plain(logs),
                             float(np.sum(net.buffer.parameters))))
            r = self.script[(self.n - 1) % len(self.script)]
            if r[0] == 'return':
                return r[1]
            if r[0] == 'raise':
                raise HookError(self.__name__)
            if r[1]:
                raise StopIteration(r[2])
            raise StopIteration()

    class RecIter(DataIterator):
        def __init__(self, log, batches):
            super(RecIter, self).__init__({k: v.shape for k, v in batches[0].items()}, len(batches))
            self.log, self.batches = log, batches

        def __call__(self, handler):
            self.log.append(('epoch',))
            for i, b in enumerate(self.batches):
                self.log.append(('batch', i))
                yield {k: v.copy() for k, v in b.items()}
            self.log.append(('exhausted',))

    class RecStepper(TrainingStepper):
        __undescribed__ = {'log', 'losses'}

        def __init__(self, log):
            super(RecStepper, self).__init__()
            self.log, self.losses = log, []
            self.learning_rate = 0.1

        def start(self, net):
            super(RecStepper, self).start(net)
            self.log.append(('stepper-start',))

        def run(self):
            self.net.forward_pass(training_pass=True)
            self.log.append(('step', float(np.sum(self.net.buffer.Input.outputs.default))))
            self.net.buffer.parameters[0] += 1
            self.losses.append(dict(self.net.get_loss_values()))

    class RecModifier(ValueModifier):
        """doubles the value; .log is shared on purpose although modifiers are copied"""
        LOG = None

        def __call__(self, handler, view):
            type(self).LOG.append(('modify', self.layer_name, self.view_name))
            handler.mult_st(2.0, view, view)

    return RecHook, RecIter, RecStepper, RecModifier


def value(rng, depth=0):
    k = int(rng.randint(5))
    if k == 0 or depth > 1:
        return float(rng.randint(100))
    if k == 1:
        return 'text%d' % rng.randint(9)
    if k == 2:
        return {'a': value(rng, depth + 1), 'b': value(rng, depth + 1)}
    if k == 3:
        return {'x': None, 'y': float(rng.rand())}
    return int(rng.randint(9))


class Sim(object):
    """the documented protocol"""

    def __init__(self, hooks, batch_sums, p0):
        self.hooks = hooks       # dicts: name, timescale, interval, script, n
        self.sums = batch_sums
        self.epoch = self.update = 0
        self.logs, self.results = {}, {}
        self.ev = []
        self.psum = p0

    def add_log(self, name, val, logs):
        if val is None:
            return
        if isinstance(val, dict):
            sub = logs.setdefault(name, {})
            for k, v in val.items():
                self.add_log(k, v, sub)
        else:
            logs.setdefault(name, []).append(val)

    def emit(self, ts, logs=None):
        stop = False
        count = self.epoch if ts == 'epoch' else self.update
        for h in self.hooks:
            if h['timescale'] != ts or count % h['interval']:
                continue
            self.ev.append(('hook', h['name'], self.epoch, self.update, plain(self.logs), self.psum))
            r = h['script'][h['n'] % len(h['script'])]
            h['n'] += 1
            if r[0] == 'raise':
                raise HookError(h['name'])
            if r[0] == 'stop':
                stop = True
                val = r[2] if r[1] else None
            else:
                val = r[1]
            self.add_log(h['name'], val, self.logs if logs is None else logs)
        return stop

    def train(self, names, max_updates):
        self.ev.append(('stepper-start',))
        for h in self.hooks:
            self.ev.append(('start', h['name'], names))
        if self.emit('update') or self.emit('epoch'):
            return
        while True:
            self.epoch += 1
            self.ev.append(('epoch',))
            stop = False
            for i, s in enumerate(self.sums):
                self.ev.append(('batch', i))
                self.update += 1
                self.ev.append(('step', s))
                self.psum += 1
                if self.emit('update'):
                    stop = True
                    break
            else:
                self.ev.append(('exhausted',))
            self.logs.setdefault('rolling_training', {}).setdefault('total_loss', []).append('*')
            if self.emit('epoch') or stop:
                return
            if self.update > max_updates:
                raise RuntimeError('endless')

    def evaluate(self, names):
        for h in self.hooks:
            self.ev.append(('start', h['name'], names))
        self.emit('epoch', self.results)
        self.emit('update', self.results)


def star(logs):
    """rolling values are judged elsewhere"""
    logs = dict(logs)
    if 'rolling_training' in logs:
        logs['rolling_training'] = {k: ['*'] * len(v) for k, v in logs['rolling_training'].items()}
    return logs


def norm(ev):
    res = []
    ev = [e for e in ev if e[0] == 'stepper-start'] + [e for e in ev if e[0] != 'stepper-start']
    for e in ev:
        if e[0] == 'hook':
            e = e[:4] + (star(e[4]), round(e[5], 4))
        elif e[0] == 'step':
            e = ('step', round(e[1], 6))
        res.append(e)
    return res


def random_hooks(rng, n_updates_hint, allow_raise=True):
    hooks = []
    for i in range(int(rng.randint(0, 6))):
        script = []
        for _ in range(int(rng.randint(1, 5))):
            r = rng.rand()
            if r < .45:
                script.append(('return', value(rng)))
            elif r < .9:
                script.append(('return', None))
            elif r < .97 or not allow_raise:
                script.append(('stop', bool(rng.rand() < .5), value(rng)))
            else:
                script.append(('raise',))
        # lengthen: rarely stop
        script = script * int(rng.randint(1, 3))
        v = ['keep'] if rng.rand() < .6 else []
        if v and rng.rand() < .8:
            script = [s if s[0] == 'return' else ('return', None) for s in script]
        # a name logs either dicts or plain values
        kinds = {isinstance(s[-1], dict) for s in script if s[-1] is not None and len(s) > 1}
        if len(kinds) > 1:
            script = [s if len(s) < 2 or not isinstance(s[-1], dict) else s[:-1] + (1.5,) for s in script]
        if True in kinds:
            script = [(s if len(s) < 2 or s[-1] is None or not isinstance(s[-1], dict)
                       else s[:-1] + ({'a': 2, 'b': {'c': 'd'}},)) for s in script]
        hooks.append({'name': '%s%d' % ('zbaYmq'[rng.randint(6)], i), 'timescale': ['epoch', 'update'][rng.randint(2)],
                      'interval': int(rng.randint(1, 5)), 'script': script, 'n': 0})
    end = int(rng.randint(1, 8))
    hooks.insert(int(rng.randint(len(hooks) + 1)), {
        'name': 'The end', 'timescale': 'epoch', 'interval': 1, 'n': 0,
        'script': [('return', None)] * end + [('stop', False, None)]})
    return hooks


def small_task(rng, mask=False):
    return Task(rng, dropout=False, mask=mask, kind='value', max_layers=1, recurrent=False)


def case_protocol(ctx):
    from brainstorm import Trainer
    RecHook, RecIter, RecStepper, RecModifier = parts()
    rng = ctx.rng
    task = small_task(rng)
    net = task.make_net()
    log = []
    nb = int(rng.randint(1, 6))
    batches = [nets.make_data(task.spec, rng, task.T, int(rng.randint(1, 4))) for _ in range(nb)]
    hooks = random_hooks(rng, nb)
    trainer = Trainer(RecStepper(log), verbose=bool(rng.rand() < .5))
    for h in hooks:
        trainer.add_hook(RecHook(log, h['script'], name=h['name'], timescale=h['timescale'], interval=h['interval'],
                                 verbose=[None, True, False][rng.randint(3)]))
    it = RecIter(log, batches)
    sim = Sim([dict(h) for h in hooks], [float(np.sum(b['default'])) for b in batches], float(np.sum(net.buffer.parameters)))
    calls = []
    for c in range(int(rng.randint(1, 4))):
        kind = 'train' if rng.rand() < .8 else 'evaluate'
        calls.append(kind)
        extra = {'val': it} if rng.rand() < .4 else {}
        err = werr = None
        out = io.StringIO()
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
            try:
                if kind == 'train':
                    trainer.train(net, it, **extra)
                else:
                    res = trainer.evaluate(net, **extra)
            except HookError as e:
                err = str(e)
        try:
            if kind == 'train':
                sim.train(tuple(sorted(list(extra) + ['training_data_iter'])), 500)
            else:
                sim.evaluate(tuple(sorted(extra)))
        except HookError as e:
            werr = str(e)
            ctx.count('hook_errors')
        what = '%s after %s' % (kind, calls[:-1])
        ctx.check(err == werr, 'hook-error', '%s: error from hook %s, expected %s', what, err, werr)
        got, want = norm(log), norm(sim.ev)
        ctx.count('events_observed', len(got))
        ctx.count('hook_calls', sum(1 for e in got if e[0] == 'hook'))
        ctx.count('updates', sum(1 for e in got if e[0] == 'step'))
        if not eq(got, want):
            i = 0
            while i < min(len(got), len(want)) and eq(got[i], want[i]):
                i += 1
            ctx.check(False, 'protocol', '%s: event %d is %s, expected %s (before: %s)', what, i,
                      got[i] if i < len(got) else 'missing', want[i] if i < len(want) else 'nothing more',
                      [e[:4] for e in got[max(0, i - 3):i]])
            return
        ctx.check((trainer.current_epoch_nr, trainer.current_update_nr) == (sim.epoch, sim.update), 'counters',
                  '%s: epoch %s, update %s instead of %s, %s', what, trainer.current_epoch_nr,
                  trainer.current_update_nr, sim.epoch, sim.update)
        ctx.check(eq(star(plain(trainer.logs)), star(sim.logs)), 'logs', '%s: logs %s instead of %s', what,
                  plain(trainer.logs), sim.logs)
        ctx.check(eq(plain(trainer.results), plain(sim.results)), 'results', '%s: results %s instead of %s', what,
                  plain(trainer.results), sim.results)
        ctx.count('log_values', count_leaves(trainer.logs))
        if kind == 'train':
            ctx.count('stops')
        if c:
            ctx.count('resumes')
        if err is not None:
            break
        if rng.rand() < .3:      # a hook added between the calls
            h = {'name': 'late%d' % c, 'timescale': 'epoch', 'interval': 1, 'script': [('return', 7)], 'n': 0}
            trainer.add_hook(RecHook(log, h['script'], name=h['name'], timescale='epoch', interval=1))
            sim.hooks.append(h)
        log[:] = []
        sim.ev = []
    ctx.distinct([(h['timescale'], h['interval'], len(h['script'])) for h in hooks], nb, calls)
    ctx.sample = {'hooks': [(h['name'], h['timescale'], h['interval'], str(h['script'])[:120]) for h in hooks],
                  'batches': nb, 'calls': calls}


def count_leaves(d):
    return sum(count_leaves(v) for v in d.values()) if isinstance(d, dict) else len(d)


def case_rolling(ctx):
    """logged training losses and scores are the averages over the epoch's updates"""
    from brainstorm import Trainer, scorers as S
    RecHook, RecIter, RecStepper, RecModifier = parts()
    rng = ctx.rng
    task = Task(rng, dropout=False, max_layers=2, heads=int(rng.randint(1, 3)), recurrent=False)
    net = task.make_net()
    log = []
    nb = int(rng.randint(1, 6))
    sizes = [int(rng.randint(1, 5)) for _ in range(nb)]
    batches = []
    for n in sizes:
        b = task.make_data(n)
        batches.append(b)
    scorer = {'class': S.Accuracy(name='sc'), 'binary': S.Hamming(name='sc'), 'value': S.MeanSquaredError(name='sc')}[task.kind]
    if task.mask and rng.rand() < .7:
        scorer.mask_name = 'mask'

    class Stepper(RecStepper):
        def run(self):
            super(Stepper, self).run()
            p = self.net.get('Out.outputs.predictions')
            t = self.net.get_input('targets')
            m = self.net.get_input('mask') if scorer.mask_name else np.ones(p.shape[:2] + (1,))
            if task.kind == 'class':
                ok = (p.argmax(-1)[..., None] == t) * m
                self.losses[-1]['sc'] = (ok.sum(), m.sum())
            elif task.kind == 'binary':
                ok = ((p >= .5) == (t > 0)) * m
                self.losses[-1]['sc'] = (ok.sum() / float(p.shape[-1]), m.sum())
            else:
                self.losses[-1]['sc'] = (.5 * (((p - t) ** 2) * m).sum(), m.sum())
    st = Stepper(log)
    trainer = Trainer(st, verbose=False)
    if rng.rand() < .7:
        trainer.train_scorers = [scorer]
    E = int(rng.randint(1, 4))
    stop_update = int(rng.randint(1, nb * E + 1)) if rng.rand() < .4 else None
    from brainstorm.hooks import StopAfterEpoch
    trainer.add_hook(StopAfterEpoch(E))
    if stop_update:
        trainer.add_hook(RecHook(log, [('return', None)] * stop_update + [('stop', False, None)], name='s', timescale='update'))
    trainer.train(net, RecIter(log, batches))
    st.log = log
    n = len(st.losses)
    want_updates = stop_update or nb * E
    ctx.check(n == want_updates == trainer.current_update_nr, 'updates', '%d updates instead of %d', n, want_updates)
    keys = [k for k in st.losses[0] if k != 'sc']
    exp = {k: [] for k in keys}
    exp['sc'] = []
    for e in range(0, n, nb):
        part = st.losses[e:e + nb]
        w = np.array(sizes[:len(part)], float)
        for k in keys:
            exp[k].append(float(sum(x * p[k] for x, p in zip(w, part)) / w.sum()))
        exp['sc'].append(float(sum(p['sc'][0] for p in part) / sum(p['sc'][1] for p in part)))
    got = trainer.logs['rolling_training']
    names = set(keys) | ({'sc'} if trainer.train_scorers else set())
    ctx.check(set(got) == names, 'rolling-names', 'rolling_training logs %s instead of %s', sorted(got), sorted(names))
    ctx.count('stops')
    ctx.count('updates', n)
    for k in names & set(got):
        ctx.count('log_values', len(exp[k]))
        ctx.close(np.array(got[k]), np.array(exp[k]), 'rolling-value', 'rolling %s (batches %s)' % (k, sizes),
                  rtol=1e-7, atol=1e-9)
    ctx.distinct('rolling', task.kind, task.mask, sizes, E, stop_update)


def case_reject(ctx):
    from brainstorm import Trainer, hooks as H, scorers as S
    from brainstorm.training import SgdStepper
    from brainstorm.training.schedules import Linear
    RecHook, RecIter, RecStepper, RecModifier = parts()
    rng = ctx.rng
    task = small_task(rng, mask=bool(rng.rand() < .4))
    net = task.make_net()
    log = []
    trainer = Trainer(RecStepper(log) if rng.rand() < .7 else SgdStepper(.1), verbose=False)
    trainer.add_hook(RecHook(log, [('return', None)], name='first'))
    trainer.add_hook(H.StopAfterEpoch(1, name='end'))
    batch = task.make_data(3)
    k = int(rng.randint(7))
    extra = {}
    exc = (AssertionError,)
    if k == 0:
        batch['more'] = batch['default']
    elif k == 1:
        batch.pop('targets')
    elif k == 2:
        batch['Default'] = batch.pop('default')
    elif k == 3:
        trainer.add_hook([H.MonitorLoss('valid'), H.MonitorScores('valid', [S.MeanSquaredError()])][rng.randint(2)])
        extra = {'Valid': task.make_iter()}
        exc = (KeyError,)
    elif k == 4:
        cls = [H.MonitorLayerDeltas, H.MonitorLayerGradients, H.MonitorLayerInOuts, H.MonitorLayerParameters][rng.randint(4)]
        trainer.add_hook(cls(['proj', 'Nope', ''][rng.randint(3)]))
    elif k == 5:
        trainer.add_hook(H.ModifyStepperAttribute(Linear(1, 0, 5), 'speed'))
    elif k == 6:
        n = ['first', 'end'][rng.randint(2)]
        before = list(trainer.hooks.items())
        ctx.raises((ValueError,), lambda: trainer.add_hook(H.StopOnNan(name=n)), 'duplicate-name', 'hook called %s twice' % n)
        ctx.check(list(trainer.hooks.items()) == before, 'duplicate-name', 'hooks changed by a rejected one')
        trainer.add_hook(H.StopOnNan())
        ctx.raises((ValueError,), lambda: trainer.add_hook(H.StopOnNan()), 'duplicate-name', 'same default name twice')
        ctx.distinct('reject', k)
        return
    p = net.get('parameters')
    it = RecIter(log, [batch])

    def go():
        with contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()):
            trainer.train(net, it, **extra)
    ctx.raises(exc, go, 'unsuitable', 'training with problem %d' % k)
    ctx.check(not any(e[0] in ('step', 'hook', 'batch') for e in log), 'not-before-update', 'problem %d: %s', k, log[:5])
    ctx.same(net.get('parameters'), p, 'not-before-update', 'parameters changed')
    ctx.check((trainer.current_epoch_nr, trainer.current_update_nr) == (0, 0), 'not-before-update', 'counters advanced')
    ctx.distinct('reject', k, task.mask)


def case_modifiers(ctx):
    """weight modifiers run once after each update, before the hooks see the weights"""
    from brainstorm import Trainer
    RecHook, RecIter, RecStepper, RecModifier = parts()
    rng = ctx.rng
    task = small_task(rng)
    net = task.make_net()
    log = []
    RecModifier.LOG = log
    net.set_weight_modifiers({'Proj': {'W': RecModifier(), 'bias': [RecModifier()]}})
    nb = int(rng.randint(1, 5))
    batches = [task.make_data(2) for _ in range(nb)]
    E = int(rng.randint(1, 4))
    trainer = Trainer(RecStepper(log), verbose=False)
    ts = ['update', 'epoch'][rng.randint(2)]
    trainer.add_hook(RecHook(log, [('return', None)], name='watch', timescale=ts))
    trainer.add_hook(RecHook(log, [('return', None)] * E + [('stop', False, None)], name='end'))
    trainer.train(net, RecIter(log, batches))
    seq = [e[0] if e[0] != 'hook' else 'hook:' + e[1] for e in log if e[0] in ('step', 'modify', 'hook')]
    want = (['hook:watch'] if ts == 'update' else []) + (['hook:watch'] if ts == 'epoch' else []) + ['hook:end']
    for e in range(E):
        for b in range(nb):
            want += ['step', 'modify', 'modify'] + (['hook:watch'] if ts == 'update' else [])
        want += (['hook:watch'] if ts == 'epoch' else []) + ['hook:end']
    ctx.check(seq == want, 'modifier-order', 'sequence %s instead of %s', seq, want)
    ctx.count('modifier_calls', seq.count('modify'))
    ctx.count('updates', seq.count('step'))
    ctx.count('stops')
    ctx.distinct('modifiers', nb, E, ts)


def case_real(ctx):
    """real steppers and iterators: update count, epoch count, data order, hook times"""
    from vlib.training import random_trainer, run_training
    import shutil
    import tempfile
    rng = ctx.rng
    RecHook, RecIter, RecStepper, RecModifier = parts()
    task = Task(rng)
    tmp = tempfile.mkdtemp(prefix='c13')
    try:
        trainer, names, kws = random_trainer(rng, task, tmp, int(rng.randint(0, 4)))
        log = []
        trainer.add_hook(RecHook(log, [('return', None)], name='u', timescale='update'))
        trainer.add_hook(RecHook(log, [('return', None)], name='e', timescale='epoch'))
        with contextlib.redirect_stderr(io.StringIO()):
            run_training(task, trainer)
        nb = -(-task.N // task.batch_size)
        ups = [e[3] for e in log if e[0] == 'hook' and e[1] == 'u']
        ctx.check(ups == list(range(len(ups))), 'update-numbers', 'update hook at %s', ups)
        ctx.check(trainer.current_update_nr == len(ups) - 1, 'update-numbers', 'counter %s', trainer.current_update_nr)
        for e in log:
            if e[0] == 'hook' and e[1] == 'e':
                last = e[2] == trainer.current_epoch_nr
                ctx.check(e[3] == e[2] * nb or (last and e[3] <= e[2] * nb), 'epoch-length',
                          'epoch %d ended at update %d with %d batches', e[2], e[3], nb)
        ctx.count('updates', len(ups))
        ctx.count('stops')
        ctx.count('hook_calls', sum(1 for e in log if e[0] == 'hook'))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    ctx.distinct('real', nb, names)
