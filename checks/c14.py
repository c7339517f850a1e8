"""C14: stopping and saving hooks.

Monitor: training runs with a scripted stepper (parameters identify the update), scripted
log values (ties, improvements, nan, inf), scripted non-finite parameters and losses and
real quit signals; a watcher hook records when training really ends and what files and
caches hold after every hook round; a reference decides from the script alone when the
condition holds first and what has to be saved."""
import contextlib
import io
import os
import shutil
import signal
import tempfile

import h5py
import numpy as np

from vlib.training import Task, plain, eq

TECHNIQUE = 'runtime monitor: scripted training runs, observed stop and save moments vs the documented condition'
LEVEL_NOTE = ('Random scripts of log values, faults and signals, criteria, patience, timescales, intervals, hook '
              'orders and resumes; the moment of every stop and the content after every save are compared.')
RULE = ('random script x hook x timescale x interval x order. Distinct: script and settings.')
ASSUMPTIONS = ['equal values are no improvement; patience counts log entries since the best one; a hook that stands '
               'before the monitor in the list sees the value of the previous round']
MIN_COUNTERS = {'stops_observed': 2000, 'conditions_never_met': 100, 'saves_observed': 3000, 'signals_sent': 150,
                'faults_injected': 300, 'files_loaded': 800, 'improvements': 1000, 'resumes': 100}
E_MAX = 9


def families(tier):
    k = 3 if tier == 'quick' else 60
    return [('early', 900 * k), ('threshold', 600 * k), ('epochs', 400 * k), ('nan', 500 * k), ('quit', 250 * k),
            ('best', 350 * k), ('network', 120 * k), ('logs', 200 * k)]


def run_case(case, ctx):
    globals()['case_' + case['family']](ctx)


def parts():
    from brainstorm.hooks import Hook
    from brainstorm.training.steppers import TrainingStepper

    class Script(Hook):
        """logs the scripted values one after the other"""
        def __init__(self, values, **kw):
            super(Script, self).__init__(**kw)
            self.values, self.n = values, 0

        def __call__(self, epoch_nr, update_nr, net, stepper, logs):
            v = self.values[self.n % len(self.values)]
            self.n += 1
            return v

    class Watch(Hook):
        """calls back after the hooks before it"""
        def __init__(self, fn, **kw):
            super(Watch, self).__init__(**kw)
            self.fn = fn

        def __call__(self, epoch_nr, update_nr, net, stepper, logs):
            self.fn(epoch_nr, update_nr, net, logs)

    class Step(TrainingStepper):
        """parameters become a function of the update number; runs `act` at each update"""
        def __init__(self, act=None):
            super(Step, self).__init__()
            self.n, self.act = 0, act
            self.learning_rate = .1

        def run(self):
            self.net.forward_pass(training_pass=True)
            self.n += 1
            p = self.net.buffer.parameters
            p[:] = stamp(p.size, self.n)
            if self.act:
                self.act(self.n, self.net)
    return Script, Watch, Step


def stamp(size, n):
    return np.arange(size) * 0.125 + 10. * n


class Run(object):
    """one training set-up with nb batches per epoch"""

    def __init__(self, ctx, act=None, nb=None):
        from brainstorm import Trainer
        self.ctx = ctx
        rng = self.rng = ctx.rng
        self.Script, self.Watch, Step = parts()
        self.task = Task(rng, dropout=False, mask=False, kind='value', max_layers=1, recurrent=False)
        self.nb = nb or int(rng.randint(1, 4))
        self.task.batch_size = 1
        self.net = self.task.make_net()
        self.data = self.task.make_data(self.nb)
        self.stepper = Step(act)
        self.trainer = Trainer(self.stepper, verbose=bool(rng.rand() < .2))
        self.last = []
        self.calls = []

    def it(self):
        from brainstorm.data_iterators import Minibatches
        return Minibatches(1, shuffle=False, **{k: v.copy() for k, v in self.data.items()})

    def add(self, *hooks):
        for h in hooks:
            self.trainer.add_hook(h)

    def safety(self):
        from brainstorm.hooks import StopAfterEpoch
        self.add(StopAfterEpoch(E_MAX, name='safety'))

    def train(self):
        out = io.StringIO()
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
            self.trainer.train(self.net, self.it())

    def rounds(self, timescale, interval):
        """(epoch, update) of the successive calls of a hook in one first train() call"""
        if timescale == 'epoch':
            return [(e, e * self.nb) for e in range(0, E_MAX + 1) if e % interval == 0]
        res = [(0, 0)]
        for u in range(1, E_MAX * self.nb + 1):
            if u % interval == 0:
                res.append((-(-u // self.nb), u))
        return res

    def stop_at(self, script, hook, before, vals, met):
        """(epoch, update) at which the hook, called at timescale/interval `hook`, first sees
        logged values that fulfil met(seen); the values are logged at timescale/interval
        `script`, by a hook added before or after it."""
        seen = []
        events = [(0, 0, 'update'), (0, 0, 'epoch')]
        for e in range(1, E_MAX + 1):
            events += [(e, (e - 1) * self.nb + j, 'update') for j in range(1, self.nb + 1)]
            events.append((e, e * self.nb, 'epoch'))
        for e, u, ts in events:
            n = e if ts == 'epoch' else u
            for who in (['s', 'h'] if before else ['h', 's']):
                wts, wiv = script if who == 's' else hook
                if wts != ts or n % wiv:
                    continue
                if who == 's':
                    seen.append(vals[len(seen)])
                elif seen and met(seen):
                    return e, u
        return None

    def expect_moment(self, want, what):
        got = (self.trainer.current_epoch_nr, self.trainer.current_update_nr)
        self.ctx.count('conditions_never_met' if want is None else 'stops_observed')
        want = want or (E_MAX, E_MAX * self.nb)
        self.ctx.check(got == want, 'stop-moment', '%s: training ended at epoch %d, update %d instead of %d, %d (%d '
                       'updates per epoch)', what, got[0], got[1], want[0], want[1], self.nb)

    def expect_stop(self, k, timescale, interval, what):
        """the hook's condition holds at its k-th call (None: never before the safety stop)"""
        rounds = self.rounds(timescale, interval)
        got = (self.trainer.current_epoch_nr, self.trainer.current_update_nr)
        if k is None or k >= len(rounds):
            want = (E_MAX, E_MAX * self.nb)
            self.ctx.count('conditions_never_met')
        else:
            want = rounds[k]
            self.ctx.count('stops_observed')
        self.ctx.check(got == want, 'stop-moment', '%s: training ended at epoch %d, update %d instead of %d, %d (%d '
                       'updates per epoch)', what, got[0], got[1], want[0], want[1], self.nb)


def settings(rng):
    return ['epoch', 'epoch', 'update'][rng.randint(3)], int(rng.randint(1, 4))


def values(rng, special=False):
    n = 60
    kind = int(rng.randint(4))
    if kind == 0:
        v = [float(x) for x in rng.randint(0, 4, n)]
    elif kind == 1:
        v = [float(x) for x in np.round(np.cumsum(rng.randn(n)), 2)]
    elif kind == 2:
        v = [float(x) * (1 if rng.rand() < .5 else 1) for x in range(n)]
        if rng.rand() < .5:
            v = [-x for x in v]
        cut = int(rng.randint(1, 8))
        v = v[:cut] + [v[cut]] * (n - cut)
    else:
        v = [float(x) for x in rng.randn(n)]
    if special:
        for i in range(n):
            if rng.rand() < .1:
                v[i] = [np.nan, np.inf, -np.inf][rng.randint(3)]
    return v


def logged(rng, vals):
    """script values and the log name to look at"""
    r = rng.rand()
    if r < .4:
        return vals, 'mon'
    if r < .7:
        return [{'loss': v, 'other': -1} for v in vals], 'mon.loss'
    return [{'a': {'b': v, 'c': 3}} for v in vals], 'mon.a.b'


def case_early(ctx):
    from brainstorm.hooks import EarlyStopper
    rng = ctx.rng
    run = Run(ctx)
    vals = values(rng)
    script, name = logged(rng, vals)
    ts, iv = settings(rng)
    sched = (ts, iv) if rng.rand() < .4 else settings(rng)   # of the hook that logs
    pat = int(rng.randint(1, 5))
    crit = ['min', 'max'][rng.randint(2)]
    before = rng.rand() < .75
    kw = {} if crit == 'min' and rng.rand() < .3 else {'criterion': crit}
    h = EarlyStopper(name, pat, name='early', timescale=ts, interval=iv, **kw) if pat > 1 or rng.rand() < .7 \
        else EarlyStopper(name, name='early', timescale=ts, interval=iv, **kw)
    s = run.Script(script, name='mon', timescale=sched[0], interval=sched[1])
    run.add(*([s, h] if before else [h, s]))
    run.safety()
    run.train()

    def met(seen):
        best = max(seen) if crit == 'max' else min(seen)
        return len(seen) - 1 - seen.index(best) >= pat
    stop = run.stop_at(sched, (ts, iv), before, vals, met)
    what = 'EarlyStopper(patience=%d, %s) on %s, %s/%d, logged %s, %s' % (
        pat, crit, vals[:12], ts, iv, sched, 'after the monitor' if before else 'before it')
    run.expect_moment(stop, what)
    ctx.distinct('early', pat, crit, ts, iv, before, stop)
    ctx.sample = {'what': what, 'stop': stop}


def case_threshold(ctx):
    from brainstorm.hooks import StopAfterThresholdReached
    rng = ctx.rng
    run = Run(ctx)
    vals = values(rng)
    script, name = logged(rng, vals)
    ts, iv = settings(rng)
    sched = (ts, iv) if rng.rand() < .4 else settings(rng)
    crit = ['min', 'max'][rng.randint(2)]
    thr = vals[int(rng.randint(20))] if rng.rand() < .7 else float(np.round(rng.randn(), 2))
    before = rng.rand() < .75
    h = StopAfterThresholdReached(name, thr, crit, name='thr', timescale=ts, interval=iv)
    s = run.Script(script, name='mon', timescale=sched[0], interval=sched[1])
    run.add(*([s, h] if before else [h, s]))
    run.safety()
    run.train()
    stop = run.stop_at(sched, (ts, iv), before, vals,
                       lambda seen: max(seen) >= thr if crit == 'max' else min(seen) <= thr)
    run.expect_moment(stop, 'StopAfterThresholdReached(%s, %s) on %s, %s/%d, logged %s' % (
        thr, crit, vals[:12], ts, iv, sched))
    ctx.distinct('threshold', crit, ts, iv, before, stop)


def case_epochs(ctx):
    from brainstorm.hooks import StopAfterEpoch
    rng = ctx.rng
    run = Run(ctx)
    ts, iv = settings(rng)
    m = int(rng.randint(0, E_MAX + 1))
    run.add(StopAfterEpoch(m, name='limit', timescale=ts, interval=iv))
    run.safety()
    run.train()
    stop = None
    for k, (e, u) in enumerate(run.rounds(ts, iv)):
        if e >= m:
            stop = k
            break
    run.expect_stop(stop, ts, iv, 'StopAfterEpoch(%d) %s/%d' % (m, ts, iv))
    # a new, larger limit lets training go on to exactly that limit
    if stop is not None and run.trainer.current_epoch_nr < E_MAX and ts == 'epoch' and iv == 1:
        run.trainer.hooks['limit'].max_epochs = E_MAX - 1 if run.trainer.current_epoch_nr < E_MAX - 1 else E_MAX
        want = run.trainer.hooks['limit'].max_epochs
        run.train()
        ctx.count('resumes')
        ctx.check(run.trainer.current_epoch_nr == want, 'resumed-limit', 'resumed to epoch %d instead of %d',
                  run.trainer.current_epoch_nr, want)
        ctx.check(run.trainer.current_update_nr == want * run.nb, 'resumed-limit', 'updates %d', run.trainer.current_update_nr)
        n = run.trainer.current_update_nr
        run.train()
        ctx.check(run.trainer.current_update_nr == n, 'resumed-limit', 'further updates although the limit is reached')
        ctx.count('stops_observed', 2)
    ctx.distinct('epochs', m, ts, iv, run.nb)


def case_nan(ctx):
    from brainstorm.hooks import StopOnNan
    rng = ctx.rng
    bad = [np.nan, np.inf, -np.inf][rng.randint(3)]
    kind = ['parameter', 'log', 'loss', 'none', 'late'][rng.randint(5)]
    at = int(rng.randint(1, 12))
    cp, cl = bool(rng.rand() < .6), bool(rng.rand() < .6)
    pos = rng.randint(10 ** 6)

    def act(n, net):
        if kind == 'parameter' and n >= at:
            net.buffer.parameters[pos % net.buffer.parameters.size] = bad
    run = Run(ctx, act)
    ts, iv = settings(rng)
    vals = [float(x) for x in rng.randn(60)]
    if kind == 'log':
        vals[at] = bad
    elif kind == 'late':          # several entries, only another log is bad
        pass
    script, name = logged(rng, vals)
    check_log = rng.rand() < .7
    names = ([name] if rng.rand() < .5 else name) if check_log else ()
    if kind == 'loss':
        b = int(rng.randint(run.nb))
        run.data['targets'][0, b, 0] = bad
    s = run.Script(script, name='mon', timescale=ts, interval=iv)
    h = StopOnNan(names, cp, cl, name='nan', timescale=ts, interval=iv)
    run.add(s, h)
    run.safety()
    run.train()
    stop = None
    for k, (e, u) in enumerate(run.rounds(ts, iv)):
        cond = False
        if check_log and not np.all(np.isfinite(vals[:k + 1])):
            cond = True
        # parameters turn bad at update `at` (then stay bad)
        if kind == 'parameter' and u >= at and cp:
            cond = True
        # the loss log is written at the end of each epoch, before the epoch hooks
        if kind == 'loss' and cl:
            done = e if ts == 'epoch' else (u - 1) // run.nb if u else 0
            if done >= 1:
                cond = True
        # non-finite parameters make the next losses non-finite
        if kind == 'parameter' and cl:
            done = e if ts == 'epoch' else (u - 1) // run.nb if u else 0
            if done * run.nb > at:       # an update after the fault belongs to a logged epoch
                cond = None if not cond else cond
        if cond is None:
            ctx.count('undecided')
            stop = 'any'
            break
        if cond:
            stop = k
            break
    if kind != 'none':
        ctx.count('faults_injected')
    if stop != 'any':
        run.expect_stop(stop, ts, iv, 'StopOnNan(%s, %s, %s) with fault %s %s at %d, %s/%d' % (names, cp, cl, kind, bad, at, ts, iv))
    ctx.distinct('nan', kind, cp, cl, check_log, ts, iv, str(stop))


def case_quit(ctx):
    from brainstorm.hooks import StopOnSigQuit
    rng = ctx.rng
    at = int(rng.randint(1, 14))
    sent = [None]
    where = ['step', 'hook-before', 'hook-after'][rng.randint(3)]
    old = signal.getsignal(signal.SIGQUIT)
    try:
        run = Run(ctx)
        ts, iv = settings(rng)
        rounds = run.rounds(ts, iv)

        def send():
            if sent[0] is None:
                sent[0] = True
                ctx.count('signals_sent')
                os.kill(os.getpid(), signal.SIGQUIT)
                for _ in range(3):        # let Python run its signal handlers
                    pass

        def act(n, net):
            if where == 'step' and n == at:
                send()

        def watch(e, u, net, logs):
            if where != 'step' and watch.k == at:
                send()
            watch.k += 1
        watch.k = 0
        run.stepper.act = act
        w = run.Watch(watch, name='w', timescale=ts, interval=iv)
        h = StopOnSigQuit(name='quit', timescale=ts, interval=iv)
        run.add(*([w, h] if where == 'hook-before' else [h, w]))
        run.safety()
        run.train()
        stop = None
        for k, (e, u) in enumerate(rounds):
            if (where == 'step' and u >= at) or (where == 'hook-before' and k >= at) or (where == 'hook-after' and k > at):
                stop = k
                break
        run.expect_stop(stop, ts, iv, 'StopOnSigQuit %s/%d, signal in %s %d' % (ts, iv, where, at))
        # the next run is not stopped by the old signal
        if stop is not None and run.trainer.current_epoch_nr < E_MAX:
            n = run.trainer.current_update_nr
            sent[0] = True
            watch.k = -10 ** 6
            run.train()
            ctx.count('resumes')
            ctx.check(run.trainer.current_epoch_nr == E_MAX and run.trainer.current_update_nr > n, 'old-signal',
                      'resumed training stopped at epoch %d', run.trainer.current_epoch_nr)
    finally:
        signal.signal(signal.SIGQUIT, old)
    ctx.distinct('quit', where, ts, iv, at)


def case_best(ctx):
    from brainstorm.hooks import SaveBestNetwork
    rng = ctx.rng
    tmp = tempfile.mkdtemp(prefix='c14')
    try:
        run = Run(ctx)
        vals = values(rng, special=rng.rand() < .4)
        script, name = logged(rng, vals)
        ts, iv = settings(rng)
        crit = ['min', 'max'][rng.randint(2)]
        fn = os.path.join(tmp, 'best.h5') if rng.rand() < .5 else None
        kw = {} if crit == 'max' and rng.rand() < .3 else {'criterion': crit}
        h = SaveBestNetwork(name, filename=fn, name='best', timescale=ts, interval=iv, **kw)
        state = {'k': 0, 'best': None, 'held': None, 'p': None}
        start = run.net.get('parameters')

        def watch(e, u, net, logs):
            v = vals[state['k'] % len(vals)]
            live = net.get('parameters')
            b = state['best']
            if not np.isnan(v) and not (b is None and np.isinf(v) and (v > 0) == (crit == 'min')):
                if b is None or (v < b if crit == 'min' else v > b):
                    state['best'], state['p'] = v, live
                    ctx.count('improvements')
            state['k'] += 1
            what = 'SaveBestNetwork(%s, %s) after %s, %s/%d' % (crit, 'file' if fn else 'memory', vals[:state['k']], ts, iv)
            if state['p'] is None:
                if fn:
                    ctx.check(not os.path.exists(fn), 'saved-too-early', what)
                else:
                    ctx.check(h.load_best_network() is None, 'saved-too-early', what)
                return
            if fn:
                n2 = h.load_best_network()
                got = n2.get('parameters')
                ctx.count('files_loaded')
                ctx.check(sorted(n2.layers) == sorted(net.layers), 'best-network', '%s: other layers', what)
            else:
                got = h.load_best_network()
                got = got.get('parameters') if hasattr(got, 'layers') else np.asarray(got)
            ctx.count('saves_observed')
            ctx.same(got, state['p'], 'best-network', what)
        run.add(run.Script(script, name='mon', timescale=ts, interval=iv), h,
                run.Watch(watch, name='w', timescale=ts, interval=iv))
        run.safety()
        run.train()
        if rng.rand() < .3:
            run.trainer.hooks['safety'].max_epochs = E_MAX + 2
            run.train()
            ctx.count('resumes')
        ctx.check(state['k'] > 1, 'workload', 'nothing observed')
        # what is held does not follow the live network
        if state['p'] is not None:
            run.net.buffer.parameters[:] = -1
            got = h.load_best_network()
            got = got.get('parameters') if hasattr(got, 'layers') else np.asarray(got)
            ctx.same(got, state['p'], 'best-follows-live', 'after the network changed')
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    ctx.distinct('best', crit, ts, iv, fn is None, str(state['best']), state['k'])


def case_network(ctx):
    from brainstorm.hooks import SaveNetwork
    from brainstorm import Network
    rng = ctx.rng
    tmp = tempfile.mkdtemp(prefix='c14')
    try:
        run = Run(ctx)
        ts, iv = settings(rng)
        fn = os.path.join(tmp, 'net.h5')
        h = SaveNetwork(fn, name='save', timescale=ts, interval=iv)
        rounds = set(run.rounds(ts, iv))
        state = {'p': None, 'ts': None}

        def watch(e, u, net, logs, which):
            if which == ts and (e, u) in rounds:
                state['p'] = net.get('parameters')
            if state['p'] is None:
                ctx.check(not os.path.exists(fn), 'saved-too-early', 'at %s', (e, u))
                return
            n2 = h.load_network()
            ctx.count('files_loaded')
            ctx.count('saves_observed')
            ctx.same(n2.get('parameters'), state['p'], 'saved-network', 'SaveNetwork %s/%d at epoch %d update %d' % (ts, iv, e, u))
            ctx.check(eq(plain(n2.architecture), plain(net.architecture)), 'saved-network', 'architecture')
        run.add(h)
        for w in ('update', 'epoch'):
            run.add(run.Watch(lambda e, u, n, l, w=w: watch(e, u, n, l, w), name='w' + w, timescale=w))
        run.safety()
        run.trainer.hooks['safety'].max_epochs = int(rng.randint(1, 5))
        run.train()
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    ctx.distinct('network', ts, iv, run.nb)


def read(g):
    res = {}
    for k in g:
        if isinstance(g[k], h5py.Group):
            res[k] = read(g[k])
        else:
            a = g[k][...]
            res[k] = [x.decode() if isinstance(x, bytes) else x for x in a.tolist()]
    return res


def case_logs(ctx):
    from brainstorm.hooks import SaveLogs
    rng = ctx.rng
    tmp = tempfile.mkdtemp(prefix='c14')
    try:
        run = Run(ctx)
        ts, iv = settings(rng)
        fn = os.path.join(tmp, 'logs.h5')
        script, _ = logged(rng, values(rng, special=True))
        ts2, iv2 = settings(rng)
        h = SaveLogs(fn, name='save', timescale=ts, interval=iv)
        state = {'logs': None}
        rounds = set(run.rounds(ts, iv))

        def watch(e, u, net, logs, which):
            if which == ts and (e, u) in rounds:
                state['logs'] = plain(logs)
            if state['logs'] is None:
                ctx.check(not os.path.exists(fn), 'saved-too-early', 'at %s', (e, u))
                return
            with h5py.File(fn, 'r') as f:
                got = read(f)
            ctx.count('files_loaded')
            ctx.count('saves_observed')
            ctx.check(same_logs(got, state['logs']), 'saved-logs', 'SaveLogs %s/%d at epoch %d: file %s, live at the '
                      'time of the save %s', ts, iv, e, got, state['logs'])
        run.add(run.Script(script, name='mon', timescale=ts2, interval=iv2))
        if rng.rand() < .4:
            run.add(run.Script(['some text %d' % i for i in range(5)], name='text'))
        run.add(h)
        for w in ('update', 'epoch'):
            run.add(run.Watch(lambda e, u, n, l, w=w: watch(e, u, n, l, w), name='w' + w, timescale=w))
        run.safety()
        run.trainer.hooks['safety'].max_epochs = int(rng.randint(1, 5))
        run.train()
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    ctx.distinct('logs', ts, iv, ts2, iv2)


def same_logs(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and set(a) == set(b) and all(same_logs(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(same_logs(x, y) for x, y in zip(a, b))
    return a == b or (isinstance(a, float) and isinstance(b, float) and a != a and b != b)
