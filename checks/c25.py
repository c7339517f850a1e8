"""C25: monitoring reports the truth and never disturbs training.

Monitor: probes around every monitoring hook photograph the network at that moment; twin
networks recompute losses, scores, gradients and deltas from the photographed parameters and
the recorded batches; trainings with and without (or with re-timed) monitors are recorded
update by update - batches, parameters, logs - and compared bit by bit. A stand-in for the
plotting library keeps what the visualizer draws, to be compared with the logs."""
import contextlib
import io
import warnings

import numpy as np

from checks.c16 import alone, define, loss_of
from vlib import nets
from vlib.training import Task, plain, eq

TECHNIQUE = 'runtime monitor: photographed network state and twin recomputation vs logged values; monitored vs unmonitored runs'
LEVEL_NOTE = ('Random networks, steppers, monitor sets, orders, timescales, intervals, resumes; every logged value and '
              'every update of the paired runs is compared.')
RULE = 'random training x random monitor set. Distinct: network signature, monitor classes and timing.'
ASSUMPTIONS = ['an evaluating monitor uses its own iterator, or an unshuffled one',
               'monitors of gradients, deltas and activations report the buffers at the moment of their call (an '
               'evaluating monitor called before them refills the activations)']
MIN_COUNTERS = {'losses_verified': 1500, 'scores_verified': 1000, 'statistics_verified': 20000, 'paired_runs': 600,
                'paired_updates': 5000, 'gradients_recomputed': 500, 'resumes': 300, 'monitor_calls': 8000,
                'progress_runs': 150, 'other_logs': 500, 'other_data': 60, 'plots': 200, 'plotted_values': 2500}


def families(tier):
    k = 2 if tier == 'quick' else 40
    return [('scores', 220 * k), ('layers', 1100 * k), ('pairs', 500 * k), ('progress', 130 * k), ('evaluate', 80 * k),
            ('order', 100 * k), ('plots', 100 * k)]


def run_case(case, ctx):
    globals()['case_' + case['family']](ctx)


def quiet(f, *a, **kw):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **kw)


def probe_class():
    from brainstorm.hooks import Hook

    class Probe(Hook):
        def __init__(self, fn, **kw):
            super(Probe, self).__init__(**kw)
            self.fn = fn

        def __call__(self, epoch_nr, update_nr, net, stepper, logs):
            self.fn(epoch_nr, update_nr, net, logs)
    return Probe


def timing(rng):
    return dict(timescale=['epoch', 'update'][rng.randint(2)], interval=int(rng.randint(1, 4)))


def make_scorers(rng, task):
    from brainstorm import scorers as S
    kinds = {'class': ['Accuracy'], 'value': ['MeanSquaredError'], 'binary': ['MeanSquaredError', 'Hamming']}[task.kind]
    kw = {'mask_name': 'mask'} if task.mask else {}
    return [(k, getattr(S, k)(name='s' + k, **kw)) for k in kinds]


def stepper(rng):
    from brainstorm.training import SgdStepper, MomentumStepper, NesterovStepper
    lr = float(rng.choice([.01, .1]))
    return [lambda: SgdStepper(lr), lambda: MomentumStepper(lr, .9), lambda: NesterovStepper(lr, .5)][rng.randint(3)]


# ------------------------------------------------------------------------ truth

def case_scores(ctx):
    from brainstorm import Trainer
    from brainstorm.hooks import MonitorLoss, MonitorScores, StopAfterEpoch
    rng = ctx.rng
    task = Task(rng, np.float64)
    if task.mask:
        for d in (task.data, task.valid):
            d['mask'][:] = 1                    # cutting by mask is the business of C16
            d['mask'][-1:, ::2] = rng.randint(2)
    net, twin = task.make_net(), task.make_net()
    tr = Trainer(stepper(rng)(), verbose=bool(rng.rand() < .3))
    if rng.rand() < .5:
        tr.train_scorers = [s for _, s in make_scorers(rng, task)]
    Probe = probe_class()
    photos = {}
    sets = {}
    for i in range(int(rng.randint(1, 3))):
        t = timing(rng)
        it = ['valid', 'training_data_iter', 'all'][rng.randint(3)]
        sc = make_scorers(rng, task) if rng.rand() < .6 else []
        name = 'm%d' % i
        photos[name] = []

        def photo(e, u, n, logs, name=name):
            photos[name].append((n.get('parameters'), datasets[-1]))
        tr.add_hook(Probe(photo, name='before_' + name, **t))
        if sc or rng.rand() < .3:
            tr.add_hook(MonitorScores(it, [s for _, s in sc], name=name, **t))
        else:
            tr.add_hook(MonitorLoss(it, name=name, **t))
        sets[name] = (it, sc)
    bs = {'valid': int(rng.randint(1, 6)), 'all': int(rng.randint(1, task.N + 1))}
    datasets = []
    for part in range(1 if rng.rand() < .6 else 2):       # a second call with other data under the same names
        if part:
            ctx.count('other_data')
            del tr.hooks['stop']
            for d in (task.data, task.valid):
                d['default'][...] = rng.randn(*d['default'].shape)
        datasets.append({k: task.copy_data(k) for k in ('data', 'valid')})
        tr.add_hook(StopAfterEpoch(tr.current_epoch_nr + int(rng.randint(1, 4)), name='stop'))
        quiet(tr.train, net, task.make_iter(shuffle=False),
              valid=task.make_iter('valid', shuffle=bool(rng.rand() < .5), batch_size=bs['valid']),
              all=task.make_iter('data', shuffle=True, batch_size=bs['all'], seed=5))
    for name in sorted(sets):
        it, sc = sets[name]
        log = tr.logs.get(name, {})
        names = {'total_loss'} | {s.__name__ for _, s in sc}
        ctx.check(set(log) == names or not photos[name], 'log-names', '%s logged %s, expected %s', name, sorted(log), sorted(names))
        for k in names & set(log):
            ctx.check(len(log[k]) == len(photos[name]), 'log-length', '%s.%s has %d entries for %d calls', name, k, len(log[k]), len(photos[name]))
        for j, (p, known) in enumerate(photos[name]):
            data = known['valid' if it == 'valid' else 'data']
            m = data.get('mask')
            ctx.count('monitor_calls')
            twin.buffer.parameters[:] = p
            y = np.concatenate(alone(twin, data, ['Out.outputs.predictions'], np.float64)['Out.outputs.predictions'], 1)
            want = loss_of(task.kind, data['targets'], y, m)
            if np.isfinite(want) and abs(want) < 1e9 and j < len(log.get('total_loss', [])):
                ctx.close(log['total_loss'][j], want, 'loss', '%s on %s, call %d' % (name, it, j), rtol=1e-8, atol=1e-10)
                ctx.count('losses_verified')
            for k, s in sc:
                q = np.sort(y, -1)
                near = (q[..., -1] - q[..., -2]).min() < 1e-7 if k == 'Accuracy' else np.abs(y - .5).min() < 1e-7 if k == 'Hamming' else False
                if near or not np.all(np.isfinite(y)) or j >= len(log.get(s.__name__, [])):
                    continue
                a, w = define(k, data['targets'], y, m)
                ctx.close(log[s.__name__][j], a / w, 'score', '%s.%s on %s, call %d' % (name, k, it, j), rtol=1e-8, atol=1e-10)
                ctx.count('scores_verified')
    ctx.distinct('s', nets.signature(task.spec), sorted((v[0], len(v[1])) for v in sets.values()), bs, task.N)
    ctx.sample = {'net': nets.brief(task.spec), 'monitors': {k: v[0] for k, v in sets.items()}}


SECTIONS = {'Parameters': ['parameters'], 'Gradients': ['gradients'],
            'Deltas': ['internals', 'output_deltas', 'input_deltas'], 'InOuts': ['inputs', 'outputs']}


def snapshot(net, layer, kind):
    res = {}
    b = net.buffer[layer]
    for sec in SECTIONS[kind]:
        if sec in b:
            res[sec] = {k: np.array(b[sec][k]) for k in b[sec].keys()}
    return res


def verify_stats(ctx, log, arrays, kind, what, j, index=None):
    """log: nested dictionary of lists of the monitor; arrays: what the network held;
    index: entries seen per view so far (a view without data yet is not logged)"""
    for sec in SECTIONS[kind]:
        node = log if sec in ('parameters', 'gradients', 'internals') else log.get(sec, {})
        views = {k: v for k, v in arrays.get(sec, {}).items() if v.size}
        have = {k for k in node if not (kind == 'Deltas' and sec == 'internals' and k in ('output_deltas', 'input_deltas'))}
        if index is None:
            ctx.check(have == set(views), 'views', '%s: %s logged %s, exists %s', what, sec, sorted(have), sorted(views))
        else:
            ctx.check(set(views) <= have, 'views', '%s: %s logged %s, exists %s', what, sec, sorted(have), sorted(views))
        for k in sorted(set(views) & have):
            v = np.asarray(views[k], np.float64)
            want = {'min': v.min(), 'avg': v.mean(), 'max': v.max()}
            if kind == 'Parameters' and v.ndim == 2:
                n = np.sqrt((v ** 2).sum(axis=1))
                want.update(min_L2_norm=n.min(), avg_L2_norm=n.mean(), max_L2_norm=n.max())
            for q in want:
                if not ctx.check(q in node[k], 'views', '%s: no %s of %s', what, q, k):
                    continue
                at = j if index is None else index.get((sec, k), 0)
                if not ctx.check(at < len(node[k][q]), 'views', '%s: %s of %s logged %d times', what, q, k, len(node[k][q])):
                    continue
                got = node[k][q][at]
                ctx.close(got, want[q], 'statistic', '%s: %s of %s.%s, call %d' % (what, q, sec, k, j),
                          rtol=1e-12 if q in ('min', 'max') else 1e-9, atol=0 if q in ('min', 'max') else 1e-12 * (1 + np.abs(v).max()))
                ctx.count('statistics_verified')
            if index is not None:
                index[sec, k] = index.get((sec, k), 0) + 1
    return index


def case_layers(ctx):
    from brainstorm import Trainer
    from brainstorm import hooks as H
    from brainstorm.training import SgdStepper
    from brainstorm.data_iterators import Minibatches
    rng = ctx.rng
    spec = nets.random_spec(rng, menu={'Dropout': 0, 'BatchNorm': 0}, max_layers=4, images=rng.rand() < .3)
    net, twin = nets.build(spec), nets.build(spec)
    nets.set_params(net, nets.random_params(spec, net, rng))
    N, T = int(rng.randint(1, 6)), int(rng.randint(1, 4))
    data = nets.make_data(spec, rng, T, N)

    rows = []

    class Rec(SgdStepper):
        def run(self):
            rows.append((self.net.get('parameters'), {i: self.net.get_input(i) for i in data}))
            return super(Rec, self).run()
    tr = Trainer(Rec(1e-3), verbose=bool(rng.rand() < .3))
    tr.add_hook(H.StopAfterEpoch(int(rng.randint(1, 3))))
    Probe = probe_class()
    photos, sets = {}, {}
    layers = [l for l in sorted(net.layers)]
    for i in range(int(rng.randint(1, 4))):
        layer = layers[int(rng.randint(len(layers)))]
        if layer == 'Input':
            kind = 'InOuts'
        else:
            kind = sorted(SECTIONS)[int(rng.randint(4))]
        t = timing(rng)
        name = 'q%d' % i
        photos[name] = []

        def photo(e, u, n, logs, name=name, layer=layer, kind=kind):
            photos[name].append((u, snapshot(n, layer, kind), plain(logs.get(name, {}))))

        def after(e, u, n, logs, name=name, layer=layer, kind=kind):
            ctx.check(eq(photos[name][-1][1], snapshot(n, layer, kind)), 'buffers-changed', 'the monitor of %s changed them', kind)
        tr.add_hook(Probe(photo, name='b_' + name, **t))
        default = rng.rand() < .2 and kind + layer not in [s[1] + s[0] for s in sets.values()]
        h = getattr(H, 'MonitorLayer' + kind)(layer, **dict(t, **({} if default else {'name': name})))
        tr.add_hook(h)
        if default:
            ctx.check(h.__name__ == 'Monitor%s_%s' % (kind, layer), 'default-name', h.__name__)
        sets[name] = (layer, kind, h.__name__)
        tr.add_hook(Probe(after, name='a_' + name, **t))
    it = Minibatches(int(rng.randint(1, N + 1)), shuffle=bool(rng.rand() < .5), cut_according_to=None, **data)
    quiet(tr.train, net, it)
    for name in sorted(sets):
        layer, kind, key = sets[name]
        log = tr.logs.get(key, {})
        index = {}
        for j, (u, arrays, _) in enumerate(photos[name]):
            ctx.count('monitor_calls')
            if not all(np.all(np.isfinite(v)) for s in arrays.values() for v in s.values()):
                return
            verify_stats(ctx, log, arrays, kind, '%s of %s' % (kind, layer), j, index)
            if u and kind in ('Gradients', 'Deltas'):
                # the same from a twin that only sees this batch
                p, batch = rows[u - 1]
                twin.buffer.parameters[:] = p
                twin.provide_external_data({k: v.copy() for k, v in batch.items()})
                twin.forward_pass(training_pass=True)
                twin.backward_pass()
                for sec in ('gradients', 'output_deltas', 'input_deltas'):
                    for k, v in arrays.get(sec, {}).items():
                        w = np.array(twin.buffer[layer][sec][k])
                        ctx.close(v, w, 'recomputed', '%s of %s.%s at update %d' % (kind, layer, k, u), rtol=1e-9,
                                  atol=1e-12 * (1 + np.abs(w).max(initial=0)))
                ctx.count('gradients_recomputed')
        ends = index
        for sec in SECTIONS[kind]:
            node = log if sec in ('parameters', 'gradients', 'internals') else log.get(sec, {})
            for k in node:
                if isinstance(node[k], dict) and 'min' in node[k]:
                    ctx.check(len(node[k]['min']) == ends.get((sec, k), 0), 'log-length', '%s of %s: %d entries of %s', kind, layer, len(node[k]['min']), k)
    ctx.distinct('l', nets.signature(spec), sorted((v[1],) for v in sets.values()))
    ctx.sample = {'net': nets.brief(spec), 'monitors': list(sets.values())}


# ------------------------------------------------------------------ disturbance

class Run(object):
    """one training, recorded update by update"""
    def __init__(self, ctx, task, make_stepper, iterseed, shuffle, parts, handler=None):
        self.task, self.parts = task, parts
        self.rows = rows = []
        st = make_stepper()
        base = type(st)

        class Rec(base):
            def run(self):
                r = base.run(self)
                rows.append(([self.net.get_input(i) for i in sorted(task.data)], self.net.get('gradients'), self.net.get('parameters')))
                return r
        st.__class__ = Rec
        self.st = st
        self.net = task.make_net()
        self.it = task.make_iter(shuffle=shuffle, seed=iterseed)
        from brainstorm import Trainer
        self.tr = Trainer(st, verbose=False)

    def train(self, epochs, hooks=(), named=None):
        from brainstorm.hooks import StopAfterEpoch
        self.tr.hooks.clear()
        for h in hooks:
            self.tr.add_hook(h)
        self.tr.add_hook(StopAfterEpoch(self.tr.current_epoch_nr + epochs, name='end'))
        quiet(self.tr.train, self.net, self.it, **(named or {}))


def random_monitor(rng, task, name, layers):
    from brainstorm import hooks as H
    k = int(rng.randint(9))
    t = dict(timing(rng), name=name)
    if rng.rand() < .3:
        t['verbose'] = bool(rng.rand() < .5)
    it = ['valid', 'big', 'ones'][rng.randint(3)]
    layer = layers[int(rng.randint(len(layers)))]
    if k < 2:
        return H.MonitorLoss(it, **t), True
    if k < 4:
        return H.MonitorScores(it, [s for _, s in make_scorers(rng, task)], **t), True
    if k == 4:
        return H.MonitorLayerParameters(layer, **t), False
    if k == 5:
        return H.MonitorLayerGradients(layer, **t), False
    if k == 6:
        return H.MonitorLayerDeltas(layer, **t), False
    if k == 7:
        return H.MonitorLayerInOuts(layer, **t), False

    class Sink(object):
        info = {}
    t.pop('verbose', None)
    return H.InfoUpdater(Sink(), **t), False


def compare_runs(ctx, a, b, what):
    """batches, gradients and parameters of every update"""
    ctx.check(len(a.rows) == len(b.rows), 'updates', '%s: %d updates instead of %d', what, len(b.rows), len(a.rows))
    for u, (x, y) in enumerate(zip(a.rows, b.rows)):
        ctx.count('paired_updates')
        if not ctx.check(eq(x[0], y[0]), 'data-order', '%s: update %d sees other data', what, u + 1):
            return
        if not ctx.same(y[2], x[2], 'parameters', '%s: parameters after update %d' % (what, u + 1)):
            return
        ctx.same(y[1], x[1], 'gradients', '%s: gradients of update %d' % (what, u + 1))
    ctx.check(eq(plain(a.tr.logs.get('rolling_training')), plain(b.tr.logs.get('rolling_training'))), 'training-log',
              '%s: %s vs %s', what, a.tr.logs.get('rolling_training'), b.tr.logs.get('rolling_training'))
    ctx.check((a.tr.current_epoch_nr, a.tr.current_update_nr) == (b.tr.current_epoch_nr, b.tr.current_update_nr), 'counters', what)
    ctx.same(b.net.get('parameters'), a.net.get('parameters'), 'parameters', '%s: at the end' % what)
    ctx.count('paired_runs')


def pair_task(rng):
    task = Task(rng, [np.float64, np.float32][rng.randint(2)], dropout=None if rng.rand() < .5 else False, heads=int(rng.randint(1, 3)))
    return task, [l for l in sorted(task.make_net().layers) if l != 'Input']


def case_pairs(ctx):
    from brainstorm import hooks as H
    rng = ctx.rng
    task, layers = pair_task(rng)
    mk = stepper(rng)
    args = (task, mk, int(rng.randint(99)), bool(rng.rand() < .7), None)
    plain_run, watched = Run(ctx, *args), Run(ctx, *args)
    scorers = bool(rng.rand() < .4)
    if scorers:
        for r in (plain_run, watched):
            r.tr.train_scorers = [s for _, s in make_scorers(rng, task)]
    if rng.rand() < .4:                       # other influences on training
        from brainstorm import value_modifiers as V
        for r in (plain_run, watched):
            r.net.set_weight_modifiers({'Proj': V.ConstrainL2Norm(.9)})
            r.net.set_gradient_modifiers({'Proj': V.ClipValues(-.3, .3)})
    sched = rng.rand() < .3
    mons = []
    named = lambda: {'own': task.make_iter('valid', shuffle=True, batch_size=2, seed=6), 'valid': task.make_iter('valid', shuffle=True, batch_size=2, seed=3),
                     'big': task.make_iter('data', shuffle=True, batch_size=task.N, seed=4),
                     'ones': task.make_iter('data', shuffle=False, batch_size=1)}
    n_parts = int(rng.randint(1, 3))
    common_t = timing(rng)
    for part in range(n_parts):
        if part:
            ctx.count('resumes')
        e = int(rng.randint(1, 4))
        others = [random_monitor(rng, task, 'x%d_%d' % (part, i), layers) for i in range(int(rng.randint(1, 5)))]

        def common():
            from brainstorm.training.schedules import Exponential
            c = [H.MonitorLoss('own', name='common_loss', **common_t),
                 H.MonitorLayerParameters('Proj', name='common_par', **common_t)]
            if sched:
                c.append(H.ModifyStepperAttribute(Exponential(.1, .8), name='sched', **common_t))
            return c
        a, b = common(), common()
        for m, _ in others:
            b.insert(int(rng.randint(len(b) + 1)), m)
        na = named()
        plain_run.train(e, a, na)
        watched.train(e, b, named())
        ctx.count('monitor_calls', len(others) * e)
        mons += [type(m).__name__ + str((m.timescale, m.interval)) for m, _ in others]
    compare_runs(ctx, plain_run, watched, 'with %s' % mons)
    for k in ('common_loss', 'common_par'):
        ctx.check(eq(plain(plain_run.tr.logs.get(k, {})), plain(watched.tr.logs.get(k, {}))), 'other-log',
                  '%s differs with %s: %s vs %s', k, mons, plain_run.tr.logs.get(k), watched.tr.logs.get(k))
        ctx.count('other_logs')
    ctx.distinct('p', nets.signature(task.spec), sorted(mons))
    ctx.sample = {'net': nets.brief(task.spec), 'monitors': mons}


def case_progress(ctx):
    """the progress bar in repeated, resumed and aborted trainings"""
    from brainstorm import hooks as H
    rng = ctx.rng
    task, layers = pair_task(rng)
    mk = stepper(rng)
    args = (task, mk, 7, bool(rng.rand() < .5), None)
    a, b = Run(ctx, *args), Run(ctx, *args)
    bar = H.ProgressBar()
    what = []
    for part in range(int(rng.randint(1, 4))):
        e = int(rng.randint(1, 4))
        size = int(rng.randint(1, task.N + 1))
        seed = int(rng.randint(99))
        stop = int(rng.randint(1, 9)) if rng.rand() < .4 else 0
        what.append((e, size, stop))
        if part:
            ctx.count('resumes')
        for r in (a, b):
            r.it = task.make_iter(shuffle=True, batch_size=size, seed=seed)
            hooks = []
            if stop:
                Probe = probe_class()

                def halt(ep, u, net, logs, limit=r.tr.current_update_nr + stop):
                    if u >= limit:
                        raise StopIteration()
                hooks.append(Probe(halt, name='halt', timescale='update'))
            if r is b:
                hooks.insert(int(rng.randint(len(hooks) + 1)), bar if rng.rand() < .7 else H.ProgressBar())
            r.train(e, hooks)
    compare_runs(ctx, a, b, 'with a progress bar, parts (epochs, batch size, stop after) %s' % what)
    ctx.count('progress_runs')
    ctx.distinct('b', what, task.N)


def case_plots(ctx):
    """what the visualizer draws is what was logged (on a plotting library that keeps what it is given)"""
    from brainstorm import hooks as H
    import bokeh.plotting as bk
    rng = ctx.rng
    task, layers = pair_task(rng)
    mk = stepper(rng)
    args = (task, mk, 7, bool(rng.rand() < .5), None)
    a, b = Run(ctx, *args), Run(ctx, *args)
    del bk.record[:]
    kw = timing(rng)
    names = ['loss.total_loss', 'par.W.max', 'par.bias.min']
    if kw.get('timescale', 'epoch') == 'epoch':  # logged at the end of an epoch
        names.append('rolling_training.total_loss')
    names = [n for n in names if rng.rand() < .6] or names[:1]
    given = names[0] if len(names) == 1 and rng.rand() < .5 else names if rng.rand() < .7 else tuple(names)
    filename = None if rng.rand() < .5 else 'no_such_folder/plot'
    state = {'part': 0, 'calls': 0}

    class Watch(H.BokehVisualizer):
        def __call__(self, epoch_nr, update_nr, net, stepper, logs):
            n = len(bk.record)
            figs = [x[1] for x in bk.record if x[0] == 'show']
            H.BokehVisualizer.__call__(self, epoch_nr, update_nr, net, stepper, logs)
            news = bk.record[n:]
            ctx.count('monitor_calls')
            if epoch_nr == 0:
                return
            stored = [x for x in news if x[0] == 'store']
            drawn = {r.name: r.data_source for f in figs for r in f.renderers}
            ctx.check({id(x[1]) for x in stored} == {id(drawn[n]) for n in names}, 'plot', 'sent %d of %s', len(stored), names)
            for nm in names:
                want = logs
                for part in nm.split('.'):
                    want = want[part]
                sent = [x[2] for x in stored if x[1] is drawn.get(nm)]
                ctx.check(len(sent) == 1 and eq([float(v) for v in sent[0]['y']], [float(v) for v in want]), 'plot', '%s: drawn %s, logged %s', nm, sent, want)
                ctx.check(len(sent) == 1 and list(sent[0]['x']) == list(range(len(want))), 'plot', '%s: drawn at %s', nm, sent)
                ctx.count('plotted_values', len(want))
            saved = [x for x in news if x[0] == 'save']
            ctx.check([x[2] for x in saved] == ([filename + '.html'] if filename else []), 'plot', 'saved as %s', [x[2] for x in saved])
            for x in saved:
                ctx.check(all(eq(list(x[3][n]['y']), list(drawn[n].data['y'])) for n in names), 'plot', 'the saved figure shows other values')
            ctx.count('plots')
            state['calls'] += 1
    with warnings.catch_warnings():  # the constructor changes the global filters
        vis = Watch(given, filename=filename, name='vis', **kw)
    mons = lambda: [H.MonitorLoss('valid', name='loss', interval=1), H.MonitorLayerParameters('Proj', name='par', timescale='update')]
    e = int(rng.randint(1, 5))
    for r, extra in ((a, []), (b, [vis])):
        r.train(e, mons() + extra, {'valid': task.make_iter('valid')})
    figs = [x[1] for x in bk.record if x[0] == 'show']
    compare_runs(ctx, a, b, 'with a visualizer of %s (%s)' % (names, kw))
    ctx.check(not figs or [r.name for r in figs[0].renderers] == list(names), 'plot', 'lines %s', figs and [r.name for r in figs[0].renderers])
    ctx.distinct('v', names, kw, e, task.N)


def case_evaluate(ctx):
    """Trainer.evaluate reports the monitors and trains nothing"""
    from brainstorm import Trainer, hooks as H
    rng = ctx.rng
    task = Task(rng, np.float64, mask=False)
    net = task.make_net()
    st = stepper(rng)()
    tr = Trainer(st, verbose=False)
    sc = make_scorers(rng, task)
    tr.add_hook(H.MonitorScores('valid', [s for _, s in sc], name='sc'))
    tr.add_hook(H.MonitorLayerParameters('Proj', name='par'))
    p = net.get('parameters')
    logs = {}
    for i in range(2):
        if i and rng.rand() < .5:
            task.valid['default'][...] = rng.randn(*task.valid['default'].shape)
        res = quiet(tr.evaluate, net, valid=task.make_iter('valid', batch_size=int(rng.randint(1, 4))))
        ctx.same(net.get('parameters'), p, 'parameters', 'evaluating changed the parameters')
        ctx.check(tr.logs == {} and tr.current_epoch_nr == 0 and tr.current_update_nr == 0, 'counters', 'evaluating counted as training')
        y = np.concatenate(alone(task.make_net(), task.valid, ['Out.outputs.predictions'], np.float64)['Out.outputs.predictions'], 1)
        want = loss_of(task.kind, task.valid['targets'], y)
        if np.isfinite(want):
            ctx.close(res['sc']['total_loss'][i], want, 'loss', 'evaluate', rtol=1e-8)
            ctx.count('losses_verified')
        for k, s in sc:
            if k == 'MeanSquaredError':
                t, w = define(k, task.valid['targets'], y)
                ctx.close(res['sc'][s.__name__][i], t / w, 'score', 'evaluate', rtol=1e-8)
                ctx.count('scores_verified')
        verify_stats(ctx, res['par'], {'parameters': {k: np.array(v) for k, v in net.buffer['Proj'].parameters.items()}}, 'Parameters', 'evaluate', i)
        ctx.count('monitor_calls', 2)
    ctx.distinct('e', nets.signature(task.spec))


def case_order(ctx):
    """creating monitors and scorers draws no random numbers that anything else would get"""
    from brainstorm import Trainer, hooks as H
    from brainstorm.randomness import global_rnd
    from brainstorm.data_iterators import Minibatches
    from brainstorm.initializers import Gaussian
    rng = ctx.rng
    task, layers = pair_task(rng)
    mk = stepper(rng)
    seed, mseed = int(rng.randint(10 ** 6)), int(rng.randint(10 ** 6))
    names = ['x%d' % i for i in range(int(rng.randint(1, 5)))]
    runs = []
    where = int(rng.randint(3))
    for watch in (False, True):
        global_rnd.set_seed(seed)
        r2 = np.random.RandomState(mseed)
        mons = []

        def make():
            if watch:
                mons.extend(random_monitor(r2, task, n, layers)[0] for n in names)
        if where == 0:
            make()
        net = nets.build(task.spec, task.dtype)
        net.output_name = 'Out.outputs.predictions'
        net.initialize(Gaussian(.3))
        if where == 1:
            make()
        it = Minibatches(task.batch_size, shuffle=True, **task.copy_data())
        if where == 2:
            make()
        tr = Trainer(mk(), verbose=False)
        for m in mons:
            tr.add_hook(m)
        tr.add_hook(H.StopAfterEpoch(2))
        valid = {'valid': task.make_iter('valid', batch_size=2, seed=1), 'big': task.make_iter('data', seed=1),
                 'ones': task.make_iter('data', batch_size=1, seed=2)} if watch else {}
        first = net.get('parameters')
        net.handler.rnd.set_seed(4)
        quiet(tr.train, net, it, **valid)
        runs.append((first, net.get('parameters'), plain(tr.logs['rolling_training'])))
        ctx.count('monitor_calls', len(mons))
    ctx.same(runs[1][0], runs[0][0], 'initial-parameters', 'creating monitors changed the initialisation')
    ctx.same(runs[1][1], runs[0][1], 'parameters', 'creating monitors changed the training')
    ctx.check(eq(runs[0][2], runs[1][2]), 'training-log', 'training log with monitors')
    ctx.count('paired_runs')
    ctx.distinct('o', nets.signature(task.spec), where, names)
