"""C07: get_description / create_from_description.

Monitor: random objects of every describable kind (fresh and used) are described, sent
through JSON text with shuffled key order, rebuilt, and the rebuilt object is observed
next to the original: configuration, description, and behaviour in actual use."""
import contextlib
import io
import json
import os
import shutil
import tempfile

import numpy as np

from vlib import nets, specs, training

TECHNIQUE = 'runtime monitor: original and rebuilt object observed side by side in use'
LEVEL_NOTE = ('Random objects of all kinds incl. user-defined classes; purity of the JSON data, side '
              'effects of describing, equal configuration and behaviour are observed.')
RULE = ('random constructor arguments for every describable class, nesting, use before describing. '
        'Distinct: class x arguments used x kind of behaviour compared.')
ASSUMPTIONS = ['Infinity/NaN tokens of the json module count as JSON data',
               'the name of a hook is kept by the trainer, not by the hook',
               'an ArrayInitializer is described as the plain list of its values']
MIN_COUNTERS = {'objects_described': 1500, 'behaviours_compared': 1200, 'rejections_seen': 50}


def families(tier):
    k = 3 if tier == 'quick' else 90
    return [('initializer', 700 * k), ('modifier', 400 * k), ('scorer', 150 * k),
            ('stepper', 150 * k), ('schedule', 300 * k), ('handler', 40 * k),
            ('trainer', 350 * k), ('hook', 200 * k), ('network', 250 * k), ('container', 300 * k),
            ('userclass', 500 * k), ('reject', 60 * k)]


# ------------------------------------------------------------------ helpers

def pure(d, path='$'):
    """None if d is JSON data, else what is not."""
    if d is None or isinstance(d, (bool, int, float, str)):
        return None
    if isinstance(d, list):
        for i, x in enumerate(d):
            r = pure(x, '%s[%d]' % (path, i))
            if r:
                return r
        return None
    if isinstance(d, dict):
        for k, x in d.items():
            if not isinstance(k, str):
                return '%s: key %r' % (path, k)
            r = pure(x, '%s.%s' % (path, k))
            if r:
                return r
        return None
    return '%s: %r' % (path, type(d))


def shuffled(rng, d):
    """the same JSON data with the keys in another order"""
    if isinstance(d, dict):
        ks = list(d)
        rng.shuffle(ks)
        return {k: shuffled(rng, d[k]) for k in ks}
    if isinstance(d, list):
        return [shuffled(rng, x) for x in d]
    return d


def norm(d):
    return json.dumps(d, sort_keys=True)


def freeze(o, depth=0):
    """A comparable picture of an object's state."""
    if isinstance(o, np.ndarray):
        return ('arr', o.dtype.str, o.shape, o.tobytes())
    if isinstance(o, np.random.RandomState):
        s = o.get_state()
        return ('rnd', s[1].tobytes(), s[2:])
    if isinstance(o, dict):
        return ('dict', type(o).__name__, tuple((str(k), freeze(v, depth + 1)) for k, v in o.items()))
    if isinstance(o, (list, tuple)):
        return (type(o).__name__,) + tuple(freeze(x, depth + 1) for x in o)
    if isinstance(o, (int, float, str, bool, type(None))):
        return repr(o)
    if hasattr(o, '__dict__') and depth < 8 and type(o).__module__.startswith(('brainstorm', 'checks')):
        return (type(o).__name__,) + tuple((k, freeze(v, depth + 1))
                                           for k, v in sorted(o.__dict__.items()))
    return ('other', type(o).__name__)


def listify(v):
    if isinstance(v, np.ndarray):
        return v.tolist()
    if isinstance(v, (list, tuple)):
        return [listify(x) for x in v]
    if isinstance(v, dict):
        return {k: listify(x) for k, x in v.items()}
    if isinstance(v, int) and not isinstance(v, bool) and abs(v) < 2 ** 50:
        return float(v)          # 0 and 0.0 are the same setting
    return v


def rebuild(ctx, obj, what):
    """describe -> JSON text -> create; observes purity and side effects"""
    from brainstorm.describable import get_description, create_from_description
    before = freeze(obj)
    d = get_description(obj)
    ctx.count('objects_described')
    ctx.check(freeze(obj) == before, 'describing-changed-object', what)
    bad = pure(d)
    ctx.check(bad is None, 'not-json', '%s: %s', what, bad)
    d2 = get_description(obj)
    ctx.check(norm(d) == norm(d2), 'description-unstable', '%s: %s then %s', what, d, d2)
    text = json.dumps(shuffled(ctx.rng, d))
    snapshot = norm(d)
    clone = create_from_description(d)
    ctx.check(norm(d) == snapshot, 'creating-changed-description', what)
    clone2 = create_from_description(json.loads(text))
    ctx.check(norm(get_description(obj)) == snapshot, 'creating-changed-original', what)
    for c, how in ((clone, 'direct'), (clone2, 'json')):
        ctx.check(type(c) is type(obj) or isinstance(obj, (list, tuple)) or
                  (type(obj).__name__ == 'ArrayInitializer' and isinstance(c, list)), 'type',
                  '%s (%s): %s became %s', what, how, type(obj), type(c))
        dc = get_description(c)
        ctx.check(norm(dc) == snapshot, 'description-differs', '%s (%s): %s became %s', what, how, d, dc)
    return d, [clone, clone2]


def config(ctx, obj, clones, kwargs, what):
    from brainstorm.describable import Describable, get_description
    for k in sorted(kwargs):
        if k == 'name' or not hasattr(obj, k):
            continue
        v = getattr(obj, k)
        for c in clones:
            if not hasattr(c, k):
                ctx.violate('configuration', '%s: %s is missing' % (what, k))
                continue
            w = getattr(c, k)
            if isinstance(v, Describable) or isinstance(w, Describable):
                a, b = norm(get_description(v)), norm(get_description(w))
            else:
                try:
                    a, b = norm(listify(v)), norm(listify(w))
                except TypeError:
                    a = b = None
                    if not isinstance(v, list):
                        continue
                    a = [norm(get_description(x)) for x in v]
                    b = [norm(get_description(x)) for x in w]
            ctx.check(a == b, 'configuration', '%s: %s was %r, became %r', what, k, v, w)


def run_case(case, ctx):
    globals()['case_' + case['family']](ctx)


# -------------------------------------------------------------- initializers

def case_initializer(ctx):
    from brainstorm import initializers as I
    from brainstorm.initializers import evaluate_initializer
    rng = ctx.rng
    shape = [(4, 4), (3, 5), (8, 3), (4,), (3, 2, 2), (8,), (1, 1)][rng.randint(7)]
    obj = specs.any_initializer(rng, 0, shape)
    if isinstance(obj, (int, float)):
        obj = I.Gaussian(0.5, obj)
    if isinstance(obj, list):
        obj = I.ArrayInitializer(obj)
    if rng.rand() < 0.4:                       # already used
        evaluate_initializer(obj, shape, seed=int(rng.randint(99)))
    what = type(obj).__name__
    d, clones = rebuild(ctx, obj, what)
    config(ctx, obj, [c for c in clones if not isinstance(c, list)],
           {k: 0 for k in ('scale', 'std', 'mean', 'low', 'high', 'connections', 'act_func',
                           'spectral_radius', 'enforce_square', 'sub_initializer', 'array')}, what)
    for seed in (1, 77):
        want = evaluate_initializer(obj, shape, seed=seed)
        for c in clones:
            ctx.same(np.asarray(evaluate_initializer(c, shape, seed=seed)), np.asarray(want),
                     'behaviour', '%s%s %s' % (what, shape, d))
    ctx.count('behaviours_compared')
    # usable without a seed as well, independently of the original
    for c in clones:
        r = evaluate_initializer(c, shape)
        ctx.check(np.shape(r) == shape, 'behaviour-unseeded', '%s: shape %s', what, np.shape(r))
    ctx.distinct('init', norm(d)[:120])
    ctx.sample = {'description': d}


# ------------------------------------------------------------------ modifiers

def case_modifier(ctx):
    from brainstorm.handlers import NumpyHandler
    from brainstorm.value_modifiers import GradientModifier
    rng = ctx.rng
    shape = [(3, 4), (4,), (2, 3, 2), (1, 5)][rng.randint(4)]
    h = NumpyHandler([np.float32, np.float64][rng.randint(2)])
    obj = (specs.weight_modifier if rng.rand() < .7 else specs.gradient_modifier)(rng, shape)

    def apply(m, seed):
        r = np.random.RandomState(seed)
        v = r.randn(*shape).astype(h.dtype)
        g = r.randn(*shape).astype(h.dtype)
        if isinstance(m, GradientModifier):
            m(h, v, g)
        else:
            m(h, v)
        return v, g
    used = rng.rand() < 0.5
    if used:
        apply(obj, 5)
    what = type(obj).__name__ + (' (used)' if used else '')
    d, clones = rebuild(ctx, obj, what)
    config(ctx, obj, clones, {k: 0 for k in ('limit', 'low', 'high', 'factor', 'mask', 'weights')}, what)
    for seed in (1, 2):
        want = apply(obj, seed)
        for c in clones:
            got = apply(c, seed)
            ctx.same(got[0], want[0], 'behaviour', what + ' values')
            ctx.same(got[1], want[1], 'behaviour', what + ' gradients')
    ctx.count('behaviours_compared')
    ctx.distinct('mod', what, shape)
    ctx.sample = {'description': d}


# ------------------------------------------------------------------ scorers

def random_scorer(rng, name=None):
    from brainstorm import scorers as S
    kw = {}
    if rng.rand() < .5:
        kw['out_name'] = 'Out.outputs.%d' % rng.randint(3)
    if rng.rand() < .5:
        kw['targets_name'] = 'tgt%d' % rng.randint(3)
    if rng.rand() < .5:
        kw['mask_name'] = 'mask'
    if name or rng.rand() < .5:
        kw['name'] = name or 'score%d' % rng.randint(100)
    cls = [S.Accuracy, S.Hamming, S.MeanSquaredError][rng.randint(3)]
    if cls is S.Hamming and rng.rand() < .7:
        kw['threshold'] = float(np.round(rng.rand(), 2))
    return cls(**kw), kw


def case_scorer(ctx):
    rng = ctx.rng
    obj, kw = random_scorer(rng)
    what = type(obj).__name__
    d, clones = rebuild(ctx, obj, what)
    config(ctx, obj, clones, dict(kw, out_name=0, targets_name=0, mask_name=0, __name__=0), what)
    for _ in range(4):
        n, c = int(rng.randint(1, 7)), int(rng.randint(1, 4))
        pred = rng.rand(n, c)
        lab = rng.randint(0, 2, (n, 1 if what == 'Accuracy' else c))
        mask = None if rng.rand() < .5 else rng.randint(0, 2, (n, 1))
        want = obj(lab, pred, mask)
        e = [(1, 2.), (3, 0.5), (2, rng.rand())]
        for cl in clones:
            ctx.check(cl(lab, pred, mask) == want, 'behaviour', '%s', what)
            ctx.check(cl.aggregate(e) == obj.aggregate(e), 'behaviour', '%s aggregate', what)
    ctx.count('behaviours_compared')
    ctx.distinct('scorer', what, sorted(kw))
    ctx.sample = {'description': d}


# ------------------------------------------------------------------ schedules

def case_schedule(ctx):
    rng = ctx.rng
    obj = specs.random_schedule(rng)
    what = type(obj).__name__

    def values(s):
        out = []
        for ts in ('epoch', 'update'):
            for interval in ((1,) if what == 'MultiStep' else (1, 2, 5)):
                for n in range(0, 26):
                    out.append(float(s(n, 2 * n + 1, ts, interval, None, None, {})))
        return out
    if rng.rand() < .5:
        values(obj)
    d, clones = rebuild(ctx, obj, what)
    want = values(obj)
    for c in clones:
        ctx.check(values(c) == want, 'behaviour', '%s %s', what, d)
    ctx.count('behaviours_compared')
    ctx.distinct('schedule', norm(d)[:100])
    ctx.sample = {'description': d}


# ------------------------------------------------------------------ handlers

def case_handler(ctx):
    from brainstorm.handlers import NumpyHandler, DebugHandler
    rng = ctx.rng
    dt = [np.float32, np.float64, 'float32', np.dtype('float64')][rng.randint(4)]
    obj = NumpyHandler(dt, seed=3)
    debug = rng.rand() < .4
    if debug:
        obj = DebugHandler(obj)
    what = type(obj).__name__ + str(np.dtype(dt))
    d, clones = rebuild(ctx, obj, what)
    spec = nets.random_spec(rng, menu={'Dropout': 0})
    net = nets.build(spec, np.float64)
    par = nets.random_params(spec, net, rng)
    data = nets.make_data(spec, rng, 3, 2)

    def go(h):
        n = nets.build(spec, None)
        n.set_handler(h)
        nets.set_params(n, par)
        n.provide_external_data(data)
        n.forward_pass(training_pass=True)
        n.backward_pass()
        return n.get('gradients'), n.get('parameters')
    want = go(obj)
    for c in clones:
        if not debug:
            ctx.check(np.dtype(c.dtype) == np.dtype(dt), 'configuration', '%s: dtype %s', what, c.dtype)
        got = go(c)
        ctx.same(got[0], want[0], 'behaviour', what + ' gradients')
        ctx.same(got[1], want[1], 'behaviour', what + ' parameters')
    ctx.count('behaviours_compared')
    ctx.distinct('handler', what)
    ctx.sample = {'description': d}


# ------------------------------------------------------------------ steppers

def case_stepper(ctx):
    from brainstorm.training.steppers import ForwardStepper
    rng = ctx.rng
    obj = specs.random_stepper(rng)
    if rng.rand() < .1:
        obj = ForwardStepper(bool(rng.rand() < .5))
    what = type(obj).__name__
    t = training.Task(rng)
    if rng.rand() < .5 and what != 'ForwardStepper':
        t.steps(obj, 2)
    d, clones = rebuild(ctx, obj, what)
    config(ctx, obj, clones, {k: 0 for k in ('learning_rate', 'momentum', 'scale_learning_rate',
                                             'use_training_pass')}, what)
    if what != 'ForwardStepper':
        want = t.steps(obj, 3)
        for c in clones:
            ctx.same(t.steps(c, 3), want, 'behaviour', what + ': trained parameters')
        ctx.count('behaviours_compared')
    ctx.distinct('stepper', norm(d))
    ctx.sample = {'description': d}


# -------------------------------------------------------------- trainers, hooks

def case_trainer(ctx):
    from brainstorm.describable import create_from_description
    rng = ctx.rng
    tmp = tempfile.mkdtemp(prefix='c07-')
    try:
        t = training.Task(rng)
        trainer, names, kws = training.random_trainer(rng, t, tmp, n_hooks=int(rng.randint(0, 7)))
        d, clones = rebuild(ctx, trainer, 'Trainer')
        for c in clones:
            ctx.check(list(c.hooks) == names, 'hook-order', 'hooks %s became %s', names, list(c.hooks))
            for n in names:
                ctx.check(type(c.hooks[n]) is type(trainer.hooks[n]), 'type', 'hook %s', n)
                ctx.check(c.hooks[n].__name__ == n, 'hook-name', 'hook %s', n)
                config(ctx, trainer.hooks[n], [c.hooks[n]], kws[n], n)
            ctx.check(c.current_epoch_nr == 0 and c.current_update_nr == 0 and c.logs == {},
                      'fresh-state', 'counters %s %s logs %s', c.current_epoch_nr,
                      c.current_update_nr, c.logs)
            ctx.check([s.__name__ for s in c.train_scorers] ==
                      [s.__name__ for s in trainer.train_scorers], 'configuration', 'train_scorers')
        ctx.check(clones[0].logs is not clones[1].logs, 'shared-state', 'two trainers share logs')
        # single hooks, fresh
        for n in names:
            rebuild(ctx, trainer.hooks[n], 'hook %s' % type(trainer.hooks[n]).__name__)
        res = [training.run_training(t, tr) for tr in [trainer] + clones]
        ctx.count('trainings', 3)
        for r in res[1:]:
            for k in ('params', 'epoch', 'update', 'logs', 'stdout'):
                ctx.check(training.eq(r[k], res[0][k]), 'behaviour', 'rebuilt trainer: %s differs: %s vs %s (%s)',
                          k, str(r[k])[:400], str(res[0][k])[:400], norm(d)[:600])
        ctx.count('behaviours_compared')
        # used objects can be described and rebuilt as well
        d2, clones2 = rebuild(ctx, trainer, 'used Trainer')
        for c in clones2:
            ctx.check(list(c.hooks) == names, 'hook-order', 'used: hooks %s became %s', names, list(c.hooks))
            ctx.check(c.current_epoch_nr == 0 and c.logs == {}, 'fresh-state', 'used trainer')
        for n in names:
            ctx.distinct('hook', type(trainer.hooks[n]).__name__, sorted(kws[n]))
        ctx.sample = {'description': d}
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def case_hook(ctx):
    """hooks outside a trainer: stoppers called directly on growing logs"""
    from brainstorm import hooks as H
    rng = ctx.rng
    kw = {}
    if rng.rand() < .5:
        kw['timescale'] = ['epoch', 'update'][rng.randint(2)]
    if rng.rand() < .5:
        kw['interval'] = int(rng.randint(1, 9))
    if rng.rand() < .5:
        kw['verbose'] = [True, False, None][rng.randint(3)]
    if rng.rand() < .5:
        kw['name'] = 'some name'
    crit = ['min', 'max'][rng.randint(2)]
    k = int(rng.randint(8))
    if k == 0:
        kw.update(log_name='a.b', threshold=float(rng.randn()), criterion=crit)
        cls = H.StopAfterThresholdReached
    elif k == 1:
        kw.update(log_name='a.b', patience=int(rng.randint(1, 4)), criterion=crit)
        cls = H.EarlyStopper
    elif k == 2:
        kw.update(layer_name='some')
        cls = H.MonitorLayerDeltas
    elif k == 3:
        kw.update(layer_name='some')
        cls = H.MonitorLayerInOuts
    elif k == 4:
        cls, kw = H.ProgressBar, {}
    elif k == 5:
        kw.update(logs_to_check=['a.b', ('a.b',), ['a.b']][rng.randint(3)],
                  check_parameters=False, check_training_loss=bool(rng.rand() < .5))
        cls = H.StopOnNan
    elif k == 6:
        kw.update(max_epochs=int(rng.randint(1, 9)))
        cls = H.StopAfterEpoch
    else:
        kw.update(schedule=specs.random_schedule(rng), attr_name=['learning_rate', 'momentum'][rng.randint(2)])
        cls = H.ModifyStepperAttribute
    obj = cls(**kw)
    what = cls.__name__
    d, clones = rebuild(ctx, obj, what)
    config(ctx, obj, clones, dict({'timescale': 0, 'interval': 0, 'verbose': 0}, **kw), what)
    if k in (0, 1, 5, 6, 7):
        log = []

        class Stepper(object):
            learning_rate = momentum = None
        for e in range(1, 9):
            log.append(float(rng.randn()) if k != 5 or rng.rand() < .8 else float('nan'))
            res = []
            for h in [obj] + clones:
                st = Stepper()
                try:
                    h(e, 3 * e, None, st, {'a': {'b': list(log)}, 'rolling_training':
                                           {'total_loss': list(log)}})
                    res.append(('go on', st.learning_rate, st.momentum))
                except StopIteration:
                    res.append('stop')
                except AssertionError:
                    res.append('refused')
            ctx.check(res[0] == res[1] == res[2], 'behaviour', '%s %s: %s', what, d, res)
        ctx.count('behaviours_compared')
    ctx.distinct('hook', what, sorted(kw))
    ctx.sample = {'description': d}


# -------------------------------------------------------------------- networks

def case_network(ctx):
    rng = ctx.rng
    spec = nets.random_spec(rng)
    dtype = [np.float32, np.float64][rng.randint(2)]
    net = nets.build(spec, dtype)
    shapes = nets.param_shapes(net)
    if rng.rand() < .7 and shapes:
        net.initialize(specs.init_spec(rng, shapes), seed=3)
    par = nets.random_params(spec, net, rng)
    if rng.rand() < .6 and shapes:
        net.set_weight_modifiers(specs.modifier_spec(rng, shapes, specs.weight_modifier))
        net.set_gradient_modifiers(specs.modifier_spec(rng, shapes, specs.gradient_modifier))
    if rng.rand() < .5:
        net.output_name = 'x.outputs.default'
    data = nets.make_data(spec, rng, 3, 2, dtype=dtype)

    def go(n):
        nets.set_params(n, par)
        n.handler.rnd.set_seed(4)
        n.provide_external_data(data)
        n.forward_pass(training_pass=True)
        n.backward_pass()
        n.apply_weight_modifiers()
        res = {'gradients': n.get('gradients'), 'parameters': n.get('parameters')}
        for (l, o), v in nets.outputs(n, spec).items():
            res['%s.%s' % (l, o)] = v
        return res
    if rng.rand() < .5:
        go(net)
    d, clones = rebuild(ctx, net, 'Network')
    want = go(net)
    for c in clones:
        ctx.check(list(c.layers) == list(net.layers), 'configuration', 'layers %s', list(c.layers))
        ctx.check(c.output_name == net.output_name, 'configuration', 'output_name')
        ctx.check(c.get('parameters').dtype == net.get('parameters').dtype, 'configuration', 'precision')
        got = go(c)
        for k in want:
            if not ctx.same(got[k], want[k], 'behaviour', 'network ' + k):
                break
    ctx.count('behaviours_compared')
    ctx.distinct('network', nets.signature(spec))
    if ctx.case['index'] % 20 == 0:
        ctx.sample = {'net': nets.brief(spec)}


# ------------------------------------------------------------------ containers

def random_plain(rng, depth=0):
    k = int(rng.randint(9 if depth < 3 else 6))
    if k == 0:
        return None
    if k == 1:
        return bool(rng.rand() < .5)
    if k == 2:
        return [0, -1, 2 ** 40, -10 ** 30, int(rng.randint(100))][rng.randint(5)]
    if k == 3:
        return [0.1, -0.0, 1e300, 1 / 3., float('inf'), 5e-324][rng.randint(6)]
    if k == 4:
        return [u'', u'\u00e4\n"', 'x', u'@type', 'default'][rng.randint(5)]
    if k == 5:
        return np.round(rng.randn(*[(2,), (2, 2), (0,)][rng.randint(3)]), 3)
    n = int(rng.randint(0, 4))
    if k == 6:
        return [random_plain(rng, depth + 1) for _ in range(n)]
    if k == 7:
        return tuple(random_plain(rng, depth + 1) for _ in range(n))
    return {'k%d' % i: random_plain(rng, depth + 1) for i in range(n)}


def case_container(ctx):
    from brainstorm.describable import get_description, create_from_description
    rng = ctx.rng
    makers = [lambda: specs.any_initializer(rng, 1, (4, 4)), lambda: specs.random_stepper(rng),
              lambda: specs.random_schedule(rng), lambda: random_scorer(rng)[0],
              lambda: specs.weight_modifier(rng, (2, 2)), lambda: random_plain(rng)]

    def tree(depth):
        k = int(rng.randint(4)) if depth < 3 else 0
        if k <= 1:
            return makers[rng.randint(len(makers))]()
        n = int(rng.randint(0, 4))
        if k == 2:
            return [tree(depth + 1) for _ in range(n)]
        return {u'key%d' % i: tree(depth + 1) for i in range(n)}
    obj = {'a': tree(0), 'b': tree(0), 'c': [tree(1), tree(1)]}
    d, clones = rebuild(ctx, obj, 'container')

    def compare(x, y, path):
        if isinstance(x, (list, tuple)):
            if ctx.check(isinstance(y, list) and len(x) == len(y), 'container', '%s: %r became %r', path, x, y):
                for i in range(len(x)):
                    compare(x[i], y[i], '%s[%d]' % (path, i))
        elif isinstance(x, np.ndarray):
            ctx.check(y == x.tolist(), 'container', '%s: %r became %r', path, x, y)
        elif isinstance(x, dict):
            if ctx.check(isinstance(y, dict) and set(x) == set(y), 'container', '%s: %r became %r', path, x, y):
                for k in x:
                    compare(x[k], y[k], '%s.%s' % (path, k))
        elif x is None or isinstance(x, (bool, int, float, str)):
            ctx.check(type(x) is type(y) and (x == y), 'container', '%s: %r became %r', path, x, y)
        elif type(x).__name__ == 'ArrayInitializer':
            ctx.check(y == x.array.tolist(), 'container', '%s: %r', path, y)
        else:
            ctx.check(type(x) is type(y) and y is not x, 'container', '%s: %r became %r', path, x, y)
    for c in clones:
        compare(obj, c, '$')
    ctx.count('behaviours_compared')
    ctx.distinct('container', norm(d)[:80])
    ctx.sample = {'description': d}


# ------------------------------------------------- classes written by the user

def case_userclass(ctx):
    """Inheritance chains using __undescribed__ (set or dict) and __default_values__."""
    from brainstorm.describable import Describable, get_description, create_from_description
    rng = ctx.rng
    uid = '%d_%d' % (ctx.case['seed'], ctx.case['index'])
    base = Describable
    und, dfl, attrs = {}, {}, {}
    levels = int(rng.randint(1, 4))
    names = ['at%d' % i for i in range(8)]
    pool = [0, 1.5, 'text', None, True, [1, 2], {'k': [3]}, []]
    classes = []
    for l in range(levels):
        body = {}
        u = [n for n in names if rng.rand() < .2]
        if u:
            if rng.rand() < .5:
                body['__undescribed__'] = set(u)
                und.update({n: None for n in u})
            else:
                vals = {n: pool[rng.randint(len(pool))] for n in u}
                body['__undescribed__'] = vals
                und.update(vals)
        dv = [n for n in names if rng.rand() < .2]
        if dv:
            vals = {n: pool[rng.randint(len(pool))] for n in dv}
            body['__default_values__'] = vals
            dfl.update(vals)
        base = type(str('VC%d_%s' % (l, uid)), (base,), body)
        classes.append(base)
    picture = json.dumps([und, dfl], sort_keys=True)
    obj = base()
    for n in names:
        if rng.rand() < .7:
            v = pool[rng.randint(len(pool))]
            if n in dfl and rng.rand() < .5:
                v = dfl[n]
            r = rng.rand()
            if r < .12:
                v = classes[rng.randint(len(classes))]()
                v.inner = 3
            elif r < .2:
                v = np.array([1., 2.]) if n not in dfl else v
            setattr(obj, n, v)
            attrs[n] = v
    d, clones = rebuild(ctx, obj, 'user class')
    same = lambda a, b: type(a) is type(b) if isinstance(a, Describable) else \
        norm(listify(a)) == norm(listify(b))
    ctx.check(d['@type'] == type(obj).__name__, 'type-name', '%s', d.get('@type'))
    for n in names:
        if n in und:
            ctx.check(n not in d, 'undescribed-described', '%s is in %s', n, d)
        elif n in attrs and n in dfl and not isinstance(attrs[n], Describable) and same(dfl[n], attrs[n]):
            ctx.check(n not in d, 'default-described', '%s is in %s', n, d)
        else:
            ctx.check((n in d) == (n in attrs), 'attribute-described', '%s: %s', n, d)
    for c in clones:
        for n in names:
            if n in und and n in dfl:
                want = [und[n], dfl[n]]      # contradictory declarations: either
            elif n in und:
                want = [und[n]]
            elif n in attrs:
                want = [attrs[n]]
            elif n in dfl:
                want = [dfl[n]]
            else:
                ctx.check(n not in c.__dict__, 'extra-attribute', '%s', n)
                continue
            if ctx.check(n in c.__dict__, 'attribute-lost', '%s', n):
                ctx.check(any(same(getattr(c, n), w) for w in want), 'attribute-value', '%s: %r instead of %r',
                          n, getattr(c, n), want)
    # the objects share no mutable state with each other or with the declarations
    for c in clones:
        for n in names:
            v = getattr(c, n, None)
            if isinstance(v, list):
                v.append('changed')
            elif isinstance(v, dict):
                v['changed'] = 1
    ctx.check(json.dumps([und, dfl], sort_keys=True) == picture, 'shared-state',
              'changing a rebuilt object changed the class declaration')
    ctx.check(norm(get_description(obj)) == norm(d), 'shared-state', 'changing a clone changed the original')
    ctx.count('behaviours_compared')
    ctx.distinct('user', levels, len(und), len(dfl), len(attrs))
    ctx.sample = {'description': d, 'undescribed': sorted(und), 'defaults': sorted(dfl)}


def case_reject(ctx):
    from brainstorm.describable import Describable, get_description, create_from_description
    from brainstorm.initializers import Gaussian
    rng = ctx.rng
    bad = [{'@type': 'NoSuchClass%d' % rng.randint(1000)}, {'@type': ''}, {'@type': 'gaussian', 'std': 1},
           {'@type': 'Gaussian '}, {'@type': 'object'}, {'@type': 'dict'}, {'@type': None}]
    b = bad[rng.randint(len(bad))]
    for wrap in (lambda x: x, lambda x: [1, x], lambda x: {'a': {'b': x}},
                 lambda x: {'@type': 'SparseInputs', 'sub_initializer': x, 'connections': 2}):
        w = wrap(b)
        ctx.raises((TypeError,), lambda: create_from_description(w), 'unknown-type-accepted', str(w))
    g = Gaussian()
    odd = [object(), lambda: 0, {1, 2}, 1j, type, np.float32(1), np.int64(3), b'bytes', iter([])]
    o = odd[rng.randint(len(odd))]
    if isinstance(o, np.generic):
        pass
    else:
        for wrap in (lambda x: x, lambda x: [1, x], lambda x: {'a': x}):
            ctx.raises((TypeError,), lambda: get_description(wrap(o)), 'undescribable-accepted', repr(o))
        g.std = o
        ctx.raises((TypeError,), lambda: get_description(g), 'undescribable-accepted', 'attribute %r' % o)
        ctx.raises((TypeError,), lambda: create_from_description([o]), 'bad-description-accepted', repr(o))
    ctx.distinct('reject', str(b), repr(type(o)))
