"""C19: the debug handler.

Monitors: (1) twin runs of whole trainings and of single operations with and without the
debug handler, compared bit by bit; (2) fault injection: one argument of one operation is
given a wrong type, a wrong shape or a non-finite value, or the operation is made to produce
non-finite results; the operation must report it and must not write outside its arguments."""
import numpy as np

from vlib import nets, ops, specs, training

TECHNIQUE = 'twin runs with/without the debug handler, fault injection into single operations with watched memory'
LEVEL_NOTE = ('Random networks, trainings and operations for transparency; every operation x argument x kind of fault '
              'for detection.')
RULE = ('random networks/trainings; operation x argument x fault. Distinct: layer types of the twins, and operation x '
        'argument x fault.')
ASSUMPTIONS = ['computations that overflow are not required to pass', 'wrongly typed means not the type the operation '
               'documents; bool counts as a number', 'buffers that are only written may hold anything before']
MIN_COUNTERS = {'twin_networks': 250, 'twin_trainings': 80, 'twin_calls': 15000, 'faults_injected': 30000,
                'faults_reported': 30000, 'nonfinite_results_reported': 300}
CASE_TIMEOUT = 400


def families(tier):
    k = 1 if tier == 'quick' else 14
    return [('networks', 720 * k), ('trainings', 260 * k), ('calls', 200 * k), ('types', 90 * k), ('shapes', 220 * k),
            ('values', 140 * k), ('results', 60 * k), ('memory', 60 * k)]


def run_case(case, ctx):
    globals()['case_' + case['family']](ctx)


def handlers(ctx, seed=None):
    from brainstorm.handlers import DebugHandler, NumpyHandler
    dt = [np.float64, np.float32][ctx.rng.randint(2)]
    seed = int(ctx.rng.randint(10000))
    return NumpyHandler(dt, seed=seed), DebugHandler(NumpyHandler(dt, seed=seed)), dt


# ------------------------------------------------------------------- transparency

def case_networks(ctx):
    rng = ctx.rng
    spec = nets.random_spec(rng, images=bool(rng.rand() < .4))
    plain_h, debug_h, dt = handlers(ctx)
    T, B = int(rng.randint(1, 5)), int(rng.randint(1, 5))
    data = nets.make_data(spec, rng, T, B)
    params = nets.random_params(spec, nets.build(spec, np.float64), rng)
    got = []
    for h in (plain_h, debug_h):
        net = nets.build(spec, dt)
        net.set_handler(h)
        nets.set_params(net, params)
        net.provide_external_data(data)
        net.forward_pass(training_pass=True)
        try:
            a = everything(net)
            net.backward_pass()
            b = everything(net)
            net.provide_external_data(data)
            net.forward_pass()
            c = everything(net)
        except ValueError as e:
            if h is debug_h and 'NaN or Inf' in str(e) and not got[0][-1]:
                return
            raise
        got.append((a, b, c, all(np.isfinite(v).all() for s in (a, b, c) for v in s.values())))
    ctx.count('twin_networks')
    for k, what in enumerate(['forward', 'backward', 'second forward']):
        a, b = got[0][k], got[1][k]
        if ctx.check(sorted(a) == sorted(b), 'transparent:buffers', '%s', what):
            for n in a:
                ctx.same(b[n], a[n], 'transparent:' + what.replace(' ', '-'), '%s %s' % (nets.brief(spec), n))
    ctx.distinct(nets.signature(spec))
    ctx.sample = nets.brief(spec)


def everything(net):
    """copies of all buffers through the public buffer interface"""
    res = {}
    h = net.handler
    for name in net.layers:
        lb = net.buffer[name]
        for group in ('parameters', 'gradients', 'inputs', 'outputs', 'input_deltas', 'output_deltas'):
            try:
                g = lb[group]
            except KeyError:
                continue
            for k, v in g.items():
                res[name, group, k] = h.get_numpy_copy(v)
    return res


def case_trainings(ctx):
    import shutil
    import tempfile
    from brainstorm.randomness import global_rnd
    rng = ctx.rng
    plain_h, debug_h, dt = handlers(ctx)
    task = training.Task(rng, dtype=dt)
    seed = int(rng.randint(2 ** 31))
    got = []
    n_hooks = int(rng.randint(0, 4))
    for h in (plain_h, debug_h):
        tmp = tempfile.mkdtemp(prefix='verif-c19-')
        try:
            r = np.random.RandomState(seed)
            global_rnd.set_seed(seed)
            net = task.make_net()
            net.set_handler(h)
            nets.set_params(net, task.params)
            net.rnd.set_seed(11)
            mods(r, net)
            tr, names, kws = training.random_trainer(r, task, tmp, n_hooks)
            res = training.run_training(task, tr, net)
        except ValueError as e:
            if h is debug_h and 'NaN or Inf' in str(e) and not calm(got[0]):
                ctx.count('diverged')
                return
            raise
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        got.append(res)
    ctx.count('twin_trainings')
    ctx.same(got[1]['params'], got[0]['params'], 'transparent:training', 'parameters after training')
    ctx.check(training.eq(got[1]['logs'], got[0]['logs']), 'transparent:logs', '%s / %s', got[1]['logs'], got[0]['logs'])
    for k in ('epoch', 'update'):
        ctx.check(got[0][k] == got[1][k], 'transparent:' + k, '%s / %s', got[0][k], got[1][k])
    ctx.distinct('training', task.kind, dt.__name__, type(tr.stepper).__name__, sorted(names))


def calm(res):
    return bool(np.isfinite(res['params']).all()) and np.abs(res['params']).max() < 1e4


def mods(r, net):
    shapes = nets.param_shapes(net)
    if r.rand() < .5:
        net.set_weight_modifiers(specs.modifier_spec(r, shapes, specs.weight_modifier))
    if r.rand() < .5:
        net.set_gradient_modifiers(specs.modifier_spec(r, shapes, specs.gradient_modifier))


def debug(x):
    from brainstorm.handlers.debug_handler import DebugArray
    return DebugArray(x)


def case_calls(ctx):
    from checks.c18 import invoke
    rng = ctx.rng
    h, d, dt = handlers(ctx)
    for name in sorted(ops.OPS):
        for rep in range(2):
            op = ops.OPS[name](rng, dt)
            al = {}
            if op.inplace and rng.rand() < .35:
                al = op.inplace[rng.randint(len(op.inplace))]
                if any(i not in [a.name for a in op.arrays()] or o not in [a.name for a in op.arrays()] for o, i in al.items()):
                    al = {}
            s = int(rng.randint(2 ** 31))
            p, q = (ops.Placed(op, np.random.RandomState(s), dt, al) for _ in (0, 1))
            if rng.rand() < .3:            # stale contents of buffers that are only written
                for a in op.arrays():
                    if a.role == 'o' and a.name not in al and a.name not in al.values():
                        for x in (p, q):
                            x.views[a.name][...] = np.nan
            invoke(h, op, p.arguments())
            finite = all(np.isfinite(v).all() for v in p.views.values())
            text = '%s %s in place %s' % (name, dt.__name__, al)
            if not finite:
                ctx.raises(Exception, lambda: invoke(d, op, q.arguments(debug)), 'result-not-reported:' + name, text)
                ctx.count('nonfinite_results_reported')
                continue
            invoke(d, op, q.arguments(debug))
            ctx.count('twin_calls')
            for n in p.views:
                ctx.same(q.views[n], p.views[n], 'transparent:' + name, text + ' ' + n)
            ctx.distinct('call', name, dt.__name__, sorted(al.items()))


# ---------------------------------------------------------------------- detection

def fault(ctx, d, op, args, key, text, placed=None):
    from checks.c18 import invoke
    ctx.count('faults_injected')
    if placed is not None:
        placed.snapshot()
    ctx.count('monitor_checks')
    try:
        invoke(d, op, args)
    except Exception:
        ctx.count('faults_reported')
    else:
        ctx.violate(key, text + ': passed silently')
    if placed is not None:
        bad = outside(placed)
        ctx.check(not bad, 'fault-corrupts:' + op.name, '%s: %s', text, bad)


def outside(p):
    bad = {}
    for n, (b, m) in p.bases.items():
        old = p.before[n]
        diff = ~((b == old) | (np.isnan(b) & np.isnan(old))) & ~m
        if diff.any():
            bad[n] = 'memory around the argument was written'
    return bad


def case_types(ctx):
    rng = ctx.rng
    h, d, dt = handlers(ctx)
    for name in sorted(ops.OPS):
        op = ops.OPS[name](rng, dt)
        for i, a in enumerate(op.args):
            p = ops.Placed(op, rng, dt)
            args = p.arguments(debug)
            good = args[i]
            if isinstance(a, ops.Arg):
                wrong = {'ndarray': p.views[a.name], 'list': p.views[a.name].tolist(), 'none': None, 'number': 1.0, 'text': 'x'}
                if name.endswith('_deriv') and a.name == 'x':
                    del wrong['none']                  # not used by these operations
            elif a is None and name.endswith('_deriv'):
                wrong = {'ndarray': p.views['y'], 'number': 1.0, 'text': 'x'}
            elif isinstance(a, bool):
                wrong = {'text': 'x', 'list': [1]}
            elif isinstance(a, tuple):
                wrong = {'none': None, 'text': 'ab', 'number': 2, 'short': a[:1], 'long': a + (1,), 'floats': tuple(float(v) for v in a),
                         'negative': (-1,) + a[1:]}
            elif name == 'sum_t':
                wrong = {'text': 'x', 'float': .5, 'list': [0], 'range': 7, 'negative': -9}
            elif name == 'broadcast_t':
                wrong = {'text': 'x', 'float': .5, 'none': None, 'range': 9}
            elif 'pool2d' in name or 'conv2d' in name:
                wrong = {'text': 'x', 'float': 1.5, 'none': None, 'negative': -1, 'list': [1, 1]}
            else:
                wrong = {'text': 'x', 'none': None, 'list': [1.], 'array': good_array(p), 'ndarray': np.ones(3)}
            for w in sorted(wrong):
                args = list(args)
                args[i] = wrong[w]
                n = a.name if isinstance(a, ops.Arg) else 'argument %d' % i
                fault(ctx, d, op, args, 'type-not-reported:%s:%s' % (name, w), '%s: %s given as %s' % (name, n, w), p)
                ctx.distinct('type', name, i, w)
            args[i] = good
    # operations drawing random numbers, exchange
    x = d.zeros((2, 3))
    for text, f in [('fill_gaussian array', lambda: d.fill_gaussian(0., 1., np.zeros(3))),
                    ('fill_gaussian std', lambda: d.fill_gaussian(0., 'x', x)), ('fill_gaussian mean', lambda: d.fill_gaussian('x', 1., x)),
                    ('mask array', lambda: d.generate_probability_mask(np.zeros(3), .5)),
                    ('mask probability', lambda: d.generate_probability_mask(x, 'x')),
                    ('mask probability', lambda: d.generate_probability_mask(x, None)),
                    ('zeros', lambda: d.zeros([2, 3])), ('ones', lambda: d.ones((2., 3))), ('allocate', lambda: d.allocate((2, -3))),
                    ('create_from_numpy', lambda: d.create_from_numpy([1.])), ('set_from_numpy', lambda: d.set_from_numpy(x, [[0.] * 3] * 2)),
                    ('set_from_numpy', lambda: d.set_from_numpy(np.zeros((2, 3)), np.zeros((2, 3)))),
                    ('get_numpy_copy', lambda: d.get_numpy_copy(np.zeros(3))), ('is_fully_finite', lambda: d.is_fully_finite(np.zeros(3)))]:
        ctx.count('faults_injected')
        if ctx.raises(Exception, f, 'type-not-reported:' + text.replace(' ', '-'), text):
            ctx.count('faults_reported')


def good_array(p):
    return debug(list(p.views.values())[0])


def case_shapes(ctx):
    rng = ctx.rng
    h, d, dt = handlers(ctx)
    for name in sorted(ops.OPS):
        for rep in range(3):
            op = ops.OPS[name](rng, dt)
            arrays = op.arrays()
            a = arrays[rng.randint(len(arrays))]
            old = np.shape(a.value)
            new = list(old)
            how = ['more', 'less', 'one', 'axis', 'drop', 'swap', 'empty'][rng.randint(7)]
            k = int(rng.randint(len(new))) if new else 0
            if how == 'axis' or not new:
                new.insert(k, int(rng.choice([1, 1, 2])))
            elif how == 'drop':
                new.pop(k)
            elif how == 'more':
                new[k] += int(rng.randint(1, 3))
            elif how == 'less':
                new[k] = max(1, new[k] - 1)
            elif how == 'one':
                new[k] = 1
            elif how == 'swap':
                new = new[::-1]
            elif how == 'empty':
                new[k] = 0
            if tuple(new) == old:
                continue
            a.value = np.resize(np.asarray(a.value), new) if int(np.prod(new)) else np.zeros(new)
            shapes = {b.name: tuple(np.shape(b.value)) for b in arrays}
            if ops.valid_shapes(op, shapes) is not False:
                continue
            p = ops.Placed(op, rng, dt, layouts=rng.rand() < .5)
            fault(ctx, d, op, p.arguments(debug), 'shape-not-reported:' + name,
                  '%s with shapes %s (%s) %s' % (name, shapes, a.name, [v for v in op.args if not isinstance(v, ops.Arg)]), p)
            ctx.distinct('shape', name, a.name, how)
    x = d.zeros((2, 3))
    ctx.count('faults_injected')
    if ctx.raises(Exception, lambda: d.set_from_numpy(x, np.zeros((3, 2))), 'shape-not-reported:set_from_numpy', ''):
        ctx.count('faults_reported')


def case_values(ctx):
    """one non-finite entry in an argument that is read"""
    rng = ctx.rng
    h, d, dt = handlers(ctx)
    bad = [np.nan, np.inf, -np.inf]
    for name in sorted(ops.OPS):
        for rep in range(2):
            op = ops.OPS[name](rng, dt)
            al = {}
            names = [a.name for a in op.arrays()]
            if op.inplace and rng.rand() < .4:
                al = op.inplace[rng.randint(len(op.inplace))]
                if any(n not in names for kv in al.items() for n in kv):
                    al = {}
            p = ops.Placed(op, rng, dt, al)
            args = p.arguments(debug)
            where = []
            for i, a in enumerate(op.args):
                if isinstance(a, ops.Arg):
                    if a.role == 'i' or a.role == 'io' and name not in ('copy_to_if', 'fill_if'):
                        where.append(i)
                elif isinstance(a, float):
                    where.append(i)
            i = where[rng.randint(len(where))]
            v = bad[rng.randint(3)]
            if isinstance(op.args[i], ops.Arg):
                n = op.args[i].name
                view = p.views[n]
                if view.size == 0:
                    continue
                view[tuple(int(rng.randint(s)) for s in view.shape)] = v
            else:
                n = 'argument %d' % i
                args[i] = v
            fault(ctx, d, op, args, 'nonfinite-not-reported:' + name, '%s: %s holds %s, in place %s' % (name, n, v, al), p)
            ctx.distinct('value', name, n, v, sorted(al.items()))
    x = d.zeros((2, 3))
    for text, f in [('fill_gaussian', lambda: d.fill_gaussian(v, 1., x)), ('fill_gaussian', lambda: d.fill_gaussian(0., abs(v), x)),
                    ('generate_probability_mask', lambda: d.generate_probability_mask(x, v)),
                    ('set_from_numpy', lambda: d.set_from_numpy(x, np.full((2, 3), v))),
                    ('create_from_numpy', lambda: d.create_from_numpy(np.array([1., v], dt))),
                    ('get_numpy_copy', lambda: d.get_numpy_copy(debug(np.array([1., v], dt))))]:
        v = bad[rng.randint(3)]
        ctx.count('faults_injected')
        if ctx.raises(Exception, f, 'nonfinite-not-reported:' + text, '%s with %s' % (text, v)):
            ctx.count('faults_reported')


def case_results(ctx):
    """finite arguments, non-finite results"""
    rng = ctx.rng
    h, d, dt = handlers(ctx)
    big = float(np.finfo(dt).max) * .9
    s = ops.shape(rng, 2)
    pos = tuple(int(rng.randint(k)) for k in s)

    def arr(v=1., at=None, shape=s):
        a = np.full(shape, v, dt)
        if at is not None:
            a[tuple(min(i, k - 1) for i, k in zip(pos, shape))] = at
        return debug(a)
    row, col = (1, s[1]), (s[0], 1)
    sq = (s[0], s[0])
    calls = {
        'add_tt': lambda: d.add_tt(arr(1, big), arr(1, big), arr()), 'subtract_tt': lambda: d.subtract_tt(arr(1, big), arr(1, -big), arr()),
        'mult_tt': lambda: d.mult_tt(arr(1, big), arr(1, 2), arr()), 'divide_tt': lambda: d.divide_tt(arr(), arr(1, 0), arr()),
        'divide_tt-zero': lambda: d.divide_tt(arr(1, 0), arr(1, 0), arr()), 'modulo_tt': lambda: d.modulo_tt(arr(), arr(1, 0), arr()),
        'log_t': lambda: d.log_t(arr(1, 0), arr()), 'log_t-negative': lambda: d.log_t(arr(1, -1), arr()),
        'sqrt_t': lambda: d.sqrt_t(arr(1, -1), arr()), 'add_st': lambda: d.add_st(big, arr(1, big), arr()),
        'mult_st': lambda: d.mult_st(2.0, arr(1, big), arr()), 'mult_add_st': lambda: d.mult_add_st(1.0, arr(1, big), arr(1, big)),
        'mult_add_tt': lambda: d.mult_add_tt(arr(1, big), arr(1, 2), arr()), 'add_mv': lambda: d.add_mv(arr(1, big), arr(big, None, row), arr()),
        'subtract_mv': lambda: d.subtract_mv(arr(1, big), arr(-big, None, col), arr()),
        'mult_mv': lambda: d.mult_mv(arr(1, big), arr(2, None, row), arr()), 'mult_add_mv': lambda: d.mult_add_mv(arr(1, big), arr(2, None, col), arr()),
        'divide_mv': lambda: d.divide_mv(arr(), arr(1, 0, row), arr()), 'sum_t': lambda: d.sum_t(arr(big, None, (3, 2)), None, debug(np.zeros((), dt))),
        'sum_t-axis': lambda: d.sum_t(arr(big, None, (3, 2)), 0, debug(np.zeros((1, 2), dt))),
        'dot_mm': lambda: d.dot_mm(arr(1, big), arr(2, None, (s[1], 3)), debug(np.zeros((s[0], 3), dt))),
        'dot_add_mm': lambda: d.dot_add_mm(arr(1, big, sq), arr(1, 1, sq), arr(big, None, sq)),
        'add_into_if': lambda: d.add_into_if(arr(1, big), arr(1, big), arr()),
        'split_add_tt': lambda: d.split_add_tt(arr(big, None, (2, 3)), arr(big, None, (2, 1)), arr(0, None, (2, 2))),
        'fill_gaussian': lambda: d.fill_gaussian(big, big, arr(0, None, (50, 50))),
        'conv2d_forward_batch': lambda: d.conv2d_forward_batch(arr(big, None, (1, 2, 2, 1)), arr(1, None, (1, 2, 2, 1)), arr(0, None, (1,)),
                                                               arr(0, None, (1, 1, 1, 1)), 0, (1, 1)),
        'avgpool2d_forward_batch': lambda: d.avgpool2d_forward_batch(arr(big, None, (1, 2, 2, 1)), (2, 2), arr(0, None, (1, 1, 1, 1)), 0, (1, 1)),
    }
    for k in sorted(calls):
        ctx.count('faults_injected')
        if ctx.raises(Exception, calls[k], 'result-not-reported:' + k, '%s %s' % (k, dt.__name__)):
            ctx.count('faults_reported')
            ctx.count('nonfinite_results_reported')
        ctx.distinct('result', k, dt.__name__)


def case_memory(ctx):
    """arrays of the debug handler: exchange, parts and reshaping are transparent; scalars of the data's type"""
    rng = ctx.rng
    h, d, dt = handlers(ctx)
    s = ops.shape(rng)
    a = ops.vals(rng, s, dt)
    x = d.create_from_numpy(a)
    ctx.check(isinstance(x, d.array_type) and x.shape == s and x.size == a.size, 'transparent:array', '%s', s)
    ctx.same(d.get_numpy_copy(x), a, 'transparent:array', 'create_from_numpy')
    for name, v in (('zeros', 0), ('ones', 1)):
        y = getattr(d, name)(s)
        ctx.same(d.get_numpy_copy(y), np.full(s, v, dt), 'transparent:' + name)
    b = ops.vals(rng, s, dt)
    d.set_from_numpy(y, b)
    ctx.same(d.get_numpy_copy(y), b, 'transparent:set_from_numpy')
    idx = tuple(int(rng.randint(n)) if rng.rand() < .3 else slice(*sorted(rng.randint(0, n + 1, 2).tolist())) for n in s)
    part = x[idx if len(idx) > 1 or rng.rand() < .5 else idx[0]]
    want = a.copy()[idx]
    ctx.same(d.get_numpy_copy(part) if isinstance(want, np.ndarray) else part.array, want, 'transparent:part', str(idx))
    flat = x.reshape((x.size,))
    d.fill(flat, 3.0)
    ctx.same(d.get_numpy_copy(x), np.full(s, 3, dt), 'transparent:reshape', 'a reshaped array is not a view')
    # the same random numbers
    m1, m2 = h.zeros(s), d.zeros(s)
    h.generate_probability_mask(m1, .4)
    d.generate_probability_mask(m2, .4)
    ctx.same(d.get_numpy_copy(m2), m1, 'transparent:generate_probability_mask')
    h.fill_gaussian(.5, 2., m1)
    d.fill_gaussian(.5, 2., m2)
    ctx.same(d.get_numpy_copy(m2), m1, 'transparent:fill_gaussian')
    ctx.check(bool(d.is_fully_finite(m2)), 'transparent:is_fully_finite')
    # numbers of numpy types are numbers
    for c in (dt(.5), np.float64(.5), int(2), np.int64(2)):
        x, y = d.create_from_numpy(a * dt(.25)), d.zeros(s)
        d.mult_st(c, x, y)
        w = np.zeros(s, dt)
        h.mult_st(c, a * dt(.25), w)
        ctx.same(d.get_numpy_copy(y), w, 'transparent:scalars', '%s' % type(c))
    ctx.count('twin_calls', 8)
    ctx.distinct('memory', len(s), dt.__name__)
