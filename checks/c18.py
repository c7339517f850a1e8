"""C18: the operations of the compute handler.

Monitor: every operation is called with arguments that are views of larger buffers full of
marker values; the buffers are compared before and after the call (only the outputs may
change), and the outputs with the definition evaluated in extended precision."""
import numpy as np

from vlib import ops

TECHNIQUE = 'runtime monitor: call recorder with watched argument buffers and an extended-precision reference'
LEVEL_NOTE = ('All operations of the CPU handler with random shapes, strided views, values up to the extremes of both '
              'precisions and in-place use; entries whose true result (or necessary intermediate sum) is not '
              'representable are not compared. The GPU handler is C26.')
RULE = 'random operation x shape x memory layout x value regime x precision x aliasing. Distinct: operation x dtype x layouts x aliasing.'
ASSUMPTIONS = ['finite arguments in the documented domain', 'modulo: non-negative dividend (as the layers use it)',
               'images are contiguous (the layers allocate them so)', 'random fills: 7 sigma bounds']
MIN_COUNTERS = {'calls': 60000, 'entries_compared': 2000000, 'in_place_calls': 8000, 'random_fills': 400}


def families(tier):
    k = 4 if tier == 'quick' else 60
    return [('ops', 480 * k), ('random', 60 * k), ('memory', 60 * k), ('tables', 24 * k)]


def run_case(case, ctx):
    globals()['case_' + case['family']](ctx)


def handler(ctx):
    from brainstorm.handlers import NumpyHandler
    dt = [np.float64, np.float32][ctx.rng.randint(2)]
    return NumpyHandler(dt, seed=int(ctx.rng.randint(1000))), dt


def invoke(h, op, args):
    fn = getattr(h, op.name)
    names = [a.name if isinstance(a, ops.Arg) else None for a in op.args]
    if op.kw:
        if op.name.startswith('dot'):
            names = ['a', 'b', 'out', 'transa', 'transb'][:len(args)]
        elif op.name == 'sum_t':
            names = ['a', 'axis', 'out']
        pos = [a for a, n in zip(args, names) if n not in op.kw]
        return fn(*pos, **{n: a for a, n in zip(args, names) if n in op.kw})
    return fn(*args)


def check_call(ctx, h, dt, name, fn=invoke, prefix='op', make=None):
    rng = ctx.rng
    op = (make or ops.OPS[name])(rng, dt)
    if name.endswith('_deriv') and op.args[0] is None:
        al = {'dx': 'dy'} if rng.rand() < .6 else {}
    elif op.inplace and rng.rand() < .35:
        al = op.inplace[rng.randint(len(op.inplace))]
    else:
        al = {}
    p = ops.Placed(op, rng, dt, al)
    want = p.reference()
    p.snapshot()
    fn(h, op, p.arguments())
    ctx.count('calls')
    if al:
        ctx.count('in_place_calls')
    text = '%s %s layouts %s in place %s shapes %s' % (name, dt.__name__, p.layout, al, [p.views[a.name].shape for a in op.arrays()])
    for o, (w, s) in want.items():
        n, why, compared = ops.compare(p.views[o], w, s, dt, op.exact)
        ctx.count('entries_compared', compared)
        ctx.check(n == 0, '%s:%s' % (prefix, name), '%s: %s: %d wrong: %s', text, o, n, why)
    stray = p.stray_writes()
    ctx.check(not stray, '%s-writes:%s' % (prefix, name), '%s: %s', text, stray)
    ctx.distinct(name, dt.__name__, '-'.join(p.layout), sorted(al.items()))
    return text


def case_ops(ctx):
    names = sorted(ops.OPS)
    for i in range(2):
        h, dt = handler(ctx)
        for name in names:
            t = check_call(ctx, h, dt, name)
    ctx.sample = t


def case_random(ctx):
    """random fills: distribution, written region, successive draws"""
    rng = ctx.rng
    h, dt = handler(ctx)
    n = 4000
    base = np.full((n // 40, 60), 7.25, dt)
    out = base[:, 10:50]
    mean, std = float(rng.randn() * 3), float(rng.choice([0., .1, 1., 5.]))
    h.fill_gaussian(mean, std, out)
    a = out.copy()
    h.fill_gaussian(mean, std, out)
    b = out.copy()
    ctx.count('random_fills', 2)
    ctx.check((base[:, :10] == 7.25).all() and (base[:, 50:] == 7.25).all(), 'op-writes:fill_gaussian', 'wrote outside of out')
    z = 7 * std / np.sqrt(2 * n) + 1e-5 * (1 + abs(mean))
    both = np.concatenate([a, b]).astype(float)
    ctx.check(abs(both.mean() - mean) <= z, 'op:fill_gaussian', 'mean %g instead of %g', both.mean(), mean)
    ctx.check(abs(both.std() - std) <= z, 'op:fill_gaussian', 'std %g instead of %g', both.std(), std)
    if std:
        ctx.check(not np.array_equal(a, b), 'op:fill_gaussian', 'two fills gave the same values')
        s = (both - mean) / std
        for q, p in ((0., .5), (1., .8413447), (-1., .1586553), (2., .9772499)):
            ctx.check(abs((s < q).mean() - p) <= 7 * np.sqrt(p * (1 - p) / (2 * n)), 'op:fill_gaussian',
                      'share below %g sigma is %g', q, (s < q).mean())
        c = np.corrcoef(a.ravel(), b.ravel())[0, 1]
        ctx.check(abs(c) < 7 / np.sqrt(n), 'op:fill_gaussian', 'successive fills are correlated (%g)', c)
    prob = float(rng.choice([0., 1., .5, .1, .93, rng.rand()]))
    base[...] = 7.25
    h.generate_probability_mask(out, prob)
    a = out.copy()
    h.generate_probability_mask(out, prob)
    b = out.copy()
    ctx.count('random_fills', 2)
    ctx.check((base[:, :10] == 7.25).all() and (base[:, 50:] == 7.25).all(), 'op-writes:generate_probability_mask', 'wrote outside')
    ctx.check(((a == 0) | (a == 1)).all(), 'op:generate_probability_mask', 'values other than 0 and 1')
    m = np.concatenate([a, b]).astype(float).mean()
    ctx.check(abs(m - prob) <= 7 * np.sqrt(prob * (1 - prob) / (2 * n)), 'op:generate_probability_mask',
              'share of ones %g for probability %g', m, prob)
    if .05 < prob < .95:
        ctx.check(not np.array_equal(a, b), 'op:generate_probability_mask', 'two masks are the same')
        for ax in (0, 1):
            d = np.abs(a.astype(float).mean(ax) - prob)
            k = a.shape[ax]
            ctx.check((d <= 7.5 * np.sqrt(prob * (1 - prob) / k) + 1. / k).all(), 'op:generate_probability_mask', 'rows or columns differ')
    # entries are drawn independently along every dimension
    d = rng.randint(1, 6)
    shape = tuple(int(v) for v in rng.randint(2, 5, d)) if d > 1 else (64,)
    shape = shape[:-1] + (shape[-1] * int(rng.randint(20, 60)),) if d > 1 else shape
    if d > 1 and rng.rand() < .5:
        shape = shape[::-1]
    many = np.zeros(shape, dt)
    for op in ('generate_probability_mask', 'fill_gaussian'):
        if op == 'fill_gaussian':
            h.fill_gaussian(0., 1., many)
        else:
            h.generate_probability_mask(many, .5)
        z = (many.astype(float) - .5) * 2 if op == 'generate_probability_mask' else many.astype(float)
        for ax in range(d):
            s = np.moveaxis(z, ax, 0).reshape(shape[ax], -1)
            i, j = rng.permutation(shape[ax])[:2]
            k = s.shape[1]
            if k >= 40:
                ctx.check(abs((s[i] * s[j]).mean()) < 7 / np.sqrt(k), 'op:' + op,
                          'entries %d and %d along dimension %d of %s are correlated', i, j, ax, shape)
                ctx.count('independence_checks')
    # the stream belongs to the handler's seed
    h.rnd.set_seed(5)
    h.generate_probability_mask(out, .5)
    a = out.copy()
    h.rnd.set_seed(5)
    h.generate_probability_mask(out, .5)
    ctx.check(np.array_equal(a, out), 'op:generate_probability_mask', 'same seed, other mask')
    ctx.distinct('random', dt.__name__, std, prob)


def case_memory(ctx):
    """allocation and exchange with numpy arrays"""
    rng = ctx.rng
    h, dt = handler(ctx)
    s = ops.shape(rng)
    for name, v in (('zeros', 0), ('ones', 1), ('allocate', None)):
        a = getattr(h, name)(s)
        ctx.check(a.shape == s and a.dtype == dt, 'memory:' + name, '%s %s for %s %s', a.shape, a.dtype, s, dt)
        if v is not None:
            ctx.check((a == v).all(), 'memory:' + name, 'not filled with %s', v)
        b = getattr(h, name)(s)
        b[...] = 5
        a[...] = 3
        ctx.check((b == 5).all(), 'memory:' + name, 'two allocations share memory')
    ctx.check(isinstance(a, h.array_type), 'memory:type', '%s', type(a))
    src = ops.vals(rng, s, dt)
    keep = src.copy()
    a = h.create_from_numpy(src)
    ctx.check(isinstance(a, h.array_type) and np.array_equal(a, keep) and not np.shares_memory(a, src), 'memory:create_from_numpy', '%s', s)
    c = h.get_numpy_copy(a)
    ctx.check(type(c) is np.ndarray and np.array_equal(c, keep) and not np.shares_memory(c, a), 'memory:get_numpy_copy', '%s', s)
    big = np.full(s[:-1] + (s[-1] + 4,), 9, dt)
    view = big[..., 2:-2]
    other = [np.float64, np.float32, np.int64, np.int8, np.bool_][rng.randint(5)]
    n = (rng.randint(0, 2, s) if other is np.bool_ else rng.randint(-9, 9, s)).astype(other)
    if rng.rand() < .5:
        n = np.asfortranarray(n)
    m = n.copy()
    h.set_from_numpy(view, n)
    ctx.check(np.array_equal(view, m.astype(dt)) and np.array_equal(n, m), 'memory:set_from_numpy', '%s %s', s, other)
    ctx.check((big[..., :2] == 9).all() and (big[..., -2:] == 9).all(), 'memory:set_from_numpy', 'wrote outside')
    # finiteness
    f = ops.vals(rng, s, dt)
    ctx.check(bool(h.is_fully_finite(f)), 'memory:is_fully_finite', 'finite values up to %g', np.abs(f).max())
    f = f.copy()
    f.flat[rng.randint(f.size)] = [np.nan, np.inf, -np.inf][rng.randint(3)]
    ctx.check(not h.is_fully_finite(f), 'memory:is_fully_finite', 'missed a non-finite entry')
    big[..., 2:-2] = 1
    big[..., 0] = np.nan
    ctx.check(bool(h.is_fully_finite(view)), 'memory:is_fully_finite', 'looked outside of the view')
    ctx.distinct('memory', dt.__name__, len(s))


def case_tables(ctx):
    """the activation functions by name, separate and in place"""
    h, dt = handler(ctx)
    rng = ctx.rng
    names = ['sigmoid', 'tanh', 'rel', 'el', 'linear']
    for t in (h.act_func, h.act_func_deriv, h.inplace_act_func, h.inplace_act_func_deriv):
        ctx.check(set(names) <= set(t), 'tables:names', '%s', sorted(t))
    for n in names:
        for k in range(4):
            if n == 'linear':
                s = ops.shape(rng)
                x = ops.vals(rng, s, dt)
                y = ops.stale(rng, s, dt)
                h.act_func[n](x, y)
                ctx.same(y, x, 'tables:linear', 'act_func')
                dx = ops.stale(rng, s, dt)
                h.act_func_deriv[n](None if k % 2 else x, y, x, dx)
                ctx.same(dx, x, 'tables:linear', 'act_func_deriv')
                z, d = x.copy(), x.copy()
                h.inplace_act_func[n](z)
                h.inplace_act_func_deriv[n](z, d)
                ctx.same(z, x, 'tables:linear', 'inplace')
                ctx.same(d, x, 'tables:linear', 'inplace deriv')
                ctx.count('calls', 4)
                continue
            table = h.act_func
            check_call(ctx, h, dt, n, lambda h, op, a: table[n](*a), 'table')
            check_call(ctx, h, dt, n, lambda h, op, a: h.inplace_act_func[n](a[0]), 'inplace',
                       lambda r, dt: forced(ops.OPS[n](r, dt)))
            check_call(ctx, h, dt, n + '_deriv', lambda h, op, a: h.act_func_deriv[n](*a), 'table')
            # in place: the derivative replaces the deltas
            op = ops.OPS[n + '_deriv'](rng, dt)
            p = ops.Placed(op, rng, dt, {'dx': 'dy'})
            want = p.reference()
            p.snapshot()
            h.inplace_act_func_deriv[n](p.views['y'], p.views['dy'])
            for o, (w, s) in want.items():
                bad, why, cnt = ops.compare(p.views[o], w, s, dt, False)
                ctx.check(bad == 0, 'inplace:%s_deriv' % n, '%s', why)
            ctx.check(not p.stray_writes(), 'op-writes:%s_deriv' % n, '%s', p.stray_writes())
            ctx.count('calls')




def forced(op):
    op.args = [op.args[0], ops.Arg(op.args[1].name, 'o', op.args[0].value)]
    # the second argument is the first
    ref, x = op.ref, op.args[0]
    op.args = [x]
    x.role = 'io'
    op.ref = lambda a: {x.name: ref(a, a)[op_out(ref, a)]}
    op.inplace = []
    return op


def op_out(ref, a):
    return list(ref(a, a))[0]
