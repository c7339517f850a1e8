"""C26: the GPU handler.

No GPU and no PyCUDA exist here, so the handler's own Python code and its own CUDA kernel sources
run on an emulated device (device/): stand-ins for PyCUDA and scikit-cuda that make the checks the
originals make, kernels compiled as C++ and run thread by thread in random order.

Monitors: every memory access of every kernel thread is reported by the compiler's
thread-sanitizer instrumentation and must lie inside the arrays handed to the kernel; two accesses
to one word by different threads, one a write, must be ordered by a barrier or atomic; barriers
must be reached by all threads; library calls must not overlap inputs and outputs. Zones around
every array and all memory around the results are compared before and after. The results are
compared with the operation's definition in extended precision, and whole networks and training
runs with the CPU handler."""
import contextlib
import io
import os
import tempfile

import numpy as np

from vlib import nets, ops, specs, training

TECHNIQUE = ('runtime monitor: the GPU handler and its kernels on an emulated device with an access monitor (bounds, races, '
             'barriers), an extended-precision reference per operation and the CPU handler as reference for networks')
LEVEL_NOTE = ('The handler\'s Python code and the text of its CUDA kernels are executed, on an emulated device instead of a GPU: '
              'what nvcc, cuBLAS, cuRAND and PyCUDA themselves do is outside. Rounding of the emulated device is that of the host.')
RULE = ('random operation x shape x value regime x aliasing x thread order; random networks, data, training set-ups. '
        'Distinct: operation x number of dimensions x aliasing; network signatures.')
ASSUMPTIONS = ['arguments the operation\'s documentation admits', 'contiguous arrays (PyCUDA refuses others)', 'sums along an axis of '
               'matrices and vectors only (others are refused as not implemented)', 'modulo: integers below 2^24',
               'numbers above the exponent range of float are not compared', 'PyCUDA and scikit-cuda behave as documented']
MIN_COUNTERS = {'calls': 7000, 'device_launches': 40000, 'device_reads': 3000000, 'device_writes': 2000000, 'entries_compared': 300000,
                'in_place_calls': 1000, 'passes': 600, 'arrays_compared': 9000, 'trainings': 80, 'moves': 90, 'modifier_calls': 300,
                'continued': 28, 'random_fills': 90, 'large_calls': 80}
BUDGET = {'quick': 300, 'thorough': 2400}


def families(tier):
    k = 1 if tier == 'quick' else 15
    return [('ops', 400 * k), ('images', 300 * k), ('large', 20 * k), ('random', 60 * k), ('memory', 120 * k), ('networks', 400 * k),
            ('training', 200 * k), ('modifiers', 100 * k), ('switch', 150 * k)]


def prepare(tier):
    from vlib import env
    from brainstorm.optional import has_pycuda
    if not has_pycuda:
        raise env.HarnessError('the emulated device is not in use')
    from pycuda import emu
    try:
        emu.compile_all()
    except emu.CompileError as e:
        raise env.HarnessError('a kernel does not compile on the emulated device:\n%s' % str(e)[-3000:])


def run_case(case, ctx):
    from pycuda import curandom, emu
    emu.seed(int(ctx.rng.randint(2 ** 31 - 1)))
    emu.stats.clear()
    curandom.twin = None
    try:
        globals()['case_' + case['family']](ctx)
    except emu.DeviceFault as e:
        ctx.violate('device:' + emu.stats.faults[-1][0].split(' (')[0], str(e))
    finally:
        curandom.twin = None
        s = emu.stats
        for n in ('launches', 'reads', 'writes', 'atomics', 'barriers', 'threads', 'allocations', 'library_calls'):
            ctx.count('device_' + n, getattr(s, n))
        for k, n in s.kernels.items():
            ctx.count('kernel_' + k, n)


def handler(ctx):
    from brainstorm.handlers import PyCudaHandler
    return PyCudaHandler(seed=int(ctx.rng.randint(1000)))


# ------------------------------------------------------------------ operations

class OnDevice(object):
    """an operation's arguments in device memory, some as parts of larger arrays"""

    def __init__(self, ctx, op, alias):
        from pycuda import gpuarray
        rng = ctx.rng
        self.op, self.alias, self.views, self.bases, self.layout = op, alias, {}, {}, []
        for a in op.arrays():
            if a.name in alias:
                continue
            v = np.asarray(a.value, np.float32)
            if rng.rand() < .5 or v.ndim == 0:
                base = gpuarray.empty(v.shape, np.float32)
                view, sl, lay = base, Ellipsis, 'own'
            else:                              # rows of a larger array, as buffers of networks are
                before, after = int(rng.randint(0, 4)), int(rng.randint(0, 4))
                base = gpuarray.empty((v.size + before + after,), np.float32)
                sl = slice(before, before + v.size)
                view, lay = base[sl].reshape(v.shape), 'part'
            view.set(np.array(v, order='C'))
            self.views[a.name], self.bases[a.name] = view, (base, sl)
            self.layout.append(lay)
        for o, i in alias.items():
            self.views[o] = self.views[i]

    def arguments(self):
        return [self.views[a.name] if isinstance(a, ops.Arg) else a for a in self.op.args]

    def reference(self):
        vals = [self.views[a.name].get().astype(ops.LD) if isinstance(a, ops.Arg) else a for a in self.op.args]
        with np.errstate(all='ignore'):
            return self.op.ref(*vals)

    def raw(self):
        return {n: b._alloc.raw.copy() for n, (b, s) in self.bases.items()}

    def stray(self, before):
        written = {self.alias.get(a.name, a.name) for a in self.op.arrays() if a.role != 'i'}
        bad = []
        for n, (b, sl) in self.bases.items():
            now, old = b._alloc.raw.copy(), before[n].copy()
            if n in written:
                zone = (now.size - b.nbytes) // 2
                for r in (now, old):
                    r[zone:zone + b.nbytes].view(np.float32).reshape(b.shape)[sl] = 0
            if not np.array_equal(now, old):
                bad.append('%s changed' % n if n not in written else 'memory around %s changed' % n)
        return bad


def admissible(op):
    """arguments the device can represent and the handler implements"""
    name = op.name
    if name == 'modulo_tt':
        for a in op.arrays()[:2]:
            v = np.clip(np.nan_to_num(np.asarray(a.value)), -1e6, 1e6)
            a.value = np.rint(v).astype(np.float32)
        b = op.arrays()[1]
        b.value[b.value == 0] = 3
    return True


def check_op(ctx, h, name, make=None):
    from checks import c18
    rng = ctx.rng
    op = (make or ops.OPS[name])(rng, np.float32)
    if not admissible(op):
        return
    if name.endswith('_deriv') and op.args[0] is None:    # the kernels take an array there
        op.args[0] = ops.Arg('x', 'i', ops.stale(rng, op.args[1].value.shape, np.float32))
    if op.inplace and name not in ('dot_mm',) and rng.rand() < .35:
        al = op.inplace[rng.randint(len(op.inplace))]
    else:
        al = {}
    if name == 'modulo_tt' and rng.rand() < .5:          # the remainder has the dividend's sign
        for a in op.arrays()[:2]:
            a.value = a.value * rng.choice([-1, 1], a.value.shape).astype(np.float32)
    p = OnDevice(ctx, op, al)
    want = p.reference()
    args = p.arguments()
    if name == 'maxpool2d_backward_batch':               # each handler encodes the positions its own way
        x, k, y, pad, st, am, dx, dy = args
        h.maxpool2d_forward_batch(x, k, y, pad, st, am)
    before = p.raw()
    c18.invoke(h, op, args)
    ctx.count('calls')
    if al:
        ctx.count('in_place_calls')
    text = '%s %s in place %s shapes %s' % (name, p.layout, al, [(a.name, p.views[a.name].shape) for a in op.arrays()])
    for o, (w, s) in want.items():
        n, why, compared = ops.compare(p.views[o].get(), w, s, np.float32, op.exact)
        ctx.count('entries_compared', compared)
        ctx.check(n == 0, 'op:' + name, '%s: %s: %d wrong: %s', text, o, n, why)
    stray = p.stray(before)
    ctx.check(not stray, 'op-writes:' + name, '%s: %s', text, stray)
    ctx.distinct(name, [p.views[a.name].ndim for a in op.arrays()], sorted(al.items()))
    return text


IMAGES = ('conv2d_forward_batch', 'conv2d_backward_batch', 'maxpool2d_forward_batch', 'maxpool2d_backward_batch',
          'avgpool2d_forward_batch', 'avgpool2d_backward_batch')


def case_ops(ctx):
    h = handler(ctx)
    for name in sorted(ops.OPS):
        if name not in IMAGES:
            ctx.sample = check_op(ctx, h, name)


def case_images(ctx):
    h = handler(ctx)
    for name in IMAGES:
        ctx.sample = check_op(ctx, h, name)


def case_large(ctx):
    """arrays with more rows or elements than one launch has threads: all of them must be done"""
    from brainstorm.handlers import NumpyHandler
    from pycuda import gpuarray
    rng = ctx.rng
    h, c = handler(ctx), NumpyHandler(np.float32)
    n = int(rng.choice([98304, 70000, 131072])) + int(rng.randint(-3, 40))
    k = int(rng.randint(1, 4))
    j = int(rng.randint(1, 3))

    def f(*s):
        return rng.randn(*s).astype(np.float32)

    def z(*s):
        return np.zeros(s, np.float32)

    def pooled(name):
        side = int(rng.randint(105, 120))
        x, st, pad = f(2, side, side + 1, 5), int(rng.randint(1, 3)), int(rng.randint(0, 2))
        o = ((side + 2 * pad - 3) // st + 1, (side + 1 + 2 * pad - 3) // st + 1)
        y = f(2, o[0], o[1], 5)
        if name.startswith('avg'):
            return (x, (3, 3), y, pad, (st, st)) + ((z(*x.shape), f(*y.shape)) if 'back' in name else ())
        am = [z(*y.shape), z(*y.shape)]
        for hd, a, q in ((h, am[0], h.create_from_numpy), (c, am[1], np.array)):
            xa, ya, aa = q(x), q(y), q(a)
            hd.maxpool2d_forward_batch(xa, (3, 3), ya, pad, (st, st), aa)
            a[:] = hd.get_numpy_copy(aa)
        return (x, (3, 3), y, pad, (st, st)) + ((tuple(am), z(*x.shape), f(*y.shape)) if 'back' in name else (z(*y.shape),))

    made = {
        'merge_tt': lambda: (f(n, k), f(n, j), z(n, k + j)), 'split_add_tt': lambda: (f(n, k + j), f(n, k), f(n, j)),
        'add_tt': lambda: (f(n), f(n), z(n)), 'mult_add_tt': lambda: (f(n), f(n), f(n)), 'mult_st': lambda: (2.5, f(n), z(n)),
        'add_mv': lambda: (f(n, k), f(1, k), z(n, k)), 'mult_add_mv': lambda: (f(n, k), f(n, 1), f(n, k)),
        'divide_mv': lambda: (f(n, k), 1 + f(1, k) ** 2, z(n, k)), 'subtract_mv': lambda: (f(n, k), f(n, 1), z(n, k)),
        'softmax_m': lambda: (f(n, k), z(n, k)), 'sigmoid': lambda: (f(n), z(n)), 'tanh_deriv': lambda: (f(n), np.tanh(f(n)), f(n), z(n)),
        'binarize_v': lambda: (rng.randint(0, k, (n, 1)).astype('f'), z(n, k)),
        'index_m_by_v': lambda: (f(n, k), rng.randint(0, k, (n, 1)).astype('f'), z(n, 1)),
        'broadcast_t': lambda: (f(n, 1, k), 1, z(n, j + 1, k)), 'copy_to_if': lambda: (f(n), f(n), (f(n) > 0).astype('f')),
        'add_into_if': lambda: (f(n), f(n), (f(n) > 0).astype('f')), 'fill_if': lambda: (f(n), 3.0, (f(n) > 0).astype('f')),
        'clip_t': lambda: (f(n), -.5, .5, z(n)), 'sum_t': lambda: (np.rint(f(n, k) * 4), 0, z(1, k)),
        'dot_mm': lambda: (f(n, k), f(k, j), z(n, j)),
        'avgpool2d_forward_batch': None, 'avgpool2d_backward_batch': None, 'maxpool2d_forward_batch': None, 'maxpool2d_backward_batch': None}
    for name in ('merge_tt', 'split_add_tt') + tuple(rng.choice(sorted(made), 5, replace=False)):
        args = made[name]() if made[name] else pooled(name)
        dev = [a[0] if isinstance(a, tuple) and isinstance(a[0], np.ndarray) else a for a in args]
        ref = [a[1] if isinstance(a, tuple) and isinstance(a[0], np.ndarray) else a for a in args]
        dev = [h.create_from_numpy(a) if isinstance(a, np.ndarray) else a for a in dev]
        ref = [a.copy() if isinstance(a, np.ndarray) else a for a in ref]
        getattr(h, name)(*dev)
        getattr(c, name)(*ref)
        ctx.count('large_calls')
        for i, (d, r) in enumerate(zip(dev, ref)):
            if isinstance(r, np.ndarray) and not (name.startswith('maxpool') and i == 5):
                d = d.get()
                bad = ~np.isclose(d, r, rtol=1e-3, atol=1e-4)
                ctx.count('entries_compared', d.size)
                ctx.check(not bad.any(), 'op:' + name, '%s, %d rows: %d of %d entries of argument %d differ from the CPU handler, first at %s',
                          name, len(r), bad.sum(), bad.size, i, np.argwhere(bad)[:1].tolist())
        ctx.distinct('large', name, n)


def case_random(ctx):
    """random fills: distribution, extent, dependence on the seed"""
    rng = ctx.rng
    from pycuda import gpuarray
    h = handler(ctx)
    n = 4000
    base = gpuarray.empty((n + 40,), np.float32)
    base.fill(7.25)
    out = base[10:10 + n].reshape((100, 40))
    mean, std = float(rng.randn() * 3), float(rng.choice([0., .1, 1., 5.]))
    prob = float(rng.choice([0., 1., .5, .1, .93, rng.rand()]))
    draws = {'g': [], 'm': []}
    for i in range(2):
        h.fill_gaussian(mean, std, out)
        draws['g'].append(out.get())
        h.generate_probability_mask(out, prob)
        draws['m'].append(out.get())
    ctx.count('random_fills', 4)
    rest = base.get()
    ctx.check((rest[:10] == 7.25).all() and (rest[10 + n:] == 7.25).all(), 'op-writes:random', 'a random fill wrote outside of its array')
    both = np.concatenate(draws['g']).astype(float)
    z = 7 * std / np.sqrt(2 * n) + 1e-5 * (1 + abs(mean))
    ctx.check(abs(both.mean() - mean) <= z, 'op:fill_gaussian', 'mean %g instead of %g', both.mean(), mean)
    ctx.check(abs(both.std() - std) <= z, 'op:fill_gaussian', 'deviation %g instead of %g', both.std(), std)
    if std:
        ctx.check(not np.array_equal(*draws['g']), 'op:fill_gaussian', 'two fills gave the same values')
    m = np.concatenate(draws['m']).astype(float)
    ctx.check(((m == 0) | (m == 1)).all(), 'op:generate_probability_mask', 'values other than 0 and 1')
    ctx.check(abs(m.mean() - prob) <= 7 * np.sqrt(prob * (1 - prob) / (2 * n)), 'op:generate_probability_mask',
              'share of ones %g for probability %g', m.mean(), prob)
    if .05 < prob < .95:
        ctx.check(not np.array_equal(*draws['m']), 'op:generate_probability_mask', 'two masks are the same')
    # the stream belongs to the seed
    from brainstorm.handlers import PyCudaHandler
    s = int(rng.randint(10 ** 6))
    got = []
    for k in (s, s, s + 1):
        g = PyCudaHandler(seed=k)
        g.fill_gaussian(0., 1., out)
        a = out.get()
        g.generate_probability_mask(out, .5)
        got.append((a, out.get()))
    ctx.check(all(np.array_equal(a, b) for a, b in zip(got[0], got[1])), 'op:seed', 'same seed, other values')
    ctx.check(not np.array_equal(got[0][0], got[2][0]), 'op:seed', 'other seed, same values')
    ctx.distinct('random', std, prob)


def case_memory(ctx):
    """allocation, copies and exchange with numpy arrays"""
    from pycuda import gpuarray
    from brainstorm.describable import create_from_description, get_description
    rng = ctx.rng
    h = handler(ctx)
    s = ops.shape(rng)
    ctx.check(h.array_type is gpuarray.GPUArray and h.dtype == np.float32, 'memory:type', '%s %s', h.array_type, h.dtype)
    for name, v in (('zeros', 0), ('ones', 1), ('allocate', None)):
        a = getattr(h, name)(s)
        ctx.check(type(a) is h.array_type and a.shape == s and a.dtype == np.float32, 'memory:' + name, '%s %s for %s', a.shape, a.dtype, s)
        if v is not None:
            ctx.check((a.get() == v).all(), 'memory:' + name, 'not filled with %s', v)
        b = getattr(h, name)(s)
        h.fill(b, 5)
        h.fill(a, 3)
        ctx.check((b.get() == 5).all() and (a.get() == 3).all(), 'memory:' + name, 'two allocations share memory')
    a = h.allocate(int(np.prod(s)))
    ctx.check(a.size == np.prod(s), 'memory:allocate', 'size %d instead of %d', a.size, np.prod(s))
    other = [np.float64, np.float32, np.int64, np.int8, np.bool_][rng.randint(5)]
    n = (rng.randint(0, 2, s) if other is np.bool_ else rng.randint(-9, 9, s)).astype(other)
    r = rng.rand()
    if r < .3:
        n = np.repeat(n, 2, axis=-1)[..., ::2]
    keep = n.copy()
    a = h.create_from_numpy(n if r < .3 else np.ascontiguousarray(n))
    c = h.get_numpy_copy(a)
    ctx.check(type(c) is np.ndarray and c.dtype == np.float32 and np.array_equal(c, keep.astype(np.float32)) and np.array_equal(n, keep),
              'memory:create_from_numpy', '%s %s', s, other)
    base = gpuarray.empty((int(np.prod(s)) + 8,), np.float32)
    base.fill(9)
    view = base[3:3 + int(np.prod(s))].reshape(s)
    n2 = (rng.randint(0, 2, s) if other is np.bool_ else rng.randint(-9, 9, s)).astype(other)
    h.set_from_numpy(view, n2)
    ctx.check(np.array_equal(h.get_numpy_copy(view), n2.astype(np.float32)), 'memory:set_from_numpy', '%s %s', s, other)
    rest = base.get()
    ctx.check((rest[:3] == 9).all() and (rest[3 + view.size:] == 9).all(), 'memory:set_from_numpy', 'wrote outside')
    if len(s) > 1 and s[0] != s[1]:
        ctx.raises(AssertionError, lambda: h.set_from_numpy(view, np.zeros((s[1], s[0]) + s[2:])), 'memory:set-shape', 'another shape')
    # finiteness
    f = ops.vals(rng, s, np.float32)
    g = h.create_from_numpy(f)
    ctx.check(bool(h.is_fully_finite(g)), 'memory:is_fully_finite', 'finite values up to %g', np.abs(f).max())
    ctx.check(np.array_equal(g.get(), f), 'memory:is_fully_finite', 'changed its argument')
    f = f.copy()
    f.flat[rng.randint(f.size)] = [np.nan, np.inf, -np.inf][rng.randint(3)]
    ctx.check(not h.is_fully_finite(h.create_from_numpy(f)), 'memory:is_fully_finite', 'missed a non-finite entry')
    # sums the handler does not implement are refused, not wrong
    s3 = ops.shape(rng, 3)
    a3, ax = rng.randn(*s3).astype(np.float32), int(rng.randint(3))
    out = h.zeros(s3[:ax] + s3[ax + 1:])
    try:
        h.sum_t(h.create_from_numpy(a3), ax, out)
        ctx.check(np.allclose(out.get(), a3.sum(ax), rtol=1e-3, atol=1e-4), 'op:sum_t', 'sum of %s along %d', s3, ax)
    except NotImplementedError:
        ctx.count('refused_sums')
    d = get_description(h)
    ctx.check(d == {'@type': 'PyCudaHandler'}, 'memory:describe', '%s', d)
    h2 = create_from_description(d)
    ctx.check(type(h2) is type(h) and h2.dtype == np.float32, 'memory:describe', '%s', h2)
    t = h2.ones((2, 2))
    h2.generate_probability_mask(t, .5)
    ctx.check(np.isin(t.get(), (0, 1)).all(), 'memory:describe', 'a described handler does not work')
    ctx.count('memory_cases')
    ctx.distinct('memory', len(s), np.dtype(other).name)


# ------------------------------------------------------------------ networks

@contextlib.contextmanager
def same_draws(seed):
    """random fills on the device draw what a CPU handler with this seed draws"""
    from pycuda import curandom
    curandom.twin = np.random.RandomState(seed)
    try:
        yield
    finally:
        curandom.twin = None


def joined(spec):
    """several outputs share one input side by side: their buffers are not contiguous, which PyCUDA refuses"""
    return any(len(srcs) > 1 for l in spec['layers'] for srcs in l['in'].values())


def one_pass(ctx, net, spec, data, train, context=None):
    """everything a forward and backward pass shows"""
    net.provide_external_data({k: v.copy() for k, v in data.items()}, all_inputs=False)
    net.forward_pass(training_pass=train, context=context)
    res = {'out:%s.%s' % k: v for k, v in nets.outputs(net, spec).items()}
    for k, v in net.get_loss_values().items():
        res['loss:' + k] = np.asarray(v, float)
    if train:
        net.backward_pass()
        for l, ps in nets.get_grads(net).items():
            for p, v in ps.items():
                res['grad:%s.%s' % (l, p)] = v
        for i in sorted(spec['inputs']):
            res['delta:' + i] = net.get('Input.output_deltas.' + i)
    return res


def differences(a, b, rtol=2e-3, atol=2e-4):
    """names of results that differ beyond rounding"""
    bad = []
    for k in sorted(a):
        x, y = np.asarray(a[k], float), np.asarray(b[k], float)
        if x.shape != y.shape:
            bad.append((k, 'shapes %s %s' % (x.shape, y.shape)))
            continue
        fx, fy = np.isfinite(x), np.isfinite(y)
        if not (fx & fy).all():
            if not np.array_equal(fx, fy):
                bad.append((k, 'finiteness'))
            continue
        d = np.abs(x - y)
        scale = max(np.abs(x).max(), np.abs(y).max()) if x.size else 0
        if x.size and (d > atol + rtol * scale).any():
            bad.append((k, 'difference %.3g, values up to %.3g' % (d.max(), scale)))
    return bad


def tame(res):
    return all(np.isfinite(v).all() and np.abs(v).max(initial=0) < 1e4 for v in res.values())


def random_net(ctx, images=None):
    while True:
        spec = nets.random_spec(ctx.rng, images=images)
        if not joined(spec):
            return spec
        ctx.count('networks_skipped_joined')


def pair(ctx, spec, seed):
    """the same network on the CPU and on the emulated device"""
    from brainstorm.handlers import NumpyHandler, PyCudaHandler
    cpu = nets.build(spec, np.float32, seed=seed)
    gpu = nets.build(spec, None)
    gpu.set_handler(PyCudaHandler(seed=1))
    params = nets.random_params(spec, cpu, ctx.rng)
    nets.set_params(cpu, params)
    nets.set_params(gpu, params)
    return cpu, gpu, NumpyHandler


def case_networks(ctx):
    rng = ctx.rng
    spec = random_net(ctx, True if rng.rand() < .3 else None)
    seed = int(rng.randint(10 ** 6))
    cpu, gpu, NumpyHandler = pair(ctx, spec, seed)
    last = None
    for attempt in range(3):
        T, B = int(rng.randint(1, 6)), int(rng.randint(1, 6))
        data = nets.make_data(spec, rng, T, B, dtype=np.float32)
        train = bool(rng.rand() < .75)
        cpu.set_handler(NumpyHandler(np.float32, seed=seed))
        a = one_pass(ctx, cpu, spec, data, train)
        with same_draws(seed):
            b = one_pass(ctx, gpu, spec, data, train)
        ctx.count('passes')
        if not tame(a):
            ctx.count('passes_out_of_range')
            continue
        bad = differences(a, b)
        ctx.count('arrays_compared', len(a))
        ctx.count('network_entries', sum(np.size(v) for v in a.values()))
        if not bad:
            last = None
            ctx.check(True, 'network:passes')
            continue
        # values at a kink of an activation may take either side: only what stays is an error
        last = bad if last is None else [x for x in bad if x[0] in {k for k, _ in last}]
        ctx.count('passes_repeated')
        if not last:
            last = None
    else:
        ctx.check(not last, 'network:' + (last[0][0].split(':')[0] if last else 'passes'), '%s: %s (T=%d B=%d training=%s)',
                  nets.brief(spec), (last or [])[:3], T, B, train)
    ctx.distinct(nets.signature(spec))
    ctx.sample = str(nets.brief(spec))[:200]


def case_training(ctx):
    """training runs on both handlers"""
    from brainstorm.handlers import NumpyHandler, PyCudaHandler
    rng = ctx.rng
    task = training.Task(rng, dtype=np.float32)
    seed = int(rng.randint(10 ** 6))
    hseed = int(rng.randint(2 ** 31 - 1))
    runs = []
    for which in ('cpu', 'gpu'):
        r = np.random.RandomState(hseed)
        with tempfile.TemporaryDirectory() as tmp:
            trainer, names, kws = training.random_trainer(r, task, tmp, int(r.randint(0, 4)))
            net = task.make_net(seed=seed)
            if which == 'gpu':
                net.set_handler(PyCudaHandler(seed=3))
                nets.set_params(net, task.params)
            mods = np.random.RandomState(hseed + 1)
            add_modifiers(ctx, net, mods)
            with same_draws(seed) if which == 'gpu' else contextlib.nullcontext():
                runs.append(training.run_training(task, trainer, net=net))
            if which == 'gpu':
                from brainstorm.structure.network import Network
                f = os.path.join(tmp, 'n.hdf5')
                net.save_as_hdf5(f)
                again = Network.from_hdf5(f)
                ctx.check(type(again.handler) is type(net.handler), 'training:saved', 'loaded with handler %s', type(again.handler).__name__)
                ctx.same(again.get('parameters'), net.get('parameters'), 'training:saved', 'parameters of a saved network')
                ctx.count('saved')
    a, b = runs
    ctx.count('trainings')
    if not np.isfinite(a['params']).all() or np.abs(a['params']).max() > 50 or flat(a['logs']) is None:
        ctx.count('trainings_out_of_range')
        return
    ctx.count('epochs', a['epoch'])
    if a['epoch'] != b['epoch']:
        # an early stop may depend on the last digit; the weights up to then must not
        ctx.count('trainings_of_other_length')
        return
    bad = differences({'parameters': a['params']}, {'parameters': b['params']}, rtol=2e-2, atol=2e-3)
    ctx.check(not bad, 'training:parameters', '%s after %d epochs: %s', nets.brief(task.spec), a['epoch'], bad)
    la, lb = flat(a['logs']), flat(b['logs'])
    ctx.check(lb is not None and set(la) == set(lb), 'training:logs', 'logs %s %s', sorted(la), sorted(lb or {}))
    if lb is not None:
        bad = differences({k: la[k] for k in la if 'rolling' in k}, {k: lb[k] for k in la if 'rolling' in k and k in lb} or la, rtol=3e-2, atol=5e-3)
        ctx.check(not [x for x in bad if 'loss' in x[0]], 'training:logs', '%s', bad)
    ctx.distinct('training', nets.signature(task.spec), type(trainer.stepper).__name__)


def add_modifiers(ctx, net, r):
    shapes = nets.param_shapes(net)
    if r.rand() < .5:
        spec = specs.modifier_spec(r, shapes, specs.weight_modifier)
        net.set_weight_modifiers(spec)
        ctx.count('modified_parameters', sum(len(v) for v in spec.values()))
    if r.rand() < .5:
        spec = specs.modifier_spec(r, shapes, specs.gradient_modifier)
        net.set_gradient_modifiers(spec)
        ctx.count('modified_gradients', sum(len(v) for v in spec.values()))


def flat(logs, prefix=''):
    res = {}
    for k, v in logs.items():
        if isinstance(v, dict):
            sub = flat(v, prefix + k + '.')
            if sub is None:
                return None
            res.update(sub)
        else:
            try:
                v = np.asarray([np.nan if x is None else x for x in v] if isinstance(v, list) else v, float)
            except (TypeError, ValueError):
                continue
            if not np.isfinite(v).all():
                return None
            res[prefix + k] = v
    return res


def case_modifiers(ctx):
    """weight and gradient modifiers applied on both handlers"""
    from brainstorm.handlers import NumpyHandler
    from brainstorm.value_modifiers import GradientModifier
    rng = ctx.rng
    h = handler(ctx)
    c = NumpyHandler(np.float32, seed=1)
    for k in range(8):
        shape = ops.shape(rng, int(rng.randint(1, 5)))
        make = [specs.weight_modifier, specs.gradient_modifier][rng.randint(2)]
        seed = int(rng.randint(2 ** 31 - 1))
        w, g = (rng.randn(*shape) * 2).astype(np.float32), rng.randn(*shape).astype(np.float32)
        res = []
        for hd in (c, h):
            m = make(np.random.RandomState(seed), shape)
            a, b = hd.create_from_numpy(w), hd.create_from_numpy(g)
            for i in range(2):
                if make is specs.weight_modifier:
                    m(hd, a)
                elif isinstance(m, GradientModifier):
                    m(hd, a, b)
                else:
                    m(hd, b)
            res.append({'values': hd.get_numpy_copy(a), 'gradients': hd.get_numpy_copy(b)})
        bad = differences(res[0], res[1], 1e-4, 1e-5)
        ctx.check(not bad, 'modifiers:' + type(m).__name__, '%s %s: %s', m, shape, bad)
        ctx.count('modifier_calls')
        ctx.distinct('modifier', type(m).__name__, len(shape))


def case_switch(ctx):
    """a network moved between the handlers keeps its parameters; initialisation gives the same
    weights on both; runs continued from a state agree"""
    from brainstorm.handlers import NumpyHandler, PyCudaHandler
    rng = ctx.rng
    spec = random_net(ctx)
    seed = int(rng.randint(10 ** 6))
    cpu, gpu, _ = pair(ctx, spec, seed)
    from brainstorm.initializers import Gaussian
    init = {'default': Gaussian(float(rng.uniform(.1, 1)))}
    for l, ps in sorted(nets.param_shapes(cpu).items()):
        if 'timing' in ps:
            init[l] = {'timing': rng.randint(1, 5, ps['timing']).astype(float), 'default': init['default']}
    cpu.initialize(init, seed=seed)
    gpu.initialize(init, seed=seed)
    ctx.same(gpu.get('parameters'), cpu.get('parameters'), 'switch:initialize', str(nets.brief(spec)))
    for step in range(int(rng.randint(2, 5))):
        before = gpu.get('parameters')
        if rng.rand() < .5:
            gpu.set_handler(NumpyHandler(np.float32, seed=seed) if type(gpu.handler) is PyCudaHandler else PyCudaHandler(seed=2))
            ctx.same(gpu.get('parameters'), before, 'switch:parameters', '%s: after set_handler' % nets.brief(spec))
            ctx.count('moves')
        T, B = int(rng.randint(1, 5)), int(rng.randint(1, 5))
        data = nets.make_data(spec, rng, T, B, dtype=np.float32)
        cpu.set_handler(NumpyHandler(np.float32, seed=seed))
        ref = one_pass(ctx, cpu, spec, data, False)
        on_gpu = type(gpu.handler) is PyCudaHandler
        got = one_pass(ctx, gpu, spec, data, False)
        if on_gpu and T > 1 and rng.rand() < .7:
            # two parts, the state handed on
            cut = int(rng.randint(1, T))
            first = one_pass(ctx, gpu, spec, {k: v[:cut] for k, v in data.items()}, False)
            ctxs = gpu.get_context()
            second = one_pass(ctx, gpu, spec, {k: v[cut:] for k, v in data.items()}, False, context=ctxs)
            if tame(ref):
                timed = [k for k in ref if k.startswith('out') and len(ref[k]) == T and len(first[k]) == cut and ref[k].ndim > 2]
                bad = differences({k: ref[k] for k in timed},
                                  {k: np.concatenate([first[k], second[k]]) for k in timed})
                if clockless(spec):
                    ctx.check(not bad, 'switch:continued', '%s: %s (T=%d cut %d)', nets.brief(spec), bad[:3], T, cut)
                    ctx.count('continued')
        if tame(ref):
            bad = differences(ref, got)
            if bad:
                data = nets.make_data(spec, rng, T, B, dtype=np.float32)
                bad = differences(one_pass(ctx, cpu, spec, data, False), one_pass(ctx, gpu, spec, data, False))
            ctx.check(not bad, 'switch:outputs', '%s: %s', nets.brief(spec), bad[:3])
        ctx.count('passes')
    ctx.distinct('switch', nets.signature(spec))


def clockless(spec):
    return not any('Clockwork' in l['type'] for l in spec['layers'])
