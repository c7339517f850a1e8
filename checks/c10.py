"""C10: initialization.

Monitors: (1) an attribution oracle: every initializer of a specification draws from its
own value range, so the values found in each live parameter tell which initializer was
used; an independent implementation of the documented matching rules says which one (or
which rejection) is right. (2) characteristics of the values each initializer gives,
directly and through networks, with 7-sigma statistics where they are random."""
import re
import numpy as np

from vlib import nets, specs
from vlib.nets import prod

TECHNIQUE = 'runtime monitor: attribution of live parameter values to specifications, value statistics'
LEVEL_NOTE = ('Random networks and specifications (patterns, defaults, fallbacks, sub-dictionaries); exact '
              'attribution of every parameter value; exact or 7-sigma checks of each initializer.')
RULE = ('random networks x random specification dictionaries incl. wildcard, ambiguous, missing and unmatched '
        'ones; random initializers, arguments, shapes. Distinct: specification shape / initializer x shape.')
ASSUMPTIONS = ['statistical monitors use 7 sigma bounds (false alarm below 1e-11 each)',
               'a parameter selected by several patterns with different initializers is ambiguous (also when '
               'one of the patterns is the exact name), as the documentation of initialize says']
MIN_COUNTERS = {'parameters_attributed': 5000, 'rejections_seen': 500, 'fallbacks_used': 300,
                'statistical_tests': 300, 'characteristics': 1500, 'defaults_used': 500}


def families(tier):
    k = 3 if tier == 'quick' else 60
    return [('resolve', 900 * k), ('values', 700 * k), ('stats', 120 * k), ('network', 200 * k),
            ('reject', 400 * k)]


def run_case(case, ctx):
    globals()['case_' + case['family']](ctx)


# --------------------------------------------------------------- the matching rules

def matches(pattern, name):
    return re.match('^' + pattern.replace('*', '[_a-zA-Z0-9]*') + '$', name) is not None


class Rejected(Exception):
    pass


def ident(v):
    return ('num', float(v)) if isinstance(v, (int, float)) else ('obj', id(v))


def expected(spec, shapes):
    """{layer: {param: (initializer, fallback or None)}} or Rejected.
    shapes: {layer: {param: shape}} with all layers, also those without parameters."""
    pats = [p for p in spec if p not in ('default', 'fallback')]
    for p in pats:
        if not any(matches(p, l) for l in shapes):
            raise Rejected('pattern %s matches no layer' % p)
        if isinstance(spec[p], dict):
            for l in shapes:
                if not matches(p, l):
                    continue
                for q in spec[p]:
                    if q not in ('default', 'fallback') and not any(matches(q, n) for n in shapes[l]):
                        raise Rejected('pattern %s.%s matches nothing in %s' % (p, q, l))
    res = {}
    for l in shapes:
        for n in shapes[l]:
            found, fbs = [], []
            mine = [p for p in pats if matches(p, l)]
            for p in mine:
                v = spec[p]
                if not isinstance(v, dict):
                    found.append(v)
                    fbs.append(spec.get('fallback'))
                    continue
                qs = [q for q in v if q not in ('default', 'fallback') and matches(q, n)]
                if qs:
                    found += [v[q] for q in qs]
                elif 'default' in v:
                    found.append(v['default'])
                fbs.append(v.get('fallback', spec.get('fallback')))
            if not mine:
                fbs.append(spec.get('fallback'))
            if not found and 'default' in spec:
                found.append(spec['default'])
            fbs = [f for f in fbs if f is not None]
            if len({ident(v) for v in found}) != 1 or len({ident(f) for f in fbs}) > 1:
                raise Rejected('%s.%s: %d initializers, %d fallbacks' % (l, n, len(found), len(fbs)))
            res.setdefault(l, {})[n] = (found[0], fbs[0] if fbs else None)
    return res


class Ranges(object):
    """Initializers whose values can be told apart: number i uses [10*i, 10*i+1]."""

    def __init__(self, rng):
        self.rng = rng
        self.owner = {}
        self.n = 0

    def make(self, picky=False):
        from brainstorm import initializers as I
        self.n += 1
        lo = 10. * self.n
        rng = self.rng
        if picky:        # works for (some) matrices only
            class Picky(I.Initializer):
                def __init__(self, lo, kind):
                    super(Picky, self).__init__()
                    self.lo, self.kind = lo, kind

                def __call__(self, shape):
                    from brainstorm.utils import InitializationError
                    if not self.accepts(shape):
                        raise InitializationError('not for me')
                    return self.lo + self.rnd.rand(*shape)

                def accepts(self, shape):
                    return len(shape) == 2 and (self.kind == 0 or shape[0] == shape[1])
            v = Picky(lo, int(rng.randint(2)))
        elif rng.rand() < .35:
            v = [lo + .5, int(lo)][rng.randint(2)]
        elif rng.rand() < .5:
            v = I.Uniform(lo, lo + 1)
        else:
            v = I.Gaussian(std=.01, mean=lo + .5)
        self.owner[ident(v)] = self.n
        return v

    def number(self, v):
        return self.owner[ident(v)]


def network(ctx, dtype=np.float64, seed=0):
    rng = ctx.rng
    spec = nets.random_spec(rng, n_hidden=int(rng.randint(1, 5)), images=rng.rand() < .2)
    net = nets.build(spec, dtype, seed=seed)
    shapes = {l: {} for l in net.layers}
    for l, ps in nets.param_shapes(net).items():
        shapes[l].update(ps)
    return spec, net, shapes


def random_pattern(rng, names, all_names):
    n = names[rng.randint(len(names))] if names else all_names[rng.randint(len(all_names))]
    r = rng.rand()
    if r < .5:
        return n
    if r < .6:
        return '*'
    i = int(rng.randint(1, len(n) + 1))
    j = int(rng.randint(i, len(n) + 1))
    if r < .75:
        return n[:i] + '*'
    if r < .85:
        return '*' + n[i - 1:]
    if r < .95:
        return n[:i] + '*' + n[j:]
    return '*' + n[i - 1:j] + '*'


def random_spec(rng, shapes, src):
    """any specification: unambiguous, ambiguous, incomplete"""
    with_p = sorted(l for l in shapes if shapes[l])
    spec = {}
    if rng.rand() < .75:
        spec['default'] = src.make(picky=rng.rand() < .25)
    if rng.rand() < .35:
        spec['fallback'] = src.make(picky=rng.rand() < .1)
    for _ in range(int(rng.randint(0, 4))):
        p = random_pattern(rng, with_p if rng.rand() < .9 else sorted(shapes), sorted(shapes))
        if rng.rand() < .4:
            v = src.make(picky=rng.rand() < .25)
            if rng.rand() < .15 and spec:     # the same object twice
                old = [x for x in spec.values() if not isinstance(x, dict)]
                v = old[rng.randint(len(old))] if old else v
        else:
            v = {}
            ls = [l for l in with_p if matches(p, l)]
            ns = sorted(shapes[ls[0]]) if ls else ['W', 'bias']
            for _ in range(int(rng.randint(0, 3))):
                v[random_pattern(rng, ns, ['W'])] = src.make(picky=rng.rand() < .2)
            if rng.rand() < .5:
                v['default'] = src.make()
            if rng.rand() < .3:
                v['fallback'] = src.make(picky=rng.rand() < .1)
        spec[p] = v
    return spec


def frozen(spec):
    if isinstance(spec, dict):
        return tuple(sorted((k, frozen(v)) for k, v in spec.items()))
    if isinstance(spec, list):
        return ('list', repr(spec), id(spec))
    return ident(spec)


def call(net, spec, rng, seed=None):
    """initialize with the specification as dict, keywords or both"""
    kw = {} if seed is None else {'seed': seed}
    r = rng.rand()
    if r < .4:
        net.initialize(spec, **kw)
    elif r < .7 or not spec:
        net.initialize(**dict(spec, **kw)) if spec else net.initialize({}, **kw)
    else:
        ks = sorted(spec)
        cut = int(rng.randint(len(ks) + 1))
        a = {k: spec[k] for k in ks[:cut]}
        b = {k: spec[k] for k in ks[cut:]}
        b.update(kw)
        if set(a) == {'default'} and rng.rand() < .5:
            net.initialize(a['default'], **b)
        else:
            net.initialize(a, **b)


def case_resolve(ctx):
    from brainstorm.utils import NetworkValidationError, InitializationError
    rng = ctx.rng
    dtype = [np.float64, np.float32][rng.randint(2)]
    spec, net, shapes = network(ctx, dtype)
    src = Ranges(rng)
    for attempt in range(6):
        ini = random_spec(rng, shapes, src)
        before = frozen(ini)
        others = other_buffers(net)
        desc = describe(ini, src)
        ctx.distinct(desc)
        ctx.sample = {'spec': desc, 'layers': {l: {n: list(s) for n, s in v.items()} for l, v in shapes.items()}}
        try:
            exp = expected(ini, shapes)
        except Rejected as e:
            ctx.raises((NetworkValidationError, InitializationError), lambda: call(net, ini, rng), 'bad-specification',
                       '%s although %s' % (desc, e))
            ctx.check(frozen(ini) == before, 'specification-changed', 'initialize changed the specification %s', desc)
            continue
        fails = None
        use = {}
        for l in exp:
            for n in exp[l]:
                v, fb = exp[l][n]
                if not handles(v, shapes[l][n]):
                    v = fb
                    if v is None or not handles(v, shapes[l][n]):
                        fails = (l, n)
                    ctx.count('fallbacks_used')
                use[l, n] = v
                if 'default' in ini and v is ini['default']:
                    ctx.count('defaults_used')
        if fails:
            ctx.raises((InitializationError,), lambda: call(net, ini, rng), 'impossible-initializer',
                       '%s for %s' % (desc, fails))
            continue
        call(net, ini, rng, None if rng.rand() < .5 else int(rng.randint(1000)))
        ctx.check(frozen(ini) == before, 'specification-changed', 'initialize changed the specification %s', desc)
        for (l, n), v in sorted(use.items()):
            k = src.number(v)
            a = net.get('%s.parameters.%s' % (l, n))
            ctx.count('parameters_attributed')
            ctx.check(a.shape == shapes[l][n] and np.all((a >= 10 * k) & (a <= 10 * k + 1)), 'wrong-initializer',
                      '%s.%s with %s: values in [%s, %s], expected the range of initializer %d', l, n, desc,
                      a.min(), a.max(), k)
        if rng.rand() < .3:
            now = other_buffers(net)
            ctx.check(set(now) == set(others) and all(np.array_equal(now[k], others[k], equal_nan=True) for k in now),
                      'other-buffers', 'initialize changed buffers other than parameters')


def other_buffers(net):
    res = {}
    for l in net.layers:
        b = net.buffer[l]
        for part in b.keys():
            if part != 'parameters':
                for n, v in b[part].items():
                    res['%s.%s.%s' % (l, part, n)] = np.array(v)
    return res


def handles(v, shape):
    return v.accepts(shape) if hasattr(v, 'accepts') else True


def describe(spec, src):
    if isinstance(spec, dict):
        return '{%s}' % ', '.join('%s: %s' % (k, describe(v, src)) for k, v in sorted(spec.items()))
    return '#%d%s' % (src.number(spec), '' if isinstance(spec, (int, float)) else type(spec).__name__[0])


# ------------------------------------------------------- characteristics of one initializer

def scale_of(s, table):
    return table[s] if isinstance(s, str) else s

S6, S3, S12 = np.sqrt(6), np.sqrt(3), np.sqrt(12)


def judge(ctx, init, v, shape, what, tol=1e-9):
    """all exact characteristics of values v drawn from init for shape"""
    from brainstorm import initializers as I
    v = np.asarray(v)
    ctx.count('characteristics')
    if not ctx.check(v.shape == tuple(shape), 'shape', '%s: shape %s instead of %s', what, v.shape, shape):
        return
    ctx.check(np.all(np.isfinite(v)), 'finite', '%s: values not finite', what)
    name = type(init).__name__
    if isinstance(init, (int, float)):
        ctx.check(np.all(np.abs(v - init) <= tol * (1 + abs(init))), 'constant', '%s: %s', what, v.ravel()[:4])
    elif isinstance(init, (list, np.ndarray)) or name == 'ArrayInitializer':
        arr = np.asarray(init if name != 'ArrayInitializer' else init.array)
        ctx.close(v, arr, 'array', what, rtol=tol, atol=tol)
    elif name == 'Uniform':
        lo, hi = init.low, init.high
        ctx.check(v.min() >= lo - tol and v.max() <= hi + tol, 'range', '%s: [%s, %s] outside [%s, %s]',
                  what, v.min(), v.max(), lo, hi)
    elif name in ('DenseSqrtFanIn', 'DenseSqrtFanInOut'):
        b = bound(init, shape)
        ctx.check(np.abs(v).max() <= b * (1 + 1e-6) + tol, 'range', '%s: %s outside +-%s', what, np.abs(v).max(), b)
    elif name == 'EchoState':
        r = np.abs(np.linalg.eigvals(v.astype(np.float64))).max()
        ctx.check(abs(r - init.spectral_radius) <= 1e-4 * abs(init.spectral_radius) + 10 * tol, 'spectral-radius',
                  '%s: spectral radius %s', what, r)
    elif name == 'Orthogonal':
        m = v if shape[0] <= shape[1] else v.T
        ctx.close(m.dot(m.T), init.scale ** 2 * np.eye(m.shape[0]), 'orthogonality', what, rtol=0,
                  atol=1e-6 + 100 * tol)
    elif name == 'Identity':
        d = v - init.scale * np.eye(*shape)
        ctx.check(np.abs(d).max() <= 9 * abs(init.std) + tol * 10, 'identity', '%s: deviation %s for std %s', what,
                  np.abs(d).max(), init.std)
    elif name == 'Gaussian':
        ctx.check(np.abs(v - init.mean).max() <= 9 * abs(init.std) + tol * 10, 'gaussian', '%s: deviation %s', what,
                  np.abs(v - init.mean).max())
    elif name == 'RandomWalk':
        ctx.check(np.abs(v).max() <= 9 * walk_std(init, shape[0]) + tol, 'random-walk', '%s: %s', what, np.abs(v).max())
    elif name in ('SparseInputs', 'SparseOutputs'):
        ax = 0 if name == 'SparseInputs' else 1
        nz = (v != 0).sum(axis=ax)
        full = sub_never_zero(init.sub_initializer)
        ctx.check(np.all(nz <= init.connections) and (not full or np.all(nz == init.connections)), 'sparsity',
                  '%s: %s non-zero entries instead of %d', what, nz, init.connections)
        sub = init.sub_initializer
        if isinstance(sub, (int, float)):
            ctx.check(np.all((v == 0) | (np.abs(v - sub) < 1e-6 + tol)), 'sparse-values', '%s', what)
        elif type(sub).__name__ in ('Uniform', 'Gaussian', 'DenseSqrtFanIn', 'DenseSqrtFanInOut'):
            w = v[v != 0]
            if w.size:
                lo, hi = limits(sub, shape)
                ctx.check(w.min() >= lo - tol * 10 and w.max() <= hi + tol * 10, 'sparse-values',
                          '%s: [%s, %s]', what, w.min(), w.max())
        elif type(sub).__name__ == 'ArrayInitializer':
            arr = np.asarray(sub.array)
            ctx.check(np.all((v == 0) | (np.abs(v - arr) < 1e-6 + tol)), 'sparse-values', '%s', what)
    elif name == 'LstmOptInit':
        n = shape[0] // 4
        sub = (n,) + tuple(shape[1:])
        parts = [init.block_input, init.input_gate, init.forget_gate, init.output_gate]
        for i, p in enumerate(parts):
            judge(ctx, p, v[i * n:(i + 1) * n], sub, '%s gate %d (%s)' % (what, i, p), tol)


def bound(init, shape):
    if type(init).__name__ == 'DenseSqrtFanIn':
        return abs(scale_of(init.scale, {'rel': S6, 'tanh': S3, 'sigmoid': 4 * S3, 'linear': 1})) / np.sqrt(prod(shape[1:]))
    return abs(scale_of(init.scale, {'rel': S12, 'tanh': S6, 'sigmoid': 4 * S6, 'linear': 1})) / np.sqrt(
        shape[0] + prod(shape[1:]))


def walk_std(init, n):
    s = init.scale
    if s is None:
        s = {'linear': np.exp(1. / (2 * n)), 'rel': np.sqrt(2) * np.exp(1.2 / (max(n, 6) - 2.4))}[init.act_func]
    return abs(s) / np.sqrt(n)


def limits(sub, shape):
    n = type(sub).__name__
    if n == 'Uniform':
        return sub.low, sub.high
    if n == 'Gaussian':
        return sub.mean - 9 * abs(sub.std), sub.mean + 9 * abs(sub.std)
    b = bound(sub, shape)
    return -b, b


def sub_never_zero(sub):
    if isinstance(sub, (int, float)):
        return sub != 0
    return type(sub).__name__ in ('Uniform', 'Gaussian', 'DenseSqrtFanIn', 'DenseSqrtFanInOut', 'Orthogonal')


def rand_shape(rng):
    r = rng.rand()
    if r < .25:
        n = int(rng.randint(1, 9))
        return (n, n)
    if r < .6:
        return (int(rng.randint(1, 13)), int(rng.randint(1, 9)))
    if r < .8:
        return (int(rng.randint(1, 13)),)
    return tuple(int(x) for x in rng.randint(1, 5, int(rng.randint(3, 5))))


def case_values(ctx):
    """initializers called as a user calls them, repeatedly"""
    from brainstorm.initializers import evaluate_initializer
    rng = ctx.rng
    shape = rand_shape(rng)
    init = specs.any_initializer(rng, for_shape=shape)
    for _ in range(3):
        if rng.rand() < .5 and hasattr(init, '__call__'):
            v = init(shape)
        else:
            v = evaluate_initializer(init, shape, seed=[None, 3][rng.randint(2)])
        judge(ctx, init, v, shape, '%s for %s' % (text(init), shape))
        if isinstance(init, (list, np.ndarray)) or type(init).__name__ == 'ArrayInitializer':
            break
    ctx.distinct(text(init), shape)
    ctx.sample = {'init': text(init), 'shape': list(shape)}


def text(init):
    d = {k: v for k, v in getattr(init, '__dict__', {}).items() if k != 'rnd'}
    return '%s%s' % (type(init).__name__, {k: (text(v) if hasattr(v, '__dict__') else v) for k, v in d.items()}) \
        if d else repr(init)[:80]


def case_stats(ctx):
    """large draws: mean and standard deviation of the random initializers"""
    from brainstorm import initializers as I
    rng = ctx.rng
    f = lambda a, b: float(np.round(rng.uniform(a, b), 3))
    k = int(rng.randint(8))
    n = int(rng.randint(60, 160))
    shape = (n, int(rng.randint(60, 160)))
    if rng.rand() < .25:
        shape = (int(rng.randint(20, 60)), int(rng.randint(3, 8)), int(rng.randint(3, 8)), int(rng.randint(2, 10)))
    if k == 0:
        mu, sd = f(-2, 2), f(.05, 2)
        init, kind = I.Gaussian(sd, mu), 'normal'
    elif k == 1:
        lo = f(-2, 2)
        hi = lo + f(.1, 3)
        init, mu, sd, kind = I.Uniform(lo, hi), (lo + hi) / 2, (hi - lo) / S12, 'uniform'
    elif k == 2:
        lo = f(.1, 3)
        init, mu, sd, kind = I.Uniform(lo), 0, 2 * lo / S12, 'uniform'
    elif k in (3, 4):
        cls = [I.DenseSqrtFanIn, I.DenseSqrtFanInOut][k - 3]
        init = cls(specs.SCALES[rng.randint(len(specs.SCALES))])
        mu, sd, kind = 0, bound(init, shape) / S3, 'uniform'
    elif k == 5:
        shape = (n, n)
        init = I.RandomWalk(['linear', 'rel'][rng.randint(2)], None if rng.rand() < .5 else f(.5, 2))
        mu, sd, kind = 0, walk_std(init, n), 'normal'
    elif k == 6:
        sc, sd0 = f(-2, 2), f(.05, .5)
        shape = shape[:2]
        init = I.Identity(sc, sd0, enforce_square=False)
        mu, sd, kind = sc * np.eye(*shape), sd0, 'normal'
    else:
        # the connections are spread over all positions
        shape = (n, int(rng.randint(60, 160)))
        shape = shape[:2]
        c = int(rng.randint(5, min(shape) // 2))
        init = [I.SparseInputs, I.SparseOutputs][rng.randint(2)](1.0, c)
        v = init(shape)
        ax = 1 if type(init).__name__ == 'SparseInputs' else 0
        hits = (v != 0).sum(axis=ax)           # per position: Binomial(other, c/len)
        m, p = shape[ax], c / float(shape[1 - ax])
        bnd = 8 * np.sqrt(m * p * (1 - p)) + 2
        ctx.check(np.all(np.abs(hits - m * p) <= bnd), 'sparse-spread',
                  '%s: connections unevenly spread: %s, expected about %s', text(init), sorted(hits)[:3] + sorted(hits)[-3:], m * p)
        ctx.count('statistical_tests')
        return
    v = np.asarray(init(shape), float)
    judge(ctx, init, v, shape, text(init))
    d = v - mu
    N = v.size
    ctx.check(abs(d.mean()) <= 7 * sd / np.sqrt(N), 'mean', '%s for %s: mean off by %s', text(init), shape, d.mean())
    kurt = 3. if kind == 'normal' else 1.8
    ctx.check(abs((d ** 2).mean() / sd ** 2 - 1) <= 7 * np.sqrt((kurt - 1) / N), 'variance',
              '%s for %s: standard deviation %s instead of %s', text(init), shape, d.std(), sd)
    # no structure: rows, columns and neighbours are uncorrelated
    z = (d / sd).reshape(shape[0], -1)
    c = (z[:, 1:] * z[:, :-1]).mean()
    ctx.check(abs(c) <= 7 * kurt / np.sqrt(z.size), 'correlated', '%s: correlation of neighbours %s', text(init), c)
    c = (z[1:] * z[:-1]).mean()
    ctx.check(abs(c) <= 7 * kurt / np.sqrt(z.size), 'correlated', '%s: correlation of rows %s', text(init), c)
    ctx.count('statistical_tests', 4)
    ctx.distinct('stats', type(init).__name__, str(getattr(init, 'scale', None)))


def case_network(ctx):
    """initializers through networks of both precisions, with seeds, repeatedly"""
    from brainstorm import initializers as I
    rng = ctx.rng
    dtype = [np.float64, np.float32][rng.randint(2)]
    spec, net, shapes = network(ctx, dtype)
    shp = {l: v for l, v in shapes.items() if v}
    for _ in range(2):
        ini = specs.init_spec(rng, shp)
        before = frozen(ini)
        arrays = [(a.array if hasattr(a, 'array') else a) for a in flat(ini) if hasattr(a, 'array') or isinstance(a, list)]
        copies = [np.array(a) for a in arrays]
        call(net, ini, rng, None if rng.rand() < .5 else int(rng.randint(1000)))
        exp = expected(ini, shapes)
        for l in sorted(exp):
            for n in sorted(exp[l]):
                v, fb = exp[l][n]
                if type(v).__name__ in ('EchoState', 'Orthogonal', 'DenseSqrtFanIn') and not fits(v, shapes[l][n]):
                    v = fb
                    ctx.count('fallbacks_used')
                judge(ctx, v, net.get('%s.parameters.%s' % (l, n)), shapes[l][n], '%s.%s by %s' % (l, n, text(v)),
                      1e-9 if dtype == np.float64 else 2e-5)
                ctx.count('parameters_attributed')
        ctx.check(frozen(ini) == before, 'specification-changed', 'initialize changed the specification')
        net.handler.fill(net.buffer.parameters, 77.)
        for a, c in zip(arrays, copies):
            ctx.check(np.array_equal(np.array(a), c), 'specification-changed', 'an array of the specification shares '
                      'memory with the network')
    # the documented sparsity in a network: per unit / per input of a FullyConnected layer
    for l in spec['layers']:
        if l['type'] == 'FullyConnected' and len(shapes[l['name']]['W']) == 2:
            o, i = shapes[l['name']]['W']
            c = int(rng.randint(1, min(o, i) + 1))
            cls = [I.SparseInputs, I.SparseOutputs][rng.randint(2)]
            net.initialize({'default': 0.5, l['name']: {'W': cls(I.Uniform(1, 2), c)}})
            nz = net.get(l['name'] + '.parameters.W') != 0
            per = nz.sum(axis=1) if cls is I.SparseInputs else nz.sum(axis=0)
            swapped = nz.sum(axis=0) if cls is I.SparseInputs else nz.sum(axis=1)
            ctx.check(np.all(per == c), 'sparse-axes-swapped' if np.all(swapped == c) else 'sparsity', '%s(connections=%d) of W %s: %s', cls.__name__, c, (o, i), per)
            break
    ctx.distinct(nets.signature(spec), str(dtype))


def flat(spec):
    if isinstance(spec, dict):
        return [x for k in sorted(spec) for x in flat(spec[k])]
    return [spec]


def fits(v, shape):
    n = type(v).__name__
    if n == 'EchoState':
        return len(shape) == 2 and shape[0] == shape[1]
    if n == 'Orthogonal':
        return len(shape) == 2
    return len(shape) >= 2


def case_reject(ctx):
    from brainstorm import initializers as I
    from brainstorm.utils import NetworkValidationError, InitializationError
    rng = ctx.rng
    k = int(rng.randint(6))
    if k == 0:
        shape = rand_shape(rng)
        if len(shape) != 1:
            shape = (int(rng.randint(1, 9)),)
        for init in [I.DenseSqrtFanIn(), I.DenseSqrtFanInOut(), I.EchoState(), I.Identity(), I.Orthogonal(),
                     I.RandomWalk(), I.SparseInputs(1, 1), I.SparseOutputs(1, 1)]:
            ctx.raises((InitializationError,), lambda: init(shape), 'vector-accepted', '%s of %s' % (text(init), shape))
    elif k == 1:
        a, b = int(rng.randint(1, 6)), int(rng.randint(1, 6))
        b += (a == b)
        for init in [I.EchoState(), I.Identity(), I.RandomWalk()]:
            ctx.raises((InitializationError,), lambda: init((a, b)), 'nonsquare-accepted', '%s of %s' % (text(init), (a, b)))
            ctx.raises((InitializationError,), lambda: init((a, a, a)), 'cube-accepted', text(init))
        ctx.raises((InitializationError,), lambda: I.Orthogonal()((a, b, a)), 'cube-accepted', 'Orthogonal')
        ctx.raises((InitializationError,), lambda: I.SparseInputs(1, a + 1)((a, b)), 'too-sparse', 'SparseInputs')
        ctx.raises((InitializationError,), lambda: I.SparseOutputs(1, b + 1)((a, b)), 'too-sparse', 'SparseOutputs')
        v = I.SparseInputs(1, a)((a, b))
        ctx.check(np.all(v == 1), 'sparsity', 'as many connections as inputs')
        n = int(rng.randint(1, 20))
        n += (n % 4 == 0)
        ctx.raises((InitializationError,), lambda: I.LstmOptInit(1, 2, 3, 4)((n, b)), 'lstm-shape', 'LstmOptInit %d' % n)
        ctx.raises((InitializationError,), lambda: I.ArrayInitializer(np.ones((a, b)))((a, b + 1)), 'array-shape', 'array')
        ctx.raises((InitializationError,), lambda: I.ArrayInitializer(np.ones((a, b)))((a * b,)), 'array-shape', 'array')
        ctx.raises((AssertionError,), lambda: I.Uniform(2, 1), 'range', 'Uniform(2, 1)')
    else:
        spec, net, shapes = network(ctx)
        while not any(shapes.values()):
            spec, net, shapes = network(ctx)
        with_p = sorted(l for l in shapes if shapes[l])
        l = with_p[rng.randint(len(with_p))]
        n = sorted(shapes[l])[0]
        full = {'default': 1.5}
        if k == 2:
            bad = dict(full, **{l + 'x': 1})
            exc = NetworkValidationError
        elif k == 3:
            bad = dict(full, **{l: {n + 'x': 1}})
            exc = NetworkValidationError
        elif k == 4:
            bad = {'default': 1, l: 2, l[:1] + '*': 3}
            exc = NetworkValidationError
        else:
            bad = [{'default': 'abc'}, {'default': 1, l: 'abc'}, {'default': 1, l: {n: 'x'}}][rng.randint(3)]
            exc = TypeError
        ctx.raises((exc,), lambda: net.initialize(bad), 'bad-specification', str(bad))
        # conflicting keyword arguments are refused (or take precedence, as the doc string says)
        try:
            net.initialize({'default': 1}, default=3)
            ctx.check(np.all(net.get('parameters') == 3), 'conflict', 'two defaults: the keyword does not win')
        except TypeError:
            pass
        net.initialize(2.5)
        ctx.check(np.all(net.get('parameters') == 2.5), 'after-rejection', 'initialization after a rejected one')
        if len(with_p) > 1:
            ctx.raises((NetworkValidationError,), lambda: net.initialize({l: 2}), 'missing', 'no default for the others')
        wrong = np.ones(tuple(s + 1 for s in shapes[l][n])).tolist()
        ctx.raises((InitializationError,), lambda: net.initialize({'default': 1, l: {n: wrong}}), 'array-shape', 'list')
        arr = rng.randn(*shapes[l][n])
        net.initialize({'default': 1, 'fallback': 3, l: {n: wrong, 'default': 2}})
        ctx.check(np.all(net.get('%s.parameters.%s' % (l, n)) == 3), 'fallback', 'list of the wrong shape with fallback')
        net.initialize({'default': 1, l: {n: [arr, arr.tolist()][rng.randint(2)], 'default': 2}})
        ctx.same(net.get('%s.parameters.%s' % (l, n)), arr, 'array', 'array as initializer')
    ctx.distinct('reject', k)
