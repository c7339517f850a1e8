"""Every operation of the compute handlers: random admissible arguments and the result by
definition (in extended precision). Used for the handler itself and the debug handler."""
import numpy as np

LD = np.longdouble


class Arg(object):
    """an array argument: role i (read only), o (overwritten), io (accumulated into)"""
    def __init__(self, name, role, value, contiguous=False, alias=None):
        self.name, self.role, self.contiguous, self.alias = name, role, contiguous, alias
        self.value = np.array(value, dtype=np.float64) if not isinstance(value, np.ndarray) else value


class Op(object):
    def __init__(self, name, args, ref, inplace=(), kw=(), exact=False):
        """args: list of Arg or scalars; ref(list of longdouble arrays / scalars) -> {arg name: (value, slack)};
        inplace: list of {output name: input name} that must work as well"""
        self.name, self.args, self.ref, self.inplace, self.kw, self.exact = name, args, ref, inplace, kw, exact

    def arrays(self):
        return [a for a in self.args if isinstance(a, Arg)]


def shape(rng, nd=None, m=6, zero=False):
    nd = int(nd if nd is not None else rng.randint(1, 6))
    if rng.rand() < .03 and nd <= 3:
        return {1: (int(rng.randint(100, 3000)),), 2: (int(rng.randint(20, 70)), int(rng.randint(20, 70))),
                3: (int(rng.randint(5, 15)),) * 2 + (int(rng.randint(5, 30)),)}[nd]
    m = {1: 40, 2: m + 3, 3: m}.get(nd, 4)
    s = [int(v) for v in rng.randint(1, m, nd)]
    for i in range(nd):
        if rng.rand() < .25:
            s[i] = 1
    return tuple(s)


def vals(rng, sh, dt, kind=None, sign=True, cap=1.0):
    if sh == ():
        return vals(rng, (1,), dt, kind, sign, cap).reshape(())
    return _vals(rng, sh, dt, kind, sign, cap)


def _vals(rng, sh, dt, kind=None, sign=True, cap=1.0):
    """values in one of several regimes; cap: share of the exponent range used"""
    f = np.finfo(dt)
    kind = kind or ['normal', 'normal', 'int', 'zero', 'mixed', 'huge', 'tiny', 'spread'][rng.randint(8)]
    if kind == 'normal':
        a = rng.randn(*sh) * 3
    elif kind == 'int':
        a = rng.randint(-3, 4, sh).astype(float)
    elif kind == 'zero':
        a = np.where(rng.rand(*sh) < .5, 0., rng.randn(*sh))
    elif kind == 'mixed':
        a = rng.randn(*sh) * 10 ** rng.uniform(-3, 3, sh)
    elif kind == 'huge':
        a = rng.randn(*sh).clip(-3, 3) / 3.01 * float(f.max) ** cap
    elif kind == 'tiny':
        a = rng.randn(*sh) * float(f.tiny) ** cap
    else:
        lo, hi = np.log10(float(f.tiny)) * cap, np.log10(float(f.max)) * cap
        a = np.sign(rng.randn(*sh)) * 10 ** rng.uniform(lo, hi, sh)
    a = np.clip(a, -float(f.max), float(f.max)).astype(dt)
    if not sign:
        a = np.abs(a)
    return np.asarray(a, dt).reshape(sh)


def nonzero(a, dt, least=None):
    a = a.copy()
    lim = least if least is not None else float(np.finfo(dt).tiny)
    a[np.abs(a) < lim] = 1
    return a


def quotient(a, b, dt):
    """arguments of a division; often both tiny, where the reciprocal of the divisor is not representable"""
    b = nonzero(b, dt, float(np.nextafter(dt(0), dt(1))))
    if np.abs(b).max() < 1e-30 and a.size % 2:
        a = np.resize(b.ravel()[::-1] * dt(3), a.shape)
    return a, b


def stale(rng, sh, dt):
    """what an output buffer may hold before it is overwritten"""
    return vals(rng, sh, dt, ['normal', 'huge', 'zero'][rng.randint(3)])


def scalar(rng, dt, cap=1.0):
    r = rng.rand()
    if r < .2:
        return [0, 1, -1, 2, 7][rng.randint(5)]
    if r < .6:
        return float(rng.randn())
    return float(dt(vals(rng, (1,), dt, None, True, cap)[0]))


def vec(rng, m):
    return [(1, m[1]), (m[0], 1)][rng.randint(2)]


def conv_geometry(rng):
    from vlib import kernels
    while True:
        g = kernels.geometry(rng)
        if g['n'] and g['oh'] == (g['h'] + 2 * g['p'] - g['kh']) // g['sh'] + 1 and \
                g['ow'] == (g['w'] + 2 * g['p'] - g['kw']) // g['sw'] + 1:
            return g


def tt(fn, slack=None):
    return lambda a, b, o: {'out': (fn(a, b), slack(a, b, o) if slack else 0)}


def sigmoid(x):
    e = np.exp(-np.abs(x))
    return np.where(x >= 0, 1 / (1 + e), e / (1 + e))


# one function per operation: (rng, dt) -> Op
OPS = {}


def op(f):
    OPS[f.__name__] = f
    return f


def _unary(name, fn, domain=lambda a, dt: a, slack=lambda a: 0, exact=False, n1='a', n2='out'):
    def make(rng, dt):
        s = shape(rng)
        a = domain(vals(rng, s, dt), dt)
        return Op(name, [Arg(n1, 'i', a), Arg(n2, 'o', stale(rng, s, dt))],
                  lambda a, o: {n2: (fn(a), slack(a))}, [{n2: n1}], exact=exact)
    OPS[name] = make


_unary('abs_t', np.abs, exact=True)
_unary('sign_t', np.sign, exact=True)
_unary('sqrt_t', np.sqrt, lambda a, dt: np.abs(a))
_unary('log_t', np.log, lambda a, dt: nonzero(np.abs(a), dt))
_unary('rel', lambda x: np.maximum(x, 0), exact=True, n1='x', n2='y')
_unary('sigmoid', sigmoid, n1='x', n2='y')
_unary('tanh', np.tanh, n1='x', n2='y')
_unary('el', lambda x: np.where(x > 0, x, np.expm1(np.minimum(x, 0))), slack=lambda x: 2.0, n1='x', n2='y')


def _binary(name, fn, domain=lambda a, b, dt: (a, b), exact=False, aliases=({'out': 'a'}, {'out': 'b'})):
    def make(rng, dt):
        s = shape(rng)
        a, b = domain(vals(rng, s, dt), vals(rng, s, dt), dt)
        return Op(name, [Arg('a', 'i', a), Arg('b', 'i', b), Arg('out', 'o', stale(rng, s, dt))], tt(fn),
                  list(aliases), exact=exact)
    OPS[name] = make


_binary('add_tt', lambda a, b: a + b)
_binary('subtract_tt', lambda a, b: a - b)
_binary('mult_tt', lambda a, b: a * b)
_binary('divide_tt', lambda a, b: a / b, quotient)
_binary('modulo_tt', np.fmod, lambda a, b, dt: (np.abs(a), nonzero(np.abs(b), dt)), exact=True)


def _matvec(name, fn, domain=lambda m, v, dt: (m, v), acc=False, full=False):
    def make(rng, dt):
        s = shape(rng, 2)
        vs = vec(rng, s)
        if full and rng.rand() < .2:
            vs = s
        c = .45 if acc else 1
        m, v = domain(vals(rng, s, dt, None, True, c), vals(rng, vs, dt, None, True, c), dt)
        if acc:
            return Op(name, [Arg('m', 'i', m), Arg('v', 'i', v), Arg('out', 'io', vals(rng, s, dt, None, True, .9))],
                      lambda m, v, o: {'out': (o + m * v, np.abs(o) + np.abs(m * v))})
        return Op(name, [Arg('m', 'i', m), Arg('v', 'i', v), Arg('out', 'o', stale(rng, s, dt))],
                  lambda m, v, o: {'out': (fn(m, v), 0)}, [{'out': 'm'}])
    OPS[name] = make


_matvec('add_mv', lambda m, v: m + v)
_matvec('subtract_mv', lambda m, v: m - v)
_matvec('mult_mv', lambda m, v: m * v, full=True)
_matvec('divide_mv', lambda m, v: m / v, quotient)
_matvec('mult_add_mv', None, acc=True)


def _scalar(name, fn, acc=False):
    def make(rng, dt):
        s = shape(rng)
        if acc:
            return Op(name, [scalar(rng, dt, .45), Arg('t', 'i', vals(rng, s, dt, None, True, .45)),
                             Arg('out', 'io', vals(rng, s, dt, None, True, .9))],
                      lambda c, t, o: {'out': (o + LD(c) * t, np.abs(o) + np.abs(LD(c) * t))})
        return Op(name, [scalar(rng, dt), Arg('t', 'i', vals(rng, s, dt)), Arg('out', 'o', stale(rng, s, dt))],
                  lambda c, t, o: {'out': (fn(LD(c), t), np.abs(LD(c)) if name == 'add_st' else 0)}, [{'out': 't'}])
    OPS[name] = make


_scalar('add_st', lambda s, t: s + t)
_scalar('mult_st', lambda s, t: s * t)
_scalar('mult_add_st', None, acc=True)


@op
def mult_add_tt(rng, dt):
    s = shape(rng)
    return Op('mult_add_tt', [Arg('a', 'i', vals(rng, s, dt, None, True, .45)), Arg('b', 'i', vals(rng, s, dt, None, True, .45)),
                              Arg('out', 'io', vals(rng, s, dt, None, True, .9))],
              lambda a, b, o: {'out': (o + a * b, np.abs(o) + np.abs(a * b))})


@op
def clip_t(rng, dt):
    s = shape(rng)
    lo, hi = sorted([float(dt(scalar(rng, dt))), float(dt(scalar(rng, dt)))])
    return Op('clip_t', [Arg('a', 'i', vals(rng, s, dt)), lo, hi, Arg('out', 'o', stale(rng, s, dt))],
              lambda a, lo, hi, o: {'out': (np.minimum(np.maximum(a, LD(lo)), LD(hi)), 0)}, [{'out': 'a'}], exact=True)


@op
def copy_to(rng, dt):
    s = shape(rng)
    return Op('copy_to', [Arg('src', 'i', vals(rng, s, dt)), Arg('dest', 'o', stale(rng, s, dt))],
              lambda a, o: {'dest': (a, 0)}, exact=True)


def cond(rng, s, dt):
    c = (rng.rand(*s) < .5) * rng.choice([1., -1., .3, 1e-30], s)
    return c.astype(dt)


@op
def copy_to_if(rng, dt):
    s = shape(rng)
    return Op('copy_to_if', [Arg('src', 'i', vals(rng, s, dt)), Arg('dest', 'io', vals(rng, s, dt)), Arg('cond', 'i', cond(rng, s, dt))],
              lambda a, o, c: {'dest': (np.where(c != 0, a, o), 0)}, exact=True)


@op
def fill_if(rng, dt):
    s = shape(rng)
    v = float(dt(scalar(rng, dt)))
    return Op('fill_if', [Arg('mem', 'io', vals(rng, s, dt)), v, Arg('cond', 'i', cond(rng, s, dt))],
              lambda o, v, c: {'mem': (np.where(c != 0, LD(v), o), 0)}, exact=True)


@op
def fill(rng, dt):
    s = shape(rng)
    v = float(dt(scalar(rng, dt)))
    return Op('fill', [Arg('mem', 'o', stale(rng, s, dt)), v], lambda o, v: {'mem': (o * 0 + LD(v), 0)}, exact=True)


@op
def add_into_if(rng, dt):
    s = shape(rng)
    return Op('add_into_if', [Arg('a', 'i', vals(rng, s, dt, None, True, .9)), Arg('out', 'io', vals(rng, s, dt, None, True, .9)),
                              Arg('cond', 'i', cond(rng, s, dt))],
              lambda a, o, c: {'out': (np.where(c != 0, a + o, o), 0)})


@op
def binarize_v(rng, dt):
    n, k = int(rng.randint(1, 9)), int(rng.randint(1, 9))
    v = rng.randint(0, k, (n, 1)).astype(dt)
    return Op('binarize_v', [Arg('v', 'i', v), Arg('out', 'o', stale(rng, (n, k), dt))],
              lambda v, o: {'out': (np.arange(k)[None, :] == v, 0)}, exact=True)


@op
def index_m_by_v(rng, dt):
    n, k = int(rng.randint(1, 9)), int(rng.randint(1, 9))
    v = rng.randint(0, k, (n, 1)).astype(dt)
    return Op('index_m_by_v', [Arg('m', 'i', vals(rng, (n, k), dt)), Arg('v', 'i', v), Arg('out', 'o', stale(rng, (n, 1), dt))],
              lambda m, v, o: {'out': (np.array([[m[i, int(v[i, 0])]] for i in range(n)]), 0)}, exact=True)


@op
def broadcast_t(rng, dt):
    s = shape(rng)
    ax = int(rng.randint(len(s)))
    a = s[:ax] + (1,) + s[ax + 1:]
    return Op('broadcast_t', [Arg('a', 'i', vals(rng, a, dt)), ax, Arg('out', 'o', stale(rng, s, dt))],
              lambda a, ax, o: {'out': (a + o * 0, 0)}, exact=True)


@op
def sum_t(rng, dt):
    nd = int(rng.randint(1, 3))
    s = shape(rng, nd)
    a = vals(rng, s, dt, None, True, .95)
    r = rng.rand()
    if r < .3:
        ax, os = None, ()
    else:
        ax = int(rng.randint(nd))
        os = s[:ax] + s[ax + 1:]
        if rng.rand() < .6:
            os = s[:ax] + (1,) + s[ax + 1:]
    n = a.size

    def ref(a, ax, o):
        return {'out': (a.sum(ax).reshape(os), np.abs(a).sum(ax).reshape(os) * n / 4)}
    return Op('sum_t', [Arg('a', 'i', a), ax, Arg('out', 'o', stale(rng, os, dt))], ref, kw=('axis', 'out') if rng.rand() < .5 else ())


@op
def merge_tt(rng, dt):
    s = shape(rng)
    ka, kb = int(rng.randint(1, 5)), int(rng.randint(1, 5))
    s = s[:-1] or (2,)
    return Op('merge_tt', [Arg('a', 'i', vals(rng, s + (ka,), dt)), Arg('b', 'i', vals(rng, s + (kb,), dt)),
                           Arg('out', 'o', stale(rng, s + (ka + kb,), dt))],
              lambda a, b, o: {'out': (np.concatenate([a, b], -1), 0)}, exact=True)


@op
def split_add_tt(rng, dt):
    s = shape(rng)
    ka, kb = int(rng.randint(1, 5)), int(rng.randint(1, 5))
    s = s[:-1] or (2,)
    return Op('split_add_tt', [Arg('x', 'i', vals(rng, s + (ka + kb,), dt, None, True, .9)),
                               Arg('out_a', 'io', vals(rng, s + (ka,), dt, None, True, .9)),
                               Arg('out_b', 'io', vals(rng, s + (kb,), dt, None, True, .9))],
              lambda x, a, b: {'out_a': (a + x[..., :ka], 0), 'out_b': (b + x[..., ka:], 0)})


def _dot(name, acc):
    def make(rng, dt):
        n, k, m = [int(v) for v in rng.choice([1, 2, 3, 5, 8, 17], 3)]
        ta, tb = bool(rng.randint(2)), bool(rng.randint(2))
        a = vals(rng, (k, n) if ta else (n, k), dt, None, True, .45)
        b = vals(rng, (m, k) if tb else (k, m), dt, None, True, .45)

        def ref(a, b, o, ta=False, tb=False):
            x, y = (a.T if ta else a), (b.T if tb else b)
            w = (x[:, :, None] * y[None]).sum(1)
            s = (np.abs(x)[:, :, None] * np.abs(y)[None]).sum(1)
            return {'out': (w + o, s * (k + 2) + np.abs(o)) if acc else (w, s * (k + 2))}
        out = vals(rng, (n, m), dt, None, True, .9) if acc else stale(rng, (n, m), dt)
        args = [Arg('a', 'i', a), Arg('b', 'i', b), Arg('out', 'io' if acc else 'o', out)]
        if ta or tb or rng.rand() < .5:
            args += [ta, tb]
        return Op(name, args, ref, kw=('transa', 'transb', 'out') if rng.rand() < .5 else ())
    OPS[name] = make


_dot('dot_mm', False)
_dot('dot_add_mm', True)


@op
def softmax_m(rng, dt):
    s = shape(rng, 2)
    a = vals(rng, s, dt)
    if rng.rand() < .3:
        a = (a * 0 + rng.uniform(-1, 1) * float(np.finfo(dt).max) * .4).astype(dt)
        a[:, 0] = (a[:, 0] * dt(1 - 4 * np.finfo(dt).eps)).astype(dt)

    def ref(m, o):
        d = m - m.max(1, keepdims=True)
        e = np.exp(d)
        y = e / e.sum(1, keepdims=True)
        return {'out': (y, y * (np.minimum(np.abs(d), 1e5) + (y * np.minimum(np.abs(d), 1e5)).sum(1, keepdims=True) + m.shape[1]))}
    return Op('softmax_m', [Arg('m', 'i', a), Arg('out', 'o', stale(rng, s, dt))], ref, [{'out': 'm'}])


def _deriv(name, value, fn, slack):
    def make(rng, dt):
        s = shape(rng)
        y = value(rng, s, dt)
        dy = vals(rng, s, dt)
        r = rng.rand()
        x = Arg('x', 'i', vals(rng, s, dt)) if r < .5 else None
        return Op(name, [x, Arg('y', 'i', y), Arg('dy', 'i', dy), Arg('dx', 'o', stale(rng, s, dt))],
                  lambda x, y, dy, dx: {'dx': (fn(y, dy), slack(y, dy))}, [{'dx': 'dy'}, {'dx': 'dy', 'x': 'y'}])
    OPS[name] = make


def unit(lo, hi):
    def f(rng, s, dt):
        y = rng.uniform(lo, hi, s)
        m = rng.rand(*s)
        y = np.where(m < .1, hi, np.where(m < .2, lo, np.where(m < .25, 0, y)))
        return y.astype(dt)
    return f


def el_out(rng, s, dt):
    return np.maximum(vals(rng, s, dt), dt(-1)) if rng.rand() < .5 else np.maximum(rng.randn(*s), -1).astype(dt)


_deriv('sigmoid_deriv', unit(0, 1), lambda y, dy: dy * y * (1 - y), lambda y, dy: np.abs(dy))
_deriv('tanh_deriv', unit(-1, 1), lambda y, dy: dy * (1 - y * y), lambda y, dy: np.abs(dy))
_deriv('rel_deriv', lambda rng, s, dt: np.maximum(vals(rng, s, dt), 0), lambda y, dy: np.where(y > 0, dy, 0), lambda y, dy: 0)
_deriv('el_deriv', el_out, lambda y, dy: np.where(y >= 0, dy, dy * (y + 1)), lambda y, dy: np.abs(dy) * (y < 0))


# images: always contiguous (the kernels require it)

def _pool(kind, direction):
    name = kind + 'pool2d_' + direction + '_batch'

    def make(rng, dt):
        from vlib import kernels
        g = conv_geometry(rng)
        ish, osh = (g['n'], g['h'], g['w'], g['c']), (g['n'], g['oh'], g['ow'], g['c'])
        a = vals(rng, ish, dt, None, True, .9)
        if kind == 'avg':
            a = a / dt(64)
        dy = vals(rng, osh, dt, None, True, .8)
        f, d = kernels.pool_reference(g, a, dy, kind)
        k, p, s = (g['kh'], g['kw']), g['p'], (g['sh'], g['sw'])
        X = Arg('inputs', 'i', a, True)
        if direction == 'forward':
            args = [X, k, Arg('outputs', 'o', stale(rng, osh, dt), True), p, s]
            if kind == 'max':
                args.append(Arg('argmax', 'x', stale(rng, osh, dt), True))
            m = np.abs(a).max()
            return Op(name, args, lambda *q: {'outputs': (LD(f), 0 if kind == 'max' else LD(m) * 30)}, exact=kind == 'max')
        Y = Arg('outputs', 'i', f.astype(dt), True)
        dx0 = vals(rng, ish, dt, None, True, .8)
        DX, DY = Arg('in_deltas', 'io', dx0, True), Arg('out_deltas', 'i', dy, True)
        sl = LD(np.abs(dy).max()) * 30 + np.abs(LD(dx0))
        if kind == 'max':
            am = np.zeros(osh, dt)
            from brainstorm.handlers import NumpyHandler
            NumpyHandler(dt).maxpool2d_forward_batch(np.ascontiguousarray(a), k, np.zeros(osh, dt), p, s, am)
            args = [X, k, Y, p, s, Arg('argmax', 'i', am, True), DX, DY]
        else:
            args = [X, k, Y, p, s, DX, DY]
        return Op(name, args, lambda *q: {'in_deltas': (LD(d) + LD(dx0), sl)})
    OPS[name] = make


for _k in ('max', 'avg'):
    for _d in ('forward', 'backward'):
        _pool(_k, _d)


def conv_ref(g, x, w, dy=None, b=None):
    n, p = g['n'], g['p']
    X = np.zeros((n, g['h'] + 2 * p, g['w'] + 2 * p, g['c']), LD)
    X[:, p:p + g['h'], p:p + g['w']] = x
    W = w.astype(LD)
    Y = np.zeros((n, g['oh'], g['ow'], w.shape[0]), LD)
    DX, DW = np.zeros(X.shape, LD), np.zeros(w.shape, LD)
    for i in range(g['oh']):
        for j in range(g['ow']):
            sl = (slice(None), slice(i * g['sh'], i * g['sh'] + g['kh']), slice(j * g['sw'], j * g['sw'] + g['kw']))
            Y[:, i, j] = np.tensordot(X[sl], W, ([1, 2, 3], [1, 2, 3]))
            if dy is not None:
                D = dy[:, i, j].astype(LD)
                DX[sl] += np.tensordot(D, W, 1)
                DW += np.tensordot(D, X[sl], ([0], [0]))
    return Y, DX[:, p:p + g['h'], p:p + g['w']], DW


@op
def conv2d_forward_batch(rng, dt):
    g = conv_geometry(rng)
    nf = int(rng.randint(1, 4))
    x = vals(rng, (g['n'], g['h'], g['w'], g['c']), dt, None, True, .4)
    w = vals(rng, (nf, g['kh'], g['kw'], g['c']), dt, None, True, .4)
    b = vals(rng, (nf,), dt, None, True, .4)
    y = conv_ref(g, x, w)[0] + b.astype(LD)
    sl = (conv_ref(g, np.abs(x), np.abs(w))[0] * (g['kh'] * g['kw'] * g['c'] + 2) + np.abs(b.astype(LD)))
    return Op('conv2d_forward_batch', [Arg('inputs', 'i', x, True), Arg('weights', 'i', w, True), Arg('bias', 'i', b, True),
                                       Arg('outputs', 'o', stale(rng, y.shape, dt), True), g['p'], (g['sh'], g['sw'])],
              lambda *q: {'outputs': (y, sl)})


@op
def conv2d_backward_batch(rng, dt):
    g = conv_geometry(rng)
    nf = int(rng.randint(1, 4))
    x = vals(rng, (g['n'], g['h'], g['w'], g['c']), dt, None, True, .4)
    w = vals(rng, (nf, g['kh'], g['kw'], g['c']), dt, None, True, .4)
    dy = vals(rng, (g['n'], g['oh'], g['ow'], nf), dt, None, True, .4)
    dx0, dw0, db0 = (vals(rng, s, dt, None, True, .5) for s in (x.shape, w.shape, (nf,)))
    _, dx, dw = conv_ref(g, x, w, dy)
    _, sx, sw = conv_ref(g, np.abs(x), np.abs(w), np.abs(dy))
    k = g['n'] * g['oh'] * g['ow'] + nf + 3
    db, sb = dy.astype(LD).sum((0, 1, 2)), np.abs(dy.astype(LD)).sum((0, 1, 2))
    res = {}
    for nm, d, s, z in (('in_deltas', dx, sx, dx0), ('weight_deltas', dw, sw, dw0), ('bias_deltas', db, sb, db0)):
        res[nm] = (d + z.astype(LD), s * k + np.abs(z.astype(LD)) * k)
    return Op('conv2d_backward_batch', [Arg('inputs', 'i', x, True), Arg('weights', 'i', w, True), g['p'], (g['sh'], g['sw']),
                                        Arg('in_deltas', 'io', dx0, True), Arg('out_deltas', 'i', dy, True),
                                        Arg('weight_deltas', 'io', dw0, True), Arg('bias_deltas', 'io', db0, True)],
              lambda *q: res)


class Placed(object):
    """an operation's arguments in memory: views of larger, watched buffers"""

    def __init__(self, op, rng, dt, alias=None, layouts=True):
        self.op, self.dt = op, dt
        self.views, self.bases, self.before = {}, {}, {}
        alias = alias or {}
        self.alias = alias
        self.layout = []
        for a in op.arrays():
            if a.name in alias:
                continue
            self.views[a.name] = self.place(a, rng, layouts)
        for o, i in alias.items():
            self.views[o] = self.views[i]

    def place(self, a, rng, layouts):
        v = np.asarray(a.value, self.dt)
        r = rng.rand() if layouts else 0
        if a.contiguous or r < .35 or v.ndim == 0:
            pad = int(rng.randint(0, 9))
            base = np.empty(v.size + 16 + pad, self.dt)
            sl = slice(8 + pad, 8 + pad + v.size)
            self.junk(base, rng)
            view = base[sl].reshape(v.shape)
            mask = np.zeros(base.shape, bool)
            mask[sl] = True
            lay = 'c'
        elif r < .7:                       # a part of the last dimension of a larger buffer
            a0, a1 = int(rng.randint(0, 4)), int(rng.randint(0, 4))
            base = np.empty(v.shape[:-1] + (v.shape[-1] + a0 + a1,), self.dt)
            self.junk(base, rng)
            sl = (Ellipsis, slice(a0, a0 + v.shape[-1]))
            view = base[sl]
            mask = np.zeros(base.shape, bool)
            mask[sl] = True
            lay = 'last'
        else:                              # a part of every dimension
            off = rng.randint(0, 3, (v.ndim, 2))
            base = np.empty(tuple(n + int(o.sum()) for n, o in zip(v.shape, off)), self.dt)
            self.junk(base, rng)
            sl = tuple(slice(int(o[0]), int(o[0]) + n) for n, o in zip(v.shape, off))
            view = base[sl]
            mask = np.zeros(base.shape, bool)
            mask[sl] = True
            lay = 'all'
        view[...] = v
        self.layout.append(lay)
        self.bases[a.name] = (base, mask)
        return view

    def junk(self, base, rng):
        base[...] = rng.choice([np.nan, 3.5, -1e30, np.inf], base.shape)

    def arguments(self, wrap=lambda x: x):
        return [wrap(self.views[a.name]) if isinstance(a, Arg) else a for a in self.op.args]

    def reference(self):
        vals = [self.views[a.name].astype(LD) if isinstance(a, Arg) else a for a in self.op.args]
        with np.errstate(all='ignore'):
            return self.op.ref(*vals)

    def snapshot(self):
        self.before = {n: b.copy() for n, (b, m) in self.bases.items()}

    def stray_writes(self):
        """what changed although it must not: {argument: text}"""
        written = {a.name for a in self.op.arrays() if a.role != 'i'}
        targets = {self.alias.get(n, n) for n in written}
        bad = {}
        for n, (b, m) in self.bases.items():
            old = self.before[n]
            diff = ~((b == old) | (np.isnan(b) & np.isnan(old)))
            if n in targets:
                diff = diff & ~m
                what = 'memory around the argument'
            else:
                what = 'an input argument or the memory around it'
            if diff.any():
                bad[n] = '%s changed (%d entries)' % (what, int(diff.sum()))
        return bad


def compare(got, want, slack, dt, exact):
    """number of wrong entries and a description of the first"""
    f = np.finfo(dt)
    eps, tiny = LD(f.eps), LD(np.nextafter(dt(0), dt(1)))
    big = LD(f.max) * (1 - 8 * eps)
    want = np.asarray(want, dtype=LD)
    slack = np.broadcast_to(np.asarray(slack, dtype=LD), want.shape)
    g = np.asarray(got)
    if g.shape != want.shape:
        return 1, 'shape %s instead of %s' % (g.shape, want.shape), 0
    with np.errstate(all='ignore'):
        represent = (np.abs(want) <= big) & (slack <= big)
        if exact:
            ok = g.astype(LD) == want
        else:
            ok = np.abs(g.astype(LD) - want) <= 6 * eps * np.abs(want) + 4 * eps * slack + 4 * tiny
            # subnormal intermediate results lose digits
            ok |= np.abs(g.astype(LD) - want) <= LD(f.tiny) * 4
    bad = represent & ~ok
    if not bad.any():
        return 0, '', int(represent.sum())
    i = tuple(int(k[0]) for k in np.nonzero(np.atleast_1d(bad)))
    return int(bad.sum()), 'at %s: %r instead of %r (allowed error %.3g)' % (
        i, float(np.atleast_1d(g)[i]), float(np.atleast_1d(want)[i]), float(4 * eps * np.atleast_1d(slack)[i])), int(represent.sum())


# which shapes belong together (for arguments that were changed)

def same(*names):
    return lambda s, a: len({s[n] for n in names if n in s}) == 1


def _mv(full=False):
    return lambda s, a: len(s['m']) == 2 and s['out'] == s['m'] and \
        s['v'] in [(1, s['m'][1]), (s['m'][0], 1)] + ([s['m']] if full else [])


def _dot_ok(s, a):
    if any(len(s[n]) != 2 for n in ('a', 'b', 'out')):
        return False
    flags = [v for v in a if isinstance(v, bool)] or [False, False]
    x = s['a'][::-1] if flags[0] else s['a']
    y = s['b'][::-1] if flags[1] else s['b']
    return x[1] == y[0] and s['out'] == (x[0], y[1])


def _sum_ok(s, a):
    ax = a[1]
    if ax is None:
        return s['out'] == ()
    return ax < len(s['a']) and s['out'] in (s['a'][:ax] + s['a'][ax + 1:], s['a'][:ax] + (1,) + s['a'][ax + 1:])


def _parts(whole, x, y):
    def ok(s, a):
        if min(len(s[n]) for n in (whole, x, y)) < 1 or s[x][-1] + s[y][-1] != s[whole][-1]:
            return False
        rows = {int(np.prod(s[n][:-1])) for n in (whole, x, y)}
        if len(rows) > 1:
            return False
        return True if len({s[n][:-1] for n in (whole, x, y)}) == 1 else None
    return ok


def _image_out(x, k, p, st, c):
    return (x[0], (x[1] + 2 * p - k[0]) // st[0] + 1, (x[2] + 2 * p - k[1]) // st[1] + 1, c)


def _pool_ok(s, a):
    t = [v for v in a if isinstance(v, tuple)]
    p = [v for v in a if isinstance(v, int)][0]
    x = s['inputs']
    if len(x) != 4 or s['outputs'] != _image_out(x, t[0], p, t[1], x[3]):
        return False
    return all(s[n] == s['outputs'] for n in ('argmax', 'out_deltas') if n in s) and s.get('in_deltas', x) == x


def _conv_ok(s, a):
    st = [v for v in a if isinstance(v, tuple)][0]
    p = [v for v in a if isinstance(v, int)][0]
    x, w = s['inputs'], s['weights']
    if len(x) != 4 or len(w) != 4 or w[3] != x[3]:
        return False
    o = _image_out(x, w[1:3], p, st, w[0])
    return s.get('outputs', o) == o and s.get('out_deltas', o) == o and s.get('in_deltas', x) == x and \
        s.get('weight_deltas', w) == w and s.get('bias', w[:1]) == w[:1] and s.get('bias_deltas', w[:1]) == w[:1]


VALID = {
    'dot_mm': _dot_ok, 'dot_add_mm': _dot_ok, 'sum_t': _sum_ok, 'merge_tt': _parts('out', 'a', 'b'),
    'split_add_tt': _parts('x', 'out_a', 'out_b'), 'conv2d_forward_batch': _conv_ok, 'conv2d_backward_batch': _conv_ok,
    'binarize_v': lambda s, a: len(s['v']) == len(s['out']) == 2 and s['v'] == (s['out'][0], 1) and None,
    'index_m_by_v': lambda s, a: len(s['m']) == 2 and s['v'] == s['out'] == (s['m'][0], 1) and None,
    'broadcast_t': lambda s, a: a[1] < len(s['out']) and s['a'] == s['out'][:a[1]] + (1,) + s['out'][a[1] + 1:],
    'softmax_m': lambda s, a: len(s['m']) == 2 and s['m'] == s['out'],
    'fill': lambda s, a: True, 'mult_mv': _mv(True)}
for _n in ('add_mv', 'subtract_mv', 'divide_mv', 'mult_add_mv'):
    VALID[_n] = _mv()
for _n in OPS:
    if 'pool2d' in _n:
        VALID[_n] = _pool_ok


def valid_shapes(op, shapes):
    """False: these shapes do not fit together; None: depends on values"""
    f = VALID.get(op.name) or same(*shapes)
    try:
        return f(shapes, op.args)
    except IndexError:
        return False
