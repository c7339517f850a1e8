"""Random calls of the compiled kernels, with references by definition.

As a program: `kernels.py FLAVOUR KIND SEED COUNT STATEFILE` runs COUNT calls in a process
whose extension is instrumented by a sanitizer (exactly sized heap blocks, or threads)."""
import ctypes
import json
import sys
import threading

import numpy as np

GUARD = 64


class Guarded(object):
    """arrays between guard zones of a recognisable pattern (NaN: reading them shows)"""
    def __init__(self):
        self.all = []

    def __call__(self, a, output=False):
        a = np.ascontiguousarray(a)
        n = a.size
        base = np.empty(n + 2 * GUARD, a.dtype)
        fill = np.nan if a.dtype.kind == 'f' else 1 << 40
        base[:] = fill
        if a.dtype.kind == 'f':
            base[:GUARD:2] = -1e30
            base[GUARD + n::3] = 3e30
        base[GUARD:GUARD + n] = a.reshape(-1)
        v = base[GUARD:GUARD + n].reshape(a.shape)
        self.all.append((base, base.copy(), n, output))
        return v

    def damage(self):
        """what was written that must not be"""
        for i, (b, c, n, output) in enumerate(self.all):
            m = np.ones(b.size, bool)
            if output:
                m[GUARD:GUARD + n] = False
            if b[m].tobytes() != c[m].tobytes():
                bad = [int(k) - GUARD for k in np.nonzero(m)[0] if b[k:k + 1].tobytes() != c[k:k + 1].tobytes()]
                where = 'input entry' if 0 <= bad[0] < n else 'memory around argument'
                return '%s: argument %d of %d entries, position %s changed' % (where, i, n, bad[:5])
        return None


class Exact(object):
    """every array in a heap block of exactly its size"""
    def __init__(self):
        self.keep, self.inputs = [], []

    def __call__(self, a, output=False):
        a = np.ascontiguousarray(a)
        buf = (ctypes.c_char * max(1, a.nbytes))()
        v = np.frombuffer(buf, dtype=a.dtype, count=a.size).reshape(a.shape)
        v[...] = a
        self.keep.append(buf)
        if not output:
            self.inputs.append((v, a.copy()))
        return v

    def damage(self):
        for v, a in self.inputs:
            if v.tobytes() != a.tobytes():
                return 'input entry changed'
        return None


def geometry(rng, big=False):
    m = 12 if big else 7
    while True:
        g = dict(n=int(rng.randint(0 if rng.rand() < .05 else 1, 4)), c=int(rng.randint(1, 5)),
                 h=int(rng.randint(1, m)), w=int(rng.randint(1, m)), kh=int(rng.randint(1, 6)), kw=int(rng.randint(1, 6)),
                 sh=int(rng.randint(1, 5)), sw=int(rng.randint(1, 5)), p=int(rng.choice([0, 0, 1, 1, 2, 3, 5])))
        if g['h'] + 2 * g['p'] >= g['kh'] and g['w'] + 2 * g['p'] >= g['kw']:
            g['oh'] = (g['h'] + 2 * g['p'] - g['kh']) // g['sh'] + 1
            g['ow'] = (g['w'] + 2 * g['p'] - g['kw']) // g['sw'] + 1
            if rng.rand() < .05:                       # only a part of the windows
                g['oh'] = int(rng.randint(1, g['oh'] + 1))
            return g


def values(rng, shape, dt):
    r = rng.rand()
    if r < .3:
        a = rng.randint(-2, 3, shape)                  # ties
    elif r < .4:
        a = np.full(shape, float(rng.randn()))
    elif r < .5:
        a = -rng.rand(*shape) * 1e4
    else:
        a = rng.randn(*shape)
    return np.asarray(a, dt)


def windows(g):
    for y in range(g['oh']):
        for x in range(g['ow']):
            ys, xs = y * g['sh'] - g['p'], x * g['sw'] - g['p']
            yield y, x, max(ys, 0), min(ys + g['kh'], g['h']), max(xs, 0), min(xs + g['kw'], g['w'])


def pool_reference(g, a, dy, kind):
    """(forward, increments of the input deltas) as sums in float64"""
    out = np.zeros((g['n'], g['oh'], g['ow'], g['c']))
    dx = np.zeros((g['n'], g['h'], g['w'], g['c']))
    for y, x, y0, y1, x0, x1 in windows(g):
        if y1 <= y0 or x1 <= x0:
            continue
        win = a[:, y0:y1, x0:x1, :].astype(np.float64)
        k = win.shape[1] * win.shape[2]
        if kind == 'avg':
            out[:, y, x] = win.reshape(g['n'], k, g['c']).sum(1) / k
            dx[:, y0:y1, x0:x1, :] += (dy[:, y, x].astype(np.float64) / k)[:, None, None, :]
        else:
            f = win.reshape(g['n'], k, g['c'])
            out[:, y, x] = f.max(1) if k else 0
            am = f.argmax(1)
            for i in range(g['n']):
                for c in range(g['c']):
                    dx[i, y0 + am[i, c] // (x1 - x0), x0 + am[i, c] % (x1 - x0), c] += dy[i, y, x, c]
    return out, dx


class Call(object):
    """one kernel call sequence; run() executes it, problems() compares"""

    def __init__(self, rng, alloc, kinds=('max', 'avg', 'im2col', 'crop'), dtype=None):
        self.rng, self.alloc = rng, alloc
        self.dt = dtype or [np.float64, np.float32][rng.randint(2)]
        self.kind = kinds[rng.randint(len(kinds))]
        getattr(self, 'make_' + self.kind)()
        self.bad = []

    def tol(self):
        return (1e-12, 1e-12) if self.dt == np.float64 else (3e-6, 3e-5)

    def near(self, got, want, what):
        r, a = self.tol()
        s = np.abs(want).max(initial=0)
        with np.errstate(all='ignore'):
            ok = np.abs(got.astype(np.float64) - want) <= r * np.abs(want) + a * (s + 1)
        if got.shape != want.shape or not ok.all():
            self.bad.append('%s: %d of %d entries wrong (%s %s)' % (what, int((~ok).sum()), ok.size, self.dt.__name__, self.g))

    def exact(self, got, want, what):
        if got.shape != want.shape or not np.array_equal(got, want):
            self.bad.append('%s: %d of %d entries wrong (%s %s)' % (what, int((got != want).sum()), got.size, self.dt.__name__, self.g))

    # pooling
    def make_pool(self):
        r, al, dt = self.rng, self.alloc, self.dt
        g = self.g = geometry(r, r.rand() < .2)
        ish, osh = (g['n'], g['h'], g['w'], g['c']), (g['n'], g['oh'], g['ow'], g['c'])
        self.x = al(values(r, ish, dt))
        self.y = al(np.full(osh, 7e7, dt), True)
        self.dy = al(values(r, osh, dt))
        self.dx0 = values(r, ish, dt)
        self.dx = al(self.dx0, True)
        self.am = al(np.full(osh, 7e7, dt), True)
        self.args = ((g['kh'], g['kw']), g['p'], (g['sh'], g['sw']))
    make_max = make_avg = make_pool

    def run_max(self, c):
        k, p, s = self.args
        c.maxpool_forward(self.x, k, self.y, p, s, self.am)
        c.maxpool_backward(self.x, k, self.y, p, s, self.am, self.dx, self.dy)

    def run_avg(self, c):
        k, p, s = self.args
        c.avgpool_forward(self.x, k, self.y, p, s)
        c.avgpool_backward(self.x, k, self.y, p, s, self.dx, self.dy)

    def judge_max(self):
        f, d = pool_reference(self.g, self.x, self.dy, 'max')
        self.exact(self.y, f.astype(self.dt), 'maxpool_forward')
        self.near(self.dx, d + self.dx0.astype(np.float64), 'maxpool_backward')

    def judge_avg(self):
        f, d = pool_reference(self.g, self.x, self.dy, 'avg')
        self.near(self.y, f, 'avgpool_forward')
        self.near(self.dx, d + self.dx0.astype(np.float64), 'avgpool_backward')

    # patches
    def make_im2col(self):
        r, al, dt = self.rng, self.alloc, self.dt
        while True:
            g = geometry(r, r.rand() < .2)
            g['pads'] = [g['p']] * 4 if r.rand() < .6 else [int(v) for v in r.randint(0, 4, 4)]   # t l b r
            t, l, b, rt = g['pads']
            if g['h'] + t + b >= g['kh'] and g['w'] + l + rt >= g['kw']:
                break
        g['oh'] = (g['h'] + t + b - g['kh']) // g['sh'] + 1
        g['ow'] = (g['w'] + l + rt - g['kw']) // g['sw'] + 1
        self.g = g
        self.im = al(values(r, (g['h'] * g['w'] * g['c'],), dt))
        n = g['oh'] * g['ow'] * g['kh'] * g['kw'] * g['c']
        self.col = al(np.full(n, 7e7, dt), True)
        self.col2 = al(values(r, (n,), dt))
        self.im0 = values(r, (g['h'] * g['w'] * g['c'],), dt)
        self.im2 = al(self.im0, True)

    def run_im2col(self, c):
        g = self.g
        a = (g['h'], g['w'], g['c'], g['kh'], g['kw']) + tuple(g['pads']) + (g['sh'], g['sw'])
        c.im2col(*((self.im,) + a + (self.col,)))
        c.col2im(*((self.col2,) + a + (self.im2,)))

    def judge_im2col(self):
        g = self.g
        t, l, b, r = g['pads']
        im = self.im.reshape(g['h'], g['w'], g['c'])
        want = np.zeros((g['oh'], g['ow'], g['kh'], g['kw'], g['c']), self.dt)
        back = np.zeros((g['h'], g['w'], g['c']))
        col2 = self.col2.reshape(want.shape)
        for y in range(g['oh']):
            for x in range(g['ow']):
                for i in range(g['kh']):
                    for j in range(g['kw']):
                        yy, xx = y * g['sh'] - t + i, x * g['sw'] - l + j
                        if 0 <= yy < g['h'] and 0 <= xx < g['w']:
                            want[y, x, i, j] = im[yy, xx]
                            back[yy, xx] += col2[y, x, i, j]
        self.exact(self.col, want.reshape(-1), 'im2col')
        self.near(self.im2, back.reshape(-1) + self.im0.astype(np.float64), 'col2im')

    # cropping
    def make_crop(self):
        r, al, dt = self.rng, self.alloc, self.dt
        T, n, H, W, C = [int(v) for v in r.randint(1, 7, 5)]
        ch, cw = int(r.randint(1, H + 1)), int(r.randint(1, W + 1))
        self.g = dict(T=T, n=n, H=H, W=W, C=C, ch=ch, cw=cw)
        self.x = al(values(r, (T, n, H, W, C), dt))
        self.y = al(np.full((T, n, ch, cw, C), 7e7, dt), True)
        rows = r.randint(0, H - ch + 1, n)
        cols = r.randint(0, W - cw + 1, n)
        if r.rand() < .3:
            rows[:], cols[:] = H - ch, W - cw
        self.g['rows'], self.g['cols'] = rows.tolist(), cols.tolist()
        self.rows, self.cols = al(rows.astype(np.int64)), al(cols.astype(np.int64))
        if r.rand() < .2:
            self.rows = al(rows.astype(np.int64)[::-1])[::-1]
            self.cols = al(np.repeat(cols.astype(np.int64), 2))[::2]

    def run_crop(self, c):
        c._crop_images(self.x, self.g['ch'], self.g['cw'], self.rows, self.cols, self.y)

    def judge_crop(self):
        g = self.g
        want = np.empty_like(self.y)
        for i in range(g['n']):
            a, b = g['rows'][i], g['cols'][i]
            want[:, i] = self.x[:, i, a:a + g['ch'], b:b + g['cw']]
        self.exact(self.y, want, '_crop_images')

    def run(self, c):
        getattr(self, 'run_' + self.kind)(c)

    def problems(self):
        getattr(self, 'judge_' + self.kind)()
        d = self.alloc.damage()
        if d:
            self.bad.append('%s: %s (%s %s)' % (self.kind, d, self.dt.__name__, self.g))
        return self.bad

    def key(self):
        return '%s %s %s' % (self.kind, self.dt.__name__, sorted((k, v) for k, v in self.g.items() if k not in ('rows', 'cols')))


def large_pool(c, rng, alloc, extra):
    """a float32 image whose entries cannot be numbered exactly in float32"""
    H, W, C = 4, (1 << 22) + extra, 1
    kw = 1 << 11
    x = np.zeros((1, H, W, C), np.float32)
    ow = (W - kw) // kw + 1
    pos = int(rng.randint(0, kw))
    last = W - 1 - int(rng.randint(0, 3))
    sw = kw
    # windows end exactly at the right edge
    off = W - ((ow - 1) * sw + kw)
    x[0, H - 1, pos::kw, 0] = 1
    x[0, H - 1, last, 0] = 2
    xx = alloc(x)
    y = alloc(np.zeros((1, 1, ow, C), np.float32), True)
    am = alloc(np.zeros((1, 1, ow, C), np.float32), True)
    dx = alloc(np.zeros_like(x), True)
    dy = alloc((rng.rand(1, 1, ow, C) + .5).astype(np.float32))
    c.maxpool_forward(xx, (H, kw + off), y, 0, (1, sw), am)
    c.maxpool_backward(xx, (H, kw + off), y, 0, (1, sw), am, dx, dy)
    want = np.zeros_like(x)
    for o in range(ow):
        win = x[0, H - 1, o * sw:o * sw + kw + off, 0]
        want[0, H - 1, o * sw + int(win.argmax()), 0] += dy[0, 0, o, 0]
    bad = []
    if not np.allclose(dx, want, rtol=1e-5):
        i = np.argwhere(~np.isclose(dx, want, rtol=1e-5))[0].tolist()
        bad.append('maxpool_backward: image of %s float32 entries: gradient at %s is %r instead of %r' % (
            x.shape, i, float(dx[tuple(i)]), float(want[tuple(i)])))
    d = alloc.damage()
    if d:
        bad.append('maxpool: ' + d)
    return bad


def through_handler(rng, alloc):
    """the kernels as the CPU handler calls them"""
    from brainstorm.handlers import NumpyHandler
    dt = [np.float64, np.float32][rng.randint(2)]
    h = NumpyHandler(dt)
    g = geometry(rng)
    nf = int(rng.randint(1, 4))
    x = alloc(values(rng, (g['n'], g['h'], g['w'], g['c']), dt))
    w = alloc(rng.randn(nf, g['kh'], g['kw'], g['c']).astype(dt))
    b = alloc(rng.randn(nf).astype(dt))
    oh = (g['h'] + 2 * g['p'] - g['kh']) // g['sh'] + 1
    ow = (g['w'] + 2 * g['p'] - g['kw']) // g['sw'] + 1
    y = alloc(np.zeros((g['n'], oh, ow, nf), dt), True)
    dy = alloc(rng.randn(g['n'], oh, ow, nf).astype(dt))
    dx, dw, db = (alloc(np.zeros(s, dt), True) for s in (x.shape, w.shape, b.shape))
    h.conv2d_forward_batch(x, w, b, y, g['p'], (g['sh'], g['sw']))
    h.conv2d_backward_batch(x, w, g['p'], (g['sh'], g['sw']), dx, dy, dw, db)
    X = np.zeros((g['n'], g['h'] + 2 * g['p'], g['w'] + 2 * g['p'], g['c']))
    X[:, g['p']:g['p'] + g['h'], g['p']:g['p'] + g['w']] = x
    Y = np.zeros(y.shape) + b.astype(float)
    DX, DW = np.zeros(X.shape), np.zeros(w.shape)
    for i in range(oh):
        for j in range(ow):
            sl = (slice(None), slice(i * g['sh'], i * g['sh'] + g['kh']), slice(j * g['sw'], j * g['sw'] + g['kw']))
            Y[:, i, j] += np.tensordot(X[sl], w.astype(float), ([1, 2, 3], [1, 2, 3]))
            DX[sl] += np.tensordot(dy[:, i, j].astype(float), w.astype(float), 1)
            DW += np.tensordot(dy[:, i, j].astype(float), X[sl], ([0], [0]))
    t = 1e-10 if dt == np.float64 else 2e-4
    bad = []
    p = g['p']
    for n, a, e in (('outputs', y, Y), ('input deltas', dx, DX[:, p:p + g['h'], p:p + g['w']]), ('weight gradients', dw, DW),
                    ('bias gradients', db, dy.astype(float).sum((0, 1, 2)))):
        if a.shape != e.shape or not np.allclose(a, e, rtol=t, atol=t * (1 + np.abs(e).max(initial=0))):
            bad.append('conv2d: %s (%s %s)' % (n, dt.__name__, g))
    d = alloc.damage()
    if d:
        bad.append('conv2d: %s (%s)' % (d, g))
    return bad, 'conv %s' % sorted(g.items())


def threaded(c, rng, n_threads, n_calls, shared=None):
    """several threads, disjoint outputs; inputs are shared within pairs"""
    groups = []
    for t in range(n_threads):
        groups.append([Call(np.random.RandomState(rng.randint(2 ** 31)), Exact()) for _ in range(n_calls)])
    for a, b in zip(groups[::2], groups[1::2]):       # two threads read the same image
        for i in range(0, n_calls, 3):
            x = a[i]
            y = Call(np.random.RandomState(0), Exact())
            y.__dict__.update(x.__dict__)
            y.bad = []
            al = y.alloc = Exact()
            for k in ('y', 'dx', 'am', 'col', 'im2'):
                if hasattr(x, k):
                    setattr(y, k, al(getattr(x, k), True))
            b[i] = y
    start = threading.Barrier(n_threads)
    errors = []

    def work(g):
        try:
            start.wait()
            for k in g:
                k.run(c)
        except Exception as e:                         # pragma: no cover
            errors.append(repr(e))
    ts = [threading.Thread(target=work, args=(g,)) for g in groups]
    [t.start() for t in ts]
    [t.join() for t in ts]
    return errors + [p for g in groups for k in g for p in k.problems()], [k.key() for g in groups for k in g]


def batched_threads(c, rng, n_threads):
    """threads work on neighbouring samples of the same arrays"""
    g = geometry(rng, True)
    n, dt = n_threads * 2, [np.float64, np.float32][rng.randint(2)]
    g['n'] = n
    al = Exact()
    x = al(values(rng, (n, g['h'], g['w'], g['c']), dt))
    osh = (n, g['oh'], g['ow'], g['c'])
    y, am = al(np.zeros(osh, dt), True), al(np.zeros(osh, dt), True)
    dx = al(np.zeros(x.shape, dt), True)
    dy = al(values(rng, osh, dt))
    k, p, s = (g['kh'], g['kw']), g['p'], (g['sh'], g['sw'])
    start = threading.Barrier(n_threads)

    def work(t):
        sl = slice(2 * t, 2 * t + 2)
        start.wait()
        c.maxpool_forward(x[sl], k, y[sl], p, s, am[sl])
        c.maxpool_backward(x[sl], k, y[sl], p, s, am[sl], dx[sl], dy[sl])
    ts = [threading.Thread(target=work, args=(t,)) for t in range(n_threads)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    f, d = pool_reference(g, x, dy, 'max')
    bad = []
    if not np.array_equal(y, f.astype(dt)):
        bad.append('maxpool_forward in %d threads: wrong (%s)' % (n_threads, g))
    if not np.allclose(dx, d, rtol=1e-5, atol=1e-4 * (1 + np.abs(d).max(initial=0))):
        bad.append('maxpool_backward in %d threads: wrong (%s)' % (n_threads, g))
    return bad, ['batch %s' % sorted(g.items())]


def main():
    flavour, kind, seed, count, state = sys.argv[1:6]
    sys.path.insert(0, __file__.rsplit('/vlib/', 1)[0])
    from vlib import env
    env.install(env.build_ext(flavour))
    from brainstorm.handlers import _cpuop as c
    res = {'bad': [], 'keys': [], 'calls': 0, 'threads': 0}
    st = open(state, 'w')
    for i in range(int(count)):
        rng = np.random.RandomState((int(seed) * 1000003 + i) % (2 ** 32))
        st.seek(0)
        st.write('%d       ' % i)
        st.flush()
        if kind == 'exact':
            if rng.rand() < .25:
                b, k = through_handler(rng, Exact())
                res['keys'].append(k)
                res['bad'] += b
                continue
            call = Call(rng, Exact())
            st.write(' ' + call.key() + '            ')
            st.flush()
            call.run(c)
            res['calls'] += 1
            res['keys'].append(call.key())
            res['bad'] += call.problems()
        else:
            n = int(rng.randint(2, 6))
            b, k = threaded(c, rng, n, 9) if rng.rand() < .6 else batched_threads(c, rng, n)
            res['bad'] += b
            res['keys'] += k
            res['calls'] += len(k)
            res['threads'] += n
    res['bad'] = res['bad'][:8]
    print('RESULT ' + json.dumps(res))


if __name__ == '__main__':
    main()
