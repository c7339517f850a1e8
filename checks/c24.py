"""C24: shuffle_data and split only rearrange data, consistently.

Monitor: every element of every array carries its own identity (array, time, sample,
feature); after shuffling and splitting the identities are read back: every sample must
appear exactly once, at the same place in all arrays, with all of its elements."""
import subprocess
import sys

import numpy as np

TECHNIQUE = 'runtime monitor: element identities tracked through shuffle/split executions (conservation, same position)'
LEVEL_NOTE = ('Random numbers, shapes, element types and memory layouts of arrays, seeds, ratios and chains of both '
              'operations; every element is accounted for.')
RULE = 'random arrays x seed x ratios x chain. Distinct: shapes, types, ratios.'
ASSUMPTIONS = ['all arrays hold the same number of samples; entries may be None (not the first)',
               'a piece may deviate from its exact share by rounding (at most one sample)']
MIN_COUNTERS = {'shuffles': 20000, 'splits': 1400, 'elements_tracked': 500000, 'pieces': 3000, 'permutations': 1000,
                'repetitions': 1200, 'chains': 300}
TYPES = [np.float64, np.float32, np.int64, np.int32, np.uint16, np.complex128, object, 'U12', '>f8']


def families(tier):
    k = 3 if tier == 'quick' else 200
    return [('shuffle', 900 * k), ('split', 900 * k), ('chain', 300 * k), ('uniform', 20 * k), ('process', 4)]


def run_case(case, ctx):
    globals()['case_' + case['family']](ctx)


def layout(rng, a):
    r = rng.randint(5)
    if r == 0:
        a = np.asfortranarray(a)
    elif r == 1:
        b = np.empty(a.shape[:1] + (2 * a.shape[1],) + a.shape[2:], a.dtype)
        b[:, ::2] = a
        a = b[:, ::2]
    elif r == 2:
        a = a[:, ::-1].copy()[:, ::-1]
    elif r == 3:
        a.flags.writeable = False
    return a


class Arrays(object):
    def __init__(self, rng, n=None):
        self.N = n if n is not None else int(rng.choice([1, 2, 3, 5, 10, 37, 200], p=[.1, .15, .2, .2, .15, .1, .1]))
        self.arrays, self.sample = [], []
        for j in range(int(rng.randint(1, 5))):
            if j and rng.rand() < .15:
                self.arrays.append(None)
                continue
            T = int(rng.randint(1, 4))
            feat = tuple(int(x) for x in rng.randint(1, 4, rng.randint(0, 4)))
            shape = (T, self.N) + feat
            ids = np.arange(int(np.prod(shape))).reshape(shape) + 1000 * j
            dt = TYPES[rng.randint(len(TYPES))]
            if dt in (np.uint16,) and ids.max() > 65000:
                dt = np.int64
            self.arrays.append(layout(rng, ids.astype(dt)))
        self.frozen = [None if a is None else (a.copy(), a.dtype, a.flags.writeable, a.strides) for a in self.arrays]

    def unchanged(self, ctx, what):
        for a, f in zip(self.arrays, self.frozen):
            if a is not None:
                ctx.check(a.dtype == f[1] and a.shape == f[0].shape and bool(np.all(a == f[0])) and
                          a.flags.writeable == f[2] and a.strides == f[3], 'input-changed', what)

    def brief(self):
        return [None if a is None else (a.shape, str(a.dtype)) for a in self.arrays]


def track(ctx, A, got, what, order=None):
    """got: arrays over some samples. Returns the samples they hold, read from the identities."""
    if not ctx.check(len(got) == len(A.arrays), 'count', '%s: %d arrays returned', what, len(got)):
        return None
    res = None
    for k, (a, g) in enumerate(zip(A.arrays, got)):
        if a is None:
            ctx.check(g is None, 'none-kept', '%s: entry %d', what, k)
            continue
        if not ctx.check(isinstance(g, np.ndarray) and g.dtype == a.dtype and g.ndim == a.ndim and
                         g.shape[:1] + g.shape[2:] == a.shape[:1] + a.shape[2:], 'shape',
                         '%s: array %d became %s %s', what, k, getattr(g, 'shape', g), getattr(g, 'dtype', '')):
            return None
        first = [x for x in a[(0, slice(None)) + (0,) * (a.ndim - 2)].tolist()]
        where = {x: i for i, x in enumerate(first)}
        seen = [where.get(x, -1) for x in g[(0, slice(None)) + (0,) * (g.ndim - 2)].tolist()]
        if not ctx.check(-1 not in seen, 'altered', '%s: array %d holds elements that were not in it', what, k):
            return None
        if res is None:
            res = seen
        ctx.check(seen == res, 'separated', '%s: array %d holds samples %s, array 0 holds %s', what, k, seen[:20], res[:20])
        ctx.check(bool(np.all(g == a[:, seen])), 'altered', '%s: elements of array %d changed or moved', what, k)
        ctx.count('elements_tracked', g.size)
    return res


def case_shuffle(ctx):
    from brainstorm.tools import shuffle_data
    rng = ctx.rng
    A = Arrays(rng)
    seed = [None, 0, int(rng.randint(2 ** 31)), int(rng.randint(100))][rng.randint(4)]
    kw = {} if seed is None and rng.rand() < .5 else {'seed': seed}
    st = np.random.get_state()[1].copy()
    got = shuffle_data(*A.arrays, **kw)
    ctx.check(np.array_equal(np.random.get_state()[1], st), 'global-state', 'the global random state changed')
    ctx.count('shuffles')
    p = track(ctx, A, got, 'shuffle %s' % (A.brief(),))
    if p is None:
        return
    ctx.check(sorted(p) == list(range(A.N)), 'permutation', 'samples %s after shuffling %d', p[:30], A.N)
    A.unchanged(ctx, 'shuffling changed its argument')
    if seed is not None:
        for _ in range(2):
            np.random.rand(3)
            again = shuffle_data(*A.arrays, seed=seed)
            ctx.check(track(ctx, A, again, 'again') == p, 'seed', 'seed %s gave two different permutations', seed)
            ctx.count('repetitions')
        one = [i for i, a in enumerate(A.arrays) if a is not None]
        i = one[int(rng.randint(len(one)))]
        alone = shuffle_data(A.arrays[i], seed=seed)
        ctx.check(bool(np.all(alone[0] == got[i])), 'seed', 'the permutation of seed %s depends on the arrays', seed)
        if A.N >= 10:
            other = shuffle_data(*A.arrays, seed=seed + 1)
            ctx.check(track(ctx, A, other, 'other seed') != p, 'seed', 'seeds %s and %s give the same order', seed, seed + 1)
            if A.N > 30:
                ctx.check(p != list(range(A.N)), 'not-shuffled', '%d samples stayed in order', A.N)
    ctx.distinct('sh', A.brief())
    ctx.count('permutations')
    ctx.sample = {'arrays': A.brief(), 'seed': seed}


def random_ratios(rng):
    r = rng.rand()
    if r < .2:
        return None
    n = int(rng.randint(1, 6))
    if r < .5:
        v = [int(x) for x in rng.randint(1, 20, n)]
    elif r < .8:
        v = [float(x) for x in rng.rand(n) + .01]
    elif r < .9:
        v = [1. / n] * n
    else:
        v = [int(x) for x in rng.randint(0, 3, n)]
        v[rng.randint(n)] = 2
    return [list, tuple, np.array][rng.randint(3)](v)


def split_checked(ctx, A, ratios, what):
    from brainstorm.tools import split
    kw = {} if ratios is None else {'ratios': ratios}
    pieces = split(*A.arrays, **kw)
    ctx.count('splits')
    r = np.asarray((9, 1) if ratios is None else ratios, float)
    if not ctx.check(len(pieces) == len(r), 'pieces', '%s: %d pieces for ratios %s', what, len(pieces), r):
        return None
    got = []
    for i, pc in enumerate(pieces):
        ctx.count('pieces')
        s = track(ctx, A, list(pc), '%s piece %d' % (what, i))
        if s is None:
            return None
        exact = r[i] / r.sum() * A.N
        ctx.check(abs(len(s) - exact) <= 1 + 1e-9, 'share', '%s: piece %d has %d of %d samples, share %s', what, i, len(s), A.N, exact)
        edge = len(got) + len(s)
        ctx.check(abs(edge - r[:i + 1].sum() / r.sum() * A.N) <= .5 + 1e-6, 'share', '%s: piece %d ends at %d', what, i, edge)
        got += s
    ctx.check(got == list(range(A.N)), 'concatenation', '%s: the pieces hold samples %s', what, got[:30])
    for k, a in enumerate(A.arrays):
        if a is not None:
            c = np.concatenate([p[k] for p in pieces], axis=1)
            ctx.check(c.shape == a.shape and bool(np.all(c == a)), 'concatenation', '%s: array %d', what, k)
    return pieces


def case_split(ctx):
    rng = ctx.rng
    A = Arrays(rng)
    ratios = random_ratios(rng)
    split_checked(ctx, A, ratios, 'split %s of %d' % (ratios, A.N))
    A.unchanged(ctx, 'splitting changed its argument')
    ctx.distinct('sp', A.brief(), str(ratios))
    ctx.sample = {'arrays': A.brief(), 'ratios': str(ratios)}


def case_chain(ctx):
    """shuffle, split, shuffle the pieces, and iterate over them"""
    from brainstorm.tools import shuffle_data, split
    from brainstorm.data_iterators import Minibatches
    rng = ctx.rng
    A = Arrays(rng)
    cur = shuffle_data(*A.arrays, seed=int(rng.randint(99)))
    ctx.count('shuffles')
    ratios = random_ratios(rng)
    pieces = split(*cur, **({} if ratios is None else {'ratios': ratios}))
    seen = []
    for p in pieces:
        if p[0].shape[1] and rng.rand() < .7:
            p = shuffle_data(*p, seed=int(rng.randint(99)))
        s = track(ctx, A, list(p), 'chain')
        if s is None:
            return
        if s and all(a is None or (a.ndim >= 3 and a.shape[0] == A.arrays[0].shape[0]) for a in A.arrays):
            d = {'x%d' % i: a for i, a in enumerate(p) if a is not None}
            t = []
            for b in Minibatches(int(rng.randint(1, len(s) + 1)), shuffle=True, **d)(None):
                t += track(ctx, A, [b.get('x%d' % i) for i in range(len(p))], 'batch') or []
            ctx.check(sorted(t) == sorted(s), 'batches', 'batches hold samples %s of %s', t[:20], s[:20])
        seen += s
    ctx.count('chains')
    ctx.check(sorted(seen) == list(range(A.N)), 'conservation', 'after the chain: samples %s', sorted(seen)[:40])
    A.unchanged(ctx, 'the chain changed its argument')
    ctx.distinct('ch', A.brief(), str(ratios))


def case_uniform(ctx):
    """over many seeds every sample reaches every position about equally often"""
    from brainstorm.tools import shuffle_data
    n, m = int(ctx.rng.randint(2, 6)), 2000
    a = np.arange(n).reshape(1, n, 1)
    s0 = int(ctx.rng.randint(10 ** 6))
    h = np.zeros((n, n))
    for s in range(m):
        p = shuffle_data(a, seed=s0 + s)[0][0, :, 0]
        h[p, np.arange(n)] += 1
        ctx.count('shuffles')
    e = m / n
    ctx.check(np.abs(h - e).max() < 7 * np.sqrt(e * (1 - 1. / n)), 'uniform', 'positions of %d samples: %s', n, h.tolist())
    ctx.distinct('u', n, s0)


SCRIPT = """
import sys; sys.path.insert(0, %r)
from vlib import env; env.install(env.build_ext('plain'))
import numpy as np
from brainstorm.tools import shuffle_data
print([shuffle_data(np.arange(20).reshape(1, 20, 1), seed=s)[0][0, :, 0].tolist() for s in range(5)])
"""


def case_process(ctx):
    """the order of a seed is the same in another process"""
    import os
    from brainstorm.tools import shuffle_data
    from vlib import env
    want = [shuffle_data(np.arange(20).reshape(1, 20, 1), seed=s)[0][0, :, 0].tolist() for s in range(5)]
    e = dict(os.environ, PYTHONHASHSEED=str(ctx.rng.randint(1000)))
    out = subprocess.run([sys.executable, '-c', SCRIPT % env.VERIF], env=e, cwd=env.VERIF, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    ctx.check(out.stdout.decode().strip() == str(want), 'seed', 'another process gave %s', out.stdout.decode()[:300])
    ctx.count('repetitions', 5)
