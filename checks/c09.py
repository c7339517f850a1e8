"""C09: augmenting iterators.

Monitor: the batches delivered by (chains of) augmenting iterators are recorded over
several epochs next to those of an unaugmented twin; a checker with the documented
transformation decides every array; the original arrays are watched for writes."""
import numpy as np

TECHNIQUE = 'runtime monitor: recorded augmented epochs vs twin iterator, write watch on the originals'
LEVEL_NOTE = ('Random data, types, layouts, parameters and chains; exact where the transformation is '
              'deterministic, exact set membership plus 7-sigma statistics where it is random.')
RULE = ('random augmenter (or chain) over Minibatches/Undivided, several epochs. Distinct: augmenter '
        'x parameters x dtype x base iterator.')
ASSUMPTIONS = ['statistical monitors use 7 sigma bounds (false alarm below 1e-11 each)',
               'class indices are integer arrays']
MIN_COUNTERS = {'batches_recorded': 3000, 'epochs_recorded': 1000, 'rejections_seen': 100,
                'statistical_tests': 100, 'exact_transformations': 2000}

KINDS = ['noise', 'salt', 'flip', 'onehot', 'multihot', 'pad', 'crop']


def families(tier):
    k = 24 if tier == 'quick' else 400
    return [(n, 80 * k) for n in KINDS] + [('chain', 150 * k), ('stat', 40 * k), ('reject', 80 * k)]


class Base(object):
    """A wrapped iterator, its twin over equal data, and the watched arrays."""

    def __init__(self, ctx, images=False, vocab=None, last=None, big=False, values=None):
        from brainstorm.data_iterators import Minibatches, Undivided
        rng = self.rng = ctx.rng
        self.ctx = ctx
        T = int(rng.randint(1, 4))
        N = int(rng.randint(1, 8)) if not big else 60
        self.data = {}
        for n in ['default', 'other', 'third']:
            if images:
                shape = (T, N) + tuple(int(x) for x in rng.randint(1, 6, 2)) + (int(rng.randint(1, 4)),)
                if big:
                    shape = (T, N, 6, 7, 2)
            else:
                shape = (T, N, int(last or rng.randint(1, 5)))
                if big:
                    shape = (T, N, 8)
            dt = [np.float64, np.float32, np.int64, np.uint8][rng.randint(4)]
            if vocab:
                dt = [np.int64, np.int32, np.int8][rng.randint(3)]
                a = rng.randint(0, vocab, shape).astype(dt)
            elif values is not None:
                a = (rng.rand(*shape) * .8 + .1).astype(values)
            elif np.dtype(dt).kind == 'f':
                a = rng.randn(*shape).astype(dt)
            else:
                a = rng.randint(0, 200, shape).astype(dt)
            r = rng.rand()
            if r < .2:
                a = np.asfortranarray(a)
            elif r < .4:
                a = np.repeat(a, 2, axis=-1)[..., ::2]
            if rng.rand() < .4:
                a.flags.writeable = False
            self.data[n] = a
        self.kind = ['minibatches', 'undivided'][rng.randint(2)]
        bs = int(rng.randint(1, N + 1))

        def mk(d):
            if self.kind == 'undivided':
                return Undivided(**d)
            it = Minibatches(batch_size=bs, shuffle=False, **d)
            return it
        self.it = mk(self.data)
        self.twin = mk({k: v.copy() for k, v in self.data.items()})
        self.before = {k: (v.dtype.str, v.shape, v.tobytes()) for k, v in self.data.items()}

    def epoch(self, it):
        log = [{k: np.array(v) for k, v in b.items()} for b in it(None)]
        self.ctx.count('epochs_recorded')
        self.ctx.count('batches_recorded', len(log))
        return log

    def originals(self):
        return self.epoch(self.twin)

    def finish(self, aug, what):
        ctx = self.ctx
        now = {k: (v.dtype.str, v.shape, v.tobytes()) for k, v in self.data.items()}
        ctx.check(now == self.before, 'data-changed', '%s: the data set of the user changed', what)
        for got, want in zip(self.epoch(self.it), self.originals()):
            ctx.check(set(got) == set(want), 'wrapped-changed', '%s: wrapped iterator delivers %s', what, sorted(got))
            for k in set(want) & set(got):
                ctx.same(got[k], want[k], 'wrapped-changed', '%s: the wrapped iterator delivers other data' % what)


def observe(ctx, base, aug, changed, judge, what, epochs=None):
    """changed: names that may change; judge(name, got, orig, epoch) decides them"""
    want = base.originals()
    ctx.check(aug.length == base.twin.length, 'length', '%s: %s', what, aug.length)
    ctx.check(set(aug.data_shapes) == set(base.data), 'data-shapes', '%s: %s', what, aug.data_shapes)
    for e in range(epochs or int(ctx.rng.randint(1, 4))):
        log = base.epoch(aug)
        if not ctx.check(len(log) == len(want), 'batch-count', '%s: %d batches', what, len(log)):
            return
        for got, orig in zip(log, want):
            if not ctx.check(set(got) == set(orig), 'names', '%s: %s', what, sorted(got)):
                return
            for k in sorted(orig):
                if k in changed:
                    judge(k, got[k], orig[k], e)
                    rep = tuple(aug.data_shapes[k])
                    ctx.check(rep[2:] == got[k].shape[2:], 'reported-shape',
                              '%s: %s reported as %s, delivered %s', what, k, rep, got[k].shape)
                    if base.kind == 'undivided':
                        ctx.check(rep == got[k].shape, 'reported-shape', '%s: %s reported as %s, delivered %s',
                                  what, k, rep, got[k].shape)
                else:
                    ctx.same(got[k], orig[k], 'other-array-changed', '%s: %s' % (what, k))
                    ctx.check(tuple(aug.data_shapes[k]) == base.data[k].shape, 'reported-shape', '%s: %s', what, k)
    base.finish(aug, what)


def run_case(case, ctx):
    globals()['case_' + case['family']](ctx)


def pick_names(rng):
    n = [x for x in ['default', 'other', 'third'] if rng.rand() < .5]
    return n or ['other']


# ------------------------------------------------------------------- single ones

def case_noise(ctx):
    from brainstorm.data_iterators import AddGaussianNoise
    rng = ctx.rng
    base = Base(ctx, images=rng.rand() < .3)
    names = pick_names(rng)
    std = {n: float([0, 0, 1e-3, 0.5][rng.randint(4)]) for n in names}
    mean = None if rng.rand() < .5 else {n: float(np.round(rng.uniform(-3, 3), 2)) for n in names}
    aug = AddGaussianNoise(base.it, std, mean)
    seen = {}

    def judge(n, got, orig, e):
        m = 0. if mean is None else mean[n]
        d = got.astype(float) - orig.astype(float) - m
        tol = 1e-5 if orig.dtype == np.float32 else 1e-9
        if not ctx.check(got.shape == orig.shape, 'noise', 'shape %s', got.shape):
            return
        if std[n] == 0:
            ctx.check(np.all(np.abs(d) <= tol * (1 + np.abs(orig))), 'noise', 'std 0, mean %s, but difference %s', m, d.ravel()[:5])
            ctx.count('exact_transformations')
        else:
            ctx.check(np.all(np.abs(d) <= std[n] * 9 + tol * (1 + np.abs(orig))), 'noise',
                      'noise of %s for std %s (epoch %d)', float(np.abs(d).max()), std[n], e)
            if std[n] == .5 and d.size > 2:
                key = d.ravel()[:3].tobytes()
                ctx.check(key not in seen, 'noise-repeated', '%s: the same noise again in epoch %d', n, e)
                seen[key] = 1
                ctx.check(len(set(np.round(d.ravel()[:6], 7))) > 1, 'noise', 'the same noise everywhere')
    observe(ctx, base, aug, names, judge, 'AddGaussianNoise(%s,%s)' % (std, mean), epochs=3)
    ctx.distinct('noise', sorted(std.items()), base.kind)
    ctx.sample = {'std': std, 'mean': mean}


def case_salt(ctx):
    from brainstorm.data_iterators import AddSaltNPepper
    rng = ctx.rng
    base = Base(ctx, images=rng.rand() < .3, values=[np.float64, np.float32][rng.randint(2)])
    names = pick_names(rng)
    prob = {n: float([0, 1, 0.3][rng.randint(3)]) for n in names}
    ratio = None if rng.rand() < .4 else {n: float([0, 1, .5][rng.randint(3)]) for n in names}
    aug = AddSaltNPepper(base.it, prob, ratio)

    def judge(n, got, orig, e):
        r = .5 if ratio is None else ratio[n]
        if not ctx.check(got.shape == orig.shape, 'salt', 'shape %s', got.shape):
            return
        salt, pepper, keep = got == 1, got == 0, got == orig
        ctx.check(np.all(salt | pepper | keep), 'salt', 'values other than salt, pepper, original')
        if prob[n] == 0:
            ctx.check(keep.all(), 'salt', 'probability 0 changed values')
        if prob[n] == 1:
            ctx.check(not keep.any(), 'salt', 'probability 1 left values')
        if r == 0:
            ctx.check(not salt.any(), 'salt', 'salt with ratio 0')
        if r == 1:
            ctx.check(not pepper.any(), 'salt', 'pepper with ratio 1')
        ctx.count('exact_transformations')
    observe(ctx, base, aug, names, judge, 'AddSaltNPepper(%s,%s)' % (prob, ratio))
    ctx.distinct('salt', sorted(prob.items()), str(ratio), base.kind)


def case_flip(ctx):
    from brainstorm.data_iterators import Flip
    rng = ctx.rng
    base = Base(ctx, images=True)
    if rng.rand() < .3:
        names, prob = ['default'], None
        aug = Flip(base.it)
    else:
        names = pick_names(rng)
        prob = {n: float([0, 1, .5][rng.randint(3)]) for n in names}
        aug = Flip(base.it, prob)

    def judge(n, got, orig, e):
        if not ctx.check(got.shape == orig.shape, 'flip', 'shape %s', got.shape):
            return
        p = .5 if prob is None else prob[n]
        for i in range(orig.shape[1]):
            same = np.array_equal(got[:, i], orig[:, i])
            fl = np.array_equal(got[:, i], orig[:, i, :, ::-1])
            ctx.check(same or fl, 'flip', '%s: image %d is neither original nor mirrored (epoch %d)', n, i, e)
            if p == 0:
                ctx.check(same, 'flip', 'flipped with probability 0')
            if p == 1:
                ctx.check(fl, 'flip', 'not flipped with probability 1 (epoch %d)', e)
            ctx.count('exact_transformations')
    observe(ctx, base, aug, names, judge, 'Flip(%s)' % prob, epochs=3)
    ctx.distinct('flip', str(prob), base.kind)


def case_onehot(ctx, multi=False):
    from brainstorm.data_iterators import OneHot, MultiHot
    rng = ctx.rng
    V = int(rng.randint(1, 7))
    base = Base(ctx, vocab=V, last=None if multi else 1)
    names = pick_names(rng)
    vocab = {n: V + int(rng.randint(0, 3)) for n in names}
    aug = (MultiHot if multi else OneHot)(base.it, vocab)

    def judge(n, got, orig, e):
        want = (orig[:, :, :, None] == np.arange(vocab[n])).any(2)
        ctx.check(got.shape == want.shape and np.array_equal(got.astype(float), want.astype(float)), 'onehot',
                  '%s: %s instead of %s', n, got.tolist(), want.tolist())
        ctx.count('exact_transformations')
    observe(ctx, base, aug, names, judge, type(aug).__name__)
    ctx.distinct('onehot', multi, V, sorted(vocab.items()), base.kind)


def case_multihot(ctx):
    case_onehot(ctx, True)


def pad(a, size, val):
    t, b, h, w, c = a.shape
    out = np.full((t, b, h + 2 * size, w + 2 * size, c), val, dtype=float)
    out[:, :, size:size + h, size:size + w] = a
    return out


def case_pad(ctx):
    from brainstorm.data_iterators import Pad
    rng = ctx.rng
    base = Base(ctx, images=True)
    names = pick_names(rng)
    size = {n: int(rng.randint(0, 4)) for n in names}
    val = None if rng.rand() < .5 else {n: float([-1.5, 3, 0.25, 255][rng.randint(4)]) for n in names}
    aug = Pad(base.it, size, val)

    def judge(n, got, orig, e):
        want = pad(orig, size[n], 0. if val is None else val[n])
        ctx.close(got, want, 'pad', '%s by %d' % (n, size[n]), rtol=0, atol=0)
        ctx.count('exact_transformations')
    observe(ctx, base, aug, names, judge, 'Pad(%s,%s)' % (size, val))
    ctx.distinct('pad', sorted(size.items()), str(val), base.kind)


def crop_positions(got, orig, i, h, w):
    """all positions whose window equals the delivered image i"""
    res = []
    for r in range(orig.shape[2] - h + 1):
        for c in range(orig.shape[3] - w + 1):
            if np.array_equal(got[:, i], orig[:, i, r:r + h, c:c + w]):
                res.append((r, c))
    return res


def case_crop(ctx):
    from brainstorm.data_iterators import RandomCrop
    rng = ctx.rng
    base = Base(ctx, images=True)
    names = pick_names(rng)
    shape = {}
    for n in names:
        h, w = base.data[n].shape[2:4]
        shape[n] = (int(rng.randint(1, h + 1)), int(rng.randint(1, w + 1)))
        if rng.rand() < .2:
            shape[n] = (int(h), int(w))
    aug = RandomCrop(base.it, shape)

    def judge(n, got, orig, e):
        h, w = shape[n]
        if not ctx.check(got.shape == orig.shape[:2] + (h, w, orig.shape[4]), 'crop', '%s: shape %s', n, got.shape):
            return
        for i in range(orig.shape[1]):
            ctx.check(crop_positions(got, orig, i, h, w), 'crop', '%s: image %d is no window of the original', n, i)
            ctx.count('exact_transformations')
    observe(ctx, base, aug, names, judge, 'RandomCrop(%s)' % shape, epochs=2)
    ctx.distinct('crop', sorted(shape.items()), base.kind)


# ------------------------------------------------------------------ chains

def case_chain(ctx):
    """deterministic chains: pad, full flip, zero noise, full crop, one hot"""
    from brainstorm import data_iterators as D
    rng = ctx.rng
    base = Base(ctx, images=True)
    it = base.it
    fs = {n: [] for n in base.data}
    shapes = {n: v.shape for n, v in base.data.items()}
    desc = []
    for _ in range(int(rng.randint(2, 5))):
        names = pick_names(rng)
        k = int(rng.randint(5))
        if k == 0:
            size = {n: int(rng.randint(0, 3)) for n in names}
            it = D.Pad(it, size)
            for n in names:
                fs[n].append(lambda a, s=size[n]: pad(a, s, 0.))
                t, b, h, w, c = shapes[n]
                shapes[n] = (t, b, h + 2 * size[n], w + 2 * size[n], c)
        elif k == 1:
            it = D.Flip(it, {n: 1.0 for n in names})
            for n in names:
                fs[n].append(lambda a: a[:, :, :, ::-1])
        elif k == 2:
            it = D.AddGaussianNoise(it, {n: 0.0 for n in names}, {n: 1.0 for n in names})
            for n in names:
                fs[n].append(lambda a: a + 1.0)
        elif k == 3:
            it = D.RandomCrop(it, {n: tuple(int(x) for x in shapes[n][2:4]) for n in names})
        else:
            it = D.AddSaltNPepper(it, {n: 1.0 for n in names}, {n: 1.0 for n in names})
            for n in names:
                fs[n].append(lambda a: np.ones_like(a))
        desc.append((k, names))

    def judge(n, got, orig, e):
        want = orig.astype(float)
        for f in fs[n]:
            want = f(want)
        tol = 1e-5 if orig.dtype == np.float32 else 1e-9
        ctx.close(got, want, 'chain', '%s of chain %s (epoch %d)' % (n, desc, e), rtol=tol, atol=tol)
        ctx.count('exact_transformations')
    observe(ctx, base, it, [n for n in fs], judge, 'chain %s' % desc, epochs=3) if all(fs.values()) else \
        observe(ctx, base, it, [n for n in fs if any(n in ns for _, ns in desc)], judge, 'chain %s' % desc, epochs=3)
    ctx.distinct('chain', str(desc))
    ctx.sample = {'chain': str(desc)}


# ------------------------------------------------------------------ statistics

def within(ctx, count, n, p, key, msg):
    ctx.count('statistical_tests')
    sd = np.sqrt(n * p * (1 - p)) + 1e-9
    ctx.check(abs(count - n * p) <= 7 * sd + 1e-6, key, '%s: %d of %d, expected a share of %s', msg, count, n, p)


def case_stat(ctx):
    from brainstorm import data_iterators as D
    rng = ctx.rng
    k = int(rng.randint(4))
    if k == 0:
        base = Base(ctx, big=True, values=np.float64)
        s, m = float(np.round(rng.uniform(.1, 3), 2)), float(np.round(rng.uniform(-2, 2), 2))
        aug = D.AddGaussianNoise(base.it, {'default': s}, {'default': m})
        for e in range(4):
            d = np.concatenate([g['default'].ravel() - o['default'].ravel() for g, o in
                                zip(base.epoch(aug), base.originals())])
            z = (d - m) / s
            n = z.size
            ctx.count('statistical_tests', 2)
            ctx.check(abs(z.mean()) < 7 / np.sqrt(n), 'noise-mean', 'epoch %d: mean %s instead of %s', e, d.mean(), m)
            ctx.check(abs((z ** 2).mean() - 1) < 7 * np.sqrt(2. / n), 'noise-std', 'epoch %d: std %s instead of %s',
                      e, d.std(), s)
            within(ctx, (z > 0).sum(), n, .5, 'noise-shape', 'share above the mean')
            within(ctx, (np.abs(z) > 1).sum(), n, .31731, 'noise-shape', 'share beyond one std')
    elif k == 1:
        base = Base(ctx, big=True, values=np.float64)
        p, r = float(np.round(rng.uniform(.1, .9), 2)), float(np.round(rng.uniform(.1, .9), 2))
        use = rng.rand() < .7
        aug = D.AddSaltNPepper(base.it, {'default': p}, {'default': r} if use else None)
        r = r if use else .5
        for e in range(4):
            g = np.concatenate([x['default'].ravel() for x in base.epoch(aug)])
            within(ctx, (g == 1).sum(), g.size, p * r, 'salt-share', 'epoch %d: salt' % e)
            within(ctx, (g == 0).sum(), g.size, p * (1 - r), 'pepper-share', 'epoch %d: pepper' % e)
    elif k == 2:
        base = Base(ctx, images=True, big=True, values=np.float64)
        p = float([.5, .2, .8][rng.randint(3)])
        aug = D.Flip(base.it, {'default': p}) if p != .5 else D.Flip(base.it)
        orig = np.concatenate([o['default'] for o in base.originals()], axis=1)
        n = f = 0
        for e in range(6):
            g = np.concatenate([o['default'] for o in base.epoch(aug)], axis=1)
            fl = np.array([not np.array_equal(g[:, i], orig[:, i]) for i in range(orig.shape[1])])
            n += fl.size
            f += fl.sum()
        within(ctx, f, n, p, 'flip-share', 'flipped images')
    else:
        base = Base(ctx, images=True, big=True, values=np.float64)
        aug = D.RandomCrop(base.it, {'default': (4, 4)})
        orig = np.concatenate([o['default'] for o in base.originals()], axis=1)
        rows, cols = np.zeros(3), np.zeros(4)
        for e in range(5):
            g = np.concatenate([o['default'] for o in base.epoch(aug)], axis=1)
            for i in range(orig.shape[1]):
                pos = crop_positions(g, orig, i, 4, 4)
                if ctx.check(len(pos) == 1, 'crop', 'image %d: %s', i, pos):
                    rows[pos[0][0]] += 1
                    cols[pos[0][1]] += 1
        for i in range(3):
            within(ctx, rows[i], rows.sum(), 1 / 3., 'crop-positions', 'row %d of %s' % (i, rows))
        for i in range(4):
            within(ctx, cols[i], cols.sum(), 1 / 4., 'crop-positions', 'column %d of %s' % (i, cols))
    base.finish(None, 'statistics')
    ctx.distinct('stat', k, base.kind)


def case_reject(ctx):
    from brainstorm import data_iterators as D
    from brainstorm.utils import IteratorValidationError as E
    rng = ctx.rng
    img = Base(ctx, images=True)
    vec = Base(ctx, vocab=3, last=2)
    h, w = img.data['default'].shape[2:4]
    bad = [
        lambda: D.AddGaussianNoise(img.it, {'nope': 1.}), lambda: D.AddSaltNPepper(img.it, {'nope': 1.}),
        lambda: D.AddGaussianNoise(img.it, {'default': 1.}, {'other': 1.}),
        lambda: D.AddGaussianNoise(img.it, {'default': 1.}, {}),
        lambda: D.AddSaltNPepper(img.it, {'default': 1.}, {'default': .5, 'other': .5}),
        lambda: D.Flip(img.it, {'nope': .5}), lambda: D.Flip(img.it, {'default': 1.5}),
        lambda: D.Flip(img.it, {'default': -.1}), lambda: D.Flip(vec.it), lambda: D.Flip(vec.it, {'other': .5}),
        lambda: D.OneHot(vec.it, {'default': 3}), lambda: D.OneHot(img.it, {'default': 3}),
        lambda: D.OneHot(vec.it, {'nope': 3}), lambda: D.OneHot(Base(ctx, vocab=3, last=1).it, {'default': 3.5}),
        lambda: D.MultiHot(img.it, {'default': 3}), lambda: D.MultiHot(vec.it, {'nope': 3}),
        lambda: D.MultiHot(vec.it, {'default': '3'}),
        lambda: D.Pad(img.it, {'nope': 3}), lambda: D.Pad(vec.it, {'default': 3}),
        lambda: D.Pad(img.it, {'default': 3}, {'other': 1.}),
        lambda: D.RandomCrop(img.it, {'nope': (1, 1)}), lambda: D.RandomCrop(vec.it, {'default': (1, 1)}),
        lambda: D.RandomCrop(img.it, {'default': (h + 1, w)}), lambda: D.RandomCrop(img.it, {'default': (h, w + 1)}),
        lambda: D.RandomCrop(img.it, {'default': (-1, w)}), lambda: D.RandomCrop(img.it, {'default': (h, -1)}),
        lambda: D.RandomCrop(img.it, {'default': (1, 1, 1)}), lambda: D.RandomCrop(img.it, {'default': 2}),
    ]
    for i in range(6):
        j = int(rng.randint(len(bad)))
        ctx.raises((E,), bad[j], 'invalid-accepted', 'invalid augmentation number %d' % j)
        ctx.distinct('reject', j)
    # after padding, crops up to the padded size are fine
    D.RandomCrop(D.Pad(img.it, {'default': 1}), {'default': (int(h) + 2, int(w) + 2)})
    ctx.check(True, 'x')
