"""C16: scores, losses and extraction do not depend on how the data is batched.

Monitor: evaluate/extract run over the same data set with many batch sizes, orders and
iterators; the oracle computes the losses and scores from their definitions, one row at a
time, from the predictions of a twin network that sees every sample alone."""
import os
import shutil
import tempfile

import numpy as np

from vlib import nets
from vlib.training import Task

TECHNIQUE = 'runtime monitor: evaluate/extract executions vs row-by-row definitions on per-sample twin runs'
LEVEL_NOTE = ('Random networks, masks, targets, batch sizes, orders and iterators in both precisions; every score, '
              'loss and extracted entry is compared.')
RULE = ('random (network x data set x mask x batch size x order x iterator x scorers). Distinct: network signature, '
        'sizes, batch size, scorers.')
ASSUMPTIONS = ['masks are 0/1 with one entry per sample and time step (as documented); weights of scorers: mask sum or '
               'number of rows; a loss is averaged over the sequences',
               'cross-sample layers are evaluated with their stored statistics']
MIN_COUNTERS = {'evaluations': 7000, 'scores_compared': 10000, 'losses_compared': 9000, 'extractions': 2000,
                'samples_compared': 25000, 'masked_evaluations': 1700, 'scorer_calls': 3000, 'files_read': 500,
                'named_scores': 300, 'cut_batches': 180, 'fully_masked': 36}


def families(tier):
    k = 3 if tier == 'quick' else 80
    return [('task', 700 * k), ('names', 200 * k), ('random', 350 * k), ('scorers', 900 * k), ('extract', 350 * k), ('cut', 250 * k),
            ('save', 200 * k), ('images', 150 * k)]


def run_case(case, ctx):
    globals()['case_' + case['family']](ctx)


FORWARD = ('H', 'Ha', 'Hb', 'Ia', 'Ib', 'Oa', 'Ob', 'Fa', 'Fb', 'Za', 'Zb', 'Ca', 'Cb')


# ------------------------------------------------------------------ definitions

def rows(a):
    return np.asarray(a, np.float64).reshape(-1, a.shape[-1])


def define(kind, y, p, m=None, threshold=.5):
    """(sum of the score, weight) computed row by row"""
    y, p = rows(y), rows(p)
    w = np.ones(len(p)) if m is None else rows(m)[:, 0]
    total = 0.
    for i in range(len(p)):
        if kind == 'Accuracy':
            if p.shape[1] > 1:
                best = 0
                for j in range(1, p.shape[1]):
                    if p[i, j] > p[i, best]:
                        best = j
                v = float(best == y[i, 0])
            else:
                v = float(p[i, 0] == y[i, 0])
        elif kind == 'Hamming':
            v = sum(float((p[i, j] >= threshold) == bool(y[i, j])) for j in range(y.shape[1])) / y.shape[1]
        else:
            v = .5 * sum((float(y[i, j]) - float(p[i, j])) ** 2 for j in range(y.shape[1]))
        total += v * w[i]
    return total, float(w.sum())


def loss_of(kind, y, p, m=None):
    """average over the sequences of the summed loss; arrays (T, B, C)"""
    y, p = np.asarray(y, np.float64), np.asarray(p, np.float64)
    if kind == 'class':
        idx = y.astype(int)
        q = np.take_along_axis(p, idx, axis=-1)
        if q.min() < 1e-5:
            return np.nan                 # the loss is bounded there
        e = -np.log(q)
    elif kind == 'binary':
        if min(p.min(), (1 - p).min()) < 1e-3:
            return np.nan
        e = -(y * np.log(p) + (1 - y) * np.log(1 - p))
    else:
        e = .5 * (y - p) ** 2
    if m is not None:
        e = e * m
    return e.sum() / y.shape[1]


def make_scorers(rng, task, thr):
    from brainstorm import scorers as S
    kinds = {'class': ['Accuracy'], 'value': ['MeanSquaredError'], 'binary': ['Hamming', 'MeanSquaredError']}[task.kind]
    res = []
    mask_at = rng.randint(3) if task.mask else 0       # 0: none, 1: scorer, 2: argument
    for i, k in enumerate(kinds):
        for name in ([None] if rng.rand() < .6 else [None, 'second' + k]):
            kw = {}
            if name or rng.rand() < .2:
                kw['name'] = name or 'N' + k
            if rng.rand() < .4:
                kw['out_name'] = 'Out.outputs.predictions'
            if rng.rand() < .3:
                kw['targets_name'] = ''
            if mask_at == 1:
                kw['mask_name'] = 'mask'
            if k == 'Hamming':
                kw['threshold'] = thr
            res.append((k, getattr(S, k)(**kw)))
    return res, mask_at


def batch_sizes(rng, n):
    c = sorted({1, n, int(rng.randint(1, n + 1)), n + int(rng.randint(0, 3))})
    return c


def tol(dtype):
    return dict(rtol=1e-8, atol=1e-9) if dtype == np.float64 else dict(rtol=3e-4, atol=3e-5)


def alone(net, data, names, dtype):
    """every sample run alone: {name: list of arrays (T', 1, ...)}"""
    res = {n: [] for n in names}
    N = list(data.values())[0].shape[1]
    for i in range(N):
        net.provide_external_data({k: v[:, i:i + 1].copy() for k, v in data.items()}, all_inputs=False)
        net.forward_pass()
        for n in names:
            res[n].append(net.get(n))
    return res


def case_task(ctx):
    from brainstorm.tools import evaluate
    from brainstorm.data_iterators import Minibatches, Undivided
    rng = ctx.rng
    dtype = [np.float64, np.float32][rng.randint(2)]
    task = Task(rng, dtype, n=int(rng.randint(1, 13)), T=int(rng.randint(1, 5)))
    data = task.copy_data()
    if task.mask and rng.rand() < .5:              # holes, and sequences without any valid step
        m = (rng.rand(*data['mask'].shape) < .6).astype(dtype)
        if rng.rand() < .3:
            m[:, rng.randint(task.N)] = 0
            ctx.count('fully_masked')
        if not m.any():
            m[0, 0] = 1
        data['mask'] = m
    net = task.make_net()
    p = np.concatenate(alone(task.make_net(), data, ['Out.outputs.predictions'], dtype)['Out.outputs.predictions'], 1)
    m = data.get('mask')
    want_loss = loss_of(task.kind, data['targets'], p, m)
    thr = float(rng.choice([.5, .3, .7]))
    if task.kind == 'binary':
        p_far = np.abs(p - thr).min() > 1e-5
    elif task.kind == 'class':
        q = np.sort(p, -1)
        p_far = (q[..., -1] - q[..., -2]).min() > 1e-5
    else:
        p_far = True
    params = net.get('parameters')
    if task.has_dropout:
        net.handler.rnd.set_seed(3)
    for bs in batch_sizes(rng, task.N):
        for shuffle in (False, True):
            scorers, mask_at = make_scorers(rng, task, thr)
            kind = int(rng.randint(5))
            fed = {k: v.copy() for k, v in data.items()}
            if kind == 0:
                it = Undivided(**fed)
            elif kind == 1 or not mask_at:          # cutting drops steps that an unmasked score would count
                it = Minibatches(bs, shuffle=shuffle, cut_according_to=None, **fed)
            else:
                it = Minibatches(bs, shuffle=shuffle, **fed)
            kw = {}
            if rng.rand() < .5:
                kw['out_name'] = 'Out.outputs.predictions'
            if mask_at == 2:
                kw['mask_name'] = 'mask'
            what = '%s N=%d T=%d batch %d shuffle %s iter %d mask %d' % (task.kind, task.N, task.T, bs, shuffle, kind, mask_at)
            res = evaluate(net, it, tuple(s for _, s in scorers), **kw)
            ctx.count('evaluations')
            if m is not None:
                ctx.count('masked_evaluations')
            names = {'total_loss'} | {s.__name__ for _, s in scorers}
            ctx.check(set(res) == names, 'names', '%s: reported %s, expected %s', what, sorted(res), sorted(names))
            if np.isfinite(want_loss) and abs(want_loss) < 1e6:
                ctx.close(res['total_loss'], want_loss, 'loss', what, **tol(dtype))
                ctx.count('losses_compared')
            for k, s in scorers:
                if k != 'MeanSquaredError' and not p_far:
                    ctx.count('near_ties_skipped')
                    continue
                a, w = define(k, data['targets'], p, m if mask_at else None, thr)
                ctx.close(res[s.__name__], a / w, 'score-' + k, what, **tol(dtype))
                ctx.count('scores_compared')
            ctx.same(net.get('parameters'), params, 'parameters', what + ': evaluating changed the parameters')
            ctx.distinct(nets.signature(task.spec), task.N, task.T, bs, shuffle, kind, mask_at, [k for k, _ in scorers])
    ctx.sample = {'net': nets.brief(task.spec), 'N': task.N, 'T': task.T}


def case_random(ctx):
    """several losses, images, recurrent layers, statistics: the same for every batching"""
    from brainstorm.tools import evaluate
    from brainstorm.data_iterators import Minibatches
    rng = ctx.rng
    spec = nets.random_spec(rng, heads=int(rng.randint(1, 4)), acts=['tanh', 'sigmoid', 'linear', 'rel'],
                            head_kinds=['SoftmaxCE', 'SigmoidCE', 'SquaredError', 'SquaredDifference', 'L1Decay',
                                        'L2Decay', 'plain'])
    dtype = np.float64
    net = nets.build(spec, dtype)
    nets.set_params(net, nets.random_params(spec, net, rng))
    N, T = int(rng.randint(1, 9)), int(rng.randint(1, 4))
    data = nets.make_data(spec, rng, T, N, dtype=dtype)
    heads = [l['name'] for l in spec['layers'] if l['type'] == 'Loss']
    each = alone(net, data, [h + '.outputs.loss' for h in heads], dtype)
    want = {h: float(np.mean([x for x in each[h + '.outputs.loss']])) for h in heads}
    if len(heads) == 1:
        want = {'total_loss': want[heads[0]]}
    else:
        want['total_loss'] = sum(want.values())
    if not np.isfinite(want['total_loss']):
        return
    for bs in batch_sizes(rng, N):
        it = Minibatches(bs, shuffle=bool(rng.rand() < .5), cut_according_to=None, **{k: v.copy() for k, v in data.items()})
        res = evaluate(net, it)
        ctx.count('evaluations')
        ctx.check(set(res) == set(want), 'names', 'reported %s, expected %s', sorted(res), sorted(want))
        for k in want:
            ctx.close(res.get(k, np.nan), want[k], 'loss', '%s N=%d T=%d batch %d' % (k, N, T, bs), rtol=1e-7, atol=1e-8 * (1 + max(abs(v) for v in want.values())))
            ctx.count('losses_compared')
        ctx.distinct('r', nets.signature(spec), N, T, bs)
    ctx.sample = {'net': nets.brief(spec), 'N': N, 'T': T}


def case_names(ctx):
    """which output, targets and mask a scorer is applied to: its own names, else those of the call,
    else the output of the network"""
    from brainstorm import Network, layers as L, scorers as S
    from brainstorm.tools import evaluate
    from brainstorm.handlers import NumpyHandler
    from brainstorm.data_iterators import Minibatches
    from brainstorm.initializers import Gaussian
    rng = ctx.rng
    N, T, c = int(rng.randint(1, 8)), int(rng.randint(1, 4)), int(rng.randint(1, 4))
    data = {'default': rng.randn(T, N, 2)}
    for t in ('targets', 'other'):
        data[t] = rng.randn(T, N, c)
    for m in ('mask', 'mask2'):
        data[m] = (rng.rand(T, N, 1) < .6).astype(float)
        data[m][rng.randint(T), rng.randint(N)] = 1
    inp = L.Input(out_shapes={k: ('T', 'B') + v.shape[2:] for k, v in data.items()})
    a, b = L.FullyConnected(c, name='a', activation='tanh'), L.FullyConnected(c, name='b', activation='linear')
    inp >> a >> b >> L.Loss()
    net = Network.from_layer(b)
    net.set_handler(NumpyHandler(np.float64))
    net.initialize(Gaussian(1.), seed=int(rng.randint(1000)))
    outs = ['a.outputs.default', 'b.outputs.default']
    own = alone(net, data, outs, np.float64)
    p = {o: np.concatenate(own[o], 1) for o in outs}
    pick = lambda l: l[rng.randint(len(l))]
    net.output_name = pick(outs)
    kw = {}
    if rng.rand() < .5:
        kw['out_name'] = pick(outs)
    if rng.rand() < .5:
        kw['targets_name'] = pick(['targets', 'other'])
    if rng.rand() < .6:
        kw['mask_name'] = pick(['mask', 'mask2', '', None])
    scorers, want = [], {}
    for i in range(int(rng.randint(1, 4))):
        k = pick(['MeanSquaredError', 'Hamming'])
        skw = {'name': 's%d' % i}
        if rng.rand() < .5:
            skw['out_name'] = pick(outs)
        if rng.rand() < .7:
            skw['targets_name'] = pick(['targets', 'other', ''])
        if rng.rand() < .5:
            skw['mask_name'] = pick(['mask', 'mask2', ''])
        scorers.append(getattr(S, k)(**skw))
        o = skw.get('out_name') or kw.get('out_name') or net.output_name
        t = skw.get('targets_name', 'targets') or kw.get('targets_name', 'targets')
        m = skw.get('mask_name') or kw.get('mask_name')
        total, w = define(k, data[t], p[o], data[m] if m else None)
        want[skw['name']] = total / w
    it = Minibatches(int(rng.randint(1, N + 1)), shuffle=bool(rng.rand() < .5), cut_according_to=None,
                     **{k: v.copy() for k, v in data.items()})
    res = evaluate(net, it, scorers, **kw)
    ctx.count('evaluations')
    for k in want:
        ctx.close(res[k], want[k], 'score-names', '%s with %s, called with %s, output %s' % (
            k, [(s.out_name, s.targets_name, s.mask_name) for s in scorers], kw, net.output_name), rtol=1e-9, atol=1e-12)
        ctx.count('named_scores')
    ctx.distinct('n', sorted(kw.items(), key=str), [(s.out_name, s.targets_name, s.mask_name) for s in scorers], net.output_name)


def case_scorers(ctx):
    """the scorers themselves, fed in chunks"""
    from brainstorm import scorers as S
    rng = ctx.rng
    n, c = int(rng.randint(1, 20)), int(rng.randint(1, 5))
    for k in ('Accuracy', 'Hamming', 'MeanSquaredError'):
        dt = [np.float64, np.float32][rng.randint(2)]
        thr = float(rng.choice([.5, .25, .75, 0.]))
        s = S.Hamming(threshold=thr) if k == 'Hamming' else getattr(S, k)()
        p = np.round(rng.rand(n, c) * 4) / 4 if rng.rand() < .5 else rng.rand(n, c)
        if k == 'Accuracy':
            y = rng.randint(0, max(2, c), (n, 1))
            if c == 1:
                p = rng.randint(0, 2, (n, 1))
        elif k == 'Hamming':
            y = rng.randint(0, 2, (n, c))
        else:
            y = rng.randn(n, c) * 10 ** rng.uniform(-2, 2)
        p, y = p.astype(dt), y.astype([dt, np.float64, np.int64][rng.randint(3)] if k != 'MeanSquaredError' else dt)
        m = None
        if rng.rand() < .6:
            m = (rng.rand(n, 1) < .7).astype(dt)
            m[rng.randint(n)] = 1
        keep = [None if x is None else x.copy() for x in (y, p, m)]
        total, w = define(k, y, p, m, thr)
        t = dict(rtol=1e-9, atol=1e-12) if dt == np.float64 else dict(rtol=1e-4, atol=1e-5)
        got = s(y, p, m) if m is not None else s(y, p)
        ctx.count('scorer_calls')
        ctx.close(got, total, 'scorer-' + k, 'n=%d c=%d mask %s' % (n, c, m is not None), **t)
        for x, b in zip((y, p, m), keep):
            if x is not None:
                ctx.same(x, b, 'scorer-arguments', k)
        parts, i = [], 0
        while i < n:
            j = min(n, i + int(rng.randint(1, 6)))
            mm = None if m is None else m[i:j]
            parts.append((mm.sum() if mm is not None else j - i, s(y[i:j], p[i:j], mm)))
            i = j
        ctx.close(s.aggregate(parts), total / w, 'aggregate-' + k, '%d chunks' % len(parts), **t)
        ctx.distinct('s', k, n, c, thr, m is not None)


def buffers(net, spec, rng):
    names = []
    for l in sorted(net.layers):
        if l == 'Input':
            continue
        b = net.buffer[l]
        for sec in ('outputs', 'internals'):
            if sec in b:
                for v in b[sec].keys():
                    if sec == 'internals' and v not in FORWARD:      # scratch space
                        continue
                    names.append('%s.%s.%s' % (l, sec, v))
    names += ['Input.outputs.' + i for i in sorted(nets.used_inputs(spec))]
    return names


def per_sample(net, spec, rng, names, data):
    """names whose buffer has one column per sample, with their per-sample values"""
    T, N = list(data.values())[0].shape[:2]
    net.provide_external_data({k: np.repeat(v[:, :1], 7, 1) for k, v in data.items()}, all_inputs=False)
    net.forward_pass()
    ok = []
    for n in names:
        x = net.get(n)
        if x.ndim >= 3 and x.shape[0] in (T, T + 1) and x.shape[1] == 7:
            ok.append(n)
    return ok


def case_extract(ctx):
    from brainstorm.tools import extract
    from brainstorm.data_iterators import Minibatches, Undivided
    rng = ctx.rng
    dtype = [np.float64, np.float32][rng.randint(2)]
    spec = nets.random_spec(rng, acts=['tanh', 'sigmoid', 'linear', 'rel'], menu={'Dropout': 0},
                            loss=bool(rng.rand() < .5))
    net = nets.build(spec, dtype)
    nets.set_params(net, nets.random_params(spec, net, rng))
    N, T = int(rng.randint(1, 10)), int(rng.randint(1, 4))
    data = nets.make_data(spec, rng, T, N, dtype=dtype)
    names = per_sample(net, spec, rng, buffers(net, spec, rng), data)
    if not names:
        return
    want = alone(net, data, names, dtype)
    for bs in batch_sizes(rng, N):
        idx = rng.permutation(len(names))[:int(rng.randint(1, 5))]
        pick = [names[i] for i in idx]
        fed = {k: v.copy() for k, v in data.items()}
        it = Undivided(**fed) if rng.rand() < .2 else Minibatches(bs, shuffle=False, cut_according_to=None, **fed)
        arg = pick[0] if len(pick) == 1 and rng.rand() < .5 else (pick if rng.rand() < .7 else tuple(pick))
        res = extract(net, it, arg)
        compare_extract(ctx, res, pick, want, N, dtype, 'N=%d T=%d batch %d' % (N, T, bs))
        ctx.distinct('x', nets.signature(spec), N, T, bs, len(pick))
    ctx.sample = {'net': nets.brief(spec), 'buffers': names[:5]}


def compare_extract(ctx, res, pick, want, N, dtype, what):
    ctx.count('extractions')
    ctx.check(set(res) == set(pick), 'names', '%s: extracted %s, expected %s', what, sorted(res), pick)
    for n in pick:
        if n not in res:
            continue
        w = np.concatenate(want[n], 1)
        if not np.all(np.isfinite(w)):
            continue
        got = np.asarray(res[n])
        ctx.check(got.dtype == w.dtype, 'extract-dtype', '%s: %s is %s', what, n, got.dtype)
        s = 1 + np.abs(w).max(initial=0)
        t = 1e-9 if dtype == np.float64 else 1e-4
        ctx.close(got, w, 'extract', '%s: %s' % (what, n), rtol=t, atol=t * s)
        ctx.count('samples_compared', N)


def case_cut(ctx):
    """batches cut to their longest sequence"""
    from brainstorm.tools import extract, evaluate
    from brainstorm.data_iterators import Minibatches
    rng = ctx.rng
    task = Task(rng, np.float64, n=int(rng.randint(2, 9)), T=int(rng.randint(2, 6)), mask=True)
    data = task.copy_data()
    net = task.make_net()
    lens = np.array([int(np.nonzero(data['mask'][:, i, 0])[0].max()) + 1 for i in range(task.N)])
    given = None
    if rng.rand() < .4:
        given = lens + rng.randint(0, 3, len(lens))
        given = np.minimum(given, task.T)
    names = per_sample(net, task.spec, rng, buffers(net, task.spec, rng), data)
    names = [n for n in names if not n.startswith('Loss')]
    want = alone(net, data, names, np.float64)
    bs = int(rng.randint(1, task.N))
    kw = {} if given is None else {'cut_according_to': list(given)}
    if given is not None:
        lens = given
    it = Minibatches(bs, shuffle=False, **dict(task.copy_data(), **kw))
    pick = [names[i] for i in rng.permutation(len(names))[:3]]
    if rng.rand() < .3:
        import h5py
        from brainstorm.tools import extract_and_save
        tmp = tempfile.mkdtemp(prefix='c16-')
        try:
            extract_and_save(net, it, pick, os.path.join(tmp, 'f.h5'))
            with h5py.File(os.path.join(tmp, 'f.h5'), 'r') as f:
                res = {n: f[n][...] for n in f}
            ctx.count('files_read')
        finally:
            shutil.rmtree(tmp)
    else:
        res = extract(net, it, pick)
    ctx.count('extractions')
    longest = [lens[i:i + bs].max() for i in range(0, task.N, bs)]
    if len(set(longest)) > 1:
        ctx.count('cut_batches')
    for n in pick:
        for i in range(task.N):
            t = longest[i // bs]
            ctx.close(np.asarray(res[n])[:t, i:i + 1], want[n][i][:t], 'extract',
                      '%s sample %d of %s, steps before %d' % (n, i, lens.tolist(), t), rtol=1e-9, atol=1e-10)
        ctx.check(np.asarray(res[n]).shape[1:] == (task.N,) + want[n][0].shape[2:], 'extract', 'shape of %s: %s', n, res[n].shape)
        ctx.count('samples_compared', task.N)
    ctx.distinct('c', nets.signature(task.spec), task.N, bs, lens.tolist())


def case_save(ctx):
    import h5py
    from brainstorm.tools import extract_and_save
    from brainstorm.data_iterators import Minibatches
    rng = ctx.rng
    dtype = [np.float64, np.float32][rng.randint(2)]
    task = Task(rng, dtype, n=int(rng.randint(1, 9)), T=int(rng.randint(1, 5)))
    net = task.make_net()
    data = task.copy_data()
    names = per_sample(net, task.spec, rng, buffers(net, task.spec, rng), data)
    want = alone(net, data, names, dtype)
    tmp = tempfile.mkdtemp(prefix='c16-')
    try:
        fn = os.path.join(tmp, 'f.h5')
        for k in range(2):                           # the second run replaces the first
            pick = [names[i] for i in rng.permutation(len(names))[:int(rng.randint(1, 4))]]
            bs = int(rng.randint(1, task.N + 2))
            it = Minibatches(bs, shuffle=False, cut_according_to=None, **task.copy_data())
            extract_and_save(net, it, pick if len(pick) > 1 or rng.rand() < .5 else pick[0], fn)
            with h5py.File(fn, 'r') as f:
                res = {n: f[n][...] for n in f}
            ctx.count('files_read')
            compare_extract(ctx, res, pick, want, task.N, dtype, 'file, N=%d batch %d' % (task.N, bs))
            ctx.distinct('f', nets.signature(task.spec), task.N, bs)
    finally:
        shutil.rmtree(tmp)


def case_images(ctx):
    """predictions with several feature dimensions"""
    from brainstorm import scorers as S
    from brainstorm.tools import evaluate
    from brainstorm.data_iterators import Minibatches
    rng = ctx.rng
    g = nets.Gen(rng, max_size=4)
    H, W = int(rng.randint(1, 4)), int(rng.randint(1, 4))
    g.add_input('default', (H, W, int(rng.randint(1, 3))))
    C = int(rng.randint(2, 4))
    kind = ['class', 'value', 'binary'][rng.randint(3)]
    src = g.add('Convolution2D', {'default': [g.tensors[-1]]}, {'default': (H, W, C)},
                {'num_filters': C, 'kernel_size': [1, 1], 'stride': [1, 1], 'padding': 0, 'activation': 'linear'}, name='Proj')
    shape = (H, W, 1) if kind == 'class' else (H, W, C)
    g.inputs['targets'] = dict(shape=list(shape), kind=kind, n=C)
    typ = {'class': 'SoftmaxCE', 'value': 'SquaredError', 'binary': 'SigmoidCE'}[kind]
    g.add(typ, {'default': [src], 'targets': [('Input', 'targets', shape, False)]},
          {'predictions': (H, W, C), 'loss': shape}, name='Out', expose=())
    g.add('Loss', {'default': [('Out', 'loss', shape, False)]}, {'loss': (1,)}, {'importance': 1.0}, name='Loss', expose=())
    spec = g.spec()
    net = nets.build(spec, np.float64)
    nets.set_params(net, nets.random_params(spec, net, rng))
    net.output_name = 'Out.outputs.predictions'
    N, T = int(rng.randint(1, 8)), int(rng.randint(1, 3))
    data = nets.make_data(spec, rng, T, N)
    p = np.concatenate(alone(net, data, [net.output_name], np.float64)[net.output_name], 1)
    names = {'class': ['Accuracy'], 'value': ['MeanSquaredError'], 'binary': ['Hamming', 'MeanSquaredError']}[kind]
    for bs in batch_sizes(rng, N):
        it = Minibatches(bs, shuffle=bool(rng.rand() < .5), **{k: v.copy() for k, v in data.items()})
        res = evaluate(net, it, [getattr(S, n)() for n in names])
        ctx.count('evaluations')
        want = loss_of(kind, data['targets'], p)
        if np.isfinite(want):
            ctx.close(res['total_loss'], want, 'loss', 'images', rtol=1e-8, atol=1e-9)
            ctx.count('losses_compared')
        for n in names:
            a, w = define(n, data['targets'], p)
            ctx.close(res[n], a / w, 'score-' + n, 'images N=%d batch %d' % (N, bs), rtol=1e-9)
            ctx.count('scores_compared')
        ctx.distinct('i', kind, H, W, C, N, T, bs)
