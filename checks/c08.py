"""C08: data iterators deliver every sequence exactly once per epoch.

Monitor: data sets whose entries carry their own identity; a recording consumer notes
every delivered batch; an offline checker over the log decides exactly-once delivery,
alignment of the named arrays, batch sizes, order, cutting and integrity of the data."""
import numpy as np

from vlib import training

TECHNIQUE = 'offline exactly-once / order checker over recorded batches of self-identifying data'
LEVEL_NOTE = ('Random data sets, dtypes, layouts, masks, batch sizes, several epochs, interleaved and '
              'abandoned epochs, hostile consumers; also recorded at a network during training.')
RULE = ('random named arrays with identity-carrying entries, random batch size / shuffle / cutting; '
        'recorded epochs. Distinct: number of sequences x batch size x options x consumer pattern.')
ASSUMPTIONS = ['a consumer may change the delivered dictionary, but not write into delivered arrays',
               'batches of only empty sequences may be delivered with any length']
MIN_COUNTERS = {'batches_recorded': 5000, 'epochs_recorded': 1000, 'sequences_delivered': 20000,
                'rejections_seen': 50, 'shuffled_orders_differ': 50}


def families(tier):
    k = 24 if tier == 'quick' else 400
    return [('minibatches', 600 * k), ('undivided', 150 * k), ('shuffle', 100 * k),
            ('interleaved', 150 * k), ('training', 100 * k), ('reject', 100 * k), ('big', 10 * k)]


def dataset(rng, T=None, N=None, mask=None, big=False):
    T = T or int(rng.randint(1, 6))
    N = N or int(rng.randint(1, 12))
    data = {}
    names = ['default', 'targets', 'x', 'mask_not', 'b'][:int(rng.randint(1, 6))]
    for i, n in enumerate(names):
        shape = (T, N) + tuple(int(x) for x in rng.randint(1, 4, rng.randint(1, 4)))
        a = np.arange(int(np.prod(shape)), dtype=float).reshape(shape) + 1000000 * (i + 1)
        # every entry of a sequence carries its sequence number as the fraction
        a += (np.arange(N) / 1024.).reshape((1, N) + (1,) * (len(shape) - 2))
        dt = [np.float64, np.float64, np.float32, np.int64, np.int32, np.uint8, np.bool_][rng.randint(7)]
        if i == 0:
            dt = np.float64
        if dt is np.bool_:
            a = (a.astype(np.int64) * 2654435761 // 64) % 2 == 1
        a = a.astype(dt)
        r = rng.rand()
        if r < 0.15:
            a = np.asfortranarray(a)
        elif r < 0.3:
            a = np.ascontiguousarray(np.moveaxis(a, 0, -1))
            a = np.moveaxis(a, -1, 0)
        elif r < 0.4:
            a = np.repeat(a, 2, axis=1)[:, ::2]
        data[n] = a
    lens = np.full(N, T)
    if mask is None:
        mask = rng.rand() < .5
    if mask:
        lens = rng.randint(0 if rng.rand() < .3 else 1, T + 1, N)
        m = np.zeros((T, N, 1), dtype=[float, np.float32, bool, int][rng.randint(4)])
        for i in range(N):
            m[:lens[i], i] = 1
            if lens[i] > 1:                       # holes in the middle stay
                for t in range(lens[i] - 1):
                    if rng.rand() < .3:
                        m[t, i] = 0
        if m.dtype == float and rng.rand() < .3:
            m *= rng.choice([-1, 0.5, 3])
        data['mask'] = m
    if rng.rand() < .3:
        for a in data.values():
            a.flags.writeable = False
    return data, T, N, lens


def picture(data):
    return {k: (v.dtype.str, v.shape, v.tobytes()) for k, v in data.items()}


def record(it, handler=None, hostile=None, stop_after=None):
    """One epoch: copies of all delivered batches."""
    log = []
    for i, b in enumerate(it(handler)):
        log.append({k: np.array(v) for k, v in b.items()})
        if hostile == 'clear':
            b.clear()
        elif hostile == 'replace':
            for k in list(b):
                b[k] = None
        elif hostile == 'add':
            b['extra'] = 1
        if stop_after is not None and i + 1 >= stop_after:
            break
    return log


def identify(data, name, batch):
    """sequence numbers of a delivered batch, from its content"""
    ref = data[name]
    a = batch[name]
    ids = []
    T = a.shape[0]
    for j in range(a.shape[1]):
        if a[:, j].size:
            ids.append(int(round((float(a[0, j].ravel()[0]) % 1) * 1024)))
        else:
            ids.append(None)
    return ids


def check_epoch(ctx, data, lens, log, bs, shuffle, T, N, what, complete=True):
    from math import ceil
    ctx.count('epochs_recorded')
    nb = int(ceil(N / float(bs)))
    seen = []
    if complete:
        ctx.check(len(log) == nb, 'batch-count', '%s: %d batches instead of %d', what, len(log), nb)
    sizes = []
    empty = 0
    for bi, b in enumerate(log):
        ctx.count('batches_recorded')
        if not ctx.check(set(b) == set(data), 'names', '%s: delivered %s', what, sorted(b)):
            return None
        shapes = {k: v.shape[:2] for k, v in b.items()}
        ctx.check(len(set(shapes.values())) == 1, 'misaligned-shapes', '%s: %s', what, shapes)
        t, n = b['default'].shape[:2]
        sizes.append(n)
        ctx.check(1 <= n <= bs, 'batch-size', '%s: batch of %d sequences, asked for %d', what, n, bs)
        ids = identify(data, 'default', b)
        if None in ids:
            empty += n
            continue
        ctx.count('sequences_delivered', n)
        if not ctx.check(all(0 <= i < N for i in ids), 'foreign-data', '%s: %s', what, ids):
            return None
        seen += ids
        want_t = int(np.max(lens[ids]))
        ctx.check(t == want_t or want_t == 0, 'cut-length', '%s: %d time steps delivered, the longest sequence has %d',
                  what, t, want_t)
        for k in sorted(data):
            ctx.same(b[k], data[k][:t][:, ids], 'content', '%s: %s of sequences %s' % (what, k, ids))
    if not complete:
        ctx.check(len(seen) == len(set(seen)), 'delivered-twice', '%s: %s', what, seen)
        return seen
    miss = set(range(N)) - set(seen)
    ctx.check(len(seen) == len(set(seen)), 'delivered-twice', '%s: %s', what, seen)
    ctx.check(len(miss) <= empty and all(lens[i] == 0 for i in miss), 'not-delivered', '%s: %s missing', what, sorted(miss))
    ctx.check(sum(sizes) == N, 'sequence-count', '%s: %d sequences instead of %d', what, sum(sizes), N)
    small = [s for s in sizes if s < bs]
    ctx.check(len(small) <= 1, 'batch-size', '%s: sizes %s, asked for %d', what, sizes, bs)
    if not shuffle:
        ctx.check(seen == sorted(seen), 'order', '%s: unshuffled order %s', what, seen)
        ctx.check(not small or sizes[-1] == small[0], 'batch-size', '%s: sizes %s', what, sizes)
    return seen


def run_case(case, ctx):
    globals()['case_' + case['family']](ctx)


def make(ctx, **kw):
    from brainstorm.data_iterators import Minibatches
    rng = ctx.rng
    data, T, N, lens = dataset(rng, **kw)
    bs = int(rng.randint(1, N + 3))
    shuffle = bool(rng.rand() < .5)
    args = {}
    r = rng.rand()
    cut = 'default-mask'
    if 'mask' in data:
        if r < .25:
            args['cut_according_to'] = None
            lens = np.full(N, T)
            cut = 'none'
        elif r < .4:
            data['other'] = data.pop('mask')
            args['cut_according_to'] = 'other'
            cut = 'named'
        elif r < .5:
            data['other'] = data.pop('mask')
            lens = np.full(N, T)
            cut = 'absent'
    elif r < .3:
        lens = rng.randint(1, T + 1, N)
        args['cut_according_to'] = lens.tolist() if rng.rand() < .5 else lens.copy()
        cut = 'lengths'
    before = picture(data)
    it = Minibatches(batch_size=bs, shuffle=shuffle, **dict(args, **data))
    ctx.distinct(N, bs, shuffle, cut, len(data))
    if ctx.case['index'] < 40:
        ctx.sample = {'T': T, 'N': N, 'batch_size': bs, 'shuffle': shuffle, 'cut': cut,
                      'arrays': {k: '%s%s' % (v.dtype, v.shape) for k, v in data.items()}}
    return it, data, T, N, lens, bs, shuffle, before


def case_minibatches(ctx, **kw):
    from brainstorm.handlers import NumpyHandler
    rng = ctx.rng
    it, data, T, N, lens, bs, shuffle, before = make(ctx, **kw)
    ctx.check(set(it.data_shapes) == set(data), 'data-shapes', '%s', it.data_shapes)
    for k in data:
        ctx.check(tuple(it.data_shapes[k]) == data[k].shape, 'data-shapes', '%s: %s', k, it.data_shapes[k])
    ctx.check(it.length == -(-N // bs), 'length', 'length %s for %d sequences in batches of %d', it.length, N, bs)
    for e in range(int(rng.randint(1, 5))):
        hostile = [None, None, 'clear', 'replace', 'add'][rng.randint(5)]
        if rng.rand() < .2:
            part = record(it, None, hostile, stop_after=int(rng.randint(1, 3)))
            check_epoch(ctx, data, lens, part, bs, shuffle, T, N, 'abandoned epoch', complete=False)
        h = [None, NumpyHandler(np.float32)][rng.randint(2)]
        log = record(it, h, hostile)
        check_epoch(ctx, data, lens, log, bs, shuffle, T, N, 'epoch %d' % e)
    ctx.check(picture(data) == before, 'data-changed', 'the data set changed')


def case_big(ctx):
    case_minibatches(ctx, N=int(ctx.rng.randint(200, 900)), T=int(ctx.rng.randint(1, 9)))


def case_undivided(ctx):
    from brainstorm.data_iterators import Undivided
    rng = ctx.rng
    data, T, N, lens = dataset(rng)
    before = picture(data)
    it = Undivided(**data)
    ctx.check(it.length == 1, 'length', '%s', it.length)
    for k in data:
        ctx.check(tuple(it.data_shapes[k]) == data[k].shape, 'data-shapes', '%s: %s', k, it.data_shapes[k])
    for e in range(3):
        hostile = [None, 'clear', 'replace', 'add'][rng.randint(4)]
        log = record(it, None, hostile)
        ctx.count('epochs_recorded')
        ctx.count('batches_recorded', len(log))
        if ctx.check(len(log) == 1, 'batch-count', '%d batches', len(log)):
            ctx.check(set(log[0]) == set(data), 'names', 'epoch %d after %s: %s', e, hostile, sorted(log[0]))
            for k in sorted(set(data) & set(log[0])):
                ctx.same(log[0][k], data[k], 'content', 'epoch %d: %s' % (e, k))
    ctx.check(picture(data) == before, 'data-changed', 'the data set changed')
    ctx.distinct('undivided', T, N, len(data))


def case_shuffle(ctx):
    """asked-for shuffling really happens, and depends on the seed only"""
    from brainstorm.data_iterators import Minibatches
    rng = ctx.rng
    data, T, N, lens = dataset(rng, N=int(rng.randint(10, 20)), mask=False)
    bs = int(rng.randint(1, 3))
    orders = []
    it = Minibatches(batch_size=bs, shuffle=True, **data)
    for e in range(6):
        orders.append(check_epoch(ctx, data, lens, record(it), bs, True, T, N, 'epoch %d' % e))
    n = len(set(map(str, orders)))
    ctx.check(n >= 3, 'not-shuffled', 'orders of 6 epochs: %s', orders)
    ctx.count('shuffled_orders_differ', n)
    off = Minibatches(batch_size=bs, shuffle=False, **data)
    for e in range(2):
        o = check_epoch(ctx, data, lens, record(off), bs, False, T, N, 'unshuffled')
        ctx.check(o == list(range(N)), 'order', 'unshuffled: %s', o)
    ctx.distinct('shuffle', N, bs)


def case_interleaved(ctx):
    """several epochs of one iterator in progress at the same time"""
    rng = ctx.rng
    it, data, T, N, lens, bs, shuffle, before = make(ctx)
    gens = [it(None) for _ in range(int(rng.randint(2, 4)))]
    logs = [[] for _ in gens]
    live = list(range(len(gens)))
    while live:
        i = live[int(rng.randint(len(live)))]
        try:
            b = next(gens[i])
            logs[i].append({k: np.array(v) for k, v in b.items()})
        except StopIteration:
            live.remove(i)
    for i, log in enumerate(logs):
        check_epoch(ctx, data, lens, log, bs, shuffle, T, N, 'interleaved epoch %d' % i)
    ctx.check(picture(data) == before, 'data-changed', 'the data set changed')


def case_training(ctx):
    """what actually arrives at the network during training"""
    from brainstorm import Trainer
    from brainstorm import hooks as H
    from brainstorm.training import SgdStepper
    rng = ctx.rng
    t = training.Task(rng, T=int(rng.randint(1, 4)), n=int(rng.randint(2, 12)))
    data = t.copy_data()
    # identity in the input values
    data['default'] = np.zeros_like(data['default']) + (np.arange(t.N) / 1024.).reshape(1, t.N, 1)
    lens = np.full(t.N, t.T)
    if t.mask:
        lens = (data['mask'][:, :, 0] != 0).sum(0)
    t.data = data
    shuffle = bool(rng.rand() < .5)
    it = t.make_iter(shuffle=shuffle)
    net = t.make_net()
    seen = []
    inner = net.provide_external_data

    def spy(d, *a, **k):
        r = inner(d, *a, **k)
        seen.append({n: net.get_input(n) for n in t.data})
        return r
    net.provide_external_data = spy
    epochs = int(rng.randint(1, 4))
    tr = Trainer(SgdStepper(0.001), verbose=False)
    tr.add_hook(H.StopAfterEpoch(epochs))
    tr.train(net, it)
    nb = -(-t.N // t.batch_size)
    if ctx.check(len(seen) == epochs * nb, 'batch-count', '%d batches seen by the network, %d expected',
                 len(seen), epochs * nb):
        for e in range(epochs):
            check_epoch(ctx, t.data, lens, seen[e * nb:(e + 1) * nb], t.batch_size, shuffle, t.T, t.N,
                        'training epoch %d' % e)
    ctx.distinct('training', t.N, t.batch_size, shuffle, t.mask)


def case_reject(ctx):
    from brainstorm.data_iterators import Minibatches, Undivided
    from brainstorm.utils import IteratorValidationError
    rng = ctx.rng
    cls = [Minibatches, Undivided][rng.randint(2)]
    good, T, N, lens = dataset(rng, T=int(rng.randint(2, 5)), N=int(rng.randint(2, 5)), mask=False)
    good['y'] = np.zeros((T, N, 1))
    name = sorted(good)[rng.randint(len(good))]
    bad = [('list', [[[1.]]] * T), ('None', None), ('number', 3), ('2d', np.zeros((T, N))),
           ('1d', np.zeros(T)), ('0d', np.zeros(())), ('sequences', np.zeros((T, N + 1, 2))),
           ('fewer', np.zeros((T, N - 1, 2))), ('steps', np.zeros((T + 1, N, 2))),
           ('fewer steps', np.zeros((T - 1, N, 2)))][rng.randint(10)]
    d = dict(good)
    d[name] = bad[1]
    ctx.raises((IteratorValidationError,), lambda: cls(**d), 'malformed-accepted',
               '%s: %s = %s' % (cls.__name__, name, bad[0]))
    if cls is Minibatches:
        ctx.raises((AssertionError, IteratorValidationError),
                   lambda: cls(cut_according_to=list(range(1, N + 2)), **good), 'malformed-accepted',
                   'lengths for another number of sequences')
    cls(**good)
    ctx.distinct('reject', cls.__name__, bad[0])
