"""C11: a fixed seed fixes the whole run.

Monitor: complete programs (wiring, initialisation, modifiers, augmented iterators, training
with hooks, saving, loading, more training) emit a log of digests - every parameter update,
batch, activation, log and file.  The logs of repetitions are compared entry by entry: in the
same process, in other processes with other hash seeds, and with unrelated objects created,
drawing and training in between.  Streams of different seeds and successive draws must differ."""
import copy
import hashlib
import json
import os
import pickle
import random
import shutil
import subprocess
import sys
import tempfile

import numpy as np

from vlib import env, nets, specs

TECHNIQUE = 'runtime monitor: event logs (digests of parameters, batches, activations, logs, files) of repeated runs across processes, hash seeds and interference'
LEVEL_NOTE = ('Random programs over all layer, initializer, modifier, iterator, stepper and hook types; every update of the '
              'repetitions is compared bit by bit; the distinctness of random streams is checked directly.')
RULE = 'random program x process x hash seed x interference. Distinct: graph signature and classes used.'
ASSUMPTIONS = ['same machine, numpy and number of threads', 'nan is one value whatever its bits', 'files are compared by content (arrays bit by bit, descriptions as data)',
               'objects without a seed of their own get one from brainstorm.global_rnd when they are created: creating further '
               'such objects before them is a different program']
MIN_COUNTERS = {'events_compared': 10000, 'interruptions': 2000, 'processes': 8, 'repetitions': 300, 'state_operations': 2000, 'streams_compared': 3000}
CASE_TIMEOUT = 300


def families(tier):
    k = 1 if tier == 'quick' else 25
    return [('process', 12 * k), ('interference', 350 * k), ('streams', 120 * k), ('state', 250 * k)]


def run_case(case, ctx):
    globals()['case_' + case['family']](ctx)


# ---------------------------------------------------------------- digests

def digest(x):
    h = hashlib.sha1()
    feed(h, x)
    return h.hexdigest()[:16]


def feed(h, x):
    if isinstance(x, np.ndarray):
        if x.dtype.kind == 'f' and np.isnan(x).any():
            x = np.where(np.isnan(x), np.array(np.nan, x.dtype), x)         # the sign of nan is not a value
        h.update(('%s%s' % (x.dtype.str, x.shape)).encode())
        h.update(np.ascontiguousarray(x).tobytes() if x.dtype != object else repr(x.tolist()).encode())
    elif isinstance(x, dict):
        for k in sorted(x, key=str):
            h.update(str(k).encode() + b'=')
            feed(h, x[k])
    elif isinstance(x, (list, tuple)):
        h.update(b'[%d' % len(x))
        for y in x:
            feed(h, y)
    elif isinstance(x, (float, np.floating)):
        h.update(np.float64(np.nan if x != x else x).tobytes())
    elif isinstance(x, bytes):
        h.update(x)
    else:
        h.update(repr(x).encode())


def file_content(path):
    """Arrays and descriptions of an HDF5 file."""
    import h5py
    res = {}

    def visit(name, obj):
        for k, v in obj.attrs.items():
            res[name + '@' + k] = v if not isinstance(v, (str, bytes)) else parse(v)
        if hasattr(obj, 'shape'):
            v = obj[()]
            res[name] = parse(v) if isinstance(v, (str, bytes)) else v
    with h5py.File(path, 'r') as f:
        visit('', f)
        f.visititems(visit)
    return res


def parse(v):
    v = v.decode() if isinstance(v, bytes) else v
    try:
        return json.loads(v)
    except ValueError:
        return v


# ---------------------------------------------------------------- the program

class Events(list):
    def add(self, label, x):
        self.append((label, digest(x)))


def augmented(rng, it, spec):
    """Random augmentations that keep the shapes."""
    from brainstorm import data_iterators as D
    used = []
    real = [k for k in sorted(spec['inputs']) if spec['inputs'][k]['kind'] in ('real', 'value')]
    images = [k for k in real if len(spec['inputs'][k]['shape']) == 3]
    for _ in range(int(rng.randint(0, 4))):
        r = rng.randint(4)
        some = [k for k in real if rng.rand() < .6] or real[:1]
        if not some:
            break
        if r == 0:
            it = D.AddGaussianNoise(it, {k: .1 * (1 + i) for i, k in enumerate(some)})
        elif r == 1:
            it = D.AddSaltNPepper(it, {k: .3 for k in some})
        elif r == 2 and images:
            it = D.Flip(it, {k: .5 for k in images})
        elif r == 3 and images:
            k = images[rng.randint(len(images))]
            it = D.Pad(it, {k: 1})
            it = D.RandomCrop(it, {k: tuple(spec['inputs'][k]['shape'][:2])})
        else:
            continue
        used.append(type(it).__name__)
    return it, used


def chain(it):
    while it is not None:
        yield it
        it = getattr(it, 'iter', None)


def build_net(rng, spec):
    """From an architecture, or wired up by hand in random order."""
    from brainstorm import Network, layers as L
    if rng.rand() < .5:
        return Network.from_architecture(nets.to_architecture(spec))
    w = {}
    order = [None] + spec['layers']
    order = [order[i] for i in rng.permutation(len(order))]
    for l in order:
        if l is None:
            w['Input'] = L.Input(out_shapes={k: ('T', 'B') + tuple(v['shape']) for k, v in spec['inputs'].items()})
        else:
            w[l['name']] = getattr(L, l['type'])(name=l['name'], **l['kwargs'])
    edges = [(s, o, l['name'], i) for l in spec['layers'] for i in l['in'] for s, o in l['in'][i]]
    for j in rng.permutation(len(edges)):
        s, o, d, i = edges[j]
        w[s] - o >> i - w[d]
    return Network.from_layer(w[sorted(w)[rng.randint(len(w))]])


def modifiers(rng, shapes, make, every):
    """Explicit names and overlapping patterns."""
    shapes = {n: shapes[n] for n in shapes if shapes[n]}
    spec = specs.modifier_spec(rng, shapes, make, .3)
    pats = sorted({'*', 'default'} | {n[:k] + '*' for n in shapes for k in (1, 2)})
    for _ in range(int(rng.randint(0, 3))):
        pat = pats[rng.randint(len(pats))]
        for _ in range(20):
            m = make(rng, (1,))
            if type(m).__name__ not in ('MaskValues', 'FreezeValues'):
                break
        else:
            continue
        hit = [n for n in every if pat[-1] == '*' and n.startswith(pat[:-1])]
        common = sorted(set.intersection(*[set(shapes.get(n, ())) for n in hit])) if hit else []
        if pat in spec:
            continue
        if common and rng.rand() < .6:
            spec[pat] = {common[rng.randint(len(common))]: m}
        else:
            spec[pat] = m
    return spec


def recorder(events, net_getter, poke):
    from brainstorm.hooks import Hook

    class Recorder(Hook):
        def __call__(self, epoch_nr, update_nr, net, stepper, logs):
            events.add('update %d-%d parameters' % (epoch_nr, update_nr), net.get('parameters'))
            if update_nr:
                for n in sorted(net.buffer.Input.outputs.keys()):
                    events.add('update %d batch %s' % (update_nr, n), net.get('Input.outputs.' + n))
                events.add('update %d gradients' % update_nr, net.get('gradients'))
                events.add('update %d losses' % update_nr, net.get_loss_values())
            poke('training')
    return Recorder


def any_seed(rng):
    """Mostly an ordinary number, but also those which a program could take for 'none given'."""
    return int([rng.randint(10 ** 6), 0, 1, 2 ** 32 - 1, 2 ** 31][rng.choice(5, p=[.6, .25, .05, .05, .05])])


def program(seed, poke=lambda phase: None, info=None):
    """Everything is determined by the seed; poke() is where others get to run."""
    import brainstorm as bs
    from brainstorm import Trainer, tools, scorers as S
    from brainstorm import hooks as H
    from brainstorm.data_iterators import Minibatches, Undivided
    from brainstorm.handlers import NumpyHandler
    from vlib.training import plain
    events = Events()
    rng = np.random.RandomState(seed)
    explicit = rng.rand() < .4          # every object gets its own seed / one global seed for all
    dirname = tempfile.mkdtemp(prefix='c11-')
    try:
        spec = nets.random_spec(rng, menu={'Dropout': 3, 'DeltasScaling': 1}, heads=int(rng.randint(1, 3)), max_size=4)
        T, N = int(rng.randint(1, 4)), int(rng.randint(4, 12))
        data = nets.make_data(spec, rng, T, N)
        for k in data:
            if spec['inputs'][k]['kind'] == 'mask':
                data[k][...] = rng.rand(*data[k].shape) < .8
        if not explicit:
            bs.global_rnd.set_seed(any_seed(rng))
        net = build_net(rng, spec)
        own_handler = explicit or rng.rand() < .5
        if own_handler:
            hs = any_seed(rng)
            net.set_handler(NumpyHandler([np.float32, np.float64][rng.randint(2)], seed=hs if explicit else None))
        if explicit:
            net.rnd.set_seed(any_seed(rng))
        shapes = nets.param_shapes(net)
        init = specs.init_spec(rng, shapes)
        how = rng.randint(3)
        iseed = any_seed(rng) if explicit or how == 0 else None
        # objects made from here on are only seeded by what they belong to
        wm = modifiers(rng, shapes, specs.weight_modifier, list(net.layers)) if shapes else {}
        gm = modifiers(rng, shapes, specs.gradient_modifier, list(net.layers)) if shapes else {}
        batch = int(rng.randint(1, N + 1))
        it = Minibatches(batch, shuffle=True, cut_according_to=None, **{k: v.copy() for k, v in data.items()}) if rng.rand() < .85 else \
            Undivided(**{k: v.copy() for k, v in data.items()})
        it, used = augmented(rng, it, spec)
        if explicit:
            for x in chain(it):
                x.rnd.set_seed(any_seed(rng))
        stepper = specs.random_stepper(rng)
        trainer = Trainer(stepper, verbose=False)
        poke('built')
        net.initialize(init, seed=iseed)
        events.add('initial parameters', net.get('parameters'))
        poke('initialised')
        if wm:
            net.set_weight_modifiers(wm)
        if gm:
            net.set_gradient_modifiers(gm)
        poke('modified')
        names = ['Monitor', 'a']
        trainer.add_hook(recorder(events, None, poke)(timescale='update', interval=1, name='recorder'))
        trainer.add_hook(H.MonitorLoss('held_out', name='losses'))
        files = []
        if rng.rand() < .5:
            files.append(os.path.join(dirname, 'net.h5'))
            trainer.add_hook(H.SaveNetwork(files[-1]))
        if rng.rand() < .5:
            files.append(os.path.join(dirname, 'best.h5'))
            trainer.add_hook(H.SaveBestNetwork('losses.total_loss', filename=files[-1], name='best'))
        if rng.rand() < .5:
            files.append(os.path.join(dirname, 'logs.h5'))
            trainer.add_hook(H.SaveLogs(files[-1]))
        trainer.add_hook(H.StopAfterEpoch(int(rng.randint(1, 4)), name='end'))
        held = Minibatches(2, shuffle=False, cut_according_to=None, **{k: v.copy() for k, v in data.items()})
        if info is not None:
            info.append((explicit, own_handler, nets.signature(spec), tuple(used), type(stepper).__name__))
        trainer.train(net, it, held_out=held)
        poke('trained')
        events.add('logs', plain(trainer.logs))
        for f in files:
            if os.path.exists(f):
                events.add('file ' + os.path.basename(f), file_content(f))
        f = os.path.join(dirname, 'final.h5')
        net.save_as_hdf5(f)
        events.add('file final', file_content(f))
        # activations in training mode (dropout)
        net.provide_external_data({k: v[:, :3].copy() for k, v in data.items()})
        net.forward_pass(training_pass=True)
        poke('forward')
        net.backward_pass()
        events.add('activations', {str(k): v for k, v in nets.outputs(net, spec).items()})
        events.add('final gradients', net.get('gradients'))
        # initialise again from the same objects, train on
        net.initialize(init, seed=None if rng.rand() < .5 else any_seed(rng))
        poke('again')
        events.add('initialised again', net.get('parameters'))
        bs.global_rnd.set_seed(any_seed(rng))
        if shapes and not explicit:
            other = build_net(rng, spec)
            other.initialize(init)
            events.add('second network', other.get('parameters'))
        loaded = bs.Network.from_hdf5(f)
        events.add('loaded', loaded.get('parameters'))
        if not explicit:
            loaded.provide_external_data({k: v[:, :3].copy() for k, v in data.items()})
            loaded.forward_pass(training_pass=True)
            events.add('loaded activations', {str(k): v for k, v in nets.outputs(loaded, spec).items()})
        a = tools.shuffle_data(*[data[k] for k in sorted(data)], seed=any_seed(rng))
        events.add('shuffled', list(a))
    finally:
        shutil.rmtree(dirname, ignore_errors=True)
    return events


def differ(ctx, a, b, msg):
    ctx.count('repetitions')
    ctx.count('events_compared', min(len(a), len(b)))
    for (la, da), (lb, db) in zip(a, b):
        if not ctx.check(la == lb and da == db, 'differs:' + ''.join(c for c in la if not c.isdigit()).replace(' ', '-'),
                         '%s: %s (%s) and %s (%s)', msg, la, da, lb, db):
            return
    ctx.check(len(a) == len(b), 'differs:length', '%s: %d and %d events', msg, len(a), len(b))


# ---------------------------------------------------------------- other processes

SCRIPT = """
import sys; sys.path.insert(0, %r)
sys.dont_write_bytecode = True
from vlib import env; env.install(env.build_ext('plain'))
import warnings; warnings.simplefilter('ignore')
import json, io, contextlib, numpy as np
from checks import c11
res = []
with contextlib.redirect_stdout(io.StringIO()):
    with np.errstate(all='ignore'):
        for s in json.loads(sys.argv[1]):
            res.append(c11.program(s))
sys.stdout.write(json.dumps(res))
"""


def case_process(ctx):
    rng = ctx.rng
    seeds = [int(x) for x in rng.randint(0, 2 ** 31 - 1, 14)]
    info = []
    here = [program(s, info=info) for s in seeds]
    for i in info:
        ctx.distinct(('process',) + i)
    ctx.sample = {'programs': [str(i) for i in info[:3]], 'events': [l for l, _ in here[0]][:12]}
    for hs in [str(int(rng.randint(1, 2 ** 31))), 'random']:
        e = dict(os.environ, PYTHONHASHSEED=hs)
        order = [int(i) for i in rng.permutation(len(seeds))]
        out = subprocess.run([sys.executable, '-W', 'ignore', '-c', SCRIPT % env.VERIF, json.dumps([seeds[i] for i in order])],
                             env=e, cwd=env.VERIF, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if not ctx.check(out.returncode == 0, 'process-failed', 'another process failed: %s', out.stderr.decode()[-800:]):
            continue
        ctx.count('processes')
        for i, events in zip(order, json.loads(out.stdout.decode())):
            differ(ctx, here[i], [tuple(x) for x in events], 'program %d here and in another process' % seeds[i])


# ---------------------------------------------------------------- interference

class Rival(object):
    """Unrelated activity: other networks, generators, iterators."""

    def __init__(self, rng, what):
        import brainstorm as bs
        from brainstorm import layers as L
        self.rng, self.what, self.n = rng, what, 0
        inp = L.Input(out_shapes={'default': ('T', 'B', 3), 'targets': ('T', 'B', 2)})
        net = inp >> L.Dropout() >> L.FullyConnected(4) >> L.Dropout(.3) >> L.FullyConnected(2) >> L.SquaredError(name='out')
        inp - 'targets' >> 'targets' - net
        net - 'loss' >> L.Loss()
        self.net = bs.Network.from_layer(net)
        self.net.initialize(bs.initializers.Gaussian(.1))
        self.it = bs.data_iterators.Minibatches(2, shuffle=True, default=rng.randn(1, 6, 3), targets=rng.randn(1, 6, 2))
        self.noise = bs.data_iterators.AddGaussianNoise(self.it, {'default': .1})

    def __call__(self, phase):
        import brainstorm as bs
        self.n += 1
        rng = self.rng
        np.random.rand(int(rng.randint(1, 4)))
        random.random()
        if 'seed' in self.what:
            np.random.seed(int(rng.randint(1000)))
            random.seed(int(rng.randint(1000)))
        if 'net' in self.what:
            for _ in range(int(rng.randint(1, 3))):
                for d in self.noise(self.net.handler):
                    self.net.provide_external_data(d)
                    self.net.forward_pass(training_pass=True)
                    self.net.backward_pass()
                    self.net.buffer.parameters -= .01 * self.net.buffer.gradients
                    break
            self.net.initialize(bs.initializers.Gaussian(.1))
        if 'create' in self.what and phase in ('training', 'initialised', 'modified', 'built'):
            bs.initializers.Gaussian()
            bs.Network.from_layer(bs.layers.Input(out_shapes={'default': ('T', 'B', 2)}) >> bs.layers.FullyConnected(2))
            bs.global_rnd.rand(int(rng.randint(1, 4)))


def case_interference(ctx):
    from brainstorm.randomness import global_rnd
    rng = ctx.rng
    seed = int(rng.randint(2 ** 31 - 1))
    info = []
    what = [['seed'], ['net'], ['seed', 'net'], ['net', 'seed', 'create']][rng.randint(4)]
    explicit = np.random.RandomState(seed).rand() < .4
    if 'create' in what and not explicit:
        what = what[:2]
    global_rnd.set_seed(any_seed(rng))
    a = program(seed, info=info)
    np.random.rand(3)
    rival = Rival(rng, what)
    b = program(seed, poke=rival)
    ctx.count('interruptions', rival.n)
    ctx.distinct(('interference', tuple(what)) + info[0])
    ctx.sample = {'interference': what, 'program': str(info[0]), 'interruptions': rival.n}
    differ(ctx, a, b, 'program %d alone and among others (%s)' % (seed, '+'.join(what)))


# ---------------------------------------------------------------- streams

def distinct_arrays(ctx, arrays, key, msg):
    """Arrays of (at least) 20 continuous or many discrete draws: no two are equal."""
    seen = {}
    for i, a in enumerate(arrays):
        d = digest(np.asarray(a))
        ctx.check(d not in seen, key, '%s: draws %s and %d are equal', msg, seen.get(d), i)
        seen[d] = i
    ctx.count('streams_compared', len(arrays))


def dropout_net(n=1, size=80):
    from brainstorm import Network, layers as L
    x = L.Input(out_shapes={'default': ('T', 'B', size)})
    for i in range(n):
        x = x >> L.Dropout(.5, name='d%d' % i)
    return Network.from_layer(x)


def case_streams(ctx):
    import brainstorm as bs
    from brainstorm import initializers as I, data_iterators as D, Network, layers as L
    from brainstorm.handlers import NumpyHandler
    from brainstorm.randomness import RandomState, global_rnd
    rng = ctx.rng
    s1, s2 = int(rng.randint(10 ** 8)), int(rng.randint(10 ** 8)) + 10 ** 8
    if rng.rand() < .3:
        s1 = 0
    global_rnd.set_seed(s1)
    # initial parameters
    mk = lambda: [I.Gaussian(.5), I.Uniform(.5), I.DenseSqrtFanIn(), I.DenseSqrtFanInOut(), I.Orthogonal(),
                  I.SparseInputs(I.Gaussian(), 6), I.SparseOutputs(I.Gaussian(), 6), I.EchoState(.8), I.RandomWalk()]
    k = rng.randint(9)
    inp = L.Input(out_shapes={'default': ('T', 'B', 6)})
    arch = inp >> L.FullyConnected(6, name='a') >> L.FullyConnected(6, name='b') >> L.FullyConnected(6, name='c')

    def fresh():
        return Network.from_layer(arch)

    def start(net, **kw):
        net.initialize({'fallback': I.Gaussian(), 'default': mk()[k]}, **kw)
        return net.get('parameters')
    n1 = fresh()
    p = [start(n1, seed=s1), start(n1, seed=s2), start(n1), start(n1), start(fresh()), start(fresh())]
    distinct_arrays(ctx, p, 'same-parameters', 'parameters by %s, two seeds, without seed, fresh networks' % type(mk()[k]).__name__)
    ctx.same(start(fresh(), seed=s1), p[0], 'seed', 'same seed, another network')
    w = [n1.get(l + '.parameters.W') for l in 'abc']
    distinct_arrays(ctx, w, 'same-weights', 'weights of equal layers by one %s' % type(mk()[k]).__name__)
    distinct_arrays(ctx, [n1.get(l + '.parameters.bias') for l in 'abc'], 'same-weights', 'biases of equal layers')
    # gates of an LstmOptInit sharing one initializer
    lo = I.LstmOptInit(*[I.Gaussian() for _ in range(4)])
    x = lo((24, 5))
    distinct_arrays(ctx, [x[i:i + 6] for i in range(0, 24, 6)], 'same-gates', 'blocks of LstmOptInit')
    # dropout
    for handler in (None, NumpyHandler(np.float64), NumpyHandler(np.float32, seed=s1)):
        net = dropout_net(2)
        if handler is not None:
            net.set_handler(handler)
        masks = []
        for _ in range(2):
            net.provide_external_data({'default': np.ones((2, 3, 80))})
            net.forward_pass(training_pass=True)
            a, b = net.get('d0.outputs.default'), net.get('d1.outputs.default')
            masks += [a[0, 0], a[0, 1], a[1, 0]]
            both = a != 0
            ctx.check(np.any(b[both] == 0) and np.any(b[both] != 0), 'same-masks', 'two dropout layers drop the same units')
        distinct_arrays(ctx, masks, 'same-masks', 'dropout masks of passes, times and samples')
    one, two = dropout_net(), dropout_net()
    m = []
    for net in (one, two):
        net.provide_external_data({'default': np.ones((1, 1, 80))})
        net.forward_pass(training_pass=True)
        m.append(net.get('d0.outputs.default'))
    distinct_arrays(ctx, m, 'same-masks', 'dropout masks of two networks')
    # iterators
    X = np.arange(60.).reshape(1, 60, 1)
    order = lambda it: np.concatenate([d['x'] for d in it(NumpyHandler(np.float64, seed=1))], axis=1)
    i1, i2 = D.Minibatches(7, x=X), D.Minibatches(7, x=X)
    distinct_arrays(ctx, [order(i1), order(i1), order(i2), order(i1)], 'same-order', 'epochs of shuffled iterators')
    i1.rnd.set_seed(s1)
    i2.rnd.set_seed(s1)
    ctx.same(order(i2), order(i1), 'seed', 'order of iterators of the same seed')
    i2.rnd.set_seed(s2)
    distinct_arrays(ctx, [order(i1), order(i2)], 'same-order', 'seeds of iterators')
    img = rng.rand(2, 30, 9, 9, 1)
    for make in (lambda u: D.AddGaussianNoise(u, {'x': 1.}), lambda u: D.AddSaltNPepper(u, {'x': .5}),
                 lambda u: D.RandomCrop(u, {'x': (3, 3)}), lambda u: D.Flip(u, {'x': .5})):
        e1, e2 = make(D.Undivided(x=img)), make(D.Undivided(x=img))
        name = type(e1).__name__
        get = lambda e: next(iter(e(NumpyHandler(np.float64, seed=1))))['x']
        draws = [get(e1), get(e1), get(e2)]
        distinct_arrays(ctx, draws, 'same-augmentation', 'epochs of ' + name)
        if name == 'AddGaussianNoise':
            distinct_arrays(ctx, [draws[0][0, 0] - img[0, 0], draws[0][1, 0] - img[1, 0], draws[0][0, 1] - img[0, 1]], 'same-noise', 'noise of samples')
        e1.rnd.set_seed(s2)
        e2.rnd.set_seed(s2)
        ctx.same(get(e2), get(e1), 'seed', name + ' of the same seed')
    # networks, iterators, initializers made after the same global seed
    res = []
    for _ in range(2):
        global_rnd.set_seed(s2)
        net = fresh()
        it = D.Minibatches(5, x=X)
        net.initialize(I.Gaussian())
        res.append((net.get('parameters'), order(it), dropped(dropout_net())))
    for a, b, what in zip(res[0], res[1], ('parameters', 'order', 'dropout of the default handler')):
        ctx.same(b, a, 'global-seed', what + ' after setting the same global seed')
    global_rnd.set_seed(s1)
    net = fresh()
    net.initialize(I.Gaussian())
    distinct_arrays(ctx, [res[0][0], net.get('parameters')], 'same-parameters', 'different global seeds')
    ctx.distinct((k, s1))
    ctx.sample = {'seeds': [s1, s2], 'initializer': type(mk()[k]).__name__}


def dropped(net):
    net.provide_external_data({'default': np.ones((2, 3, 80))})
    net.forward_pass(training_pass=True)
    return net.get('d0.outputs.default')


def case_state(ctx):
    """The random state itself, against the history of what was done to it."""
    from brainstorm.randomness import RandomState, global_rnd
    rng = ctx.rng
    global_rnd.set_seed(int(rng.randint(10 ** 8)))
    seeds = [int(x) for x in rng.permutation(10 ** 6)[:4]] + [[0, 1, 2 ** 32 - 1][rng.randint(3)]]
    states = [RandomState(s) for s in seeds]
    refs = [np.random.RandomState(s) for s in seeds]
    current = list(seeds)
    log = []
    children = []
    for _ in range(int(rng.randint(5, 40))):
        i = int(rng.randint(len(states)))
        r = rng.randint(9)
        s, ref = states[i], refs[i]
        log.append((i, int(r)))
        msg = 'after %s' % log
        if r == 0:
            ctx.same(s.rand(3), ref.rand(3), 'stream', msg)
        elif r == 1:
            ctx.same(s.standard_normal(3), ref.standard_normal(3), 'stream', msg)
        elif r == 2:
            g = s.generate_seed()
            ref.randint(*RandomState.seed_range)
            children.append(g)
        elif r == 3:
            c = s.create_random_state()
            ref.randint(*RandomState.seed_range)
            children.append(c.get_seed())
            ctx.same(c.rand(3), np.random.RandomState(c.get_seed()).rand(3), 'child', msg)
        elif r == 4:
            k = any_seed(rng)
            c = s.create_random_state(k)
            ctx.check(c.get_seed() == k, 'child-seed', '%s: %s for %s', msg, c.get_seed(), k)
            ctx.same(c.rand(3), np.random.RandomState(k).rand(3), 'child', msg)
        elif r == 5:
            s.reset()
            refs[i] = np.random.RandomState(current[i])
            log.append('reset')
        elif r == 6:
            current[i] = any_seed(rng)
            s.set_seed(current[i]) if rng.rand() < .5 else s.seed(current[i])
            refs[i] = np.random.RandomState(current[i])
        elif r == 7:
            t = pickle.loads(pickle.dumps(s)) if rng.rand() < .5 else copy.deepcopy(s)
            ctx.check(type(t) is RandomState and t.get_seed() == current[i], 'copy', '%s: copy is %s with seed %s', msg, type(t), t.get_seed())
            st = ref.get_state()
            ctx.same(t.rand(4), ref.rand(4), 'copy', msg)
            ref.set_state(st)
            t.reset()
            ctx.same(t.rand(2), np.random.RandomState(current[i]).rand(2), 'copy', msg + ' reset copy')
        else:
            ctx.check(s.get_seed() == current[i], 'get-seed', '%s: %s, expected %s', msg, s.get_seed(), current[i])
        ctx.count('state_operations')
    for i in range(len(states)):
        ctx.same(states[i].rand(2), refs[i].rand(2), 'stream', 'in the end, after %s' % log)
    a, b = RandomState(), RandomState()
    ctx.check(a.get_seed() != b.get_seed(), 'unseeded', 'two unseeded states got the same seed')
    ctx.distinct(tuple(str(x) for x in log))
