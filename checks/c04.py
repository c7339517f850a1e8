"""C04: results are a function of parameters, data, mode and state only.

Monitor: a network with a hostile history (other sizes, non-finite data, aborted
passes through injected faults, handler changes, other networks alongside) runs the
same data as a fresh network; all outputs, losses, gradients, deltas are compared."""
import numpy as np

from vlib import nets

TECHNIQUE = 'runtime monitor with fault injection: network with a hostile history vs a fresh one'
LEVEL_NOTE = ('Explores random networks and histories incl. exceptions injected at random handler '
              'calls; compares every observable buffer with a fresh network. Rounding tolerance '
              'only.')
RULE = ('random networks; random histories of forward/backward passes with other sizes, poisoned '
        '(NaN, inf, huge) data, injected exceptions, rejected data, handler changes; then one run '
        'compared with a fresh network; the same with a handler whose allocate() returns arbitrary '
        'content, as documented. Distinct: network signature x sequence of history events.')
ASSUMPTIONS = ['in networks with mode-dependent layers (dropout, batch normalisation) backward passes '
               'follow training-mode forward passes',
               'dropout draws are part of the mode/handler state: the generator is re-seeded '
               'before compared runs', 'running statistics are parameters and set explicitly',
               'rounding tolerance 1e-9 (float64) / 2e-4 (float32)']


class InjectedFault(Exception):
    pass


def fault_handler(dtype, seed):
    from brainstorm.handlers import NumpyHandler

    class FaultHandler(NumpyHandler):
        """Raises at the n-th operation after arm(n)."""
        countdown = None

        def __getattribute__(self, name):
            v = NumpyHandler.__getattribute__(self, name)
            if name.endswith(('_t', '_tt', '_mv', '_mm', 'dot_mm', 'copy_to', 'fill', '_batch',
                              '_deriv', 'sigmoid', 'tanh', 'rel', 'el', '_m')) and callable(v):
                c = self.__dict__.get('countdown')
                if c is not None:
                    if c <= 0:
                        self.__dict__['countdown'] = None
                        raise InjectedFault(name)
                    self.__dict__['countdown'] = c - 1
            return v
    return FaultHandler(dtype, seed=seed)


def garbage_handler(dtype, seed, kind):
    from brainstorm.handlers import NumpyHandler
    rnd = np.random.RandomState(seed)

    class GarbageHandler(NumpyHandler):
        """allocate() returns memory of arbitrary content, as documented."""
        allocated = 0

        def allocate(self, shape):
            self.__dict__['allocated'] = self.allocated + 1
            if kind == 'random':
                return (rnd.randn(*np.zeros(shape).shape) * 10).astype(self.dtype)
            return np.full(shape, {'nan': np.nan, 'huge': 1e30, 'one': 1.}[kind], dtype=self.dtype)
    return GarbageHandler(dtype, seed=seed)


def families(tier):
    k = 3 if tier == 'quick' else 50
    return [('history', 900 * k), ('sizes', 300 * k), ('handler', 250 * k), ('fault', 400 * k),
            ('alongside', 200 * k), ('big', 15 * k), ('garbage', 240 * k)]


def observe(net, spec, data, training, seed, backward, context=None):
    """Everything one run yields."""
    net.handler.rnd.set_seed(seed)
    net.provide_external_data(data)
    net.forward_pass(training_pass=training, context=context)
    res = {}
    for (l, o), v in nets.outputs(net, spec).items():
        T = next(iter(data.values())).shape[0]
        res['outputs %s.%s' % (l, o)] = v[:T]
    for k, v in net.get_loss_values().items():
        res['loss ' + k] = np.array([v])
    for k in data:
        res['input ' + k] = net.get_input(k)
    if backward:
        net.backward_pass()
        res['gradients'] = net.get('gradients')
        for ln, ps in nets.get_grads(net).items():
            for pn, v in ps.items():
                res['gradient %s.%s' % (ln, pn)] = v
        for k, i in spec['inputs'].items():
            res['deltas ' + k] = net.get('Input.output_deltas.' + k)
    res['parameters'] = net.get('parameters')
    return res


def compare(ctx, got, want, dtype, key, msg):
    rt = 1e-9 if dtype == np.float64 else 2e-4
    ctx.check(set(got) == set(want), key + ':buffers', '%s', sorted(set(got) ^ set(want)))
    for k in want:
        if k not in got:
            continue
        w = want[k]
        if not np.isfinite(w).all():
            ctx.count('nonfinite_reference')
        if k == 'parameters' or k.startswith('input'):
            ctx.same(got[k], w, '%s:%s' % (key, k.split()[0]), '%s %s' % (msg, k))
        else:
            f = w[np.isfinite(w)]
            scale = max(1., float(np.abs(f).max())) if f.size else 1.
            ctx.close(got[k], w, '%s:%s' % (key, k.split()[0]), '%s %s' % (msg, k), rtol=rt,
                      atol=rt * scale)
        ctx.count('buffers_compared')


def poison(rng, data):
    d = {}
    for k, v in data.items():
        v = v.copy()
        if v.size and rng.rand() < 0.8:
            m = rng.rand(*v.shape) < 0.3
            v[m] = rng.choice([np.nan, np.inf, -np.inf, 1e30, -1e30])
        d[k] = v
    return d


def fill_in(ctx, pool, data, T, B):
    """The user may keep arrays and fill them anew for every run."""
    for k, v in data.items():
        if (k, T, B) in pool:
            pool[k, T, B][...] = v
            ctx.count('arrays_reused')
        else:
            pool[k, T, B] = v.copy()
        data[k] = pool[k, T, B]
    return data


def event(ctx, net, spec, rng, allow, last, pool):
    """One event of the history; returns its name."""
    what = allow[rng.randint(len(allow))]
    if rng.rand() < 0.4:
        T, B = last
    else:
        T, B = int(rng.randint(1, 8)), int(rng.randint(1, 7))
    data = nets.make_data(spec, rng, T, B)
    if pool is not None:
        data = fill_in(ctx, pool, data, T, B)
    tr = bool(rng.randint(2))
    h = net.handler
    if what == 'forward':
        net.provide_external_data(data)
        net.forward_pass(training_pass=tr)
    elif what == 'both':
        net.provide_external_data(data)
        net.forward_pass(training_pass=tr)
        net.backward_pass()
        if rng.rand() < 0.3:
            net.backward_pass()
    elif what == 'context':
        net.provide_external_data(data)
        net.forward_pass(training_pass=tr)
        c = net.get_context()
        net.provide_external_data(nets.make_data(spec, rng, int(rng.randint(1, 8)), B))
        net.forward_pass(training_pass=tr, context=c)
    elif what == 'poison':
        bad = {k: v for k, v in data.items()}
        real = {k: v for k, v in bad.items() if spec['inputs'][k]['kind'] in ('real', 'value')}
        bad.update(poison(rng, real))
        net.provide_external_data(bad)
        net.forward_pass(training_pass=tr)
        net.backward_pass()
    elif what == 'only-data':
        net.provide_external_data(data)
    elif what == 'rejected':
        names = sorted(data)
        k = names[rng.randint(len(names))]
        if len(names) > 1 and rng.rand() < 0.5:
            del data[k]
        else:
            data[k] = np.zeros(data[k].shape[:2] + tuple(s + 1 for s in data[k].shape[2:]))
        try:
            net.provide_external_data(data)
        except Exception:
            ctx.count('rejected_data')
    elif what == 'fault':
        h.countdown = None
        net.provide_external_data(data)
        n = int(rng.randint(0, 60))
        h.countdown = n
        try:
            net.forward_pass(training_pass=tr)
            net.backward_pass()
        except InjectedFault:
            ctx.count('aborted_passes')
        h.countdown = None
    elif what == 'handler':
        net.set_handler(fault_handler(h.dtype, int(rng.randint(1000))))
        ctx.count('handler_changes')
    elif what == 'other-precision':
        # parameters are representable in both precisions
        other = np.float32 if h.dtype == np.float64 else np.float64
        net.set_handler(fault_handler(other, 1))
        net.provide_external_data(data)
        net.forward_pass()
        net.set_handler(fault_handler(h.dtype, 1))
        ctx.count('handler_changes', 2)
    return what, (T, B)


def run_history(ctx, spec, dtype, allow, n, sizes=None, keep_params=True):
    rng = ctx.rng
    net = nets.build(spec, None)
    net.set_handler(fault_handler(dtype, 5))
    P = nets.random_params(spec, net, rng)
    P = {l: {k: v.astype(np.float32).astype(np.float64) for k, v in p.items()}
         for l, p in P.items()}
    nets.set_params(net, P)
    before = net.get('parameters')
    moving = any(l['type'] == 'BatchNorm' for l in spec['layers'])
    last = (int(rng.randint(1, 6)), int(rng.randint(1, 6)))
    names = []
    pool = {} if rng.rand() < .6 else None
    for i in range(n):
        what, last = event(ctx, net, spec, rng, allow, last, pool)
        names.append(what)
        ctx.count('history_events')
        if not moving:
            ctx.same(net.get('parameters'), before, 'parameters-survive:' + what,
                     'after history %s' % names)
            for ln in P:
                for pn in P[ln]:
                    ctx.same(net.get('%s.parameters.%s' % (ln, pn)), P[ln][pn].astype(dtype),
                             'parameters-survive:' + what, '%s.%s' % (ln, pn))
    # the observed run, often with the same sizes as the last event
    if sizes is None:
        sizes = last if rng.rand() < 0.5 else (int(rng.randint(1, 8)), int(rng.randint(1, 7)))
    T, B = sizes
    data = nets.make_data(spec, rng, T, B)
    if pool is not None:
        data = fill_in(ctx, pool, data, T, B)
    training, backward = bool(rng.randint(2)), bool(rng.rand() < 0.8)
    if not training and any(l['type'] in ('BatchNorm', 'Dropout') for l in spec['layers']):
        backward = False      # a backward pass belongs to a training-mode forward pass
    if moving:
        nets.set_params(net, P)
    got = observe(net, spec, data, training, 11, backward)
    fresh = nets.build(spec, None)
    fresh.set_handler(fault_handler(dtype, 5))
    nets.set_params(fresh, P)
    want = observe(fresh, spec, data, training, 11, backward)
    compare(ctx, got, want, dtype, 'history', 'after %s, T=%d B=%d' % (names, T, B))
    ctx.distinct(nets.signature(spec), names, last == (T, B))
    ctx.sample = {'history': names, 'T': T, 'B': B, 'layers': nets.brief(spec)}


def run_case(case, ctx):
    rng = ctx.rng
    fam = case['family']
    dtype = np.float32 if rng.rand() < 0.2 else np.float64
    spec = nets.random_spec(rng, {'DeltasScaling': 1}, max_layers=5, loss=rng.rand() > .1)
    if fam == 'history':
        run_history(ctx, spec, dtype, ['forward', 'both', 'context', 'poison', 'only-data',
                                       'rejected', 'fault', 'handler'], int(rng.randint(1, 7)))
    elif fam == 'sizes':
        run_history(ctx, spec, dtype, ['forward', 'both', 'poison'], int(rng.randint(2, 8)))
    elif fam == 'handler':
        run_history(ctx, spec, dtype, ['both', 'handler', 'other-precision'],
                    int(rng.randint(1, 5)))
    elif fam == 'fault':
        run_history(ctx, spec, dtype, ['fault', 'fault', 'rejected', 'poison'],
                    int(rng.randint(1, 4)))
    elif fam == 'big':
        spec = nets.random_spec(rng, {'DeltasScaling': 1}, max_size=30, max_layers=3)
        run_history(ctx, spec, np.float64, ['both', 'poison', 'fault'], 2,
                    sizes=(int(rng.randint(5, 25)), int(rng.randint(5, 25))))
    elif fam == 'alongside':
        alongside(ctx, dtype)
    elif fam == 'garbage':
        garbage(ctx, spec, dtype)


def garbage(ctx, spec, dtype):
    """What newly allocated memory happens to contain makes no difference."""
    rng = ctx.rng
    clean, dirty = nets.build(spec, dtype), nets.build(spec, None)
    kind = ['nan', 'nan', 'huge', 'one', 'random'][rng.randint(5)]
    h = garbage_handler(dtype, int(rng.randint(1000)), kind)
    dirty.set_handler(h)
    P = nets.random_params(spec, clean, rng)
    nets.set_params(dirty, P)
    names = []
    for i in range(int(rng.randint(1, 4))):
        nets.set_params(clean, P)
        nets.set_params(dirty, P)       # running statistics move
        T, B = int(rng.randint(1, 8)), int(rng.randint(1, 6))
        data = nets.make_data(spec, rng, T, B)
        training = bool(rng.rand() < .7)
        backward = training or not any(l['type'] in ('BatchNorm', 'Dropout') for l in spec['layers'])
        with np.errstate(all='ignore'):
            got = observe(dirty, spec, data, training, 11, backward)
        want = observe(clean, spec, data, training, 11, backward)
        names.append((T, B, training, backward))
        compare(ctx, got, want, dtype, 'new-memory', 'memory filled with %s, runs %s' % (kind, names))
        ctx.count('garbage_runs')
    ctx.count('garbage_allocations', h.allocated)
    ctx.distinct('garbage', kind, nets.signature(spec))


def alongside(ctx, dtype):
    """Several networks (some from one architecture) share the handler and run
    interleaved; each must behave as if it were alone."""
    rng = ctx.rng
    from brainstorm.handlers import NumpyHandler
    import brainstorm as bs
    specs = [nets.random_spec(rng, {'Dropout': 0}, max_layers=3) for _ in range(2)]
    archs = [nets.to_architecture(s) for s in specs]
    shared = NumpyHandler(dtype, seed=1)
    live = []
    for i in (0, 0, 1):
        net = bs.Network.from_architecture(archs[i])
        net.set_handler(shared)
        P = nets.random_params(specs[i], net, rng)
        nets.set_params(net, P)
        live.append((specs[i], net, P))
    jobs = []
    for s, net, P in live:
        data = nets.make_data(s, rng, int(rng.randint(1, 6)), int(rng.randint(1, 5)))
        alone = nets.build(s, dtype)
        nets.set_params(alone, P)
        jobs.append((data, observe(alone, s, data, True, 3, True)))
    # interleave the phases: provide all, then forward all, then backward all
    for rnd_ in range(2):
        order = rng.permutation(3)
        for (s, net, P) in live:
            nets.set_params(net, P)
        for i in order:
            live[i][1].provide_external_data(jobs[i][0])
        for i in rng.permutation(3):
            live[i][1].forward_pass(training_pass=True)
        for i in rng.permutation(3):
            live[i][1].backward_pass()
        for i in range(3):
            s, net, P = live[i]
            got = {}
            T = next(iter(jobs[i][0].values())).shape[0]
            for (l, o), v in nets.outputs(net, s).items():
                got['outputs %s.%s' % (l, o)] = v[:T]
            for k, v in net.get_loss_values().items():
                got['loss ' + k] = np.array([v])
            got['gradients'] = net.get('gradients')
            want = {k: v for k, v in jobs[i][1].items() if k in got}
            compare(ctx, got, want, dtype, 'alongside', 'network %d' % i)
            ctx.count('interleaved_runs')
    ctx.distinct('alongside', nets.signature(specs[0]), nets.signature(specs[1]))


MIN_COUNTERS = {'buffers_compared': 5000, 'aborted_passes': 100, 'handler_changes': 100,
                'rejected_data': 50, 'garbage_runs': 500, 'garbage_allocations': 5000, 'arrays_reused': 3000}
