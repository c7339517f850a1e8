"""C03: recurrent continuation. Monitor: outputs of a live network run piecewise
with carried-over states are compared step by step with one run over everything."""
import copy

import numpy as np

from vlib import nets

TECHNIQUE = 'runtime monitor: piecewise runs with carried state vs one whole run'
LEVEL_NOTE = ('Explores random recurrent networks, cuts, interleaved unrelated runs; compares every '
              'output at every step and the state snapshots. No assumption besides rounding.')
RULE = ('random recurrent networks; a sequence is run whole and in random pieces with carried '
        'state (with unrelated batches, backward passes and other networks in between). '
        'Distinct: network signature x cut pattern.')
ASSUMPTIONS = ['same batch of sequences in all pieces; evaluation mode, or training mode in '
               'networks without dropout and batch normalisation',
               'clockwork layers count time from the start of each run, so their pieces are cut at '
               'multiples of all their periods',
               'rounding tolerance 1e-9 (float64) / 1e-4 (float32)']


def families(tier):
    k = 3 if tier == 'quick' else 50
    return [('single', 500 * k), ('net', 700 * k), ('clockwork', 300 * k), ('snapshot', 300 * k),
            ('long', 20 * k)]


MENU = dict(fc=2, Recurrent=3, Lstm=3, Clockwork=0, ClockworkLstm=0, conv=1, pool=1, BatchNorm=1,
            Dropout=1, Elementwise=1, NoOp=1, merge=1, highway=1, mask=1, fan_in=2)


def split(rng, T, step=1):
    """Random cut points of [0, T) at multiples of step."""
    n = (T + step - 1) // step
    mode = rng.randint(3)
    if mode == 0:
        cuts = list(range(1, n))
    elif mode == 1 and n > 1:
        cuts = [int(rng.randint(1, n))]
    else:
        cuts = [c for c in range(1, n) if rng.rand() < 0.4]
    pts = [0] + [c * step for c in cuts] + [T]
    return list(zip(pts[:-1], pts[1:]))


def run(net, data, training, context=None):
    net.provide_external_data(data)
    net.forward_pass(training_pass=training, context=context)


def outs(net, spec, T):
    res = nets.outputs(net, spec)
    return {k: v[:T] for k, v in res.items() if v.ndim > 1}


def state_copy(c):
    return copy.deepcopy(c)


def flat_state(c):
    """Arrays found in a state, whatever container it is."""
    if c is None:
        return []
    if isinstance(c, np.ndarray):
        return [c]
    if isinstance(c, dict):
        return [a for k in sorted(c) for a in flat_state(c[k])]
    if isinstance(c, (list, tuple)):
        return [a for x in c for a in flat_state(x)]
    return []


def same_state(ctx, a, b, key, msg):
    fa, fb = flat_state(a), flat_state(b)
    ctx.check(len(fa) == len(fb) and len(fa) > 0, key, '%s: %d and %d arrays', msg, len(fa),
              len(fb))
    for x, y in zip(fa, fb):
        ctx.same(x, y, key, msg)


def compare(ctx, got, want, where, dtype, spec, key='continue'):
    types = {l['name']: l['type'] for l in spec['layers']}
    rt = 1e-9 if dtype == np.float64 else 2e-4
    for k in want:
        scale = max(1., float(np.abs(want[k]).max()) if want[k].size else 1.)
        ctx.close(got[k], want[k], '%s:%s' % (key, types[k[0]]), '%s of %s' % (where, k),
                  rtol=rt, atol=rt * scale)
        ctx.count('steps_compared', got[k].shape[0])


def disturb(ctx, net, spec, rng):
    """Unrelated activity between two pieces."""
    what = rng.randint(5)
    if what == 0:
        return
    T, B = int(rng.randint(1, 7)), int(rng.randint(1, 6))
    run(net, nets.make_data(spec, rng, T, B, float(rng.choice([1., 50.]))), False)
    if what == 2:
        net.backward_pass()
    if what == 3:
        c = net.get_context()
        run(net, nets.make_data(spec, rng, int(rng.randint(1, 7)), B), False, c)
    ctx.count('disturbances')


def piecewise(ctx, spec, T, B, dtype, step_of=None, training=False):
    rng = ctx.rng
    net = nets.build(spec, dtype, seed=3)
    P = nets.random_params(spec, net, rng, 0.8)
    nets.set_params(net, P)
    step = step_of(P) if step_of else 1
    data = nets.make_data(spec, rng, T, B)
    run(net, data, training)
    whole = outs(net, spec, T)
    end_state = state_copy(net.get_context())
    pieces = split(rng, T, step)
    ctx.distinct(nets.signature(spec), len(pieces), [b - a for a, b in pieces][:6])
    # a second network with the same parameters takes some of the pieces
    other = nets.build(spec, dtype, seed=4)
    nets.set_params(other, P)
    two = rng.rand() < 0.3
    noisy = rng.rand() < 0.5
    back = rng.rand() < 0.3
    state = None
    use = net
    for a, b in pieces:
        if two:
            use = [net, other][rng.randint(2)]
        given = state_copy(state)
        run(use, {k: v[a:b] for k, v in data.items()}, training, state)
        got = outs(use, spec, b - a)
        compare(ctx, got, {k: v[a:b] for k, v in whole.items()},
                'steps %d..%d of %d (B=%d)' % (a, b, T, B), dtype, spec)
        if back:
            use.backward_pass()
            ctx.count('backward_between')
        if given is not None:
            same_state(ctx, state, given, 'state-changed-by-use', 'the given state')
        state = use.get_context()
        keep = state_copy(state)
        if noisy:
            disturb(ctx, use, spec, rng)
            same_state(ctx, state, keep, 'state-changed-later', 'a captured state')
        ctx.count('pieces')
    # the state reached piecewise is worth the same as the one reached in one go
    if not step_of or T % step == 0:
        more = nets.make_data(spec, rng, int(rng.randint(1, 4)), B)
        run(net, more, training, end_state)
        want = outs(net, spec, more[next(iter(more))].shape[0])
        run(net, more, training, state)
        compare(ctx, outs(net, spec, more[next(iter(more))].shape[0]), want,
                'continuing after the end', dtype, spec, 'end-state')
    # without a state everything starts from zero again
    run(net, data, training)
    compare(ctx, outs(net, spec, T), whole, 'a second whole run', dtype, spec, 'fresh-start')
    fresh = nets.build(spec, dtype, seed=9)
    nets.set_params(fresh, P)
    run(fresh, data, training)
    compare(ctx, outs(net, spec, T), outs(fresh, spec, T), 'against a fresh network', dtype, spec,
            'fresh-start')
    # the empty history is the same as the zero state
    zero = state_copy(end_state)
    for a in flat_state(zero):
        a[:] = 0
    run(fresh, data, training, zero)
    compare(ctx, outs(fresh, spec, T), whole, 'started from a zero state', dtype, spec,
            'fresh-start')
    ctx.sample = {'T': T, 'B': B, 'pieces': pieces, 'layers': nets.brief(spec)}


def has_recurrent(spec):
    return any(l['type'] in nets.recurrent_types() for l in spec['layers'])


def run_case(case, ctx):
    rng = ctx.rng
    fam = case['family']
    T, B = int(rng.randint(1, 9)), int(rng.randint(1, 5))
    dtype = np.float32 if rng.rand() < 0.25 else np.float64
    training = False
    if fam == 'single':
        g = nets.Gen(rng)
        x = g.add_input('default', [(1,), (3,), (2, 2), (2, 1, 3)][rng.randint(4)])
        for _ in range(int(rng.randint(1, 4))):
            g.recurrent(['Recurrent', 'Lstm'][rng.randint(2)], g.tensors[-1])
        g.head()
        training = bool(rng.randint(2))
        piecewise(ctx, g.spec(), T, B, dtype, training=training)
    elif fam in ('net', 'snapshot'):
        while True:
            spec = nets.random_spec(rng, MENU)
            if has_recurrent(spec):
                break
        if not any(l['type'] in ('BatchNorm', 'Dropout') for l in spec['layers']):
            training = bool(rng.randint(2))
        if fam == 'net':
            piecewise(ctx, spec, T, B, dtype, training=training)
        else:
            snapshot(ctx, spec, T, B, dtype)
    elif fam == 'clockwork':
        g = nets.Gen(rng)
        x = g.add_input('default', (g.size(),))
        for _ in range(int(rng.randint(1, 3))):
            x = g.recurrent(g.pick(['Clockwork', 'ClockworkLstm', 'Clockwork', 'ClockworkLstm',
                                    'Lstm']), x)
        g.head(x)
        if not any('Clock' in l['type'] for l in g.layers):
            g.recurrent('Clockwork', x)

        def step_of(P):
            n = 1
            for ln in P:
                for v in np.ravel(P[ln].get('timing', 1)):
                    n = int(np.lcm(n, int(v)))
            return n
        piecewise(ctx, g.spec(), int(rng.randint(12, 40)), B, dtype, step_of)
    elif fam == 'long':
        g = nets.Gen(rng, acts=['tanh', 'sigmoid'])
        x = g.add_input('default', (int(rng.randint(5, 30)),))
        g.recurrent(['Recurrent', 'Lstm'][rng.randint(2)], x, size=int(rng.randint(10, 60)))
        g.head()
        piecewise(ctx, g.spec(), int(rng.randint(50, 150)), int(rng.randint(5, 40)), np.float64)


def snapshot(ctx, spec, T, B, dtype):
    """States of several sequences at several points, used again in any order."""
    rng = ctx.rng
    net = nets.build(spec, dtype, seed=3)
    nets.set_params(net, nets.random_params(spec, net, rng, 0.8))
    store = []       # (state, untouched copy, batch size, next data, expected outputs)
    for i in range(int(rng.randint(2, 4))):
        b = int(rng.randint(1, 5))
        t1, t2 = int(rng.randint(1, 6)), int(rng.randint(1, 6))
        d = nets.make_data(spec, rng, t1 + t2, b)
        run(net, d, False)
        want = {k: v[t1:] for k, v in outs(net, spec, t1 + t2).items()}
        run(net, {k: v[:t1] for k, v in d.items()}, False)
        s = net.get_context()
        store.append((s, state_copy(s), {k: v[t1:] for k, v in d.items()}, want, t2))
    for _ in range(8):
        s, keep, d, want, t2 = store[rng.randint(len(store))]
        if rng.rand() < 0.3:
            disturb(ctx, net, spec, rng)
        run(net, d, False, s)
        compare(ctx, outs(net, spec, t2), want, 'continued again', dtype, spec, 'snapshot')
        if rng.rand() < 0.4:
            net.backward_pass()
        for s2, keep2, _, _, _ in store:
            same_state(ctx, s2, keep2, 'state-changed-later', 'a stored state')
        ctx.count('snapshot_uses')
    ctx.distinct('snapshot', nets.signature(spec))


MIN_COUNTERS = {'pieces': 1000, 'steps_compared': 5000, 'snapshot_uses': 500, 'disturbances': 300}
