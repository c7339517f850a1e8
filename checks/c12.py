"""C12: steppers.

Monitor: a live network driven by a stepper is compared, after every single step, with a
twin network on which the documented rule is carried out by hand: the twin is put at the
point where the rule evaluates the gradient, runs one training-mode forward and one
backward pass on the same data with the same random numbers, and float64 arithmetic gives
the new parameters and velocity. All pass results of the two are compared too, so that
further or missing passes show."""
import numpy as np

from vlib import nets, specs

TECHNIQUE = 'runtime monitor: every step of a live stepper vs the update rule carried out on a twin network'
LEVEL_NOTE = ('Random networks (dropout, batch normalisation, recurrent), data, rates, momenta, changes of rates, '
              'restarts, shared steppers, modifiers; every step compared; rounding tolerance only.')
RULE = ('random network x stepper x settings; 3 to 9 steps with rates changed, parameters changed, data of other '
        'sizes, restarts in between. Distinct: network x stepper x event sequence.')
ASSUMPTIONS = ['the gradient of a pass is decided by C01; here it is what the same passes give on a twin']
MIN_COUNTERS = {'steps_observed': 3000, 'restarts': 150, 'rate_changes': 400, 'forward_steps': 300,
                'nonzero_velocity_steps': 800}


def families(tier):
    k = 3 if tier == 'quick' else 60
    return [('sgd', 250 * k), ('momentum', 350 * k), ('nesterov', 350 * k), ('forward', 200 * k),
            ('shared', 120 * k), ('big', 20 * k)]


def run_case(case, ctx):
    f = case['family']
    if f == 'forward':
        return forward(ctx)
    if f == 'shared':
        return shared(ctx)
    if f == 'big':
        return drive(ctx, ['sgd', 'momentum', 'nesterov'][ctx.rng.randint(3)], 40)
    drive(ctx, f, int(ctx.rng.randint(3, 10)))


def make(rng, kind):
    from brainstorm.training import SgdStepper, MomentumStepper, NesterovStepper
    lr = float([0.1, 0.03, 0.5, 0.0, 1e-3, 0.01][rng.randint(6)])
    if kind == 'sgd':
        return SgdStepper(lr) if rng.rand() < .9 else SgdStepper()
    mom = float([0.0, 0.5, 0.9, 0.99, 0.3][rng.randint(5)])
    cls = MomentumStepper if kind == 'momentum' else NesterovStepper
    r = rng.rand()
    if r < .4:
        return cls(lr, mom)
    if r < .5:
        return cls()
    return cls(lr, mom, bool(rng.rand() < .5))


class Pair(object):
    """a live network and its twin"""

    def __init__(self, ctx, dtype, smooth):
        self.ctx = ctx
        rng = self.rng = ctx.rng
        self.dtype = dtype
        self.spec = nets.random_spec(rng, acts=nets.SMOOTH if smooth else None, max_layers=4)
        self.net = nets.build(self.spec, dtype)
        self.twin = nets.build(self.spec, dtype)
        p = nets.random_params(self.spec, self.net, rng)
        nets.set_params(self.net, p)
        self.shapes = nets.param_shapes(self.net)
        if rng.rand() < .3:
            m = specs.modifier_spec(rng, self.shapes, specs.gradient_modifier)
            self.net.set_gradient_modifiers(m)
            self.twin.set_gradient_modifiers(m)

    def data(self):
        rng = self.rng
        return nets.make_data(self.spec, rng, int(rng.randint(1, 4)), int(rng.randint(1, 5)), dtype=self.dtype)

    def params(self):
        return self.net.get('parameters')

    def buffers(self, net):
        res = {}
        for l in net.layers:
            b = net.buffer[l]
            for part in b.keys():
                if part in ('parameters', 'input_deltas', 'output_deltas', 'inputs', 'outputs', 'gradients', 'internals'):
                    for n, v in b[part].items():
                        if part != 'parameters':
                            res['%s.%s.%s' % (l, part, n)] = np.array(v)
        return res


def drive(ctx, kind, steps):
    rng = ctx.rng
    dtype = np.float64 if kind == 'nesterov' or rng.rand() < .6 else np.float32
    pair = Pair(ctx, dtype, smooth=kind == 'nesterov')
    net, twin = pair.net, pair.twin
    if net.buffer.parameters.size == 0:
        ctx.count('without_parameters')
    stepper = make(rng, kind)
    stepper.start(net)
    v = np.zeros(net.buffer.parameters.size)
    tol = 1e-9 if dtype == np.float64 else 2e-5
    events = []
    for s in range(steps):
        r = rng.rand()
        if r < .15:
            stepper.learning_rate = float([0.2, 0.05, 0.0, 1e-4][rng.randint(4)])
            events.append('lr')
            ctx.count('rate_changes')
        elif r < .3 and kind != 'sgd':
            stepper.momentum = float([0.2, 0.95, 0.0, 0.7][rng.randint(4)])
            events.append('mom')
            ctx.count('rate_changes')
        elif r < .4:
            stepper.start(net)
            v = np.zeros_like(v)
            events.append('start')
            ctx.count('restarts')
        elif r < .5:
            nets.set_params(net, nets.random_params(pair.spec, net, rng))
            events.append('set')
        elif r < .55:
            net.provide_external_data(pair.data())
            net.forward_pass(training_pass=bool(rng.rand() < .5))
            events.append('pass')
        data = pair.data()
        keep = {k: a.copy() for k, a in data.items()}
        seed = int(rng.randint(10 ** 6))
        before = pair.params().astype(np.float64)
        conf = {k: x for k, x in vars(stepper).items() if k in ('learning_rate', 'momentum', 'scale_learning_rate')}
        lr = stepper.learning_rate
        mom = getattr(stepper, 'momentum', 0.0)
        if getattr(stepper, 'scale_learning_rate', False):
            lr = lr * (1 - mom)
        # the rule on the twin
        at = before + mom * v if kind == 'nesterov' else before
        twin.buffer.parameters[:] = at
        twin.provide_external_data({k: a.copy() for k, a in data.items()})
        twin.handler.rnd.set_seed(seed)
        twin.forward_pass(training_pass=True)
        twin.backward_pass()
        g = twin.get('gradients').astype(np.float64)
        base = twin.get('parameters').astype(np.float64)   # running statistics have moved
        v = mom * v - lr * g
        if kind == 'sgd':
            want = base - lr * g
        elif kind == 'momentum':
            want = base + v
        else:
            want = base - lr * g
        # the real step
        net.provide_external_data(data)
        net.handler.rnd.set_seed(seed)
        stepper.run()
        ctx.count('steps_observed')
        if np.any(v != 0) and mom > 0:
            ctx.count('nonzero_velocity_steps')
        if not np.all(np.isfinite(want)) or np.abs(want).max(initial=0) > 1e5:
            ctx.count('diverged')
            break
        what = '%s lr=%s momentum=%s step %d after %s' % (type(stepper).__name__, conf.get('learning_rate'), mom, s, events)
        scale = np.abs(before) + np.abs(v) + np.abs(lr * g)
        got = pair.params().astype(np.float64)
        bad = np.abs(got - want) > tol * (scale + (np.abs(want).max(initial=0) * .1 if dtype == np.float32 else 1e-3))
        ctx.check(not bad.any(), 'update', '%s: parameter %d became %r instead of %r (from %r, gradient %r)', what,
                  *(lambda i: (i, got[i], want[i], before[i], g[i]))(int(np.argmax(bad)) if bad.size else 0)) \
            if bad.size else None
        a, b = pair.buffers(net), pair.buffers(twin)
        t2 = 1e-7 if dtype == np.float64 else 1e-3
        for k in a:
            ctx.close(a[k], b[k], 'pass-results', '%s: %s is not what one training pass gives' % (what, k), rtol=t2,
                      atol=t2 * (1 + np.abs(b[k]).max(initial=0)))
        now = {k: x for k, x in vars(stepper).items() if k in conf}
        ctx.check(now == conf, 'stepper-changed', '%s: settings %s became %s', what, conf, now)
        ctx.check(all(np.array_equal(data[k], keep[k]) for k in keep), 'data-changed', '%s: changed the data', what)
    ctx.distinct(kind, nets.signature(pair.spec), ','.join(events))
    ctx.sample = {'stepper': kind, 'events': events, 'net': nets.brief(pair.spec)}


def shared(ctx):
    """steppers started on several networks in turn; two steppers side by side"""
    rng = ctx.rng
    kind = ['sgd', 'momentum', 'nesterov'][rng.randint(3)]
    pairs = [Pair(ctx, np.float64, True) for _ in range(2)]
    a = make(rng, kind)
    b = make(rng, kind)
    a.start(pairs[0].net)
    b.start(pairs[1].net)
    trace = {0: [], 1: []}
    datas = {}
    starts = [p.params() for p in pairs]
    for s in range(4):
        for i in ([0, 1] if rng.rand() < .5 else [1, 0]):
            d = pairs[i].data()
            datas.setdefault(i, []).append(d)
            pairs[i].net.provide_external_data(d)
            pairs[i].net.handler.rnd.set_seed(s)
            (a if i == 0 else b).run()
            trace[i].append(pairs[i].params())
    # each alone on its twin
    from copy import copy
    for i, st in enumerate([a, b]):
        alone = copy(st)
        tw = pairs[i].twin
        tw.buffer.parameters[:] = starts[i]
        alone.start(tw)
        for s, d in enumerate(datas[i]):
            tw.provide_external_data(d)
            tw.handler.rnd.set_seed(s)
            alone.run()
            ctx.same(trace[i][s], tw.get('parameters'), 'interference',
                     'two %s side by side differ from one alone at step %d' % (type(st).__name__, s))
            ctx.count('steps_observed')
    # re-start of one stepper on the other network: nothing is carried over
    a.start(pairs[1].net)
    pairs[1].net.buffer.parameters[:] = starts[1]
    fresh = make(rng, kind)
    for k in ('learning_rate', 'momentum', 'scale_learning_rate'):
        if hasattr(a, k):
            setattr(fresh, k, getattr(a, k))
    tw = pairs[1].twin
    tw.buffer.parameters[:] = starts[1]
    fresh.start(tw)
    old = pairs[0].params()
    for s, d in enumerate(datas[1][:2]):
        for n, st in ((pairs[1].net, a), (tw, fresh)):
            n.provide_external_data(d)
            n.handler.rnd.set_seed(s)
            st.run()
        ctx.same(pairs[1].params(), tw.get('parameters'), 'restart', 'a re-started stepper differs from a new one')
        ctx.count('steps_observed', 2)
    ctx.count('restarts')
    ctx.same(pairs[0].params(), old, 'wrong-network', 'a stepper started on another network changed the old one')
    ctx.distinct('shared', kind, nets.signature(pairs[0].spec), nets.signature(pairs[1].spec))


def forward(ctx):
    from brainstorm.training.steppers import ForwardStepper
    rng = ctx.rng
    dtype = [np.float64, np.float32][rng.randint(2)]
    pair = Pair(ctx, dtype, False)
    net, twin = pair.net, pair.twin
    flag = [None, True, False][rng.randint(3)]
    st = ForwardStepper() if flag is None else ForwardStepper(flag)
    st.start(net)
    types = [l['type'] for l in pair.spec['layers']]
    for s in range(3):
        d = pair.data()
        twin.buffer.parameters[:] = pair.params()
        before = pair.params()
        for n in (twin, net):
            n.provide_external_data({k: v.copy() for k, v in d.items()})
            n.handler.rnd.set_seed(s)
        twin.forward_pass(training_pass=bool(flag))
        res = st.run()
        ctx.count('forward_steps')
        ctx.count('steps_observed')
        if not (flag and 'BatchNorm' in types):
            ctx.same(pair.params(), before, 'forward-changes', 'forward-only stepping changed parameters')
        ctx.same(pair.params(), twin.get('parameters'), 'forward-changes', 'parameters after a forward-only step')
        for (l, o), v in nets.outputs(twin, pair.spec).items():
            ctx.same(net.get('%s.outputs.%s' % (l, o)), v, 'pass-results', 'forward-only step (%s): %s.%s' % (flag, l, o))
        want = twin.get_loss_values()
        ctx.check(dict(res) == dict(want) or any(x != x for x in want.values()), 'forward-loss',
                  'returned %s instead of %s', dict(res), dict(want))
    ctx.distinct('forward', flag, nets.signature(pair.spec))
