"""C15: weight and gradient modifiers.

Monitor: live networks with random modifier specifications; every parameter (or gradient)
is recorded before and after the modifiers run and compared with a reference that selects
by the documented patterns and applies the documented change, bit-identically wherever
nothing has to change."""
import numpy as np

from vlib import nets, specs
from checks.c10 import matches

TECHNIQUE = 'runtime monitor: parameters and gradients before/after modifiers vs reference selection and effect'
LEVEL_NOTE = ('Random networks, specifications (patterns, defaults, lists, overlaps), values, repeated application, '
              'training, backend changes; every entry compared, unaffected ones bit-identically.')
RULE = ('random network x specification x sequence of parameter changes and applications. Distinct: specification '
        'shape x network.')
ASSUMPTIONS = ['modifiers selected by several patterns are all applied, in the order of the specification',
               'a row norm within 1e-5 of the limit may be rescaled or not']
MIN_COUNTERS = {'applications': 3000, 'views_modified': 6000, 'views_untouched': 5000, 'entries_kept': 20000,
                'gradient_applications': 800, 'training_updates': 500, 'overlaps': 300, 'rejections_seen': 150,
                'frozen_checks': 500}


def families(tier):
    k = 6 if tier == 'quick' else 100
    return [('weights', 500 * k), ('gradients', 250 * k), ('training', 120 * k), ('reject', 100 * k), ('handlers', 80 * k)]


def run_case(case, ctx):
    globals()['case_' + case['family']](ctx)


# ------------------------------------------------------------------ reference effects

class Ref(object):
    """reference state of one modifier installed for one view"""

    def __init__(self, mod):
        self.mod = mod
        self.name = type(mod).__name__
        self.frozen = None

    def __call__(self, v, params=None):
        """v: float64 array -> (new, may-differ mask)"""
        m = self.mod
        maybe = np.zeros(v.shape, bool)
        if self.name == 'ConstrainL2Norm':
            if v.ndim < 2:
                return v, maybe
            rows = v.reshape(v.shape[0], -1)
            norm = np.sqrt((rows ** 2).sum(1))
            f = np.where(norm > m.limit, m.limit / np.where(norm == 0, 1, norm), 1.0)
            near = np.abs(norm / m.limit - 1) < 1e-5
            return (rows * f[:, None]).reshape(v.shape), np.repeat(near[:, None], rows.shape[1], 1).reshape(v.shape)
        if self.name == 'ClipValues':
            return np.minimum(np.maximum(v, m.low), m.high), maybe
        if self.name == 'MaskValues':
            return v * m.mask, maybe
        if self.name == 'FreezeValues':
            if self.frozen is None:
                self.frozen = np.array(v if m.weights is None else m.weights, float)
            return self.frozen.copy(), maybe
        if self.name == 'L1Decay':
            return v + m.factor * np.sign(params), maybe
        if self.name == 'L2Decay':
            return v + m.factor * params, maybe
        raise ValueError(self.name)


def flatten(spec):
    if isinstance(spec, dict):
        return [x for v in spec.values() for x in flatten(v)]
    return [spec]


def chosen(spec, layer, view):
    """list of modifiers (flattened) that the specification selects for one parameter"""
    found = []
    for p, v in spec.items():
        if p in ('default', 'fallback') or not matches(p, layer):
            continue
        if not isinstance(v, dict):
            found.append(v)
            continue
        qs = [q for q in v if q not in ('default', 'fallback') and matches(q, view)]
        found += [v[q] for q in qs]
        if not qs and 'default' in v:
            found.append(v['default'])
    if not found and 'default' in spec:
        found = [spec['default']]
    order = [id(x) for x in flatten(spec)]
    uniq = []
    for f in sorted(found, key=lambda x: order.index(id(x))):
        if not any(f is u for u in uniq):
            uniq.append(f)
    res = []
    for f in uniq:
        res += list(f) if isinstance(f, (list, tuple)) else [f]
    return res, len(uniq)


def free_modifier(rng, gradient):
    """a modifier that fits every shape"""
    from brainstorm import value_modifiers as V
    f = lambda a, b: float(np.round(rng.uniform(a, b), 3))
    k = int(rng.randint(4 if not gradient else 6))
    if k == 0:
        return V.ConstrainL2Norm(f(.1, 2))
    if k == 1:
        lo = f(-1, .5)
        return V.ClipValues(lo, lo + f(.1, 1.5))
    if k == 2:
        return V.ClipValues()
    if k == 3:
        return V.FreezeValues()
    if k == 4:
        return V.L1Decay(f(-.2, .8))
    return V.L2Decay(f(-.2, .8))


def random_spec(rng, shapes, gradient):
    make = specs.gradient_modifier if gradient else specs.weight_modifier
    spec = {}
    with_p = sorted(l for l in shapes if shapes[l])

    def val(shape=None):
        one = (lambda: make(rng, shape)) if shape is not None and rng.rand() < .6 else (lambda: free_modifier(rng, gradient))
        r = rng.rand()
        if r < .6:
            return one()
        if r < .65:
            return []
        l = [one() for _ in range(int(rng.randint(1, 4)))]
        return l if rng.rand() < .7 else tuple(l)
    items = []
    if rng.rand() < .35:
        items.append(('default', val()))
    for l in with_p:
        r = rng.rand()
        if r < .2:
            pat = l if rng.rand() < .5 else l[:int(rng.randint(1, len(l) + 1))] + '*'
            items.append((pat, val()))
        elif r < .6:
            d = []
            for n in sorted(shapes[l]):
                if rng.rand() < .5:
                    d.append((n, val(shapes[l][n])))
            if rng.rand() < .2:
                n = sorted(shapes[l])[int(rng.randint(len(shapes[l])))]
                d.append((n[:1] + '*', val()))
            if rng.rand() < .3:
                d.append(('default', val()))
            rng.shuffle(d)
            items.append((l, dict(d)))
    if rng.rand() < .15:
        items.append(('*', val()))
    if items and rng.rand() < .3:        # one object used in two places
        objs = [v for _, v in items if not isinstance(v, dict)]
        if objs and with_p:
            items.append((with_p[0][:-1] + '*', objs[int(rng.randint(len(objs)))]))
    rng.shuffle(items)
    for k, v in items:
        spec[k] = v
    return spec


def frozen(x):
    if isinstance(x, dict):
        return tuple((k, frozen(v)) for k, v in x.items())
    if isinstance(x, (list, tuple)):
        return tuple(frozen(v) for v in x)
    return (id(x), tuple(sorted((k, v.tobytes() if isinstance(v, np.ndarray) else repr(v))
                                for k, v in vars(x).items() if k != 'rnd')))


class Setup(object):
    def __init__(self, ctx, gradient, dtype=None, spec=None):
        self.ctx = ctx
        rng = self.rng = ctx.rng
        self.gradient = gradient
        self.dtype = dtype or [np.float64, np.float32][rng.randint(2)]
        self.spec = spec or nets.random_spec(rng, max_layers=4, images=rng.rand() < .2)
        self.net = nets.build(self.spec, self.dtype)
        self.shapes = {l: {} for l in self.net.layers}
        for l, ps in nets.param_shapes(self.net).items():
            self.shapes[l].update(ps)
        self.install()

    def install(self):
        rng, ctx = self.rng, self.ctx
        self.mods = random_spec(rng, self.shapes, self.gradient)
        keep = frozen(self.mods)
        f = self.net.set_gradient_modifiers if self.gradient else self.net.set_weight_modifiers
        if self.valid():
            call(f, self.mods, rng)
        else:
            from brainstorm.utils import NetworkValidationError
            ctx.raises((NetworkValidationError,), lambda: call(f, self.mods, rng), 'unmatched', str(self.mods))
            self.mods = {}
            f({})
            keep = frozen(self.mods)
        ctx.check(frozen(self.mods) == keep, 'specification-changed', 'installing changed the specification')
        self.keep = keep
        self.refs = {}
        for l in self.shapes:
            for n in self.shapes[l]:
                ms, k = chosen(self.mods, l, n)
                self.refs[l, n] = [Ref(m) for m in ms]
                if k > 1:
                    ctx.count('overlaps')

    def valid(self):
        for p, v in self.mods.items():
            if p in ('default', 'fallback'):
                continue
            ls = [l for l in self.shapes if matches(p, l)]
            if not ls:
                return False
            if isinstance(v, dict):
                for l in ls:
                    for q in v:
                        if q not in ('default', 'fallback') and not any(matches(q, n) for n in self.shapes[l]):
                            return False
        return True

    def read(self, part='parameters'):
        return {(l, n): self.net.get('%s.%s.%s' % (l, part, n)) for l in self.shapes for n in self.shapes[l]}

    def compare(self, before, after, params=None, what=''):
        """before/after: {(layer, view): array}"""
        ctx = self.ctx
        tol = 1e-9 if self.dtype == np.float64 else 2e-5
        for key in sorted(before):
            b = before[key].astype(np.float64)
            a = after[key]
            want, maybe = b, np.zeros(b.shape, bool)
            for r in self.refs[key]:
                want, mb = r(want, None if params is None else params[key].astype(np.float64))
                maybe |= mb
            w = '%s: %s.%s with %s' % (what, key[0], key[1], [r.name for r in self.refs[key]])
            if not self.refs[key]:
                ctx.same(a, before[key], 'untouched', w)
                ctx.count('views_untouched')
                continue
            ctx.count('views_modified')
            ctx.close(a, want, 'effect', w, rtol=tol, atol=tol * (1 + np.abs(want).max(initial=0)))
            keep = (want == b) & ~maybe
            ctx.count('entries_kept', keep.sum())
            ctx.same(a[keep], before[key][keep], 'kept-entries', w)
            if any(r.name == 'FreezeValues' for r in self.refs[key]):
                ctx.count('frozen_checks')
        ctx.check(frozen(self.mods) == self.keep, 'specification-changed', '%s: the modifiers given were changed', what)

    def scramble(self):
        rng = self.rng
        s = float([.05, .5, 3.][rng.randint(3)])
        p = nets.random_params(self.spec, self.net, rng, scale=s)
        for l in p:
            for n in p[l]:
                if rng.rand() < .2:
                    p[l][n] = p[l][n] * 0
        nets.set_params(self.net, p)


def call(f, spec, rng):
    r = rng.rand()
    if set(spec) == {'default'} and r < .3:
        f(spec['default'])
    elif r < .6:
        f(spec)
    else:
        f(**spec)


def case_weights(ctx):
    rng = ctx.rng
    s = Setup(ctx, False)
    for _ in range(int(rng.randint(2, 6))):
        r = rng.rand()
        if r < .1:
            s.install()
        elif r < .15:
            s.net.set_weight_modifiers({})
            s.mods = {}
            s.keep = frozen(s.mods)
            s.refs = {k: [] for k in s.refs}
        s.scramble()
        before = s.read()
        g = s.net.get('gradients') if rng.rand() < .3 else None
        s.net.apply_weight_modifiers()
        ctx.count('applications')
        s.compare(before, s.read(), what='weights')
        if g is not None:
            ctx.same(s.net.get('gradients'), g, 'gradients-touched', 'weight modifiers changed gradients')
    ctx.distinct(nets.signature(s.spec), shape_of(s.mods))
    ctx.sample = {'mods': shape_of(s.mods), 'net': nets.brief(s.spec)}


def shape_of(spec):
    if isinstance(spec, dict):
        return '{%s}' % ', '.join('%s: %s' % (k, shape_of(v)) for k, v in spec.items())
    if isinstance(spec, (list, tuple)):
        return '[%s]' % ', '.join(type(m).__name__ for m in spec)
    return type(spec).__name__


def case_gradients(ctx):
    """after every backward pass; the twin without modifiers gives the plain gradient"""
    rng = ctx.rng
    s = Setup(ctx, True)
    twin = nets.build(s.spec, s.dtype)
    for i in range(3):
        s.scramble()
        twin.buffer.parameters[:] = s.net.get('parameters')
        d = nets.make_data(s.spec, rng, int(rng.randint(1, 3)), int(rng.randint(1, 4)), dtype=s.dtype)
        for n in (s.net, twin):
            n.provide_external_data({k: v.copy() for k, v in d.items()})
            n.handler.rnd.set_seed(i)
            n.forward_pass(training_pass=True)
            n.backward_pass()
        plain = {(l, n): twin.get('%s.gradients.%s' % (l, n)) for l in s.shapes for n in s.shapes[l]}
        params = s.read()
        if not all(np.all(np.isfinite(v)) for v in plain.values()):
            continue
        s.compare(plain, s.read('gradients'), params, 'gradients')
        ctx.same(s.net.get('parameters'), twin.get('parameters'), 'parameters-touched', 'gradient modifiers changed weights')
        ctx.count('gradient_applications')
        # all other results are not influenced
        for l in s.net.layers:
            if 'input_deltas' in s.net.buffer[l]:
                for n, v in s.net.buffer[l].input_deltas.items():
                    ctx.same(np.array(v), np.array(twin.buffer[l].input_deltas[n]), 'deltas-touched', l)
    ctx.distinct('g', nets.signature(s.spec), shape_of(s.mods))


def case_training(ctx):
    """weight and gradient modifiers during training by the trainer"""
    from brainstorm import Trainer
    from brainstorm.hooks import Hook, StopAfterEpoch
    from brainstorm.training import SgdStepper
    from brainstorm.data_iterators import Minibatches
    rng = ctx.rng
    s = Setup(ctx, False, np.float64, nets.random_spec(rng, menu={'BatchNorm': 0, 'Dropout': 0}, max_layers=3))
    s.scramble()
    lr = .05
    twin = nets.build(s.spec, s.dtype)
    twin.buffer.parameters[:] = s.net.get('parameters')
    n = int(rng.randint(1, 5))
    data = nets.make_data(s.spec, rng, 2, n)
    bs = int(rng.randint(1, n + 1))
    state = {'u': 0}

    class Watch(Hook):
        def __call__(self, epoch_nr, update_nr, net, stepper, logs):
            if update_nr == 0:
                ctx.same(net.get('parameters'), twin.get('parameters'), 'before-training', 'changed before the first update')
                return
            ctx.count('training_updates')
            i = state['u'] * bs
            state['u'] = 0 if i + bs >= n else state['u'] + 1
            twin.provide_external_data({k: v[:, i:i + bs].copy() for k, v in data.items()})
            twin.forward_pass(training_pass=True)
            twin.backward_pass()
            twin.buffer.parameters[:] -= lr * twin.get('gradients')
            before = {(l, v): twin.get('%s.parameters.%s' % (l, v)) for l in s.shapes for v in s.shapes[l]}
            after = s.read()
            if not all(np.all(np.isfinite(x)) and np.abs(x).max(initial=0) < 1e4 for x in before.values()):
                raise StopIteration()
            tol = 1e-8
            for key in before:
                want = before[key]
                for r in s.refs[key]:
                    want, _ = r(want)
                ctx.close(after[key], want, 'training', 'update %d: %s with %s' % (update_nr, key, [r.name for r in s.refs[key]]),
                          rtol=tol, atol=tol * (1 + np.abs(want).max(initial=0)))
            twin.buffer.parameters[:] = net.get('parameters')
    tr = Trainer(SgdStepper(lr), verbose=False)
    tr.add_hook(Watch(timescale='update'))
    tr.add_hook(StopAfterEpoch(3))
    tr.train(s.net, Minibatches(bs, shuffle=False, **data))
    ctx.check(frozen(s.mods) == s.keep, 'specification-changed', 'training changed the modifiers given')
    ctx.distinct('t', nets.signature(s.spec), shape_of(s.mods), bs, n)


def case_handlers(ctx):
    """the same modifiers across a change of the compute backend, and with the debug handler"""
    from brainstorm.handlers import NumpyHandler, DebugHandler
    rng = ctx.rng
    s = Setup(ctx, False, np.float64)
    for i in range(4):
        if i == 1 or rng.rand() < .4:
            h = NumpyHandler(np.float64)
            s.net.set_handler(DebugHandler(h) if rng.rand() < .6 else h)
        s.scramble()
        before = s.read()
        s.net.apply_weight_modifiers()
        ctx.count('applications')
        s.compare(before, s.read(), what='weights under %s' % type(s.net.handler).__name__)
    ctx.distinct('h', nets.signature(s.spec), shape_of(s.mods))


def case_reject(ctx):
    from brainstorm import value_modifiers as V
    from brainstorm.utils import NetworkValidationError
    rng = ctx.rng
    spec = nets.random_spec(rng, max_layers=3)
    net = nets.build(spec)
    while not nets.param_shapes(net):
        spec = nets.random_spec(rng, max_layers=3)
        net = nets.build(spec)
    shapes = nets.param_shapes(net)
    l = sorted(shapes)[0]
    n = sorted(shapes[l])[0]
    for f in (net.set_weight_modifiers, net.set_gradient_modifiers):
        ctx.raises((NetworkValidationError,), lambda: f({l + 'x': V.ClipValues()}), 'unmatched', 'unknown layer')
        ctx.raises((NetworkValidationError,), lambda: f({l: {n + 'x': V.ClipValues()}}), 'unmatched', 'unknown parameter')
        ctx.raises((AssertionError,), lambda: f({l: V.ClipValues(), 'fallback': V.ClipValues()}), 'fallback', 'fallback given')
    # rejected installations leave the network usable
    net.set_weight_modifiers({l: {n: V.FreezeValues()}})
    a = rng.randn(*shapes[l][n])
    net.handler.set_from_numpy(net.buffer[l].parameters[n], a)
    net.apply_weight_modifiers()
    net.handler.fill(net.buffer[l].parameters[n], 0.)
    net.apply_weight_modifiers()
    ctx.same(net.get('%s.parameters.%s' % (l, n)), a, 'effect', 'FreezeValues after rejected installations')
    ctx.count('frozen_checks')
    ctx.distinct('reject', nets.signature(spec))
