"""C27: layers written by users.

Probe layers are real subclasses of the documented Layer interface, generated with random
inputs, outputs, parameters and internal buffers of all three sizes (constant, per sequence,
per time step), with context rows and backward-only buffers, and wired into random networks.
Each probe is the monitor: it is called by the real network, compares the buffers it is handed
with the declared shapes and with what the other probes wrote, and writes fresh tokens."""
import copy
import itertools
import os
import shutil
import tempfile
from collections import OrderedDict

import numpy as np

from vlib import env

TECHNIQUE = 'runtime monitor: generated user-written layers that observe and token-stamp their buffers'
LEVEL_NOTE = ('Random user-written layers (all buffer sizes, contexts, backward-only buffers) in random '
              'networks, observed from inside over several passes, sizes, states and handlers; plus '
              'networks of differentiable user-written and shipped layers against numeric derivatives.')
RULE = ('random sets of layer classes and random wirings of them; every call, shape and content the '
        'network hands to a layer is compared with the declared structure and with what the connected '
        'layers wrote. Distinct: declared structure and wiring.')
ASSUMPTIONS = ['layers follow the documented interface: add to input_deltas and gradients, write '
               'outputs, keep nothing in buffers beyond one forward/backward pair except the context',
               'several connections are joined at one input only for one-dimensional features (see C05)',
               'a wiring refused with a validation error counts as not valid only when outputs are '
               'joined in several ways']
MIN_COUNTERS = {'backward_runs': 5000,
                 'context_rows': 20000,
                 'continued': 200,
                 'continued_runs': 2000,
                 'delta_reads': 60000,
                 'derivatives': 10000,
                 'forward_runs': 8000,
                 'joined_inputs': 4000,
                 'losses_of_size_0': 90,
                 'losses_of_size_1': 200,
                 'losses_of_size_2': 600,
                 'matches_False': 7000,
                 'matches_True': 3000,
                 'networks_trained': 300,
                 'probe_calls': 40000,
                 'refusals': 400,
                 'rejections_seen': 70000,
                 'uses_VDelay': 200,
                 'uses_VGain': 100,
                 'uses_VRepeat': 100,
                 'uses_VSumTime': 100,
                 'uses_VTap': 100,
                 'uses_internal': 100,
                 'uses_parameter': 80}


def families(tier):
    k = 4 if tier == 'quick' else 100
    return [('probe', 1000 * k), ('context', 300 * k), ('gradient', 300 * k), ('use', 100 * k),
            ('reject', 300 * k), ('template', 300 * k)]


uid = itertools.count()


def pick(rng, seq):
    return seq[rng.randint(len(seq))]


def struct(s):
    from brainstorm.structure.buffer_structure import BufferStructure
    kw = {}
    if s.get('ctx'):
        kw['context_size'] = s['ctx']
    if s.get('back'):
        kw['is_backward_only'] = True
    return BufferStructure(*s['shape'], **kw)


def full(s, T, B, context=True):
    """Array shape of a declared structure."""
    sh = s['shape']
    if sh[:2] == ('T', 'B'):
        return (T + (s.get('ctx', 0) if context else 0), B) + sh[2:]
    if sh[:1] == ('B',):
        return (B,) + sh[1:]
    return sh


def kind(s):
    return 2 if 'T' in s['shape'] else 1 if 'B' in s['shape'] else 0


def feat(rng, one=False):
    return tuple(int(rng.randint(1, 4)) for _ in range(1 if one or rng.rand() < .6 else rng.randint(2, 4)))


def random_struct(rng, kinds=(2, 2, 2, 1, 0), ctx=True, one=False, maxctx=3):
    k = pick(rng, kinds)
    s = {'shape': ('T', 'B')[2 - k:] + feat(rng, one) if k else feat(rng, one)}
    if k == 2 and ctx and rng.rand() < .4:
        s['ctx'] = int(rng.randint(1, maxctx + 1))
    return s


def random_plan(rng, maxctx=3):
    """A random network of probe layers: inputs, layers with declared buffers, and wiring."""
    plan = {'inputs': OrderedDict(), 'layers': OrderedDict()}
    for i in range(rng.randint(1, 4)):
        plan['inputs']['in%d' % i] = {'shape': ('T', 'B') + feat(rng)}
    sources = [(('Input', n), s) for n, s in plan['inputs'].items()]
    used_multi = False
    for i in range(rng.randint(1, 6)):
        L = {'inputs': OrderedDict(), 'outputs': OrderedDict(), 'parameters': OrderedDict(),
             'internals': OrderedDict(), 'from': OrderedDict()}
        name = pick(rng, ['L%d', 'probe_%d', 'a%d', 'Z%d']) % i
        for j in range(rng.randint(1, 4)):
            n = 'default' if j == 0 and rng.rand() < .5 else pick(rng, ['x%d', 'in_%d', 'Q%d']) % j
            (src, s) = pick(rng, sources)
            group = [(src, s)]
            if len(s['shape']) == kind(s) + 1 and kind(s) and rng.rand() < .3:
                more = [(c, t) for c, t in sources if c != src and kind(t) == kind(s) and
                        len(t['shape']) == kind(t) + 1]
                rng.shuffle(more)
                group += more[:rng.randint(1, 3)]
                used_multi = used_multi or len(group) > 1
            L['inputs'][n] = group
        for j in range(rng.randint(1, 4)):
            n = 'default' if j == 0 and rng.rand() < .5 else pick(rng, ['y%d', 'out_%d', 'B%d']) % j
            L['outputs'][n] = random_struct(rng, maxctx=maxctx)
        for j in range(rng.randint(0, 4)):
            L['parameters'][pick(rng, ['W%d', 'b%d', 'A_%d']) % j] = {'shape': feat(rng)}
        for j in range(rng.randint(0, 4)):
            n = pick(rng, ['H%d', 'a%d', 's_%d']) % j
            s = random_struct(rng, maxctx=maxctx)
            if rng.rand() < .3:
                L['internals']['back%d' % j] = dict(s, back=True)
            else:
                L['internals'][n] = s
                if rng.rand() < .6:
                    L['internals']['d' + n] = dict(s, back=True)
        plan['layers'][name] = L
        sources += [((name, n), s) for n, s in L['outputs'].items()]
        if rng.rand() < .3:
            sources += [((name, '..parameters.' + n), s) for n, s in L['parameters'].items()]
        if rng.rand() < .5:
            sources += [((name, '..internals.' + n), s) for n, s in L['internals'].items()
                        if 'd' + n in L['internals'] and not s.get('back')]
    plan['joined'] = used_multi
    return plan


def reachable(plan):
    """Layers connected to Input (others would make an invalid network)."""
    adj = {n: set() for n in ['Input'] + list(plan['layers'])}
    for n, L in plan['layers'].items():
        for group in L['inputs'].values():
            for (src, _), _ in group:
                adj[n].add(src)
                adj[src].add(n)
    seen, todo = {'Input'}, ['Input']
    while todo:
        for m in adj[todo.pop()]:
            if m not in seen:
                seen.add(m)
                todo.append(m)
    return seen


def template(rng, group):
    """A template that accepts the joined sources."""
    s = group[0][1]
    k = kind(s)
    head = ('T', 'B')[2 - k:] if k else ()
    n = len(s['shape']) - k
    r = rng.rand()
    if r < .3:
        return ('...',)
    if r < .6:
        return head + ('...',)
    if r < .9:
        return head + ('F',) * n
    if len(group) == 1:
        return head + tuple(s['shape'][k:])
    return head + (int(sum(t['shape'][-1] for _, t in group)),)


class Board(object):
    """What the probes know about each other: contents of all buffers as last written."""

    def __init__(self, ctx, plan):
        self.ctx, self.plan = ctx, plan
        self.val, self.acc, self.state = {}, {}, {}
        self.events = []
        self.T = self.B = 0
        self.train = None
        self.rng = np.random.RandomState(ctx.seed ^ 0x5a5a)
        self.handler = None
        self.joined = {}

    def larger(self, where):
        """Is this buffer joined (directly or over others) with one of a larger context?"""
        if where not in self.joined:
            group, grown = {where}, True
            sizes = {}
            while grown:
                grown = False
                for L in self.plan['layers'].values():
                    for g in L['inputs'].values():
                        ks = {key(*src): s.get('ctx', 0) for src, s in g}
                        sizes.update(ks)
                        if group & set(ks) and not set(ks) <= group:
                            group |= set(ks)
                            grown = True
            self.joined[where] = max(sizes.get(k, 0) for k in group) > sizes.get(where, 10 ** 6)
        return self.joined[where]

    def token(self, shape, dtype):
        # multiples of 1/8 of moderate size: sums are exact in single precision
        return (self.rng.randint(-4000, 4000, shape) / 8.).astype(dtype)


def key(src, out):
    if out.startswith('..'):
        cat, n = out[2:].split('.', 1)
        return (src, cat, n)
    return (src, 'outputs', out)


def probe_class(board, name, L, rng):
    """A layer class as a user would write it."""
    from brainstorm.layers.base_layer import Layer
    from brainstorm.structure.buffer_structure import StructureTemplate
    cls_name = 'Probe%dx%d' % (os.getpid(), next(uid))
    templates = {n: StructureTemplate(*template(rng, g)) for n, g in L['inputs'].items()}
    order = OrderedDict((n, struct(s)) for n, s in L['outputs'].items())

    def setup(self, kwargs, in_shapes):
        c = board.ctx
        c.check(kwargs == {'token': name}, 'layer-settings', '%s was set up with %r', name, kwargs)
        for n, g in L['inputs'].items():
            want = joined_shape(g)
            c.check(tuple(in_shapes[n].shape) == want, 'declared-input-shape', '%s.%s: told %s, sources have %s',
                    name, n, in_shapes[n].shape, want)
        c.check(list(in_shapes) == sorted(L['inputs']), 'input-names', '%s: %s', name, list(in_shapes))
        return (order, OrderedDict((n, struct(s)) for n, s in L['parameters'].items()),
                OrderedDict((n, struct(s)) for n, s in L['internals'].items()))

    def shapes(self, b):
        c, T, B = board.ctx, board.T, board.B
        for cat, decl in (('outputs', L['outputs']), ('output_deltas', L['outputs']), ('parameters', L['parameters']),
                          ('gradients', L['parameters']), ('internals', L['internals'])):
            got = OrderedDict((n, tuple(a.shape)) for n, a in b[cat].items()) if cat in b else OrderedDict()
            want = OrderedDict((n, full(s, T, B)) for n, s in decl.items())
            c.check(list(got.items()) == list(want.items()), 'buffer-shapes', '%s.%s: %s, declared %s at T=%d B=%d',
                    name, cat, dict(got), dict(want), T, B)
        for cat in ('inputs', 'input_deltas'):
            got = {n: tuple(a.shape) for n, a in b[cat].items()}
            want = {n: full({'shape': joined_shape(g)}, T, B) for n, g in L['inputs'].items()}
            c.check(got == want, 'buffer-shapes', '%s.%s: %s, declared %s', name, cat, got, want)
        c.check(self.handler is board.handler, 'layer-handler', '%s works with another handler than the network', name)
        c.count('probe_calls')

    def context_rows(a, s, where):
        """The rows behind the last step hold the state this run was started from."""
        if s.get('ctx'):
            want = board.state.get(where)
            if want is None:
                want = np.zeros((s['ctx'],) + a.shape[1:], a.dtype)
            # a known defect: outputs joined with others of a larger context get outdated rows
            k = 'context-rows-joined-with-larger-context' if board.larger(where) else 'context-rows'
            board.ctx.same(np.array(a[board.T:]), want, k, 'state rows of %s.%s.%s' % where)
            board.ctx.count('context_rows')

    def forward_pass(self, buffers, training_pass=True):
        c = board.ctx
        board.events.append(('forward', name, training_pass))
        shapes(self, buffers)
        for n, g in L['inputs'].items():
            want = np.concatenate([board.val[key(*src)][:board.T] if kind(s) == 2 else board.val[key(*src)]
                                   for src, s in g], -1)
            got = np.array(buffers.inputs[n])
            if len(g) > 1:
                # several sources: any order of the whole blocks
                got_ok = any(np.array_equal(got, np.concatenate([
                    board.val[key(*src)][:board.T] if kind(s) == 2 else board.val[key(*src)]
                    for src, s in p], -1)) for p in itertools.permutations(g))
                c.check(got_ok, 'input-content', '%s.%s is no concatenation of %s', name, n, [src for src, _ in g])
                c.count('joined_inputs')
            else:
                c.same(got, want, 'input-content', '%s.%s' % (name, n))
        for n in L['parameters']:
            c.same(np.array(buffers.parameters[n]), board.val[(name, 'parameters', n)], 'parameter-content',
                   '%s.%s in the forward pass' % (name, n))
        for cat, decl in (('outputs', L['outputs']), ('internals', L['internals'])):
            for n, s in decl.items():
                a = buffers[cat][n]
                if s.get('back'):
                    continue
                context_rows(a, s, (name, cat, n))
                rows = a[:board.T] if kind(s) == 2 else a
                rows[...] = board.token(rows.shape, rows.dtype)
                board.val[(name, cat, n)] = np.array(a)

    def intact(buffers, when):
        c = board.ctx
        for cat, decl in (('outputs', L['outputs']), ('internals', L['internals']), ('parameters', L['parameters'])):
            for n, s in decl.items():
                if not s.get('back'):
                    c.same(np.array(buffers[cat][n]), board.val[(name, cat, n)], 'overwritten',
                           '%s.%s.%s %s' % (name, cat, n, when))

    def delta_key(src, out):
        s, cat, n = key(src, out)
        return (s, {'outputs': 'output_deltas', 'parameters': 'gradients', 'internals': 'internals'}[cat],
                'd' + n if cat == 'internals' else n)

    def expected(k, shape, dtype):
        if k not in board.acc:
            board.acc[k] = np.zeros(shape, dtype)
        return board.acc[k]

    def backward_pass(self, buffers):
        c, T = board.ctx, board.T
        board.events.append(('backward', name))
        shapes(self, buffers)
        intact(buffers, 'at its backward pass')
        for cat, decl in (('output_deltas', L['outputs']), ('gradients', L['parameters']), ('internals', L['internals'])):
            for n, s in decl.items():
                if cat == 'internals' and not s.get('back'):
                    continue
                a = buffers[cat][n]
                c.same(np.array(a), expected((name, cat, n), a.shape, a.dtype), 'delta-content',
                       '%s.%s.%s when its backward pass starts' % (name, cat, n))
                c.count('delta_reads')
        for n, g in L['inputs'].items():
            d = buffers.input_deltas[n]
            ks = [delta_key(*src) for src, _ in g]
            before = [np.array(expected(k, full(s, T, board.B), d.dtype)) for k, (_, s) in zip(ks, g)]
            cuts = [b[:T] if kind(s) == 2 else b for b, (_, s) in zip(before, g)]
            if len(g) == 1:
                c.same(np.array(d), cuts[0], 'input-delta-content', '%s.%s before adding to it' % (name, n))
                perm = (0,)
            else:
                # the order of the blocks is the one the forward pass showed
                vals = [board.val[key(*src)][:T] if kind(s) == 2 else board.val[key(*src)] for src, s in g]
                got = np.array(buffers.inputs[n])
                perms = [p for p in itertools.permutations(range(len(g)))
                         if np.array_equal(got, np.concatenate([vals[i] for i in p], -1))]
                if not perms:
                    c.violate('input-content', '%s.%s in the backward pass' % (name, n))
                    return
                c.check(any(np.array_equal(np.array(d), np.concatenate([cuts[i] for i in p], -1)) for p in perms),
                        'input-delta-content', '%s.%s (joined) before adding to it', name, n)
                perm = perms[0]
            t = board.token(d.shape, d.dtype)
            d += t
            at = 0
            for i in perm:
                w = cuts[i].shape[-1]
                k = ks[i]
                tgt = board.acc[k]
                if kind(g[i][1]) == 2:
                    tgt[:T] += t[..., at:at + w]
                else:
                    tgt += t[..., at:at + w]
                at += w
        for n in L['parameters']:
            a = buffers.gradients[n]
            t = board.token(a.shape, a.dtype)
            a += t
            board.acc[(name, 'gradients', n)] = board.acc[(name, 'gradients', n)] + t
        for n, s in L['internals'].items():
            if s.get('back'):
                a = buffers.internals[n]
                rows = a[:T] if kind(s) == 2 else a
                rows[...] = board.token(rows.shape, rows.dtype)
                board.acc[(name, 'internals', n)] = np.array(a)

    cls = type(cls_name + 'LayerImpl', (Layer,), {
        'expected_inputs': templates, 'expected_kwargs': {'token'}, 'setup': setup,
        'forward_pass': forward_pass, 'backward_pass': backward_pass})
    return cls_name, cls, intact


def joined_shape(g):
    s = g[0][1]['shape']
    return tuple(s[:-1]) + (int(sum(t['shape'][-1] for _, t in g)),)


def build(ctx, plan):
    """Real network for a plan; returns (net, board, keepalive) or None when it is refused."""
    from brainstorm.structure.network import Network
    board = Board(ctx, plan)
    arch = {'Input': {'@type': 'Input', 'out_shapes': {n: s['shape'] for n, s in plan['inputs'].items()},
                      '@outgoing_connections': {}}}
    keep = {}
    for name, L in plan['layers'].items():
        cn, cls, intact = probe_class(board, name, L, ctx.rng)
        keep[name] = (cls, intact)
        arch[name] = {'@type': cn, 'token': name, '@outgoing_connections': {}}
    for name, L in plan['layers'].items():
        for n, g in L['inputs'].items():
            for (src, out), _ in g:
                end = name if n == 'default' and ctx.rng.rand() < .5 else name + '.' + n
                arch[src]['@outgoing_connections'].setdefault(out, []).append(end)
    items = list(arch.items())
    ctx.rng.shuffle(items)
    from brainstorm.utils import NetworkValidationError
    try:
        net = Network.from_architecture(dict(items))
    except NetworkValidationError as e:
        if plan['joined'] and 'lay out' in str(e):
            ctx.count('refused_layouts')
            return None
        raise
    return net, board, keep


def deps(plan):
    return {n: {src for g in L['inputs'].values() for (src, _), _ in g if src != 'Input'}
            for n, L in plan['layers'].items()}


def set_handler(ctx, net, board):
    from brainstorm.handlers import NumpyHandler, DebugHandler
    h = NumpyHandler(np.dtype(pick(ctx.rng, ['float32', 'float64'])))
    board.handler = h
    net.set_handler(h)
    return h


def init(ctx, net, board, plan, h):
    """Unique values for every parameter, through the layers' own views."""
    for name, L in plan['layers'].items():
        for n, s in L['parameters'].items():
            v = board.token(s['shape'], h.dtype)
            net.handler.set_from_numpy(net.buffer[name].parameters[n], v)
            board.val[(name, 'parameters', n)] = v
    total = sum(int(np.prod(s['shape'])) for L in plan['layers'].values() for s in L['parameters'].values())
    ctx.check(net.buffer.parameters.shape == (total,), 'parameter-count', '%s parameters, %d declared',
              net.buffer.parameters.shape, total)
    vec = np.sort(net.get('parameters'))
    want = np.sort(np.concatenate([board.val[(a, 'parameters', n)].ravel() for a, L in plan['layers'].items()
                                   for n in L['parameters']] + [np.zeros(0, h.dtype)]))
    ctx.same(vec, want.astype(vec.dtype), 'parameter-vector', 'the parameter vector and the layers\' parameters')


def one_run(ctx, net, board, plan, keep, T, B, state=None, train=True, backward=True):
    board.T, board.B, board.events = T, B, []
    data = {}
    for n, s in plan['inputs'].items():
        v = board.token((T, B) + s['shape'][2:], net.handler.dtype)
        data[n] = v
        board.val[('Input', 'outputs', n)] = v
    board.state = state[1] if state else {}
    net.provide_external_data(data)
    net.forward_pass(training_pass=train, context=state[0] if state else None)
    fw = [e[1] for e in board.events]
    d = deps(plan)
    ctx.check(sorted(fw) == sorted(plan['layers']), 'called-once', 'forward pass called %s', fw)
    ctx.check(all(fw.index(x) < fw.index(n) for n in fw for x in d[n] if x in fw), 'call-order',
              'forward pass called %s with dependencies %s', fw, d)
    ctx.check(all(e[2] is train for e in board.events), 'training-flag', 'training_pass=%s given, layers saw %s', train,
              [e[2] for e in board.events])
    for name, (cls, intact) in keep.items():
        intact(net.buffer[name], 'after the forward pass')
    for n, v in data.items():
        ctx.same(net.get('Input.outputs.' + n), v, 'overwritten', 'input data %s' % n)
    for (name, cat, n), v in board.val.items():
        if name != 'Input' and cat != 'parameters' and ctx.rng.rand() < .3:
            ctx.same(net.get('%s.%s.%s' % (name, cat, n)), v, 'reported-buffer', '%s.%s.%s' % (name, cat, n))
    # the state for a following run: the last rows of every buffer that declares context
    held = dict(board.state)
    new = {}
    for name, L in plan['layers'].items():
        for cat in ('outputs', 'internals'):
            for n, s in L[cat].items():
                if s.get('ctx') and not s.get('back'):
                    a = board.val[(name, cat, n)]
                    past = held.get((name, cat, n))
                    if past is None:
                        past = np.zeros((s['ctx'],) + a.shape[1:], a.dtype)
                    new[(name, cat, n)] = np.concatenate([past, a[:T]])[-s['ctx']:]
    nxt = (net.get_context(), new)
    if backward:
        board.acc = {}
        board.events = []
        net.backward_pass()
        bw = [e[1] for e in board.events]
        ctx.check(sorted(bw) == sorted(plan['layers']), 'called-once', 'backward pass called %s', bw)
        ctx.check(all(bw.index(x) > bw.index(n) for n in bw for x in d[n] if x in bw), 'call-order',
                  'backward pass called %s with dependencies %s', bw, d)
        for (name, cat, n), v in board.acc.items():
            ctx.same(net.get('%s.%s.%s' % (name, cat, n)), v, 'delta-result', '%s.%s.%s after the backward pass' % (name, cat, n))
        vec = np.sort(net.get('gradients'))
        want = [board.acc[(a, 'gradients', n)].ravel() for a, L in plan['layers'].items() for n in L['parameters']]
        ctx.same(vec, np.sort(np.concatenate(want + [np.zeros(0, vec.dtype)])).astype(vec.dtype), 'gradient-vector',
                 'the gradient vector and the layers\' gradients')
        for name, (cls, intact) in keep.items():
            intact(net.buffer[name], 'after the backward pass')
        ctx.count('backward_runs')
    ctx.count('forward_runs')
    return nxt


def usable(rng, maxctx=3):
    while True:
        plan = random_plan(rng, maxctx)
        if len(reachable(plan)) == len(plan['layers']) + 1 and all(
                any(src == 'Input' for (src, _), _ in g) or True for L in plan['layers'].values()
                for g in L['inputs'].values()):
            return plan


def brief(plan):
    return {n: {'in': {k: [list(src) for src, _ in g] for k, g in L['inputs'].items()},
                'out': {k: str(s) for k, s in L['outputs'].items()},
                'par': {k: str(s['shape']) for k, s in L['parameters'].items()},
                'int': {k: str(s) for k, s in L['internals'].items()}} for n, L in plan['layers'].items()}


def signature(plan):
    return sorted((sorted(tuple(kind(s) for _, s in g) for g in L['inputs'].values()),
                   [(kind(s), s.get('ctx', 0)) for s in L['outputs'].values()], len(L['parameters']),
                   [(kind(s), s.get('ctx', 0), bool(s.get('back'))) for s in L['internals'].values()])
                  for L in plan['layers'].values())


def probe(ctx):
    rng = ctx.rng
    plan = usable(rng)
    got = build(ctx, plan)
    if got is None:
        ctx.count('monitor_checks')
        return
    net, board, keep = got
    h = set_handler(ctx, net, board)
    init(ctx, net, board, plan, h)
    ctx.sample = brief(plan)
    ctx.distinct(signature(plan))
    state = None
    for k in range(rng.randint(2, 6)):
        T, B = int(rng.randint(1, 6)), int(rng.randint(1, 5))
        if state is not None and rng.rand() < .6:
            B = lastB
        else:
            state = None
        nxt = one_run(ctx, net, board, plan, keep, T, B, state, bool(rng.rand() < .6), rng.rand() < .7)
        state, lastB = nxt, B
        if rng.rand() < .15:
            h2 = set_handler(ctx, net, board)
            state = None
            for q in list(board.val):
                if q[1] == 'parameters':
                    board.val[q] = board.val[q].astype(h2.dtype)


def context(ctx):
    """Long chains of runs continued from state to state, lengths also below the context size."""
    rng = ctx.rng
    while True:
        plan = usable(rng, 4)
        if any(s.get('ctx') for L in plan['layers'].values() for s in list(L['outputs'].values())):
            break
    got = build(ctx, plan)
    if got is None:
        ctx.count('monitor_checks')
        return
    net, board, keep = got
    h = set_handler(ctx, net, board)
    init(ctx, net, board, plan, h)
    B = int(rng.randint(1, 4))
    state = None
    saved = []
    for k in range(rng.randint(3, 9)):
        state = one_run(ctx, net, board, plan, keep, int(rng.randint(1, 7)), B, state, True, rng.rand() < .3)
        saved.append(state)
        if rng.rand() < .2:
            state = pick(rng, saved)
        elif rng.rand() < .1:
            state = None
        ctx.count('continued_runs')
    ctx.distinct('context', signature(plan))


# ------------------------------------------------------- differentiable user layers

def user_layers():
    """Layers as in examples/custom_layer.py; defined once per process."""
    if 'done' in USER:
        return USER
    from brainstorm.layers.base_layer import Layer
    from brainstorm.layers.fully_connected_layer import FullyConnectedLayerImpl
    from brainstorm.structure.buffer_structure import BufferStructure as S, StructureTemplate as Tm
    from brainstorm.utils import flatten_time, flatten_time_and_features

    class VSquareLayerImpl(Layer):
        expected_inputs = {'default': Tm('...')}
        expected_kwargs = {}

        def setup(self, kwargs, in_shapes):
            return in_shapes, OrderedDict(), OrderedDict()

        def forward_pass(self, buffers, training_pass=True):
            self.handler.mult_tt(buffers.inputs.default, buffers.inputs.default, buffers.outputs.default)
            self.handler.mult_st(0.5, buffers.outputs.default, buffers.outputs.default)

        def backward_pass(self, buffers):
            self.handler.mult_add_tt(buffers.inputs.default, buffers.output_deltas.default, buffers.input_deltas.default)

    class VGainLayerImpl(Layer):
        expected_inputs = {'default': Tm('T', 'B', '...')}
        expected_kwargs = {'shift'}

        def setup(self, kwargs, in_shapes):
            f = in_shapes['default'].feature_shape
            return (OrderedDict([('default', S('T', 'B', *f))]), OrderedDict([('gain', S(*f)), ('off', S(*f))]),
                    OrderedDict())

        def forward_pass(self, buffers, training_pass=True):
            buffers.outputs.default[...] = (buffers.inputs.default * buffers.parameters.gain + buffers.parameters.off +
                                            self.kwargs.get('shift', 0.))

        def backward_pass(self, buffers):
            d = buffers.output_deltas.default
            buffers.input_deltas.default[...] += d * buffers.parameters.gain
            buffers.gradients.gain[...] += (d * buffers.inputs.default).sum((0, 1))
            buffers.gradients.off[...] += d.sum((0, 1))

    class VSumTimeLayerImpl(Layer):
        expected_inputs = {'default': Tm('T', 'B', 'F')}
        expected_kwargs = {}

        def setup(self, kwargs, in_shapes):
            f = in_shapes['default'].feature_shape
            return OrderedDict([('total', S('B', *f))]), OrderedDict(), OrderedDict()

        def forward_pass(self, buffers, training_pass=True):
            buffers.outputs.total[...] = buffers.inputs.default.sum(0)

        def backward_pass(self, buffers):
            buffers.input_deltas.default[...] += buffers.output_deltas.total

    class VRepeatLayerImpl(Layer):
        expected_inputs = {'default': Tm('T', 'B', 'F'), 'per_sequence': Tm('B', 'F')}
        expected_kwargs = {}

        def setup(self, kwargs, in_shapes):
            n, m = in_shapes['default'].feature_size, in_shapes['per_sequence'].feature_size
            return OrderedDict([('default', S('T', 'B', n + m))]), OrderedDict(), OrderedDict()

        def forward_pass(self, buffers, training_pass=True):
            n = buffers.inputs.default.shape[2]
            buffers.outputs.default[..., :n] = buffers.inputs.default
            buffers.outputs.default[..., n:] = buffers.inputs.per_sequence

        def backward_pass(self, buffers):
            n = buffers.inputs.default.shape[2]
            buffers.input_deltas.default[...] += buffers.output_deltas.default[..., :n]
            buffers.input_deltas.per_sequence[...] += buffers.output_deltas.default[..., n:].sum(0)

    class VDelayLayerImpl(Layer):
        expected_inputs = {'default': Tm('T', 'B', 'F')}
        expected_kwargs = {'k'}

        def setup(self, kwargs, in_shapes):
            f = in_shapes['default'].feature_shape
            return (OrderedDict([('default', S('T', 'B', *f, context_size=kwargs['k']))]),
                    OrderedDict([('a', S(*f))]), OrderedDict())

        def forward_pass(self, buffers, training_pass=True):
            x, y, k = buffers.inputs.default, buffers.outputs.default, self.kwargs['k']
            for t in range(len(x)):
                y[t] = np.tanh(x[t] + buffers.parameters.a * y[t - k])

        def backward_pass(self, buffers):
            y, k, dy = buffers.outputs.default, self.kwargs['k'], buffers.output_deltas.default
            T = len(buffers.inputs.default)
            for t in range(T - 1, -1, -1):
                d = dy[t] * (1 - y[t] ** 2)
                buffers.input_deltas.default[t] += d
                buffers.gradients.a[...] += (d * y[t - k]).sum(0)
                dy[t - k] += d * buffers.parameters.a

    class VTapLayerImpl(Layer):
        expected_inputs = {'default': Tm('T', 'B', '...')}
        expected_kwargs = {}

        def setup(self, kwargs, in_shapes):
            f = in_shapes['default'].feature_shape
            i = OrderedDict([('H', S('T', 'B', *f)), ('dH', S('T', 'B', *f, is_backward_only=True))])
            return OrderedDict([('default', S('T', 'B', *f))]), OrderedDict(), i

        def forward_pass(self, buffers, training_pass=True):
            buffers.internals.H[...] = np.tanh(buffers.inputs.default)
            buffers.outputs.default[...] = 2 * buffers.internals.H

        def backward_pass(self, buffers):
            dH = buffers.internals.dH
            dH += 2 * buffers.output_deltas.default
            buffers.input_deltas.default[...] += dH * (1 - buffers.internals.H ** 2)

    class VDenseLayerImpl(Layer):
        """The shipped fully connected layer (tanh), written by a user."""
        expected_inputs = {'default': Tm('T', 'B', '...')}
        expected_kwargs = {'size', 'activation'}

        def setup(self, kwargs, in_shapes):
            n = in_shapes['default'].feature_size
            o = OrderedDict([('default', S('T', 'B', kwargs['size']))])
            p = OrderedDict([('W', S(kwargs['size'], n)), ('bias', S(kwargs['size']))])
            i = OrderedDict([('H', S('T', 'B', kwargs['size'])),
                             ('dH', S('T', 'B', kwargs['size'], is_backward_only=True))])
            return o, p, i

        def forward_pass(self, buffers, training_pass=True):
            h = self.handler
            x, o = flatten_time_and_features(buffers.inputs.default), flatten_time(buffers.internals.H)
            h.dot_mm(x, buffers.parameters.W, o, transb=True)
            h.add_mv(o, buffers.parameters.bias.reshape((1, -1)), o)
            h.tanh(buffers.internals.H, buffers.outputs.default)

        def backward_pass(self, buffers):
            h = self.handler
            h.tanh_deriv(buffers.internals.H, buffers.outputs.default, buffers.output_deltas.default, buffers.internals.dH)
            d = flatten_time(buffers.internals.dH)
            h.dot_add_mm(d, buffers.parameters.W, flatten_time_and_features(buffers.input_deltas.default))
            h.dot_add_mm(d, flatten_time_and_features(buffers.inputs.default), buffers.gradients.W, transa=True)
            b = h.allocate(buffers.gradients.bias.shape)
            h.sum_t(d, 0, b)
            h.add_tt(b, buffers.gradients.bias, buffers.gradients.bias)

    class VDerivedLayerImpl(FullyConnectedLayerImpl):
        """A shipped layer extended by a user."""
        calls = 0

        def forward_pass(self, buffers, training_pass=True):
            VDerivedLayerImpl.calls += 1
            super(VDerivedLayerImpl, self).forward_pass(buffers, training_pass)

    USER.update({k: v for k, v in locals().items() if k.startswith('V')})
    USER['done'] = True
    return USER


USER = {}


def chain(rng):
    """Architecture of user-written and shipped layers around Input.x (T, B, n)."""
    n = int(rng.randint(1, 4))
    arch = OrderedDict()
    arch['Input'] = {'@type': 'Input', 'out_shapes': {'x': ('T', 'B', n)}, '@outgoing_connections': {}}
    losses = []

    def link(src, out, dst):
        arch[src]['@outgoing_connections'].setdefault(out, []).append(dst)

    def add(t, **kw):
        name = '%s_%d' % (t, len(arch))
        arch[name] = dict({'@type': t, '@outgoing_connections': {}}, **kw)
        return name

    def loss(src, out):
        l = add('Loss', importance=float(rng.randint(1, 5)) / 2)
        link(src, out, l)
        losses.append((l, src, out))
    cur, out = 'Input', 'x'
    used = set()
    for _ in range(rng.randint(2, 6)):
        t = pick(rng, ['VSquare', 'VGain', 'VDelay', 'VDelay', 'VTap', 'VDense', 'FullyConnected', 'Recurrent',
                       'VSumTime', 'VRepeat'])
        if t == 'VSumTime':
            l = add(t)
            link(cur, out, l)
            q = add('VSquare')
            link(l, 'total', q)
            loss(q, 'default')
            used.add(t)
            continue
        if t == 'VRepeat':
            l = add('VSumTime')
            link(cur, out, l)
            r = add('VRepeat')
            link(l, 'total', r + '.per_sequence')
            link(cur, out, r)
            cur, out = r, 'default'
            used.add(t)
            continue
        kw = {}
        if t == 'VDelay':
            kw['k'] = int(rng.randint(1, 4))
        if t == 'VGain' and rng.rand() < .5:
            kw['shift'] = float(rng.randint(-4, 5)) / 4
        if t in ('VDense', 'FullyConnected', 'Recurrent'):
            kw.update(size=int(rng.randint(1, 4)), activation='tanh')
        l = add(t, **kw)
        link(cur, out, l)
        used.add(t)
        if t == 'VTap' and rng.rand() < .7:
            q = add('VSquare')
            link(l, '..internals.H', q)
            loss(q, 'default')
            used.add('internal')
        if t == 'VGain' and rng.rand() < .5:
            q = add('VSquare')
            link(l, '..parameters.gain', q)
            loss(q, 'default')
            used.add('parameter')
        cur, out = l, 'default'
    q = add('VSquare')
    link(cur, out, q)
    loss(q, 'default')
    return arch, losses, used, n


def gradient(ctx):
    from brainstorm.structure.network import Network
    from brainstorm.handlers import NumpyHandler
    rng = ctx.rng
    user_layers()
    arch, losses, used, n = chain(rng)
    net = Network.from_architecture(arch)
    net.set_handler(NumpyHandler(np.dtype('float64')))
    p = rng.randn(net.buffer.parameters.size) * .6
    ctx.sample = {k: v['@type'] for k, v in arch.items()}
    B = int(rng.randint(1, 4))

    def run(p, x, state=None, train=True):
        net.provide_external_data({'x': x})
        net.handler.set_from_numpy(net.buffer.parameters, p)
        net.forward_pass(training_pass=train, context=state)
        return net.get_loss_values()
    state = None
    if rng.rand() < .5:
        run(p, rng.randn(int(rng.randint(1, 5)), B, n))
        state = net.get_context()
        ctx.count('continued')
    x = rng.randn(int(rng.randint(1, 6)), B, n)
    got = run(p, x, state)
    total = 0.
    for l, src, out in losses:
        path = src + '.outputs.' + out
        v = net.get(path)
        div = 1 if net.layers[src].out_shapes[out].buffer_type == 0 else B
        want = arch[l]['importance'] * v.sum() / div
        total += want
        ctx.close(float(net.get(l + '.outputs.loss')), want, 'loss-value', '%s of %s' % (l, path), rtol=1e-12)
        ctx.count('losses_of_size_%d' % net.layers[src].out_shapes[out].buffer_type)
    ctx.close(got['total_loss'], total, 'total-loss', 'sum of the losses', rtol=1e-12)
    net.backward_pass()
    g, gx = net.get('gradients'), net.get('Input.output_deltas.x')
    for what, grad, base in (('parameters', g, p), ('x', gx, x)):
        for i in rng.permutation(grad.size)[:25]:
            fs = []
            for e in (1e-5, -1e-5):
                q = base.copy()
                q.ravel()[i] += e
                fs.append(run(q if what == 'parameters' else p, q if what == 'x' else x, state)['total_loss'])
            num = (fs[0] - fs[1]) / 2e-5
            tol = 1e-5 * (1 + abs(num)) + 1e-9 * (abs(fs[0]) + 1)
            ctx.check(abs(grad.ravel()[i] - num) <= tol, 'gradient', 'd loss / d %s[%d]: %r, numerically %r (%s)', what, i,
                      float(grad.ravel()[i]), num, sorted(used))
            ctx.count('derivatives')
    for u in used:
        ctx.count('uses_' + u)
    ctx.distinct('gradient', sorted(used), len(arch))


# ------------------------------------------------------------------- everyday use

def use(ctx):
    """A user's version of a shipped layer, or one derived from it, trains exactly like the original."""
    import brainstorm as bs
    from brainstorm.structure.network import Network
    from brainstorm.handlers import NumpyHandler
    from brainstorm.structure.construction import ConstructionWrapper
    from brainstorm.data_iterators import Minibatches
    from brainstorm.randomness import global_rnd
    rng = ctx.rng
    user = user_layers()
    n, m, o = [int(v) for v in rng.randint(1, 5, 3)]
    T, N = int(rng.randint(1, 5)), int(rng.randint(2, 12))
    x, t = rng.randn(T, N, n), rng.randn(T, N, o)
    seed = int(rng.randint(1, 10 ** 6))
    dtype = np.dtype(pick(rng, ['float32', 'float64']))
    lr, mom = float(rng.uniform(.01, .1)), float(rng.uniform(0, .9))
    bsz = int(rng.randint(1, N + 1))
    mods = bool(rng.rand() < .5)
    two = bool(rng.rand() < .5)

    def make(kind):
        def dense(size, name):
            if kind == 'shipped':
                return bs.layers.FullyConnected(size, activation='tanh', name=name)
            return ConstructionWrapper.create(user['V%sLayerImpl' % kind], size=size, activation='tanh', name=name)
        global_rnd.set_seed(seed)
        inp = bs.layers.Input(out_shapes={'default': ('T', 'B', n), 'targets': ('T', 'B', o)})
        sq = bs.layers.SquaredError(name='Sq')
        inp >> dense(m, 'first') >> dense(o, 'second') >> sq
        inp - 'targets' >> 'targets' - sq
        sq - 'loss' >> bs.layers.Loss()
        net = Network.from_layer(sq if rng.rand() < .5 else inp)
        net.set_handler(NumpyHandler(dtype))
        net.initialize({'default': bs.initializers.Gaussian(.3), 'first': {'bias': 0.25}}, seed=seed)
        if mods:
            net.set_weight_modifiers({'first': {'W': bs.value_modifiers.ConstrainL2Norm(.9)}})
            net.set_gradient_modifiers({'second': bs.value_modifiers.ClipValues(-.05, .05)})
        return net

    def train(net):
        global_rnd.set_seed(seed + 1)
        tr = bs.Trainer(bs.training.MomentumStepper(lr, mom), verbose=False)
        tr.add_hook(bs.hooks.StopAfterEpoch(2))
        tr.train(net, Minibatches(bsz, default=x, targets=t))
        return net.get('parameters'), tr.logs
    ref = make('shipped')
    start = ref.get('parameters')
    want, logs = train(ref)
    tol = dict(rtol=1e-9, atol=1e-10) if dtype == np.float64 else dict(rtol=2e-3, atol=2e-4)
    for kind in ('Dense', 'Derived'):
        calls = user['VDerivedLayerImpl'].calls
        net = make(kind)
        ctx.check([type(l).__name__ for l in net.layers.values()][1:3] == ['V%sLayerImpl' % kind] * 2, 'layer-class',
                  '%s', {k: type(l).__name__ for k, l in net.layers.items()})
        ctx.same(net.get('parameters'), start, 'initial-values', 'a user-written layer is initialised differently')
        got, glogs = train(net)
        if kind == 'Derived':
            ctx.same(got, want, 'trained-parameters', 'derived layer')
            ctx.check(user['VDerivedLayerImpl'].calls > calls, 'overridden-method', 'the overriding forward_pass was not called')
        else:
            ctx.close(got, want, 'trained-parameters', 'user-written layer', **tol)
        ctx.close(glogs['rolling_training']['total_loss'], logs['rolling_training']['total_loss'], 'logs', 'training loss',
                  rtol=tol['rtol'], atol=1e-6)
        d = tempfile.mkdtemp(prefix='c27-')
        try:
            f = os.path.join(d, 'net.hdf5')
            net.save_as_hdf5(f)
            back = Network.from_hdf5(f)
        finally:
            shutil.rmtree(d)
        ctx.check([type(l) for l in back.layers.values()] == [type(l) for l in net.layers.values()], 'loaded-classes',
                  '%s', [type(l).__name__ for l in back.layers.values()])
        ctx.same(back.get('parameters'), net.get('parameters'), 'loaded-parameters', kind)
        for q in (net, back):
            q.provide_external_data({'default': x, 'targets': t})
            q.forward_pass()
            q.backward_pass()
        ctx.same(back.get('second.outputs.default'), net.get('second.outputs.default'), 'loaded-outputs', kind)
        ctx.same(back.get('gradients'), net.get('gradients'), 'loaded-gradients', kind)
        arch = net.architecture
        again = Network.from_architecture(copy.deepcopy(arch))
        ctx.check(again.architecture == arch, 'architecture', 'rebuilding from the architecture changes it')
        ctx.count('networks_trained')
    ctx.distinct('use', dtype, mods, bsz < N)


# -------------------------------------------------------------------- refusals

def reject(ctx):
    from brainstorm.layers.base_layer import Layer
    from brainstorm.structure.network import Network
    from brainstorm.structure.buffer_structure import BufferStructure as S, StructureTemplate as Tm
    from brainstorm.structure.construction import ConstructionWrapper
    from brainstorm.utils import ValidationError
    rng = ctx.rng
    name = 'Rej%dx%d' % (os.getpid(), next(uid))
    F = int(rng.randint(2, 6))

    def setup(self, kwargs, in_shapes):
        return (OrderedDict([('default', S('T', 'B', F)), ('extra', S('B', 2))]), OrderedDict([('W', S(F, F))]),
                OrderedDict([('H', S('T', 'B', F)), ('dH', S('T', 'B', F, is_backward_only=True)), ('K', S('T', 'B', F))]))
    tm = pick(rng, [('T', 'B', F), ('T', 'B', 'F'), ('T', 'B', '...')])
    cls = type(name + 'LayerImpl', (Layer,), {
        'expected_inputs': {'default': Tm(*tm), 'second': Tm('B', 'F')}, 'expected_kwargs': {'gain'}, 'setup': setup})
    src = type(name + 'SrcLayerImpl', (Layer,), {
        'expected_inputs': {'default': Tm('...')}, 'expected_kwargs': {}, 'setup': lambda self, k, i: (
            OrderedDict([('seq', S('B', 3)), ('const', S(3)), ('time', S('T', 'B', F)), ('image', S('T', 'B', F, 2))]),
            OrderedDict(), OrderedDict())})

    def good():
        return {'Input': {'@type': 'Input', 'out_shapes': {'x': ('T', 'B', F)},
                          '@outgoing_connections': {'x': ['lay', 'src']}},
                'src': {'@type': name + 'Src', '@outgoing_connections': {'seq': ['lay.second']}},
                'lay': {'@type': name, 'gain': 2, '@outgoing_connections': {'default': ['end']}},
                'end': {'@type': 'NoOp', '@outgoing_connections': {}}}
    net = Network.from_architecture(good())
    ctx.check(set(net.layers) == {'Input', 'src', 'lay', 'end'} and net.layers['lay'].kwargs == {'gain': 2} and
              type(net.layers['lay']) is cls, 'accepted', 'valid network of user-written layers came out differently')
    a = good()
    which = pick(rng, ['kwarg', 'missing', 'unknown-input', 'kind', 'kind-const', 'kind-time', 'dims', 'size', 'output', 'internal',
                       'parameter', 'category', 'type', 'class-name'])
    if which == 'kwarg':
        a['lay'][pick(rng, ['Gain', 'size', 'gain_', 'foo'])] = 1
    elif which == 'missing':
        if rng.rand() < .5:
            a['src']['@outgoing_connections'] = {}
        else:
            a['Input']['@outgoing_connections']['x'] = ['src']
    elif which == 'unknown-input':
        a['src']['@outgoing_connections']['time'] = ['lay.' + pick(rng, ['third', 'Default', 'Second', 'second2'])]
    elif which == 'kind':
        a['src']['@outgoing_connections'] = {'time': ['lay.second']}
    elif which == 'kind-const':
        a['src']['@outgoing_connections'] = {'const': ['lay.second']}
    elif which == 'kind-time':
        a['Input']['@outgoing_connections']['x'] = ['src']
        a['src']['@outgoing_connections'] = {'seq': ['lay.second', 'lay']}
    elif which == 'dims':
        if tm[-1] == '...':
            ctx.count('monitor_checks')
            return
        a['Input']['@outgoing_connections']['x'] = ['src']
        a['src']['@outgoing_connections']['image'] = ['lay']
    elif which == 'size':
        if tm[-1] != F:
            ctx.count('monitor_checks')
            return
        a['Input']['out_shapes']['x'] = ('T', 'B', F + pick(rng, [-1, 1]))
    elif which == 'output':
        a['lay']['@outgoing_connections'] = {pick(rng, ['nope', 'Default', 'H', 'W']): ['end']}
    elif which == 'internal':
        # K has no delta buffer to send anything back to
        a['lay']['@outgoing_connections'] = {pick(rng, ['..internals.nope', '..internals.K']): ['end']}
    elif which == 'parameter':
        a['lay']['@outgoing_connections'] = {pick(rng, ['..parameters.nope', '..parameters.w']): ['end']}
    elif which == 'category':
        a['lay']['@outgoing_connections'] = {pick(rng, ['..inputs.default', '..nope.W', '..gradients.W']): ['end']}
    elif which == 'type':
        a['lay']['@type'] = pick(rng, [name + 'LayerImpl', name.lower(), name + '2'])
    elif which == 'class-name':
        bad = type(name + 'Impl', (Layer,), {'expected_inputs': {}, 'setup': setup})
        ctx.raises((ValidationError, ValueError, AssertionError), lambda: ConstructionWrapper.create(bad), 'refused-' + which,
                   'class not named ...LayerImpl')
        ctx.count('refusals')
        return
    ctx.raises((ValidationError, ValueError, KeyError, AssertionError, TypeError), lambda: Network.from_architecture(a),
               'refused-' + which, 'an undeclared or missing %s' % which)
    ctx.count('refusals')
    ctx.distinct('reject', which, tm)


def template_model(t, s):
    """Which declared shapes a template accepts, from its documentation."""
    if t == ('...',):
        return True
    k = 2 if t[0] == 'T' else 1 if t[0] == 'B' else 0
    ks = 2 if s[0] == 'T' else 1 if s[0] == 'B' else 0
    if k != ks:
        return False
    tf, sf = t[k:], s[k:]
    if tf == ('...',):
        return True
    return len(tf) == len(sf) and all(a == 'F' or a == b for a, b in zip(tf, sf))


def template_(ctx):
    from brainstorm.structure.buffer_structure import BufferStructure as S, StructureTemplate as Tm
    from brainstorm.utils import StructureValidationError
    rng = ctx.rng
    for _ in range(20):
        head = pick(rng, [(), ('B',), ('T', 'B')])
        n = int(rng.randint(1, 4))
        t = head + pick(rng, [('...',), ('F',) * n, tuple(int(v) for v in rng.randint(1, 4, n))])
        s = pick(rng, [(), ('B',), ('T', 'B'), head]) + tuple(int(v) for v in rng.randint(1, 4, rng.randint(1, 4)))
        got, want = Tm(*t).matches(S(*s)), template_model(t, s)
        if t == ('...',) or head == () and t[-1] == '...':
            want = True
        ctx.check(bool(got) == want, 'template-match', 'template %s, shape %s: %s', t, s, got)
        ctx.count('matches_%s' % want)
        b = S(*s)
        T, B = int(rng.randint(0, 6)), int(rng.randint(0, 6))
        c = int(rng.randint(0, 3)) if s[0] == 'T' else 0
        b = S(*s, context_size=c)
        full_shape = full({'shape': s, 'ctx': c}, T, B)
        ctx.check(tuple(b.get_shape(T, B)) == full_shape, 'full-shape', '%s with context %d at T=%d, B=%d: %s', s, c, T, B,
                  b.get_shape(T, B))
        k = sum(1 for v in s if isinstance(v, str))
        ctx.check((b.feature_shape, b.feature_size, b.buffer_type, b.scales_with_time, b.scales_with_batch_size, b.nr_dims) ==
                  (s[k:], int(np.prod(s[k:])), k, k == 2, k > 0, len(s)), 'structure-properties', '%s', s)
        bad = pick(rng, [(), ('T', 3), ('T', 'B'), ('B',), ('B', 'T', 3), (3, 'B'), (3, 'T', 'B'), ('T', 3, 'B'), ('T', 'B', 2.5),
                         ('T', 'B', 'X'), (None,), ('T', 'B', 3, 'F'), ('B', 'B', 3), ('T', 'B', 'F')])
        ctx.raises(StructureValidationError, lambda: S(*bad), 'structure-refused', 'BufferStructure%s' % (bad,))
        badt = pick(rng, [(), ('T', 3), ('B', 'T', 3), (3, 'B'), (3, 'T', 'B'), ('T', 3, 'B'), ('T', 'B', 2.5), ('T', 'B', 'X'),
                          ('T', 'B', '...', 3), ('T', 'B', 'F', 3), ('B', '...', 'F'), ('...', '...')])
        ctx.raises(StructureValidationError, lambda: Tm(*badt), 'structure-refused', 'StructureTemplate%s' % (badt,))
        for cls in (S, Tm):
            cs = pick(rng, [-1, 1.5, 'a'])
            ctx.raises(StructureValidationError, lambda: cls('T', 'B', 3, context_size=cs), 'structure-refused',
                       '%s with context_size %r' % (cls.__name__, cs))
            ctx.raises(StructureValidationError, lambda: cls('B', 3, context_size=2), 'structure-refused',
                       '%s per sequence with context' % cls.__name__)
            ctx.raises(TypeError, lambda: cls('B', 3, contextsize=2), 'structure-refused', '%s unknown argument' % cls.__name__)
        ctx.distinct('template', len(t), len(s), want)


def run_case(case, ctx):
    {'probe': probe, 'context': context, 'gradient': gradient, 'use': use, 'reject': reject,
     'template': template_}[case['family']](ctx)
