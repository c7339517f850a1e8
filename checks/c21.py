"""C21: network shorthand builds exactly the specified network.

Monitor: specification lines are generated from the documented grammar together with the list
of layers they state; the network that is built is compared layer by layer (types, sizes,
activations, geometry, connections, names, shapes) with that list, with a twin wired by hand
(same outputs and gradients for the same parameters), re-initialised next to the documented
initialisation, and trained.  Corrupted lines must be refused, never built differently."""
import json

import numpy as np

from checks.c20 import connections, settings, norm, predict_names, DEFAULTS
from vlib import nets

TECHNIQUE = 'runtime monitor: networks from generated specifications vs the generating layer list and a hand-wired twin; rejection of corrupted lines'
LEVEL_NOTE = ('Random lines of the documented grammar in random spacing, tasks, shapes, names, masks; every layer, setting and '
              'connection is compared, outputs and gradients against a twin, one training each; corrupted lines.')
RULE = 'random specification x task x shapes x names x mask. Distinct: normalised specification, task, options.'
ASSUMPTIONS = ['numbers are not split by whitespace; the probability of Dropout is written with a decimal point',
               'use_conv=True only with image shaped outputs', 'any exception counts as a refusal']
MIN_COUNTERS = {'connections_compared': 3000, 'corrupted_lines': 300, 'initialised': 4000, 'layers_compared': 3000, 'masks_verified': 150, 'networks': 500, 'rejections_seen': 500, 'settings_compared': 4000, 'split_numbers': 25, 'trainings': 80, 'twins_compared': 400}
ACT = {'l': 'linear', 'r': 'rel', 's': 'sigmoid', 't': 'tanh'}
TASKS = {'classification': 'SoftmaxCE', 'multi-label': 'SigmoidCE', 'regression': 'SquaredError'}


def families(tier):
    k = 1 if tier == 'quick' else 25
    return [('spec', 700 * k), ('inout', 500 * k), ('reject', 1500 * k), ('docs', 6)]


def run_case(case, ctx):
    globals()['case_' + case['family']](ctx)


# ---------------------------------------------------------------- generation

class Line(object):
    """A specification line with the layers it states."""

    def __init__(self, rng, shape, n, classes='FRLBDCP'):
        self.rng, self.shape = rng, tuple(shape)
        self.layers, self.tokens = [], []
        for _ in range(n):
            kinds = [c for c in classes if c in 'FBD' or (c in 'RL' and len(self.shape) == 1) or
                     (c in 'CP' and len(self.shape) == 3)]
            self.grow(kinds[rng.randint(len(kinds))])

    def act(self, default):
        if self.rng.rand() < .5:
            return [], default
        a = 'lrst'[self.rng.randint(4)]
        return [a], ACT[a]

    def sep(self):
        return ['', '', ':', '/', '|'][self.rng.randint(5)]

    def grow(self, c):
        rng = self.rng
        if c in 'FRL':
            t, a = self.act('rel' if c == 'F' else 'tanh')
            n = int(rng.choice([1, 2, 3, 5, 12]))
            self.add({'F': 'FullyConnected', 'R': 'Recurrent', 'L': 'Lstm'}[c], {'size': n, 'activation': a}, [c] + t + [str(n)], (n,))
        elif c == 'B':
            self.add('BatchNorm', DEFAULTS['BatchNorm'], ['B'], self.shape)
        elif c == 'D':
            if rng.rand() < .4:
                self.add('Dropout', {'drop_prob': .5}, ['D'], self.shape)
            else:
                s = ['.2', '0.2', '.25', '0.75', '.05', '+.5', '0.0', '.125'][rng.randint(8)]
                self.add('Dropout', {'drop_prob': float(s)}, ['D', s], self.shape)
        else:
            for _ in range(50):
                k, p, s = int(rng.randint(1, 4)), int(rng.randint(0, 3)), int(rng.randint(1, 4))
                if c == 'P' and p >= k:
                    continue
                o = [(x + 2 * p - k) // s + 1 if x + 2 * p >= k else 0 for x in self.shape[:2]]
                if min(o) > 0:
                    break
            else:
                k, p, s, o = 1, 0, 1, list(self.shape[:2])
            opts = []
            if p or rng.rand() < .2:
                opts.append(['p', str(p)])
            if s != 1 or rng.rand() < .2:
                opts.append(['s', str(s)])
            if rng.rand() < .5:
                opts.reverse()
            tail = [x for op in opts for x in op]
            kw = {'kernel_size': [k, k], 'stride': [s, s], 'padding': p}
            if c == 'C':
                t, a = self.act('rel')
                f = int(rng.randint(1, 6))
                self.add('Convolution2D', dict(kw, num_filters=f, activation=a), ['C'] + t + [str(f), ':', str(k)] + tail, tuple(o) + (f,))
            else:
                r = rng.randint(3)
                t = [[], ['m'], ['a']][r]
                self.add('Pooling2D', dict(kw, type='avg' if r == 2 else 'max'), ['P'] + t + [str(k)] + tail, tuple(o) + self.shape[2:])

    def add(self, typ, kw, tokens, shape):
        self.layers.append((typ, dict(kw)))
        self.tokens.append(tokens)
        self.shape = tuple(int(x) for x in shape)

    def text(self, loose=True):
        rng = self.rng
        res = ''
        style = rng.randint(3) if loose else 0
        for i, toks in enumerate(self.tokens):
            if style == 0 and i:
                res += ' '
            for j, t in enumerate(toks):
                if style == 2 and rng.rand() < .4:
                    res += [' ', '  ', '\t', '\n'][rng.randint(4)]
                res += t
                if style and j and t != ':' and j + 1 < len(toks) and toks[j + 1] != ':' and rng.rand() < .15:
                    res += [':', '/', '|'][rng.randint(3)]
            if style == 2 and rng.rand() < .3:
                res += ' '
        if style == 2 and rng.rand() < .3:
            res = ' ' + res + '\n'
        return res


class Setting(object):
    """Task, shapes, names and mask."""

    def __init__(self, rng, spec=True):
        self.rng = rng
        self.task = sorted(TASKS)[rng.randint(3)]
        self.kw = {}
        self.data = self.targets = None
        r = rng.rand()
        names = ['default', 'targets', 'x', 'y', 'labels', 'm', 'data', 'a_b']
        names = [names[i] for i in rng.permutation(len(names))]
        self.data, self.targets, self.mask = 'default', 'targets', None
        if rng.rand() < .4:
            names.remove('targets') if 'targets' in names else None
            self.data = self.kw['data_name'] = names.pop()
        if rng.rand() < .4:
            names = [n for n in names if n != self.data]
            self.targets = self.kw['targets_name'] = names.pop()
        if rng.rand() < .4:
            names = ['mask', 'mask'] + [n for n in names if n not in (self.data, self.targets)]
            names = [names[i] for i in rng.permutation(len(names))]
            self.mask = self.kw['mask_name'] = names.pop()
        self.out = 'Output'
        self.proj = None
        if not spec:
            if rng.rand() < .4:
                self.out = self.kw['outlayer_name'] = ['Out', 'Predictions', 'o'][rng.randint(3)]
            if rng.rand() < .4:
                self.proj = self.kw['projection_name'] = ['Proj', 'final', 'p_1'][rng.randint(3)]
        self.proj = self.proj or self.out + '_projection'

    def in_shape(self):
        rng = self.rng
        s = [(int(rng.randint(1, 6)),), tuple(int(x) for x in rng.randint(1, 4, 2)),
             tuple(int(x) for x in rng.randint(2, 8, 2)) + (int(rng.randint(1, 4)),)][rng.choice(3, p=[.45, .1, .45])]
        self.in_s = s
        self.in_arg = s[0] if len(s) == 1 and rng.rand() < .6 else s
        return s

    def out_shape(self, shape):
        """An output shape for a network whose last layer has the given shape."""
        rng = self.rng
        r = rng.rand()
        if len(shape) == 3 and r < .5:
            f = int(rng.randint(1, 5))
            self.out_s = self.out_arg = tuple(shape[:2]) + (f,)
            self.conv = True
            if rng.rand() < .5:
                self.kw['use_conv'] = True
        else:
            self.conv = False
            if r > .85:
                self.out_s = self.out_arg = tuple(int(x) for x in rng.randint(1, 4, rng.randint(2, 4)))
                self.kw['use_conv'] = False
            else:
                n = int(rng.randint(1, 6))
                self.out_s, self.out_arg = (n,), n if rng.rand() < .7 else (n,)
                if rng.rand() < .3:
                    self.kw['use_conv'] = False
        self.tgt_s = self.out_s[:-1] + (1,) if self.task == 'classification' else self.out_s

    def expected(self, hidden, names):
        """Layers and connections of the complete network; hidden: [(type, kwargs)]."""
        o = self.out
        outs = {self.data: norm(('T', 'B') + self.in_s), self.targets: norm(('T', 'B') + self.tgt_s)}
        if self.mask:
            outs[self.mask] = ['T', 'B', 1]
        lay = {'Input': ('Input', {'out_shapes': outs})}
        con, last = [], ('Input', self.data)
        for n, (t, kw) in zip(names, hidden):
            lay[n] = (t, norm(kw))
            con.append(last + (n, 'default'))
            last = (n, 'default')
        if self.conv:
            lay[self.proj] = ('Convolution2D', {'num_filters': self.out_s[-1], 'kernel_size': [1, 1], 'stride': [1, 1], 'padding': 0,
                                                'activation': 'linear'})
        else:
            lay[self.proj] = ('FullyConnected', {'size': norm(self.out_s), 'activation': 'linear'})
        con.append(last + (self.proj, 'default'))
        lay[o] = (TASKS[self.task], {})
        con += [(self.proj, 'default', o, 'default'), ('Input', self.targets, o, 'targets')]
        lay['Loss'] = ('Loss', {'importance': 1.0})
        if self.mask:
            lay['Mask'] = ('Mask', {})
            con += [(o, 'loss', 'Mask', 'default'), ('Input', self.mask, 'Mask', 'mask'), ('Mask', 'default', 'Loss', 'default')]
        else:
            con.append((o, 'loss', 'Loss', 'default'))
        return lay, sorted(con)

    def make_data(self, rng, T, B):
        d = {self.data: rng.randn(T, B, *self.in_s)}
        if self.task == 'classification':
            d[self.targets] = rng.randint(0, self.out_s[-1], (T, B) + self.tgt_s).astype(float)
        elif self.task == 'multi-label':
            d[self.targets] = rng.randint(0, 2, (T, B) + self.tgt_s).astype(float)
        else:
            d[self.targets] = rng.randn(T, B, *self.tgt_s)
        if self.mask:
            d[self.mask] = (rng.rand(T, B, 1) < .7).astype(float)
        return d


def complete(kw, typ):
    return dict(DEFAULTS.get(typ, {}), **kw)


def scalar_size(kw):
    """FullyConnected sizes 5, (5,) and [5] are the same."""
    kw = dict(kw)
    if isinstance(kw.get('size'), list) and len(kw['size']) == 1:
        kw['size'] = kw['size'][0]
    return kw


def compare(ctx, net, lay, con, msg):
    arch = net.architecture
    ctx.count('networks')
    ctx.count('layers_compared', len(lay))
    if not ctx.check(sorted(arch) == sorted(lay), 'layers', '%s: layers %s, expected %s', msg, sorted(arch), sorted(lay)):
        return False
    st = settings(arch)
    for n, (t, kw) in lay.items():
        ctx.check(arch[n]['@type'] == t, 'layer-type', '%s: %s is %s, expected %s', msg, n, arch[n]['@type'], t)
        got, want = scalar_size(complete(st[n], t)), scalar_size(kw)
        ctx.count('settings_compared', len(want))
        ctx.check(got == want, 'settings', '%s: %s has %s, expected %s', msg, n, got, want)
    ctx.count('connections_compared', len(con))
    return ctx.check(connections(arch) == con, 'connections', '%s: connections %s, expected %s', msg, connections(arch), con)


def twin_of(lay, con):
    from brainstorm import Network
    arch = {n: dict({'@type': t, '@outgoing_connections': {}}, **kw) for n, (t, kw) in lay.items()}
    for s, o, d, i in con:
        arch[s]['@outgoing_connections'].setdefault(o, []).append(d + '.' + i)
    return Network.from_architecture(json.loads(json.dumps(arch)))


def behave(ctx, net, twin, setting, msg):
    """Same results for the same parameters."""
    from brainstorm.handlers import NumpyHandler
    rng = ctx.rng
    T, B = int(rng.randint(1, 4)), int(rng.randint(1, 4))
    data = setting.make_data(rng, T, B)
    ps = nets.param_shapes(twin)
    ctx.check(nets.param_shapes(net) == ps, 'parameters', '%s: parameters %s, expected %s', msg, nets.param_shapes(net), ps)
    if nets.param_shapes(net) != ps:
        return None
    values = {l: {p: rng.randn(*s) * .5 + (1. if p in ('gamma', 'sigma') else 0.) for p, s in sorted(v.items())} for l, v in sorted(ps.items())}
    res = []
    for n in (net, twin):
        n.set_handler(NumpyHandler(np.float64, seed=9))
        nets.set_params(n, values)
        n.provide_external_data(data)
        n.forward_pass(training_pass=True)
        n.backward_pass()
        res.append((n.get(setting.out + '.outputs.predictions'), n.get('gradients'), n.get_loss_values()))
    ctx.check(res[0][0].shape == (T, B) + setting.out_s, 'output-shape', '%s: output %s for %s', msg, res[0][0].shape, setting.out_s)
    ctx.close(res[0][0], res[1][0], 'twin-outputs', msg + ': predictions')
    ctx.close(res[0][1], res[1][1], 'twin-gradients', msg + ': gradients', rtol=1e-8, atol=1e-10)
    ctx.close(res[0][2]['total_loss'], res[1][2]['total_loss'], 'twin-loss', msg + ': loss')
    if setting.mask:            # a masked step does not count
        loss = {}
        for flip in (0, 1):
            d = {k: v.copy() for k, v in data.items()}
            if flip:
                off = d[setting.mask][..., 0] == 0
                t = d[setting.targets]
                t[off] = 0 if setting.task != 'regression' else 77.
            net.set_handler(NumpyHandler(np.float64, seed=9))
            nets.set_params(net, values)
            net.provide_external_data(d)
            net.forward_pass(training_pass=True)
            loss[flip] = net.get_loss_values()['total_loss']
        ctx.close(loss[1], loss[0], 'mask-ignored', msg + ': targets of masked steps change the loss')
        ctx.count('masks_verified')
    ctx.count('twins_compared')
    return data


def train(ctx, net, setting):
    from brainstorm import Trainer
    from brainstorm.data_iterators import Minibatches
    from brainstorm.hooks import StopAfterEpoch
    from brainstorm.training import SgdStepper
    import contextlib
    import io
    rng = ctx.rng
    data = setting.make_data(rng, 2, 5)
    if setting.mask:
        data[setting.mask][:] = 1
    before = net.get('parameters')
    tr = Trainer(SgdStepper(.01), verbose=False)
    tr.add_hook(StopAfterEpoch(2))
    with contextlib.redirect_stdout(io.StringIO()):
        tr.train(net, Minibatches(batch_size=2, **data))
    loss = tr.logs['rolling_training']['total_loss']
    ctx.check(len([x for x in loss if np.isfinite(x)]) >= 2, 'training', 'losses %s', loss)
    after = net.get('parameters')
    ctx.check(np.all(np.isfinite(after)), 'training', 'parameters not finite after training')
    saturated = setting.task == 'classification' and setting.out_s[-1] == 1
    if not saturated:
        b = net.get(setting.proj + '.gradients.bias')
        ctx.check(np.any(before != after) or not b.any(), 'training', 'training changed nothing')
    ctx.count('trainings')


# ---------------------------------------------------------------- families

def case_spec(ctx):
    from brainstorm import initializers
    from brainstorm.describable import create_from_description, get_description
    from brainstorm.tools import create_net_from_spec
    rng = ctx.rng
    s = Setting(rng)
    line = Line(rng, s.in_shape(), int(rng.choice([0, 1, 2, 3, 5, 8])))
    s.out_shape(line.shape)
    text = line.text()
    ctx.sample = {'spec': text, 'task': s.task, 'in': s.in_s, 'out': s.out_s, 'options': s.kw}
    msg = repr(text)
    names = predict_names([t for t, _ in line.layers])
    lay, con = s.expected(line.layers, names)
    net = create_net_from_spec(s.task, s.in_arg, s.out_arg, text, **s.kw)
    ctx.distinct((' '.join(''.join(t) for t in line.tokens), s.task, tuple(sorted(s.kw)), len(s.out_s)))
    if not compare(ctx, net, lay, con, msg):
        return
    ctx.check(net.output_name == 'Output.outputs.predictions', 'output-name', 'output name %r', net.output_name)
    twin = twin_of(lay, con)
    # initialised as documented
    init = {n: initializers.DenseSqrtFanInOut(kw['activation']) for n, (t, kw) in lay.items() if 'activation' in kw}
    init.update(default=initializers.Gaussian(), fallback=initializers.Gaussian())
    start = nets.get_params(net)
    for l in start:
        for p, v in start[l].items():
            ctx.check(np.all(np.isfinite(v)), 'initial', '%s.%s not finite', l, p)
            ctx.check(v.size < 3 or np.std(v) > 0, 'initial', '%s.%s is constant: %s', l, p, v.ravel()[:3])
            ctx.count('initialised')
    twin.initialize(init, seed=11)
    net.initialize(create_from_description(get_description(net)["initializers"]), seed=11)
    ctx.same(net.get('parameters'), twin.get('parameters'), 'initialisation', msg + ': re-initialised parameters')
    if behave(ctx, net, twin, s, msg) is not None and rng.rand() < .35:
        train(ctx, create_net_from_spec(s.task, s.in_arg, s.out_arg, text, **s.kw), s)


def case_inout(ctx):
    """get_in_out_layers with hand-wired layers in between."""
    from brainstorm import Network, layers as L
    from brainstorm.tools import get_in_out_layers
    rng = ctx.rng
    s = Setting(rng, spec=False)
    line = Line(rng, s.in_shape(), int(rng.randint(0, 4)), 'FRLCPBD')
    s.out_shape(line.shape)
    ctx.sample = {'layers': line.text(False), 'task': s.task, 'in': s.in_s, 'out': s.out_s, 'options': s.kw}
    inp, out = get_in_out_layers(s.task, s.in_arg, s.out_arg, **s.kw)
    # the input layer hands out the data under the name given
    cur = inp if s.data == 'default' else inp - s.data
    for t, kw in line.layers:
        cur = cur >> getattr(L, t)(**kw)
    cur >> out
    net = Network.from_layer([inp, out][rng.randint(2)])
    lay, con = s.expected(line.layers, predict_names([t for t, _ in line.layers]))
    msg = '%s %s %s %s' % (s.task, s.in_s, s.out_s, s.kw)
    ctx.distinct((s.task, tuple(sorted(s.kw)), len(s.in_s), len(s.out_s)))
    if not compare(ctx, net, lay, con, msg):
        return
    if behave(ctx, net, twin_of(lay, con), s, msg) is not None and rng.rand() < .3:
        from brainstorm.initializers import Gaussian
        net.initialize(Gaussian(.1), seed=4)
        train(ctx, net, s)


def corrupt(rng, line, kind):
    toks = [list(t) for t in line.tokens]
    i = rng.randint(len(toks))

    def text(toks):
        return ' '.join(''.join(t) for t in toks)
    if kind == 'unknown-layer':
        toks.insert(i, [['X', 'A', 'Q', 'Z3', 'E5', 'FC5', 'LS5', 'Conv32:3', 'O'][rng.randint(9)]])
    elif kind == 'lower-case':
        toks[i][0] = toks[i][0].lower()
    elif kind == 'junk':
        s = text(toks)
        j = rng.randint(len(s) + 1)
        return s[:j] + '&#$%!?*()[]{}=<>@~^"\'\\;,_'[rng.randint(25)] + s[j:]
    elif kind == 'junk-layer':
        toks.insert(i, [['50', 'f5', '-', '.', ':3', ',', '5.', 'size', '/'][rng.randint(9)]])
        if i and toks[i][0] in ('/',):
            toks[i] = ['&']
    elif kind == 'no-size':
        j = [k for k, t in enumerate(toks) if t[0] in 'FRLP']
        if not j:
            return None
        toks[j[0]] = [t for t in toks[j[0]] if not t[0].isdigit()]
    elif kind == 'conv-args':
        j = [k for k, t in enumerate(toks) if t[0] == 'C']
        if not j:
            return None
        toks[j[0]] = [['C5'], ['C'], ['Cr'], ['C5:p1'], ['C:3'], ['C5:3x2'], ['C5:3p'], ['C5:3s'], ['C5:3ps'], ['C5:3p1s'], ['C5:3p1:4'],
                      ['C5:3:2'], ['C.5:3'], ['C5:.3'], ['C5:3p.5'], ['C5:3s0'], ['C5:3s1.5'], ['C5:3p-1'], ['Cq5:3'], ['C5:3s-1']][rng.randint(20)]
    elif kind == 'pool-args':
        j = [k for k, t in enumerate(toks) if t[0] == 'P']
        if not j:
            return None
        toks[j[0]] = [['P'], ['Pm'], ['Pr3'], ['Px2'], ['P.5'], ['P2p'], ['P2s'], ['P2x1'], ['P2p.5'], ['P2s0'], ['Pm2p1s'], ['P2:3'],
                      ['P2p-1']][rng.randint(13)]
    elif kind == 'activation':
        j = [k for k, t in enumerate(toks) if t[0] in 'FRL']
        if not j:
            return None
        t = toks[j[0]]
        toks[j[0]] = [t[0], 'qxzabekpm'[rng.randint(9)], t[-1]]
    elif kind == 'two-activations':
        j = [k for k, t in enumerate(toks) if t[0] in 'FRL']
        if not j:
            return None
        t = toks[j[0]]
        toks[j[0]] = [t[0], 'rr', t[-1]]
    elif kind == 'extra-args':
        j = [k for k, t in enumerate(toks) if t[0] in 'FRLBD']
        if not j:
            return None
        t = toks[j[rng.randint(len(j))]]
        if t[0] == 'D' and len(t) == 1:
            t.append('.5')
        t.append({'B': '3', 'D': ':.5'}.get(t[0], [':3', 'r', 'p1', 'x', '/2', '.5', 's2', 'e3'][rng.randint(8)]))
    elif kind == 'size-float':
        j = [k for k, t in enumerate(toks) if t[0] in 'FRL']
        if not j:
            return None
        toks[j[0]][-1] = ['.5', '2.5', '-3', '3.'][rng.randint(4)]
    elif kind == 'dropout-arg':
        toks.insert(i, [['Dr', 'Dx', 'Da.5', 'D.5r', 'D.', 'D,5'][rng.randint(6)]])
    return text(toks)


KINDS = ['unknown-layer', 'lower-case', 'junk', 'junk-layer', 'no-size', 'conv-args', 'pool-args', 'activation', 'two-activations', 'extra-args',
         'size-float', 'dropout-arg', 'task', 'split-number', 'out-shape']


def case_reject(ctx):
    from brainstorm.tools import create_net_from_spec, get_in_out_layers
    rng = ctx.rng
    kind = KINDS[rng.randint(len(KINDS))]
    s = Setting(rng)
    for _ in range(30):
        line = Line(rng, s.in_shape(), int(rng.randint(1, 5)))
        s.kw.pop('use_conv', None)
        s.out_shape(line.shape)
        if kind == 'task':
            t = ['classify', 'Classification', '', None, 'multilabel', 'multi_label', 'regress', 3][rng.randint(8)]
            ctx.raises(Exception, lambda: create_net_from_spec(t, s.in_arg, s.out_arg, line.text(), **s.kw), 'accepted:task', 'task %r' % (t,))
            ctx.raises(Exception, lambda: get_in_out_layers(t, s.in_arg, s.out_arg, **s.kw), 'accepted:task', 'task %r' % (t,))
            return
        if kind == 'out-shape':
            s.kw.pop('use_conv', None)
            sh = [(2, 3), (1, 2, 3, 4), ()][rng.randint(3)]
            ctx.raises(Exception, lambda: create_net_from_spec(s.task, s.in_arg, sh, line.text(), **s.kw), 'accepted:out-shape', 'output shape %s' % (sh,))
            return
        if kind == 'split-number':
            n = int(rng.randint(10, 60))
            c = 'FRL'[rng.randint(3)]
            if c != 'F' and len(line.shape) > 1:
                continue
            s.kw['use_conv'] = False
            text = line.text() + ' %s%d %d' % (c, n // 10, n % 10)
            ctx.count('split_numbers')
            try:
                net = create_net_from_spec(s.task, s.in_arg, s.out_arg, text, **s.kw)
            except Exception:
                return
            sizes = [v.get('size') for k, v in net.architecture.items() if k != s.proj]
            ctx.check(n in sizes, 'split-number', '%r built layers of sizes %s', text, sizes)
            return
        text = corrupt(rng, line, kind)
        if text is not None:
            break
    else:
        return
    ctx.distinct((kind, text))
    ctx.count('corrupted_lines')
    ctx.sample = {'broken by': kind, 'spec': text}
    ctx.raises(Exception, lambda: create_net_from_spec(s.task, s.in_arg, s.out_arg, text, **s.kw), 'accepted:' + kind, repr(text))


def case_docs(ctx):
    """The documented examples."""
    from brainstorm.tools import create_net_from_spec
    i = ctx.rng.randint(3)
    s = Setting(ctx.rng)
    s.kw, s.data, s.targets, s.mask, s.task, s.conv, s.out_s, s.tgt_s = {}, 'default', 'targets', None, 'classification', False, (10,), (1,)
    if i == 0:
        s.in_s, text = (784,), 'D.2 F1200 D F1200 D'
        hid = [('Dropout', {'drop_prob': .2}), ('FullyConnected', {'size': 1200, 'activation': 'rel'}), ('Dropout', {'drop_prob': .5}),
               ('FullyConnected', {'size': 1200, 'activation': 'rel'}), ('Dropout', {'drop_prob': .5})]
    else:
        s.in_s, text = (32, 32, 3), 'C32:5p2 P3s2 C32:5p2 P3s2 C64:5p2 P3s2 F64'
        c = lambda n: ('Convolution2D', {'num_filters': n, 'kernel_size': [5, 5], 'padding': 2, 'stride': [1, 1], 'activation': 'rel'})
        p = ('Pooling2D', {'type': 'max', 'kernel_size': [3, 3], 'stride': [2, 2], 'padding': 0})
        hid = [c(32), p, c(32), p, c(64), p, ('FullyConnected', {'size': 64, 'activation': 'rel'})]
        if i == 2:
            text = text.replace(' ', '')
    lay, con = s.expected(hid, predict_names([t for t, _ in hid]))
    compare(ctx, create_net_from_spec(s.task, s.in_s if i else 784, 10, text), lay, con, text)
    ctx.distinct(text)
