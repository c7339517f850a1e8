"""C01: gradients and input deltas of live networks against finite differences.

Monitor: after forward+backward of the real network, the gradient buffers and
the deltas of the fed inputs are projected on random directions and compared
with central differences of the losses the same network reports. Points where the
differences at two step sizes disagree (kinks) are counted and left out."""
import numpy as np

from vlib import nets
from checks import c02

TECHNIQUE = 'runtime monitor: finite differences of reported losses vs gradient buffers'
LEVEL_NOTE = 'Explores random networks, data and states; every comparison is made on the live network. Trusts the reported loss values (decided by C02) and float64 differences.'
RULE = ('random networks (all layers, fan-out, fan-in, several losses, carried-over state, '
        'parameters used as sources); each gradient/delta buffer is compared along random and '
        'coordinate directions with finite differences of the reported loss. Distinct: layer '
        'type x wiring signature of networks with at least one comparison with a non-zero '
        'derivative.')
ASSUMPTIONS = ['networks in which a cross-entropy probability falls below 3e-6 (the clipping range of '
               'these losses) are left out',
               'finite differences in float64 with kink filter: directions in which two step '
               'sizes disagree are skipped (counted as fd_skipped)',
               'single precision is compared with double precision on smooth networks']


def families(tier):
    k = 3 if tier == 'quick' else 40
    return [('net', 900 * k), ('single', 660 * k), ('context', 240 * k), ('geometry', 300 * k),
            ('param_source', 100 * k), ('scaling', 60 * k), ('float32', 200 * k),
            ('big', 16 * k), ('long', 14 * k)]


class Runner(object):
    """Evaluates the loss of a live network at given parameters and data."""

    def __init__(self, spec, net, seed, context=None):
        self.spec, self.net, self.context = spec, net, context
        self.dropout = any(l['type'] == 'Dropout' for l in spec['layers'])
        self.seed = seed
        self.n = 0

    def forward(self, params, data):
        from brainstorm.handlers import NumpyHandler
        net = self.net
        if self.dropout:      # the same units are dropped in every run
            net.set_handler(NumpyHandler(net.handler.dtype, seed=self.seed))
        nets.set_params(net, params)
        net.provide_external_data(data)
        net.forward_pass(training_pass=True, context=self.context)
        self.n += 1
        return net.get_loss_values()['total_loss']

    def gradients(self, params, data):
        f = self.forward(params, data)
        self.net.backward_pass()
        g = nets.get_grads(self.net)
        d = {}
        for k, i in self.spec['inputs'].items():
            if i['kind'] == 'real':
                d[k] = self.net.get('Input.output_deltas.' + k)
        return f, g, d


def directions(rng, shape, n_coord):
    out = []
    v = rng.randn(*shape)
    out.append(v / max(1e-30, np.linalg.norm(v)))
    size = nets.prod(shape)
    for _ in range(min(n_coord, size if size > 1 else 0)):
        e = np.zeros(size)
        e[rng.randint(size)] = 1.
        out.append(e.reshape(shape))
    return out


def fd(f, h):
    """derivative of f at 0 and an error estimate, or None near a kink."""
    f0 = f(0.0)
    for step in (h, h / 50):
        a, b, c, d = f(step), f(-step), f(step / 2), f(-step / 2)
        if not all(np.isfinite([f0, a, b, c, d])):
            return None
        D1, D2 = (a - b) / (2 * step), (c - d) / step
        j1 = (a - 2 * f0 + b) / step          # D+ - D-
        j2 = (c - 2 * f0 + d) / (step / 2)
        noise = 4e-15 * max(1., abs(f0)) / step
        if abs(D1 - D2) <= 1e-5 * abs(D2) + 1e-7 + noise and \
                abs(j1 - 2 * j2) <= 1e-4 * abs(D2) + 1e-6 + 8 * noise:
            return (4 * D2 - D1) / 3, abs(D1 - D2) + noise
    return None


def compare(ctx, run, params, data, g, d, rng, n_coord=2, h=1e-4, max_views=None, factor=None):
    types = {l['name']: l['type'] for l in run.spec['layers']}
    views = [('p', ln, pn) for ln in sorted(params) for pn in sorted(params[ln])
             if pn != 'timing' and not (types[ln] == 'BatchNorm' and pn in ('mu', 'sigma'))]
    views += [('i', 'Input', k) for k in sorted(d)]
    if max_views and len(views) > max_views:
        views = [views[i] for i in rng.permutation(len(views))[:max_views]]
    for kind, ln, pn in views:
        base = params[ln][pn] if kind == 'p' else data[pn]
        grad = g[ln][pn] if kind == 'p' else d[pn]
        what = '%s.%s' % (types.get(ln, 'Input'), pn if kind == 'p' else 'deltas')
        if not ctx.check(grad.shape == base.shape, 'gradient-shape:' + what, '%s', grad.shape):
            continue
        for v in directions(rng, base.shape, n_coord):
            def at(t):
                if kind == 'p':
                    p2 = dict(params)
                    p2[ln] = dict(params[ln])
                    p2[ln][pn] = base + t * v
                    return run.forward(p2, data)
                d2 = dict(data)
                d2[pn] = base + t * v
                return run.forward(params, d2)
            r = fd(at, h)
            if r is None:
                ctx.count('fd_skipped')
                continue
            D, err = r
            if factor is not None:
                D = D * factor(kind, ln)
            got = float((grad * v).sum())
            tol = 2e-5 * abs(D) + 1e-6 + 4 * err + 1e-6 * float(np.abs(grad).max())
            ctx.count('fd_compared')
            ctx.count('fd:%s' % (types.get(ln, 'Input')))
            if abs(D) > 1e-6:
                ctx.count('fd_nonzero')
                ctx.distinct(what, nets.signature(run.spec))
            ctx.check(abs(got - D) <= tol, 'gradient:%s' % what,
                      '%s of %s: backward pass gives %.9g, the loss changes at %.9g',
                      pn, ln, got, D)
    for ln in g:
        for pn in g[ln]:
            if pn == 'timing':
                ctx.check(not g[ln][pn].any(), 'gradient:timing', '%s', ln)
            if types.get(ln) == 'BatchNorm' and pn in ('mu', 'sigma'):
                ctx.check(not g[ln][pn].any(), 'gradient:BatchNorm.' + pn,
                          'running statistics get a gradient in %s', ln)


def repeat(ctx, run, params, data, g, d):
    """A second forward+backward gives the same gradients."""
    _, g2, d2 = run.gradients(params, data)
    if run.seed % 3 == 0:      # the backward pass alone repeated
        run.net.backward_pass()
        g2 = nets.get_grads(run.net)
        d2 = {k: run.net.get('Input.output_deltas.' + k) for k in d2}
    for ln in g:
        for pn in g[ln]:
            ctx.same(g2[ln][pn], g[ln][pn], 'repeat:parameter-gradient',
                     '%s.%s differs in the second pass' % (ln, pn))
    for k in d:
        ctx.same(d2[k], d[k], 'repeat:input-deltas', '%s differs in the second pass' % k)


def saturated(net, spec):
    """Is some cross entropy clipped (probability below 1e-6) in the last pass?"""
    for l in spec['layers']:
        if l['type'] not in ('SoftmaxCE', 'SigmoidCE', 'BinomialCrossEntropy'):
            continue
        t = net.get('Input.outputs.' + l['in']['targets'][0][1])
        if l['type'] == 'BinomialCrossEntropy':
            src, out = l['in']['default'][0]
            p = net.get('%s.outputs.%s' % (src, out))[:t.shape[0]]
        else:
            p = net.get(l['name'] + '.outputs.predictions')
        q = np.take_along_axis(p, t.astype(int), axis=-1) if l['type'] == 'SoftmaxCE' else \
            np.where(t > 0.5, p, 1 - p)
        if q.size and q.min() < 3e-6:
            return True
        if l['type'] == 'BinomialCrossEntropy' and (p * (1 - p)).min() < 3e-6:
            return True
    return False


def persistent(params, spec, rng):
    """Parameters with which recurrent layers remember over hundreds of steps."""
    for l in spec['layers']:
        p = params.get(l['name'], {})
        if l['type'] in ('Recurrent', 'Clockwork'):
            n = p['R'].shape[0]
            p['R'] = np.linalg.qr(rng.randn(n, n))[0] if l['type'] == 'Recurrent' else \
                0.999 * np.eye(n)
            p['W'] = 0.05 * p['W']
            p['bias'] = 0.002 * p['bias']
        elif l['type'] in ('Lstm', 'ClockworkLstm', 'LstmOpt'):
            p['bf'] = 8. + 0 * p['bf']
            p['bi'] = p['bi'] - 3.
            for k in ('Rf', 'Ri', 'Ro', 'Rz', 'pf'):
                if k in p:
                    p[k] = 0.1 * p[k]
    return params


def whole(ctx, spec, T, B, context=False, scale=1.0, pscale=0.6, tune=None, **kw):
    rng = ctx.rng
    net = nets.build(spec, np.float64, seed=1)
    params = nets.random_params(spec, net, rng, pscale)
    if tune:
        params = tune(params, spec, rng)
    data = nets.make_data(spec, rng, T, B, scale)
    state = None
    if context:
        nets.set_params(net, params)
        net.provide_external_data(nets.make_data(spec, rng, int(rng.randint(1, 4)), B))
        net.forward_pass(training_pass=True)
        if rng.rand() < 0.6:     # as in truncated backpropagation through time
            net.backward_pass()
            ctx.count('context_after_backward')
        state = net.get_context()
        ctx.count('context_runs')
    run = Runner(spec, net, int(rng.randint(1 << 30)), state)
    f, g, d = run.gradients(params, data)
    if not np.isfinite(f):
        ctx.fatal('non-finite-loss', '%r' % f)
    full = net.get('gradients')
    n = sum(a.size for l in g.values() for a in l.values())
    ctx.check(full.size == n, 'gradient-vector', '%s entries for %s gradients', full.size, n)
    sat = saturated(net, spec)
    repeat(ctx, run, params, data, g, d)
    if sat:
        ctx.count('saturated_cross_entropy_skipped')
        return
    compare(ctx, run, params, data, g, d, rng, **kw)
    ctx.sample = {'T': T, 'B': B, 'context': context, 'layers': nets.brief(spec), 'loss': f}


HEADS = ['SoftmaxCE', 'SigmoidCE', 'SquaredError', 'SquaredDifference', 'BinomialCrossEntropy',
         'L1Decay', 'L2Decay', 'plain']


def run_case(case, ctx):
    rng = ctx.rng
    fam = case['family']
    T, B = int(rng.randint(1, 5)), int(rng.randint(1, 4))
    if fam == 'net':
        spec = nets.random_spec(rng, max_layers=5)
        whole(ctx, spec, T, B, n_coord=1, max_views=10)
    elif fam == 'single':
        g = nets.Gen(rng, max_size=6)
        # a layer below, so that deltas have to pass through the layer under test
        what = c02.SINGLES[case['index'] % len(c02.SINGLES)]
        while what in ('DeltasScaling',):
            what = c02.SINGLES[rng.randint(len(c02.SINGLES))]
        if rng.rand() < 0.5:
            c02.single(g, what, rng)
        else:
            below(g, what, rng)
        whole(ctx, g.spec(), T, B, n_coord=2)
    elif fam == 'context':
        menu = dict((k, 0) for k in nets.DEFAULT_MENU)
        menu.update(fc=1, Recurrent=2, Lstm=3, fan_in=1, Elementwise=1, Clockwork=1,
                    ClockworkLstm=1)
        spec = nets.random_spec(rng, menu, max_layers=3)
        if case['index'] % 2:
            g = nets.Gen(rng)
            x = g.add_input('default', (g.size(),))
            g.recurrent(nets.recurrent_types()[(case['index'] // 2) % 4], x)
            g.head(mask=False)
            spec = g.spec()
        whole(ctx, spec, T, B, context=True, n_coord=2, max_views=18)
    elif fam == 'geometry':
        g = nets.Gen(rng)
        x = g.add_input('default', (int(rng.randint(1, 8)), int(rng.randint(1, 8)),
                                    int(rng.randint(1, 4))))
        for _ in range(int(rng.randint(1, 3))):
            x = g.tensors[-1]
            if rng.rand() < 0.5:
                k, s, p, o = c02.big_geometry(rng, x[2], pool=False)
                nf = int(rng.randint(1, 4))
                g.add('Convolution2D', {'default': [x]}, {'default': tuple(o) + (nf,)},
                      {'num_filters': nf, 'kernel_size': k, 'stride': s, 'padding': p,
                       'activation': g.act()})
            else:
                k, s, p, o = c02.big_geometry(rng, x[2], pool=True)
                g.add('Pooling2D', {'default': [x]}, {'default': tuple(o) + (x[2][2],)},
                      {'kernel_size': k, 'stride': s, 'padding': p,
                       'type': g.pick(['max', 'avg'])})
        if rng.rand() < 0.5:
            g.fc(g.tensors[-1], size=3)
        g.head(g.tensors[-1])
        whole(ctx, g.spec(), min(T, 2), min(B, 2), n_coord=3)
    elif fam == 'param_source':
        g = nets.Gen(rng)
        kind = ['FullyConnected', 'Recurrent', 'Lstm', 'Convolution2D', 'BatchNorm',
                'Clockwork', 'ClockworkLstm'][case['index'] % 7]
        if kind == 'Convolution2D':
            x = g.add_input('default', (4, 3, 2))
            g.conv(x)
            pn = g.pick(['W', 'bias'])
        elif kind == 'FullyConnected':
            g.fc(g.add_input('default', (3,)), size=4)
            pn = g.pick(['W', 'bias'])
        elif kind == 'BatchNorm':
            g.same_shape('BatchNorm', {}, src=g.add_input('default', (3,)))
            pn = g.pick(['gamma', 'beta'])
        else:
            g.recurrent(kind, g.add_input('default', (3,)), size=3)
            pn = g.pick(['Wz', 'Ri', 'pi', 'bf'] if 'stm' in kind else ['W', 'R', 'bias'])
        ln = g.layers[-1]['name']
        g.head(g.tensors[-1])
        g.add('Loss', {'default': [(ln, '..parameters.' + pn)]}, {'loss': (1,)},
              {'importance': float(g.pick([1., -0.7, 3.]))}, expose=())
        spec = g.spec()
        whole(ctx, spec, T, max(B, 2), n_coord=2)
        ctx.count('param_source_nets')
    elif fam == 'scaling':
        # everything below the scaling layer sees the scaled derivative
        g = nets.Gen(rng)
        x = g.add_input('default', (3,))
        a = g.fc(x, size=3)
        fac = float(g.pick([-1., 0.5, 0., 4.]))
        s = g.same_shape('DeltasScaling', {'factor': fac}, src=a)
        b = g.fc(s, size=2)
        g.head(b)
        whole(ctx, g.spec(), T, B, n_coord=2,
              factor=lambda kind, ln: fac if ln in (a[0], 'Input') else 1.0)
    elif fam == 'float32':
        g = None
        spec = nets.random_spec(rng, menu={'pool': 0, 'Dropout': 0, 'BatchNorm': 0},
                                acts=nets.SMOOTH, max_layers=4,
                                head_kinds=['SoftmaxCE', 'SigmoidCE', 'SquaredError',
                                            'SquaredDifference', 'L2Decay'])
        n64, n32 = nets.build(spec, np.float64), nets.build(spec, np.float32)
        P = nets.random_params(spec, n64, rng)
        P = {l: {k: v.astype(np.float32) for k, v in p.items()} for l, p in P.items()}
        data = nets.make_data(spec, rng, T, B, dtype=np.float32)
        r64, r32 = Runner(spec, n64, 1), Runner(spec, n32, 1)
        f64, g64, d64 = r64.gradients(P, data)
        f32, g32, d32 = r32.gradients(P, data)
        repeat(ctx, r32, P, data, g32, d32)
        allg = [np.abs(a).max() for p in g64.values() for a in p.values() if a.size] + \
            [np.abs(a).max() for a in d64.values()]
        scale = max([1e-3] + allg)
        for ln in g64:
            for pn in g64[ln]:
                ctx.close(g32[ln][pn], g64[ln][pn], 'float32-gradient', '%s.%s' % (ln, pn),
                          rtol=1e-3, atol=1e-3 * scale)
                ctx.check(g32[ln][pn].dtype == np.float32, 'gradient-dtype', '%s', ln)
        for k in d64:
            ctx.close(d32[k], d64[k], 'float32-deltas', k, rtol=1e-3, atol=1e-3 * scale)
        ctx.count('float32_nets')
        ctx.distinct('float32', nets.signature(spec))
    elif fam == 'big':
        menu = dict(Dropout=0)
        spec = nets.random_spec(rng, menu, max_size=24, max_layers=3,
                                images=bool(case['index'] % 2))
        whole(ctx, spec, int(rng.randint(5, 20)), int(rng.randint(4, 20)), pscale=0.3,
              n_coord=1, max_views=6)
    elif fam == 'long':
        # hundreds of time steps, with parameters that carry information that far
        g = nets.Gen(rng, acts=['linear', 'tanh'])
        x = g.add_input('default', (2,))
        kind = nets.recurrent_types()[case['index'] % len(nets.recurrent_types())]
        o = g.recurrent(kind, x, size=3)
        if rng.rand() < 0.3:
            o = g.recurrent('Recurrent', o, size=2)
        g.head(o, kind=g.pick(['SquaredError', 'SoftmaxCE', 'plain']), mask=False)
        T = int(rng.choice([60, 110, 140, 220, 300, 520]))
        ctx.count('long_runs')
        whole(ctx, g.spec(), T, int(rng.randint(1, 3)), pscale=0.5, tune=persistent, n_coord=2,
              max_views=8, scale=0.5)


def below(g, what, rng):
    """The layer `what` on top of other layers and with its output used twice."""
    x0 = g.add_input('default', (g.size(),))
    a = g.fc(x0, size=g.pick([1, 2, 3, [2, 2]]))
    if what in nets.recurrent_types():
        o = g.recurrent(what, a)
    elif what == 'FullyConnected':
        o = g.fc(a)
    elif what == 'BatchNorm':
        o = g.same_shape('BatchNorm', {'epsilon': 1e-2}, src=a)
    elif what == 'Dropout':
        o = g.same_shape('Dropout', {'drop_prob': float(g.pick([0.3, 0.5, 0.75]))}, src=a)
    elif what == 'Elementwise':
        o = g.elementwise(a)
    elif what == 'NoOp':
        o = g.same_shape('NoOp', src=a)
    elif what == 'Merge':
        o = g.merge()
    elif what == 'Highway':
        o = g.highway()
    elif what == 'Mask':
        o = g.masked(a)
    elif what == 'fan_in':
        g.fc(x0, size=2)
        g.recurrent('Lstm', x0)
        o = g.fan_in()
    elif what == 'Loss':
        g.head(a, kind='plain')
        g.head(a, kind='SquaredError')
        return
    else:
        g.head(a, kind=what)
        g.head(a, kind='L2Decay')
        return
    g.head(o)
    if rng.rand() < 0.6:
        g.fc(o, size=2)
        g.head(g.tensors[-1])


MIN_COUNTERS = {'context_after_backward': 60, 'long_runs': 20, 'fd_compared': 5000, 'fd_nonzero': 3000, 'context_runs': 50}
