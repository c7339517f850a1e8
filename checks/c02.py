"""C02: layer outputs against an independent reference, inside live networks.

Monitor: after every forward pass, for every layer of the running network, the
outputs found in its buffers are compared with the reference function applied to
the outputs found in its producers' buffers (so rounding does not add up and the
wiring is observed as well)."""
import numpy as np

from vlib import nets, ref

TECHNIQUE = 'runtime monitor: live layer buffers vs an independent reference'
LEVEL_NOTE = 'Explores random networks, geometries, sizes, modes, histories; every live layer output is compared. Trusts the reference in vlib/ref.py, written from the definitions.'
RULE = ('random network specifications over all layer types, geometries, sizes, modes and '
        'precisions; each live layer output after each pass is compared with an independent '
        'reference applied to the live producer outputs. Distinct: layer type x settings x '
        'mode x precision x input shape actually compared.')
ASSUMPTIONS = ['rounding tolerance 1e-9 (float64), 2e-4 (float32) relative to the output scale',
               'inputs are finite; a pooling window that lies entirely in the padding gives 0',
               'cross-entropy losses are clipped at probability 1e-6, as the layers document in '
               'code']


def families(tier):
    k = 4 if tier == 'quick' else 60
    return [('net64', 900 * k), ('net32', 450 * k), ('geometry', 700 * k), ('big', 24 * k),
            ('extreme', 300 * k), ('bn_history', 150 * k), ('dropout_stats', 60 * k),
            ('single', 500 * k)]


def live(net, src, out, T):
    v = net.get('%s.outputs.%s' % (src, out)) if src != 'Input' else net.get_input(out)
    return v


def crop(v, l_shape, T, B):
    """Drop the context rows of recurrent outputs."""
    if v.ndim == len(l_shape) + 2 and v.shape[0] == T + 1:
        return v[:T]
    return v


def check_forward(ctx, net, spec, T, B, training, before, dtype, tag=''):
    """Compare every layer of net after a forward pass. before: params at pass start."""
    prec = '64' if dtype == np.float64 else '32'
    rt, at = (1e-9, 1e-9) if dtype == np.float64 else (2e-4, 2e-5)
    feat = {('Input', k): tuple(v['shape']) for k, v in spec['inputs'].items()}
    for l in spec['layers']:
        for o in l['outs']:
            feat[(l['name'], o)] = tuple(l['outs'][o])
    vals = {}
    for (s, o), f in feat.items():
        vals[(s, o)] = crop(live(net, s, o, T), f, T, B)
    after = nets.get_params(net)
    for l in spec['layers']:
        name, typ = l['name'], l['type']
        ins = {}
        for inp, srcs in l['in'].items():
            order = ref.fan_order(net, l, inp)
            arrs = [vals[s].astype(np.float64) for s in order]
            ins[inp] = arrs[0] if len(arrs) == 1 else np.concatenate(arrs, axis=-1)
            if len(arrs) > 1:
                ctx.count('fan_in_checks')
        P = {k: v.astype(np.float64) for k, v in before.get(name, {}).items()}
        aux = {}
        got = {o: vals[(name, o)].astype(np.float64) for o in l['outs']}
        for o in l['outs']:
            want_shape = ((1,) if typ == 'Loss' else (T, B) + tuple(l['outs'][o]))
            if not ctx.check(got[o].shape == want_shape, 'shape:%s' % typ,
                             '%s.%s has shape %s, expected %s', name, o, got[o].shape,
                             want_shape):
                return
            ctx.check(vals[(name, o)].dtype == dtype, 'dtype:%s' % typ,
                      '%s.%s has dtype %s', name, o, vals[(name, o)].dtype)
        if typ == 'Dropout' and training:
            aux['mask'] = (got['default'] != 0).astype(float)
        if 'targets' in ins and 'predictions' in got and typ in ('SoftmaxCE', 'SigmoidCE'):
            # the loss is judged against the predictions really made
            w, _ = ref.layer(l, ins, P, training, aux)
            p = got['predictions']
            t = ins['targets']
            if typ == 'SoftmaxCE':
                q = np.take_along_axis(p, t.astype(int), axis=-1)
                w['loss'] = -np.log(np.clip(q, ref.LO, 1))
            else:
                w['loss'] = -(t * np.log(np.clip(p, ref.LO, 1)) +
                              (1 - t) * np.log(np.clip(1 - p, ref.LO, 1)))
            want, upd = w, {}
        else:
            want, upd = ref.layer(l, ins, P, training, aux)
        for o in l['outs']:
            scale = max(1.0, float(np.abs(want[o]).max())) if want[o].size else 1.0
            if typ in ('Lstm', 'Recurrent', 'Clockwork', 'ClockworkLstm', 'FullyConnected',
                       'Convolution2D', 'Loss', 'L1Decay', 'L2Decay', 'BinomialCrossEntropy'):
                big = max([scale] + [float(np.abs(a).max()) for a in ins.values() if a.size])
                scale = max(scale, big if dtype == np.float32 else scale)
            ctx.close(got[o], want[o], 'forward:%s.%s' % (typ, o),
                      '%s%s (%s) %s mode, T=%d B=%d %s' % (
                          tag, name, l['kwargs'], 'training' if training else 'evaluation',
                          T, B, prec), rtol=rt, atol=at * scale)
            ctx.count('outputs_compared')
            ctx.count('out:%s' % typ)
        kw = l['kwargs']
        ctx.distinct(typ, sorted(kw.items()), training, prec,
                     sorted((k, v.shape) for k, v in ins.items()))
        # parameters: only running statistics may move, and only in training mode
        for pn in before.get(name, {}):
            if pn in upd:
                ctx.close(after[name][pn], upd[pn], 'running-stat:%s.%s' % (typ, pn),
                          'T=%d B=%d' % (T, B), rtol=rt, atol=max(at, 1e-9) * 10)
                ctx.count('running_stats_compared')
            else:
                ctx.same(after[name][pn], before[name][pn], 'parameter-changed:%s.%s' % (typ, pn),
                         'parameter of %s changed by a forward pass' % name)
    # reported losses
    losses = net.get_loss_values()
    ll = [l['name'] for l in spec['layers'] if l['type'] == 'Loss']
    each = {n: float(vals[(n, 'loss')][0]) for n in ll}
    odd = {k: type(v) for k, v in losses.items() if isinstance(v, np.ndarray) or not np.isscalar(v)}
    ctx.check(not odd, 'loss-type', 'losses are numbers, but %s', odd)
    if len(ll) == 1:
        ctx.check(set(losses) == {'total_loss'}, 'loss-names', '%s', list(losses))
    else:
        ctx.check(set(losses) == {'total_loss'} | set(ll), 'loss-names', '%s', list(losses))
        for n in ll:
            if n in losses:
                ctx.close(losses[n], each[n], 'loss-values', n)
    if 'total_loss' in losses:
        ctx.close(losses['total_loss'], sum(each.values()), 'total-loss', '%s' % each,
                  rtol=1e-6 if dtype == np.float32 else 1e-12,
                  atol=1e-5 if dtype == np.float32 else 1e-11)


def run_net(ctx, spec, T, B, training, dtype, scale=1.0, pscale=0.6, passes=1):
    rng = ctx.rng
    net = nets.build(spec, dtype, seed=int(rng.randint(1 << 30)))
    nets.set_params(net, nets.random_params(spec, net, rng, pscale))
    for i in range(passes):
        data = nets.make_data(spec, rng, T, B, scale)
        before = nets.get_params(net)
        net.provide_external_data(data)
        net.forward_pass(training_pass=training)
        for k in data:
            ctx.same(net.get_input(k), data[k].astype(dtype), 'input-data',
                     'input %s after the pass' % k)
        check_forward(ctx, net, spec, T, B, training, before, dtype)
        ctx.count('passes')
    ctx.sample = {'T': T, 'B': B, 'training': training, 'layers': nets.brief(spec)}
    return net


SINGLES = ['FullyConnected', 'Recurrent', 'Lstm', 'Clockwork', 'ClockworkLstm', 'BatchNorm',
           'Dropout', 'Elementwise', 'NoOp', 'Merge', 'Highway', 'Mask', 'SoftmaxCE',
           'SigmoidCE', 'SquaredError', 'SquaredDifference', 'BinomialCrossEntropy',
           'L1Decay', 'L2Decay', 'DeltasScaling', 'fan_in', 'Loss']


def single(g, what, rng):
    shape = [(1,), (2,), (7,), (2, 3), (3, 2, 2), (1, 1, 1), (5, 1)][rng.randint(7)]
    x = g.add_input('default', shape)
    if what == 'FullyConnected':
        n = g.fc(x)
        if rng.rand() < 0.3:    # defaults
            kw = g.layers[-1]['kwargs']
            if rng.rand() < 0.5:
                kw.pop('size')
                g.layers[-1]['outs']['default'] = list(shape)
                g.tensors[-1] = g.tensors[-1][:2] + (shape,) + g.tensors[-1][3:]
            if rng.rand() < 0.5:
                kw.pop('activation')
    elif what in nets.recurrent_types():
        g.recurrent(what, x)
        if rng.rand() < 0.2:
            g.layers[-1]['kwargs'].pop('size')
            g.layers[-1]['outs']['default'] = [nets.prod(shape)]
            g.tensors[-1] = g.tensors[-1][:2] + ((nets.prod(shape),),) + g.tensors[-1][3:]
        if rng.rand() < 0.2:
            g.layers[-1]['kwargs'].pop('activation')
    elif what == 'BatchNorm':
        g.same_shape('BatchNorm', {'decay': float(rng.rand())} if rng.rand() < .8 else {}, src=x)
    elif what == 'Dropout':
        g.same_shape('Dropout', {'drop_prob': float(rng.rand() * .9)}, src=x)
    elif what == 'Elementwise':
        g.elementwise(x)
    elif what == 'NoOp':
        g.same_shape('NoOp', src=x)
    elif what == 'DeltasScaling':
        g.same_shape('DeltasScaling', {'factor': -2.0}, src=x)
    elif what == 'Merge':
        g.add_input('b', shape[:-1] + (int(rng.randint(1, 4)),))
        g.merge()
    elif what == 'Highway':
        a, b = g.add_input('h', shape), g.add_input('t', shape)
        g.add('Highway', {'x': [x], 'H': [a], 'T': [b]}, {'default': shape})
    elif what == 'Mask':
        g.masked(x)
    elif what == 'fan_in':
        g2 = g.add_input('v1', (3,))
        g3 = g.add_input('v2', (2,))
        g4 = g.recurrent('Recurrent', g2)
        g.conflicting([g3, g4])
        srcs = [[g3, g4], [g4, g3]][rng.randint(2)]
        k = ['FullyConnected', 'Recurrent', 'Lstm'][rng.randint(3)]
        if k == 'FullyConnected':
            g.fc(srcs, size=2)
        else:
            g.recurrent(k, srcs)
    elif what == 'Loss':
        g.head(x, kind='plain', mask=False)
        return
    else:
        g.head(x, kind=what)
        return
    g.head()


def run_case(case, ctx):
    rng = ctx.rng
    fam = case['family']
    dtype = np.float32 if fam == 'net32' or rng.rand() < 0.2 else np.float64
    if fam == 'net64':
        dtype = np.float64
    training = bool(rng.randint(2))
    T, B = int(rng.randint(1, 6)), int(rng.randint(1, 5))
    if fam in ('net64', 'net32'):
        spec = nets.random_spec(rng, menu={'DeltasScaling': 1})
        run_net(ctx, spec, T, B, training, dtype, passes=int(rng.randint(1, 3)),
                scale=float([1, 1, 0.1, 3][rng.randint(4)]))
    elif fam == 'single':
        g = nets.Gen(rng, max_size=8)
        single(g, SINGLES[case['index'] % len(SINGLES)], rng)
        run_net(ctx, g.spec(), T, B, training, dtype, passes=2,
                scale=float([1, 1, 0.1, 4][rng.randint(4)]))
    elif fam == 'geometry':
        g = nets.Gen(rng)
        h, w, c = int(rng.randint(1, 13)), int(rng.randint(1, 13)), int(rng.randint(1, 5))
        x = g.add_input('default', (h, w, c))
        for _ in range(int(rng.randint(1, 3))):
            x = g.tensors[-1]
            k, s, p, o = big_geometry(rng, x[2], pool=False)
            if rng.rand() < 0.5:
                nf = int(rng.randint(1, 6))
                g.add('Convolution2D', {'default': [x]}, {'default': tuple(o) + (nf,)},
                      {'num_filters': nf, 'kernel_size': k, 'stride': s, 'padding': p,
                       'activation': g.act()})
            else:
                k, s, p, o = big_geometry(rng, x[2], pool=True)
                g.add('Pooling2D', {'default': [x]}, {'default': tuple(o) + (x[2][2],)},
                      {'kernel_size': k, 'stride': s, 'padding': p,
                       'type': g.pick(['max', 'avg'])})
        g.head()
        run_net(ctx, g.spec(), min(T, 3), min(B, 3), training, dtype)
    elif fam == 'big':
        menu = [dict(fc=3, Recurrent=2, Lstm=2, Clockwork=1, ClockworkLstm=1, conv=0, pool=0),
                dict(conv=3, pool=3, BatchNorm=1)][case['index'] % 2]
        spec = nets.random_spec(rng, menu, max_size=int(rng.randint(20, 70)), max_layers=3)
        run_net(ctx, spec, int(rng.randint(8, 40)), int(rng.randint(8, 70)), training, dtype,
                pscale=0.3)
    elif fam == 'extreme':
        g = nets.Gen(rng, acts=nets.ACTS)
        n = int(rng.randint(1, 6))
        x = g.add_input('default', (n,))
        what = ['act', 'SoftmaxCE', 'SigmoidCE', 'rnn', 'Lstm'][case['index'] % 5]
        if what == 'act':
            g.elementwise(x)
            g.head(kind='L1Decay', mask=False)
        elif what == 'rnn':
            g.acts = ['tanh', 'sigmoid']
            g.recurrent(g.pick(['Recurrent', 'Clockwork']), x)
            g.head(kind='SoftmaxCE')
        elif what == 'Lstm':
            g.acts = ['tanh', 'sigmoid']
            g.recurrent(g.pick(['Lstm', 'ClockworkLstm']), x)
            g.head(kind='SoftmaxCE')
        else:
            g.head(x, kind=what)
        top = 30 if dtype == np.float32 else 250
        if what == 'act':
            top = 25 if dtype == np.float32 else 200
        scale = 10.0 ** rng.uniform(1, top)
        spec = g.spec()
        net = nets.build(spec, dtype, seed=1)
        nets.set_params(net, nets.random_params(spec, net, rng))
        before = nets.get_params(net)
        data = nets.make_data(spec, rng, T, B, scale)
        data['default'][rng.rand(*data['default'].shape) < 0.3] /= scale
        net.provide_external_data(data)
        net.forward_pass(training_pass=training)
        outs = nets.outputs(net, spec)
        for k in outs:
            ctx.check(bool(np.isfinite(outs[k]).all()), 'non-finite:%s' % (
                [l['type'] + '/' + str(l['kwargs'].get('activation', ''))
                 for l in spec['layers'] if l['name'] == k[0]][0]),
                      'finite inputs of magnitude %g give non-finite %s', scale, k)
        check_forward(ctx, net, spec, T, B, training, before, dtype, 'extreme ')
        ctx.count('extreme_passes')
        ctx.sample = {'scale': scale, 'layers': nets.brief(spec)}
    elif fam == 'bn_history':
        g = nets.Gen(rng)
        shape = [(1,), (4,), (3, 2, 3), (2, 2)][rng.randint(4)]
        x = g.add_input('default', shape)
        for _ in range(int(rng.randint(1, 3))):
            x = g.same_shape('BatchNorm', {'decay': float([0.9, 0.5, 0., 1., 0.99][rng.randint(5)]),
                                           'epsilon': float([1e-5, 1e-2][rng.randint(2)])}, src=x)
        g.head(x, kind='SquaredError', mask=False)
        spec = g.spec()
        net = nets.build(spec, dtype, seed=1)
        nets.set_params(net, nets.random_params(spec, net, rng))
        for i in range(int(rng.randint(3, 12))):
            tr = bool(rng.rand() < 0.6)
            T, B = int(rng.randint(1, 5)), int(rng.randint(1, 5))
            if T * B == 1:
                B = 2
            data = nets.make_data(spec, rng, T, B, float(10 ** rng.uniform(-1, 2)))
            data['default'] += rng.randn() * 3
            before = nets.get_params(net)
            net.provide_external_data(data)
            net.forward_pass(training_pass=tr)
            check_forward(ctx, net, spec, T, B, tr, before, dtype, 'step %d ' % i)
            if tr and rng.rand() < 0.5:
                net.backward_pass()
            ctx.count('bn_steps')
    elif fam == 'dropout_stats':
        g = nets.Gen(rng)
        x = g.add_input('default', (int(rng.randint(5, 40)),))
        p = float([0.05, 0.2, 0.5, 0.7, 0.95, 0.0][rng.randint(6)])
        g.same_shape('Dropout', {'drop_prob': p}, src=x)
        g.head(kind='L1Decay', mask=False)
        spec = g.spec()
        T, B = 20, 30
        net = nets.build(spec, dtype, seed=int(rng.randint(1 << 30)))
        data = nets.make_data(spec, rng, T, B)
        data['default'] = np.abs(data['default']) + 0.5
        keeps = []
        for i in range(3):
            net.provide_external_data(data)
            net.forward_pass(training_pass=True)
            out = net.get(spec['layers'][0]['name'] + '.outputs.default')
            check_forward(ctx, net, spec, T, B, True, {}, dtype)
            keeps.append(out != 0)
        n = keeps[0].size
        sd = np.sqrt(p * (1 - p) / n)
        for k in keeps:
            ctx.check(abs(k.mean() - (1 - p)) <= 7 * sd + 1e-12, 'dropout-rate',
                      'kept fraction %g with drop probability %g (n=%d)', k.mean(), p, n)
            for ax in range(3):
                other = tuple(a for a in range(3) if a != ax)
                m = k.shape[ax]
                dev = np.abs(k.mean(axis=other) - (1 - p)).max()
                ctx.check(dev <= 8 * np.sqrt(p * (1 - p) / (n // m)) + 1e-12,
                          'dropout-independence', 'axis %d deviates by %g', ax, dev)
                z = np.moveaxis(k, ax, 0).reshape(m, -1)
                i, j = rng.permutation(m)[:2]
                both = (z[i] & z[j]).mean()
                q = (1 - p) ** 2
                ctx.check(abs(both - q) <= 8 * np.sqrt(q * (1 - q) / z.shape[1]) + 4. / z.shape[1],
                          'dropout-independence', 'entries %d and %d along axis %d are kept together with rate %g', i, j, ax, both)
        if 0.04 < p:
            ctx.check((keeps[0] != keeps[1]).any(), 'dropout-fresh-mask',
                      'the same units were dropped in two passes')
        ctx.count('dropout_masks', 3)


def big_geometry(rng, shape, pool):
    for _ in range(100):
        k = [int(rng.randint(1, 8)) for _ in range(2)]
        s = [int(rng.randint(1, 6)) for _ in range(2)]
        p = int(rng.randint(0, 4)) if not pool or rng.rand() < .2 else int(rng.randint(0, min(k)))
        if shape[0] + 2 * p >= k[0] and shape[1] + 2 * p >= k[1]:
            o = [(shape[i] + 2 * p - k[i]) // s[i] + 1 for i in range(2)]
            return k, s, p, o
    return [1, 1], [1, 1], 0, list(shape[:2])


MIN_COUNTERS = {'outputs_compared': 2000, 'fan_in_checks': 20, 'running_stats_compared': 100}
