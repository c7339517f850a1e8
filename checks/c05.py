"""C05: memory wiring of live networks.

Monitor: every buffer of a live network is filled with unique tokens and read back
through all other views: inputs must show exactly their producers' tokens, unconnected
buffers must keep their own, the full parameter/gradient vectors must be the gap-free
concatenation of the layers' parameters/gradients in one common order."""
import numpy as np

from vlib import nets

TECHNIQUE = 'runtime monitor: token writes through live buffer views (aliasing and wiring oracle)'
LEVEL_NOTE = ('Explores random architectures incl. arbitrary fan-in/fan-out, parameters as sources, '
              'sizes and resizes; every buffer of each network is observed by unique tokens.')
RULE = ('random architectures; all buffers are written with unique tokens and read through every '
        'other view, for several time/batch sizes and after handler changes. Distinct: wiring '
        'signature of accepted architectures.')
ASSUMPTIONS = ['an architecture that the library refuses with a validation error counts as not '
               'valid when it has overlapping fan-ins (not every demand can be laid out)']

CTX = 1  # recurrent outputs carry one extra row for the state


def families(tier):
    k = 3 if tier == 'quick' else 50
    return [('net', 700 * k), ('fan', 600 * k), ('param_source', 200 * k), ('fan_nd', 40 * k),
            ('resize', 200 * k), ('deep', 40 * k), ('passes', 250 * k)]


def tokens(counter, shape):
    n = nets.prod(shape)
    v = np.arange(counter[0], counter[0] + n, dtype=np.float64).reshape(shape)
    counter[0] += n
    return v


def source_buffers(net, spec):
    """All memory owning buffers: {(layer, category, name): array}."""
    res = {}
    for ln in ['Input'] + [l['name'] for l in spec['layers']]:
        b = net.buffer[ln]
        for cat in ('outputs', 'parameters', 'internals', 'output_deltas', 'gradients'):
            if cat in b:
                for n, a in b[cat].items():
                    res[(ln, cat, n)] = a
    return res


def src_key(src, out):
    """Buffer that a connection from (src, out) reads."""
    if out.startswith('..'):
        cat, n = out[2:].split('.')
        return (src, cat, n)
    return (src, 'outputs', out)


BACK = {'outputs': 'output_deltas', 'parameters': 'gradients'}


def check_wiring(ctx, net, spec, T, B, tag=''):
    c = [1]
    S = source_buffers(net, spec)
    rng = ctx.rng
    keys = sorted(S)
    # shapes
    for l in [{'name': 'Input', 'type': 'Input',
               'outs': {k: v['shape'] for k, v in spec['inputs'].items()}}] + spec['layers']:
        for o, f in l['outs'].items():
            rec = CTX if l['type'] in nets.recurrent_types() else 0
            want = (1,) if l['type'] == 'Loss' else (T + rec, B) + tuple(f)
            for cat in ('outputs', 'output_deltas'):
                k = (l['name'], cat, o)
                if not ctx.check(k in S, 'missing-buffer', '%s%s', tag, k):
                    continue
                ctx.check(tuple(S[k].shape) == want, 'shape:%s' % cat, '%s%s has %s, expected %s',
                          tag, k, S[k].shape, want)
        b = net.buffer[l['name']]
        if 'parameters' in b:
            ctx.check(sorted(b.parameters.keys()) == sorted(b.gradients.keys()), 'gradient-names',
                      '%s', l['name'])
            for pn, a in b.parameters.items():
                ctx.check(b.gradients[pn].shape == a.shape, 'shape:gradients', '%s%s.%s', tag,
                          l['name'], pn)
    # write unique tokens in random order, then nobody may have lost any
    val = {}
    for i in rng.permutation(len(keys)):
        k = keys[i]
        v = tokens(c, S[k].shape)
        val[k] = v
        S[k][...] = v
    ctx.count('tokens_written', c[0])
    lost = [k for k in keys if not np.array_equal(S[k], val[k])]
    ctx.check(not lost, 'overlapping-buffers', '%sT=%d B=%d buffers share memory with others: %s',
              tag, T, B, lost[:6])
    ctx.count('buffers_checked', len(keys))
    if lost:
        return
    # inputs read the producers, input deltas write to them
    for l in spec['layers']:
        for inp, srcs in l['in'].items():
            for cat in ('inputs', 'input_deltas'):
                view = net.buffer[l['name']][cat][inp]
                ks = []
                for s, o in srcs:
                    k = src_key(s, o)
                    if cat == 'input_deltas':
                        k = (k[0], BACK[k[1]], k[2])
                    if k not in ks:
                        ks.append(k)
                vals = [val[k] for k in ks]
                if vals[0].ndim >= 2 and ks[0][1] in ('outputs', 'output_deltas') and \
                        not typ_loss(spec, ks[0][0]):
                    vals = [v[:T] for v in vals]
                one_input(ctx, np.array(view), vals, l, inp, cat, ks, tag)
    # the full vectors
    order = {}
    for cat in ('parameters', 'gradients'):
        full = np.array(net.buffer[cat])
        ps = [k for k in keys if k[1] == cat]
        n = sum(val[k].size for k in ps)
        if not ctx.check(full.shape == (n,), 'full-vector:%s' % cat,
                         '%s%s has shape %s for %d values', tag, cat, full.shape, n):
            continue
        start = {}
        for k in ps:
            if val[k].size == 0:
                continue
            w = np.nonzero(full == val[k].ravel()[0])[0]
            ok = len(w) == 1 and np.array_equal(full[w[0]:w[0] + val[k].size], val[k].ravel())
            if ctx.check(ok, 'full-vector:%s' % cat, '%s%s is not one block of the vector', tag, k):
                start[(k[0], k[2])] = int(w[0])
            ctx.count('vector_blocks')
        order[cat] = start
        # and back: writing the vector changes the views
        if n:
            f2 = tokens(c, (n,))
            net.buffer[cat][...] = f2
            for k in ps:
                if (k[0], k[2]) in start and val[k].size:
                    a = start[(k[0], k[2])]
                    ctx.check(np.array_equal(np.ravel(S[k]), f2[a:a + val[k].size]),
                              'full-vector:%s' % cat, 'writing the vector does not reach %s', k)
    if len(order) == 2:
        ctx.check(order['parameters'] == order['gradients'], 'vector-order',
                  '%sparameters %s, gradients %s', tag, order['parameters'], order['gradients'])


def typ_loss(spec, name):
    return any(l['name'] == name and l['type'] == 'Loss' for l in spec['layers'])


def one_input(ctx, got, vals, l, inp, cat, ks, tag):
    key = 'wiring:%s' % cat
    msg = '%s%s.%s.%s does not show %s' % (tag, l['name'], cat, inp, ks)
    if len(vals) == 1:
        ctx.check(got.shape == vals[0].shape and np.array_equal(got, vals[0]), key, msg)
        ctx.count('connections_checked')
        return
    # several producers: in some order, each as one block of the last dimension
    total = sum(v.shape[-1] for v in vals)
    ok_shape = got.shape == vals[0].shape[:-1] + (total,)
    if not ctx.check(ok_shape, key, '%s: shape %s', msg, got.shape):
        return
    if not got.size:
        return
    firsts = [float(v.ravel()[0]) for v in vals]
    flat = got.reshape(got.shape[:2] + (-1,))
    pos = {float(x): i for i, x in enumerate(flat[0, 0].ravel())}
    if not all(f in pos for f in firsts):
        ctx.check(False, key, msg)
        return
    order = sorted(range(len(vals)), key=lambda i: pos[firsts[i]])
    want = np.concatenate([vals[i] for i in order], axis=-1)
    ctx.count('connections_checked', len(vals))
    if np.array_equal(got, want):
        ctx.count('fan_in_ok')
        return
    wflat = np.concatenate([vals[i].reshape(vals[i].shape[:2] + (-1,)) for i in order], axis=-1)
    if np.array_equal(flat, wflat):
        ctx.check(False, 'multi-dim-fan-in',
                  '%s: producers with several feature dimensions are concatenated flat, not along '
                  'the last dimension as the advertised shape says' % msg)
    else:
        ctx.check(False, key, msg)


def arbitrary_fan(rng, nd=False):
    """Layers fed by arbitrary, overlapping groups of sources."""
    g = nets.Gen(rng)
    base = ()
    if nd:
        base = [(2,), (2, 3), (1, 2), (3, 1)][rng.randint(4)]
    n = int(rng.randint(2, 5))
    for i in range(n):
        g.add_input('in%d' % i, base + (g.size(),))
    pool = list(g.tensors)
    for _ in range(int(rng.randint(1, 5))):
        if nd:
            if rng.rand() < 0.4 and len(base) == 2:
                src = pool[rng.randint(len(pool))]
                if len(src[2]) == 3:
                    pool.append(g.add('Convolution2D', {'default': [src]},
                                      {'default': base + (2,)},
                                      {'num_filters': 2, 'kernel_size': [1, 1],
                                       'activation': 'tanh'}))
                    continue
        elif rng.rand() < 0.3:
            src = pool[rng.randint(len(pool))]
            pool.append(g.recurrent(g.pick(['Recurrent', 'Lstm']), src) if rng.rand() < .5
                        else g.fc(src, size=g.size()))
            continue
        k = int(rng.randint(2, min(4, len(pool)) + 1))
        srcs = [pool[i] for i in rng.permutation(len(pool))[:k]]
        srcs = [s for s in srcs if s[2][:-1] == srcs[0][2][:-1]]
        tot = sum(s[2][-1] for s in srcs)
        shape = srcs[0][2][:-1] + (tot,)
        what = rng.randint(4)
        if what == 0:
            g.add('NoOp', {'default': srcs}, {'default': shape})
        elif what == 1:
            g.add('Elementwise', {'default': srcs}, {'default': shape}, {'activation': 'tanh'})
        elif what == 2:
            t = g.fc(srcs, size=g.size())
            if not nd:
                pool.append(t)
        else:
            g.add('Dropout', {'default': srcs}, {'default': shape}, {'drop_prob': 0.3})
    g.head(g.tensors[-1], kind='L2Decay', mask=False)
    return g.spec()


def can_lay_out(spec):
    """Is there an order of the sources in which every input's group is one block?"""
    import itertools
    groups = [frozenset(tuple(x) for x in srcs) for l in spec['layers']
              for srcs in l['in'].values()]
    groups = [g for g in set(groups) if len(g) > 1]
    left = list(groups)
    while left:
        comp = [left.pop()]
        srcs = set(comp[0])
        more = True
        while more:
            more = [g for g in left if g & srcs]
            for g in more:
                left.remove(g)
                comp.append(g)
                srcs |= g
        if len(srcs) > 8:
            return False       # too many to decide here
        for perm in itertools.permutations(sorted(srcs)):
            pos = {s: i for i, s in enumerate(perm)}
            if all(max(pos[s] for s in g) - min(pos[s] for s in g) == len(g) - 1 for g in comp):
                break
        else:
            return False
    return True


def run_case(case, ctx):
    import brainstorm as bs
    from brainstorm.utils import NetworkValidationError
    from brainstorm.handlers import NumpyHandler
    rng = ctx.rng
    fam = case['family']
    sizes = [(int(rng.randint(1, 6)), int(rng.randint(1, 5))) for _ in range(2)]
    if fam == 'fan':
        spec = arbitrary_fan(rng)
    elif fam == 'fan_nd':
        spec = arbitrary_fan(rng, nd=True)
    elif fam == 'deep':
        spec = nets.random_spec(rng, max_layers=25, max_size=9)
    elif fam == 'param_source':
        g = nets.Gen(rng)
        x = g.add_input('default', (g.size(),))
        made = []
        for _ in range(int(rng.randint(1, 4))):
            k = g.pick(['FullyConnected', 'Recurrent', 'Lstm'])
            t = g.fc(size=g.size()) if k == 'FullyConnected' else g.recurrent(k)
            made.append((t[0], {'FullyConnected': ['W', 'bias'], 'Recurrent': ['W', 'R', 'bias'],
                                'Lstm': ['Wz', 'Rf', 'po', 'bo', 'bz']}[k]))
        g.head(g.tensors[-1])
        for _ in range(int(rng.randint(1, 3))):
            n, ps = g.pick(made)
            g.add('Loss', {'default': [(n, '..parameters.' + g.pick(ps))]}, {'loss': (1,)},
                  {'importance': 0.5}, expose=())
        spec = g.spec()
    else:
        spec = nets.random_spec(rng, {'DeltasScaling': 1}, loss=rng.rand() > .1)
    try:
        net = bs.Network.from_architecture(nets.to_architecture(spec))
    except NetworkValidationError:
        if fam in ('fan', 'fan_nd'):
            ctx.count('layouts_refused')
            ctx.check(not can_lay_out(spec), 'layout-refused',
                      'an architecture that can be laid out was refused: %s', nets.brief(spec))
            return
        raise
    ctx.distinct(nets.signature(spec))
    net.set_handler(NumpyHandler(np.float64, seed=1))
    check_wiring(ctx, net, spec, 0, 0, 'before any data: ')
    if fam == 'resize':
        sizes = [(int(rng.randint(1, 9)), int(rng.randint(1, 9)))
                 for _ in range(int(rng.randint(3, 7)))]
    P = None
    for T, B in sizes:
        data = nets.make_data(spec, rng, T, B)
        if P is not None:
            nets.set_params(net, P)
            before = net.get('parameters')
        net.provide_external_data(data)
        if P is not None:
            ctx.same(net.get('parameters'), before, 'parameters-moved', 'after a resize')
        for k in data:
            ctx.same(np.array(net.buffer.Input.outputs[k]), data[k], 'input-buffer', k)
        if fam == 'passes':
            nets.set_params(net, nets.random_params(spec, net, rng))
            net.forward_pass(training_pass=True)
            net.backward_pass()
        check_wiring(ctx, net, spec, T, B)
        P = nets.random_params(spec, net, rng)
        nets.set_params(net, P)
        if fam == 'resize' and rng.rand() < 0.3:
            net.set_handler(NumpyHandler(np.float64, seed=2))
            for ln, ps in nets.get_params(net).items():
                for pn, v in ps.items():
                    ctx.same(v, P[ln][pn], 'parameters-moved', 'after set_handler')
            check_wiring(ctx, net, spec, 0, 0, 'after set_handler: ')
            nets.set_params(net, P)
        ctx.count('layouts_checked')
    ctx.sample = {'sizes': sizes, 'layers': nets.brief(spec)}


MIN_COUNTERS = {'connections_checked': 5000, 'fan_in_ok': 200, 'vector_blocks': 2000,
                'layouts_refused': 5}
