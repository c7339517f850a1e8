"""Random network specifications, and building/feeding networks from them.

A specification is plain data:
  {'inputs': {name: {'shape': [features...], 'kind': kind, ...}},
   'layers': [{'name','type','kwargs','in': {input: [[src, out], ...]},
               'outs': {out: [features...]}}, ...]}      (in dependency order)
Only public constructors and dictionaries of brainstorm are used to build it.
"""
import numpy as np

ACTS = ['tanh', 'sigmoid', 'rel', 'linear', 'el']
SMOOTH = ['tanh', 'sigmoid', 'linear']


def prod(s):
    p = 1
    for x in s:
        p *= int(x)
    return p


class Gen(object):
    """Grows a specification layer by layer."""

    def __init__(self, rng, acts=None, max_size=5):
        self.rng = rng
        self.acts = acts or ACTS
        self.max_size = max_size
        self.inputs = {}
        self.layers = []
        self.tensors = []      # (src, out, shape, prob)
        self.names = set()
        self.n_targets = 0
        self.uses = {}

    # -- small helpers -------------------------------------------------------
    def pick(self, seq):
        return seq[self.rng.randint(len(seq))]

    def size(self):
        return int(self.rng.randint(1, self.max_size + 1))

    def act(self):
        return self.pick(self.acts)

    def fresh(self, base):
        # names whose sort order is unrelated to the order of creation
        while True:
            n = '%s_%s%d' % (self.pick(['a', 'B', 'z', 'm', 'K', 'L1_x', 'q9']), base,
                             self.rng.randint(100))
            if n not in self.names:
                self.names.add(n)
                return n

    def add_input(self, name, shape, kind='real', **kw):
        self.inputs[name] = dict(shape=[int(s) for s in shape], kind=kind, **kw)
        if kind == 'real':
            self.tensors.append((u'Input', name, tuple(shape), False))
        return (u'Input', name, tuple(shape), False)

    def add(self, type_, ins, outs, kwargs=None, name=None, expose=('default',), prob=False):
        name = name or self.fresh(type_[:4])
        self.names.add(name)
        node = {'name': name, 'type': type_, 'kwargs': kwargs or {},
                'in': {k: [[t[0], t[1]] for t in v] for k, v in ins.items()},
                'outs': {k: [int(x) for x in s] for k, s in outs.items()}}
        self.layers.append(node)
        res = None
        for o in outs:
            t = (name, o, tuple(outs[o]), prob)
            if o in expose:
                self.tensors.append(t)
            if res is None or o in expose:
                res = t
        return res

    def some(self, pred=lambda t: True, recent=True):
        c = [t for t in self.tensors if pred(t)]
        if not c:
            return None
        if recent and self.rng.rand() < 0.6:
            return c[-1]
        return self.pick(c)

    # -- layers --------------------------------------------------------------
    def fc(self, src=None, size=None, act=None, name=None):
        src = src or self.some()
        srcs = src if isinstance(src, list) else [src]
        if size is None:
            size = self.size()
            if self.rng.rand() < 0.15:
                size = [self.size(), self.size()]
        shape = (size,) if isinstance(size, int) else tuple(size)
        act = act or self.act()
        return self.add('FullyConnected', {'default': srcs}, {'default': shape},
                        {'size': size, 'activation': act}, name, prob=(act == 'sigmoid'))

    def recurrent(self, kind, src=None, size=None, act=None):
        src = src or self.some()
        srcs = src if isinstance(src, list) else [src]
        size = size or self.size()
        return self.add(kind, {'default': srcs}, {'default': (size,)},
                        {'size': size, 'activation': act or self.act()})

    def fan_in(self, kind=None):
        """A layer whose input collects several vector tensors."""
        vec = [t for t in self.tensors if len(t[2]) == 1]
        if len(vec) < 2:
            return self.fc()
        k = min(len(vec), int(self.rng.randint(2, 4)))
        idx = self.rng.permutation(len(vec))[:k]
        srcs = [vec[i] for i in idx]
        if self.conflicting(srcs):
            return self.fc()
        kind = kind or self.pick(['FullyConnected', 'FullyConnected', 'Recurrent', 'Lstm'])
        if kind == 'FullyConnected':
            return self.fc(srcs, size=self.size())
        return self.recurrent(kind, srcs)

    def conflicting(self, srcs):
        """Fan-ins are kept nested or disjoint: a source set is used at most
        once as a group, and no source takes part in two different groups (not
        every overlapping demand can be laid out in memory)."""
        keys = [(s[0], s[1]) for s in srcs]
        for g in getattr(self, 'groups', []):
            if set(g) & set(keys):
                return True
        self.groups = getattr(self, 'groups', []) + [keys]
        return False

    def elementwise(self, src=None):
        src = src or self.some()
        act = self.act()
        return self.add('Elementwise', {'default': [src]}, {'default': src[2]},
                        {'activation': act}, prob=(act == 'sigmoid'))

    def same_shape(self, type_, kwargs=None, src=None):
        src = src or self.some()
        return self.add(type_, {'default': [src]}, {'default': src[2]}, kwargs,
                        prob=(src[3] and type_ == 'NoOp'))

    def merge(self):
        a = self.some(recent=False)
        c = [t for t in self.tensors if t[2][:-1] == a[2][:-1]]
        b = self.pick(c)
        shape = a[2][:-1] + (a[2][-1] + b[2][-1],)
        return self.add('Merge', {'inputs_1': [a], 'inputs_2': [b]}, {'default': shape})

    def highway(self):
        x = self.some(lambda t: prod(t[2]) <= 30)
        if x is None:
            return self.fc()
        size = list(x[2]) if len(x[2]) > 1 else int(x[2][0])
        h = self.fc(x, size=size)
        t = self.fc(x, size=size, act='sigmoid')
        return self.add('Highway', {'x': [x], 'H': [h], 'T': [t]}, {'default': x[2]})

    def masked(self, src=None, mask_shape=None):
        src = src or self.some()
        if mask_shape is None:
            mask_shape = self.pick([(1,), src[2][:-1] + (1,), src[2]])
        key = 'mask_%s' % 'x'.join(map(str, mask_shape))
        if key not in self.inputs:
            self.add_input(key, mask_shape, 'mask')
        m = (u'Input', key, tuple(mask_shape), False)
        return self.add('Mask', {'default': [src], 'mask': [m]}, {'default': src[2]})

    def image(self):
        c = [t for t in self.tensors if len(t[2]) == 3]
        return self.pick(c) if c else None

    def geometry(self, shape, pool=False, big=False):
        for _ in range(60):
            k = [int(self.rng.randint(1, 4 if not big else 6)) for _ in range(2)]
            s = [int(self.rng.randint(1, 4)) for _ in range(2)]
            p = int(self.rng.randint(0, 3))
            if pool and p >= min(k) and self.rng.rand() < .7:
                p = int(self.rng.randint(0, min(k)))
            o = [(shape[i] + 2 * p - k[i]) // s[i] + 1 for i in range(2)]
            if min(o) >= 1 and shape[0] + 2 * p >= k[0] and shape[1] + 2 * p >= k[1]:
                return k, s, p, o
        return [1, 1], [1, 1], 0, list(shape[:2])

    def conv(self, src=None):
        src = src or self.image()
        if src is None:
            return self.fc()
        k, s, p, o = self.geometry(src[2])
        nf = int(self.rng.randint(1, 4))
        return self.add('Convolution2D', {'default': [src]}, {'default': tuple(o) + (nf,)},
                        {'num_filters': nf, 'kernel_size': k, 'stride': s, 'padding': p,
                         'activation': self.act()})

    def pool(self, src=None, ptype=None):
        src = src or self.image()
        if src is None:
            return self.fc()
        k, s, p, o = self.geometry(src[2], pool=True)
        return self.add('Pooling2D', {'default': [src]}, {'default': tuple(o) + (src[2][2],)},
                        {'kernel_size': k, 'stride': s, 'padding': p,
                         'type': ptype or self.pick(['max', 'avg'])})

    # -- loss heads ----------------------------------------------------------
    def target(self, shape, kind, **kw):
        self.n_targets += 1
        name = 'tgt%d' % self.n_targets
        self.inputs[name] = dict(shape=[int(x) for x in shape], kind=kind, **kw)
        return (u'Input', name, tuple(shape), False)

    def head(self, src=None, kind=None, importance=None, mask=None):
        src = src or self.some()
        kind = kind or self.pick(['SoftmaxCE', 'SigmoidCE', 'SquaredError', 'SquaredDifference',
                                  'BinomialCrossEntropy', 'L1Decay', 'L2Decay', 'plain'])
        if kind == 'SoftmaxCE':
            t = self.target(src[2][:-1] + (1,), 'class', n=int(src[2][-1]))
            loss = self.add(kind, {'default': [src], 'targets': [t]},
                            {'predictions': src[2], 'loss': t[2]}, expose=())
            loss = (loss[0], 'loss', t[2], False)
        elif kind in ('SigmoidCE', 'SquaredError'):
            t = self.target(src[2], 'binary' if kind == 'SigmoidCE' else 'value')
            loss = self.add(kind, {'default': [src], 'targets': [t]},
                            {'predictions': src[2], 'loss': src[2]}, expose=())
            loss = (loss[0], 'loss', src[2], False)
        elif kind == 'SquaredDifference':
            same = [t for t in self.tensors if t[2] == src[2] and t[:2] != src[:2]]
            t = self.pick(same) if same and self.rng.rand() < 0.5 else \
                self.target(src[2], 'value')
            loss = self.add(kind, {'inputs_1': [src], 'inputs_2': [t]}, {'default': src[2]},
                            expose=())
        elif kind == 'BinomialCrossEntropy':
            if not src[3]:
                src = self.fc(src, size=self.size(), act='sigmoid')
            t = self.target(src[2], 'binary')
            loss = self.add(kind, {'default': [src], 'targets': [t]}, {'default': (1,)},
                            expose=())
        elif kind in ('L1Decay', 'L2Decay'):
            loss = self.add(kind, {'default': [src]}, {'loss': (1,)}, expose=())
        else:
            loss = src
        if mask is None:
            mask = self.rng.rand() < 0.3
        if mask:
            loss = self.masked(loss)
        if importance is None:
            importance = self.pick([1.0, 1.0, 0.5, 2.5, -1.5, 0.0])
        return self.add('Loss', {'default': [loss]}, {'loss': (1,)},
                        {'importance': importance}, expose=())

    def spec(self):
        return {'inputs': self.inputs, 'layers': self.layers}


DEFAULT_MENU = {
    'fc': 4, 'Recurrent': 2, 'Lstm': 2, 'Clockwork': 1, 'ClockworkLstm': 1, 'conv': 3, 'pool': 3,
    'BatchNorm': 1, 'Dropout': 1, 'Elementwise': 2, 'NoOp': 1, 'merge': 2, 'highway': 1,
    'mask': 1, 'fan_in': 2, 'DeltasScaling': 0,
}


def random_spec(rng, menu=None, n_hidden=None, acts=None, images=None, heads=None,
                max_size=5, max_layers=6, head_kinds=None, loss=True):
    m = dict(DEFAULT_MENU)
    m.update(menu or {})
    g = Gen(rng, acts, max_size)
    n_in = int(rng.randint(1, 4))
    if images is None:
        images = rng.rand() < 0.4
    if not (m['conv'] or m['pool']):
        images = False
    for i in range(n_in):
        name = ['default', 'x2', 'extra'][i]
        if images and i == 0:
            g.add_input(name, (rng.randint(1, 7), rng.randint(1, 7), rng.randint(1, 4)))
        elif rng.rand() < 0.15:
            g.add_input(name, (rng.randint(1, 4), rng.randint(1, 4)))
        else:
            g.add_input(name, (g.size(),))
    keys = [k for k in sorted(m) if m[k] > 0]
    if not images:
        keys = [k for k in keys if k not in ('conv', 'pool')]
    w = np.array([m[k] for k in keys], dtype=float)
    if images:
        w *= [3. if k in ('conv', 'pool') else 1. for k in keys]
    w /= w.sum()
    n = int(rng.randint(1, max_layers + 1)) if n_hidden is None else n_hidden
    for _ in range(n):
        k = keys[int(rng.choice(len(keys), p=w))]
        if k == 'fc':
            g.fc()
        elif k in ('Recurrent', 'Lstm', 'Clockwork', 'ClockworkLstm'):
            src = g.some(lambda t: prod(t[2]) <= 60)
            if src is not None:
                g.recurrent(k, src)
        elif k == 'conv':
            g.conv()
        elif k == 'pool':
            g.pool()
        elif k == 'BatchNorm':
            g.same_shape('BatchNorm', {'decay': float(g.pick([0.9, 0.5, 0.0, 1.0, 0.99])),
                                       'epsilon': float(g.pick([1e-5, 1e-3]))})
        elif k == 'Dropout':
            g.same_shape('Dropout', {'drop_prob': float(g.pick([0.0, 0.25, 0.5, 0.8]))})
        elif k == 'Elementwise':
            g.elementwise()
        elif k == 'NoOp':
            g.same_shape('NoOp')
        elif k == 'DeltasScaling':
            g.same_shape('DeltasScaling', {'factor': float(g.pick([-1., .5, 2., 0.]))})
        elif k == 'merge':
            g.merge()
        elif k == 'highway':
            g.highway()
        elif k == 'mask':
            g.masked()
        elif k == 'fan_in':
            g.fan_in()
    if loss:
        for _ in range(int(rng.randint(1, 3)) if heads is None else heads):
            g.head(kind=None if head_kinds is None else g.pick(head_kinds))
    return g.spec()


def used_inputs(spec):
    used = set()
    for l in spec['layers']:
        for srcs in l['in'].values():
            used.update(o for s, o in srcs if s == 'Input')
    return used


def to_architecture(spec):
    arch = {'Input': {'@type': 'Input',
                      'out_shapes': {k: ['T', 'B'] + list(v['shape'])
                                     for k, v in spec['inputs'].items()},
                      '@outgoing_connections': {}}}
    for l in spec['layers']:
        d = {'@type': l['type'], '@outgoing_connections': {}}
        d.update(l['kwargs'])
        arch[l['name']] = d
    for l in spec['layers']:
        for inp in sorted(l['in']):
            for src, out in l['in'][inp]:
                arch[src]['@outgoing_connections'].setdefault(out, []).append(
                    l['name'] + '.' + inp)
    return arch


def build(spec, dtype=np.float64, seed=0):
    import brainstorm as bs
    from brainstorm.handlers import NumpyHandler
    net = bs.Network.from_architecture(to_architecture(spec))
    if dtype is not None:
        net.set_handler(NumpyHandler(dtype, seed=seed))
    return net


def make_data(spec, rng, T, B, scale=1.0, dtype=np.float64):
    data = {}
    for name in sorted(spec['inputs']):
        i = spec['inputs'][name]
        shape = (T, B) + tuple(i['shape'])
        k = i['kind']
        if k == 'real':
            a = rng.randn(*shape) * scale
        elif k == 'value':
            a = rng.randn(*shape)
        elif k == 'class':
            a = rng.randint(0, i['n'], shape)
        elif k == 'binary':
            a = rng.randint(0, 2, shape)
        elif k == 'mask':
            a = rng.rand(*shape) < 0.7
        else:
            raise ValueError(k)
        data[name] = np.asarray(a, dtype=dtype)
    return data


def param_shapes(net):
    """{layer: {param: shape}} of a live network, from its buffers."""
    res = {}
    for lname in net.layers:
        b = net.buffer[lname]
        if 'parameters' in b:
            for pn, v in b.parameters.items():
                res.setdefault(lname, {})[pn] = tuple(v.shape)
    return res


def random_params(spec, net, rng, scale=0.6):
    """Values for all parameters: {layer: {param: array}}."""
    types = {l['name']: l['type'] for l in spec['layers']}
    res = {}
    for ln, ps in sorted(param_shapes(net).items()):
        for pn, shape in sorted(ps.items()):
            if pn == 'timing':
                v = rng.randint(1, 5, shape).astype(float)
            elif types.get(ln) == 'BatchNorm' and pn == 'sigma':
                v = 0.5 + rng.rand(*shape)
            elif types.get(ln) == 'BatchNorm' and pn == 'gamma':
                v = 1 + 0.3 * rng.randn(*shape)
            else:
                fan = max(1, prod(shape[1:]))
                v = rng.randn(*shape) * scale / np.sqrt(min(fan, 9)) * 1.5
            res.setdefault(ln, {})[pn] = v
    return res


def set_params(net, params):
    for ln in params:
        for pn, v in params[ln].items():
            net.handler.set_from_numpy(net.buffer[ln].parameters[pn], np.asarray(v))


def get_params(net):
    return {ln: {pn: net.get('%s.parameters.%s' % (ln, pn)) for pn in ps}
            for ln, ps in param_shapes(net).items()}


def get_grads(net):
    return {ln: {pn: net.get('%s.gradients.%s' % (ln, pn)) for pn in ps}
            for ln, ps in param_shapes(net).items()}


def outputs(net, spec, drop_context=True):
    """{(layer, out): array of (T, B, ...)} of all layers after a forward pass."""
    res = {}
    for l in spec['layers']:
        for o in l['outs']:
            res[(l['name'], o)] = net.get('%s.outputs.%s' % (l['name'], o))
    return res


def signature(spec):
    """A canonical description of the shape of the graph (for counting)."""
    return ';'.join(sorted('%s(%s)' % (l['type'], ','.join(
        '%s<%s' % (i, '+'.join(sorted(s if s == 'Input' else '*' for s, o in srcs)))
        for i, srcs in sorted(l['in'].items()))) for l in spec['layers']))


def brief(spec):
    return ['%s:%s%s<-%s' % (l['name'], l['type'], l['kwargs'] or '',
                             {k: ['%s.%s' % tuple(x) for x in v] for k, v in l['in'].items()})
            for l in spec['layers']]


def recurrent_types():
    return ('Recurrent', 'Lstm', 'Clockwork', 'ClockworkLstm')
