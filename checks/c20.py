"""C20: wiring code yields exactly the described network; bad wiring is rejected.

Monitor: random wiring programs (creation order, wiring order, named inputs/outputs, colliding
names, unrelated layers wired in between) are run against the public construction interface; an
independent model of what was written down predicts names, connections and settings.  The
network built from every connected layer is compared with that prediction and with a twin built
from it; the passes of the layers are recorded and their order is checked against the
connections.  Systematically broken architectures must all be refused."""
import contextlib
import copy
import io
import json
import re

import numpy as np

from vlib import nets

TECHNIQUE = 'runtime monitor: recorded wiring programs vs an independent naming/connection model; traced layer execution order; rejection of mutated architectures'
LEVEL_NOTE = ('Random wirings over all layer types, namings, starting layers, rebuilds from (shuffled, JSON) architectures, '
              'and more than 60 kinds of broken architectures; every layer, connection and setting is compared.')
RULE = 'random wiring program / random mutation of a valid architecture. Distinct: graph signature and names, kind of mutation.'
ASSUMPTIONS = ['several equal names are numbered in the order the layers were created, skipping names given explicitly '
               '(documentation of UniquelyNamed)',
               'overlapping fan-ins that cannot be laid out in memory are not generated (business of C05)',
               'any exception counts as a refusal']
MIN_COUNTERS = {'networks_built': 4700, 'layers_compared': 37000, 'connections_compared': 41000, 'settings_compared': 40000,
                'executions_traced': 5500, 'renamed_layers': 2700, 'rebuilt': 220, 'twins_compared': 130,
                'rejections_seen': 2800, 'extended': 75, 'bystanders': 600, 'mutants': 1200,
                'described_layers': 400, 'short_forms': 500, 'drawings': 250, 'list_style_layers': 150}

DEFAULTS = {'FullyConnected': {'activation': 'rel'}, 'Recurrent': {'activation': 'tanh'}, 'Lstm': {'activation': 'tanh'},
            'Clockwork': {'activation': 'tanh'}, 'ClockworkLstm': {'activation': 'tanh'},
            'Convolution2D': {'stride': [1, 1], 'padding': 0, 'activation': 'rel'},
            'Pooling2D': {'type': 'max', 'stride': [1, 1], 'padding': 0}, 'Loss': {'importance': 1.0},
            'Dropout': {'drop_prob': 0.5}, 'BatchNorm': {'decay': 0.9, 'epsilon': 1e-5}, 'Elementwise': {'activation': 'rel'}}
POOL = ['A', 'A_1', 'A_2', 'A_1_1', 'b', 'FullyConnected', 'FullyConnected_1', 'NoOp', 'Loss', 'x_3', '_', '__a9', 'z', 'Input_1']


def families(tier):
    k = 1 if tier == 'quick' else 20
    return [('wire', 600 * k), ('names', 450 * k), ('info', 150 * k), ('reject', 3200 * k), ('refuse', 250 * k)]


def run_case(case, ctx):
    globals()['case_' + case['family']](ctx)


# ---------------------------------------------------------------- the model

def predict_names(basenames):
    """basenames in order of creation -> final names."""
    groups = {}
    for i, b in enumerate(basenames):
        groups.setdefault(b, []).append(i)
    single = {b for b in groups if len(groups[b]) == 1}
    res = [None] * len(basenames)
    for b, members in groups.items():
        if len(members) == 1:
            res[members[0]] = b
            continue
        n = 0
        for i in members:
            n += 1
            while '%s_%d' % (b, n) in single:
                n += 1
            res[i] = '%s_%d' % (b, n)
    return res


def norm(v):
    if isinstance(v, (list, tuple)):
        return [norm(x) for x in v]
    if isinstance(v, dict):
        return {k: norm(x) for k, x in v.items()}
    return v


def connections(arch):
    res = []
    for n in arch:
        out = arch[n].get('@outgoing_connections', {})
        if not isinstance(out, dict):
            out = {'default': out}
        for o in out:
            for c in out[o]:
                dst, _, inp = c.partition('.')
                res.append((n, o, dst, inp or 'default'))
    return sorted(res)


def settings(arch):
    return {n: {k: norm(v) for k, v in arch[n].items() if not k.startswith('@')} for n in arch}


class Program(object):
    """A wiring program over the layers of a specification."""

    def __init__(self, spec, rng, names='pool'):
        self.spec, self.rng = spec, rng
        self.layers = [{'name': 'Input', 'type': 'Input', 'kwargs': {}, 'in': {}}] + spec['layers']
        n = len(self.layers)
        self.order = [int(i) for i in rng.permutation(n)]        # order of creation
        if names == 'pool':
            p = rng.choice([.2, .5, .9])
            k = int(rng.randint(1, len(POOL) + 1))
            pool = [POOL[i] for i in rng.permutation(len(POOL))[:k]]
            self.given = [None if not i or rng.rand() > p else pool[rng.randint(k)] for i in range(n)]
        else:
            self.given = [None] + [l['name'] for l in spec['layers']]
        base = [self.given[i] or self.layers[i]['type'] for i in self.order]
        final = predict_names(base)
        self.final = {}
        for i, f in zip(self.order, final):
            self.final[self.layers[i]['name']] = f
        self.renamed = sum(f != b for f, b in zip(final, base))
        self.wrappers = {}
        self.expected = {}
        self.edges = [(s, o, l['name'], i) for l in spec['layers'] for i in l['in'] for s, o in l['in'][i]]

    def create(self):
        from brainstorm import layers as L
        rng = self.rng
        for i in self.order:
            l = self.layers[i]
            if i == 0:
                shapes = {k: ('T', 'B') + tuple(v['shape']) for k, v in self.spec['inputs'].items()}
                w = L.Input(out_shapes=shapes)
                kw = {'out_shapes': norm(shapes)}
            else:
                kw = dict(l['kwargs'])
                for k, v in DEFAULTS.get(l['type'], {}).items():   # leave out settings that are the default
                    if k in kw and kw[k] == v and rng.rand() < .7:
                        del kw[k]
                for k in kw:
                    if isinstance(kw[k], list) and rng.rand() < .5:
                        kw[k] = tuple(kw[k])
                extra = {} if self.given[i] is None else {'name': self.given[i]}
                w = getattr(L, l['type'])(**dict(kw, **extra))
                kw = norm(dict(DEFAULTS.get(l['type'], {}), **kw))
            self.wrappers[l['name']] = w
            self.expected[self.final[l['name']]] = (l['type'], kw)
            if rng.rand() < .1:
                self.bystander(L)

    bystanders = 0

    def bystander(self, L):
        """Layers that have nothing to do with the network."""
        self.bystanders += 1
        b = [L.NoOp(name=POOL[self.rng.randint(len(POOL))]) for _ in range(int(self.rng.randint(1, 4)))]
        if self.rng.rand() < .7:
            for x, y in zip(b, b[1:]):
                x >> y
        if self.rng.rand() < .3:
            L.Input(out_shapes={'default': ('T', 'B', 2)}) >> b[0]

    def wire(self, edges=None):
        from brainstorm import layers as L
        rng = self.rng
        edges = self.edges if edges is None else edges
        last = None
        for j in rng.permutation(len(edges)):
            s, o, d, i = edges[j]
            chained = last and last[0] == s              # a >> b >> c
            left = last[1] if chained else self.wrappers[s]
            right = self.wrappers[d]
            if rng.rand() < .2:                          # names that play no role for this connection
                left = POOL[rng.randint(len(POOL))] - left
            if o != (last[2] if chained else 'default') or rng.rand() < .2:
                left = left - o
            out = 'default'
            if rng.rand() < .3:
                outs = [e[1] for e in edges if e[0] == d]
                out = outs[rng.randint(len(outs))] if outs and rng.rand() < .8 else POOL[rng.randint(len(POOL))]
            first = rng.rand() < .5
            if out != 'default' and first:               # 'in' - (layer - 'out') or ('in' - layer) - 'out'
                right = right - out
            if i != 'default' or rng.rand() < .2:
                right = i - right
            if out != 'default' and not first:
                right = right - out
            r = left >> right
            last = (d, r, out)
            if rng.rand() < .05:
                self.bystander(L)

    def want_connections(self):
        return sorted((self.final[s], o, self.final[d], i) for s, o, d, i in self.edges)

    def renamed_spec(self):
        spec = copy.deepcopy(self.spec)
        for l in spec['layers']:
            l['name'] = self.final[l['name']]
            for i in l['in']:
                l['in'][i] = [[self.final[s], o] for s, o in l['in'][i]]
        return spec


def compare(ctx, net, prog, msg):
    arch = net.architecture
    ctx.count('networks_built')
    ctx.count('layers_compared', len(arch))
    ctx.count('settings_compared', sum(len(v) for v in settings(arch).values()))
    if not ctx.check(sorted(arch) == sorted(prog.expected), 'layer-names', '%s: layers %s, expected %s', msg, sorted(arch), sorted(prog.expected)):
        return False
    ctx.check(sorted(net.layers) == sorted(prog.expected), 'layer-names', '%s: network has layers %s, expected %s', msg, list(net.layers), sorted(prog.expected))
    types = {n: arch[n]['@type'] for n in arch}
    want = {n: t for n, (t, _) in prog.expected.items()}
    ctx.check(types == want, 'layer-types', '%s: types %s, expected %s', msg, types, want)
    for n in arch:
        ctx.check(type(net.layers[n]).__name__ == want[n] + 'LayerImpl', 'layer-types', '%s: %s is a %s', msg, n, type(net.layers[n]).__name__)
    got, w = settings(arch), {n: kw for n, (_, kw) in prog.expected.items()}
    for n in w:
        ctx.check(got[n] == w[n], 'settings', '%s: %s has settings %s, expected %s', msg, n, got[n], w[n])
        have = {k: norm(v) for k, v in net.layers[n].kwargs.items()}
        ctx.check(have == w[n], 'settings', '%s: layer object %s has settings %s, expected %s', msg, n, have, w[n])
    con, w = connections(arch), prog.want_connections()
    ctx.count('connections_compared', len(con))
    ctx.check(con == w, 'connections', '%s: connections %s, expected %s', msg, con, w)
    return True


def trace(ctx, net, edges, data, backward=True):
    """The order in which layers compute, against the connections."""
    order = []
    for n, layer in net.layers.items():
        def wrap(method, tag, n=n):
            def f(*a, **kw):
                order.append((tag, n))
                return method(*a, **kw)
            return f
        layer.forward_pass = wrap(layer.forward_pass, 'f')
        layer.backward_pass = wrap(layer.backward_pass, 'b')
    net.provide_external_data(data)
    net.forward_pass(training_pass=True)
    if backward:
        net.backward_pass()
    ctx.count('executions_traced', len(order))
    for tag in 'fb' if backward else 'f':
        seq = [n for t, n in order if t == tag]
        ctx.check(len(seq) == len(set(seq)) and set(seq) | {'Input'} == set(net.layers), 'executed-once', '%s pass executed %s of %s', tag, seq, sorted(net.layers))
        pos = {n: i for i, n in enumerate(seq)}
        for s, _, d, _ in edges:
            if s in pos and d in pos:
                ctx.check((pos[s] < pos[d]) == (tag == 'f'), 'execution-order', '%s pass: %s and %s in order %s', tag, s, d, seq)
    listed = list(net.layers)
    for s, _, d, _ in edges:
        ctx.check(listed.index(s) < listed.index(d), 'layer-order', 'layers listed as %s although %s feeds %s', listed, s, d)
    for layer in net.layers.values():
        del layer.forward_pass, layer.backward_pass


def shuffled(rng, d):
    if isinstance(d, dict):
        k = list(d)
        return {k[i]: shuffled(rng, d[k[i]]) for i in rng.permutation(len(k))}
    return d


def by_hand(rng, arch, ctx):
    """The same architecture in the shorter forms people write: lists of targets of the default output,
    targets without '.default', empty outputs, tuples."""
    arch = copy.deepcopy(arch)
    for n in arch:
        con = {o: [c[:-len('.default')] if c.endswith('.default') and rng.rand() < .5 else c for c in v]
               for o, v in arch[n].get('@outgoing_connections', {}).items()}
        con = {o: [v[i] for i in rng.permutation(len(v))] for o, v in con.items()}
        if all(o == 'default' for o in con) and rng.rand() < .7:
            con = con.get('default', [])
            ctx.count('short_forms', len(con))
            if rng.rand() < .3:
                con = tuple(con)
        arch[n]['@outgoing_connections'] = con
    return arch


INFO_SHAPE = re.compile(r"(\S+?)(\([^()]*\))")


def case_info(ctx):
    """What get_network_info tells about a network: its parameters and the shapes of its layers."""
    from brainstorm.tools import get_network_info
    rng = ctx.rng
    spec = nets.random_spec(rng, max_layers=8, loss=bool(rng.rand() < .8), max_size=4)
    net = nets.build(spec, [np.float32, np.float64][rng.randint(2)])
    shapes = nets.param_shapes(net)
    text = get_network_info(net)
    if rng.rand() < .5:                                 # knows nothing of the data
        net.provide_external_data(nets.make_data(spec, rng, int(rng.randint(1, 4)), int(rng.randint(1, 4))))
        ctx.check(get_network_info(net) == text, 'info', 'the description changed with the data')
    size = lambda shape: int(np.prod(shape, dtype=int))
    head, _, rest = text.partition('\n')
    total = sum(size(s) for v in shapes.values() for s in v.values())
    ctx.check(head.split()[-1] == str(total), 'info-total', '%s, but the network has %s parameters', head, total)
    blocks = [b.strip('\n').split('\n') for b in rest.split('-' * 80)[:-1]]
    ctx.check([b[0] for b in blocks] == list(net.layers), 'info-layers', 'describes %s, network has %s', [b[0] for b in blocks], list(net.layers))
    outs = {'Input': {k: tuple(v['shape']) for k, v in spec['inputs'].items()}}
    outs.update({l['name']: {o: tuple(s) for o, s in l['outs'].items()} for l in spec['layers']})
    for b in blocks:
        n = b[0]
        found = [[(m.group(1), tuple(int(x) for x in re.findall(r'\d+', m.group(2)))) for m in INFO_SHAPE.finditer(x)] for x in b[1:]]
        at = [i for i, x in enumerate(b[1:]) if x.startswith('number of parameters')][0]
        want = {k: tuple(v) for k, v in shapes.get(n, {}).items()}
        got = [y for x in found[:at] for y in x]
        ctx.check(got == list(want.items()), 'info-parameters', '%s: describes %s, has %s', n, got, want)
        count = sum(size(v) for v in want.values())
        ctx.check(b[1 + at].split(':')[1].strip() == str(count), 'info-parameters', '%s: %s, has %s', n, b[1 + at], count)
        layer = net.layers[n]
        ins = [y for x in found[at + 1:at + 3] for y in x]
        ctx.check(dict(ins) == {k: tuple(v.feature_shape) for k, v in layer.in_shapes.items()}, 'info-inputs', '%s: inputs %s', n, ins)
        o = [y for x in found[at + 3:] for y in x]
        want = {k: tuple(v.feature_shape) for k, v in layer.out_shapes.items()}
        ctx.check(dict(o) == want, 'info-outputs', '%s: outputs %s, has %s', n, o, want)
        for k, v in outs[n].items():
            ctx.check(want.get(k) == v, 'info-outputs', '%s: output %s has shape %s, expected %s', n, k, want.get(k), v)
        ctx.count('described_layers')
    check_drawing(ctx, net, spec)
    ctx.distinct(nets.signature(spec))


class Graph(object):
    """What pygraphviz offers of a graph, as far as drawing one needs it: nodes and edges, each once."""
    last = None

    def __init__(self, *args, **kw):
        self.nodes, self.edges, self.drawn = set(), set(), []
        Graph.last = self

    def add_node(self, n, **kw):
        self.nodes.add(str(n))

    def add_edge(self, a, b=None, **kw):
        a, b = (a if b is None else (a, b))
        self.nodes |= {str(a), str(b)}
        self.edges.add((str(a), str(b)))

    def add_nodes_from(self, ns, **kw):
        for n in ns:
            self.add_node(n)

    def add_edges_from(self, es, **kw):
        for e in es:
            self.add_edge(e)

    def layout(self, **kw):
        pass

    def draw(self, path=None, **kw):
        self.drawn.append(path)


def check_drawing(ctx, net, spec):
    """The diagram shows the layers and which feed which, however the architecture was written down."""
    import sys
    import types
    from brainstorm import Network
    from brainstorm.tools import draw_network
    rng = ctx.rng
    arch = nets.to_architecture(spec)
    short = 0
    for d in arch.values():
        out = d['@outgoing_connections']
        if set(out) == {'default'} and rng.rand() < .5:          # the notation for layers with one output
            d['@outgoing_connections'] = list(out['default'])
            short += 1
        for l in ([d['@outgoing_connections']] if isinstance(d['@outgoing_connections'], list) else list(out.values())):
            l[:] = [x[:-len('.default')] if x.endswith('.default') and rng.rand() < .5 else x for x in l]
    again = Network.from_architecture(arch)
    want = {(s, l['name']) for l in spec['layers'] for i in l['in'] for s, o in l['in'][i]}
    old = sys.modules.get('pygraphviz')
    sys.modules['pygraphviz'] = types.ModuleType(str('pygraphviz'))
    sys.modules['pygraphviz'].AGraph = Graph
    try:
        for n, what in ((net, 'dictionaries'), (again, 'lists')):
            Graph.last = None
            with contextlib.redirect_stdout(io.StringIO()):
                try:
                    draw_network(n, 'there_is_no_such_folder/x.png')
                except Exception as e:
                    ctx.violate('drawing', 'draw_network failed (architecture with %s): %r' % (what, e))
                    continue
            g = Graph.last
            ctx.check(g.drawn == ['there_is_no_such_folder/x.png'], 'drawing', 'drawn to %s', g.drawn)
            ctx.check(g.edges == want, 'drawing', 'architecture with %s: missing arrows %s, too many %s', what,
                      sorted(want - g.edges), sorted(g.edges - want))
            ctx.count('drawings')
    finally:
        if old is None:
            del sys.modules['pygraphviz']
        else:
            sys.modules['pygraphviz'] = old
    ctx.count('list_style_layers', short)


# ---------------------------------------------------------------- valid wirings

def dropout_free(spec):
    return not any(l['type'] == 'Dropout' for l in spec['layers'])


def case_wire(ctx):
    from brainstorm import Network
    rng = ctx.rng
    spec = nets.random_spec(rng, menu={'DeltasScaling': 1, 'NoOp': 2}, max_layers=8, loss=bool(rng.rand() < .8), max_size=4)
    if not spec['layers']:
        spec = nets.random_spec(rng, n_hidden=2, menu={'fc': 1}, heads=1)
    used = nets.used_inputs(spec)
    spec['inputs'] = {k: v for k, v in spec['inputs'].items() if k in used or rng.rand() < .5}
    prog = Program(spec, rng)
    prog.create()
    prog.wire()
    ctx.count('bystanders', prog.bystanders)
    ctx.count('renamed_layers', prog.renamed)
    start = sorted(prog.wrappers)
    ctx.sample = {'names': prog.final, 'wiring': prog.edges[:20]}
    data = nets.make_data(spec, rng, 2, 2)
    ctx.distinct((nets.signature(spec), tuple(sorted(prog.final.values()))))
    first = None
    for n in [start[i] for i in rng.permutation(len(start))]:
        net = Network.from_layer(prog.wrappers[n])
        if not compare(ctx, net, prog, 'from %s' % n):
            return
        lay = (list(net.layers), {k: list(v.items()) for k, v in nets.param_shapes(net).items()})
        if first is None:
            first = (net, lay)
        else:
            ctx.check(lay == first[1], 'starting-layer', 'layers/parameters depend on the layer handed over: %s and %s', lay, first[1])
    net = first[0]
    twin_spec = prog.renamed_spec()
    params = nets.random_params(twin_spec, net, rng)
    if rng.rand() < .6:
        twin = nets.build(twin_spec, None)
        ctx.count('twins_compared')
        ctx.check(list(twin.layers) == list(net.layers), 'twin-layers', 'order %s, expected %s', list(net.layers), list(twin.layers))
        behave(ctx, net, twin, twin_spec, params, data, 'twin')
    plan = shuffled(rng, json.loads(json.dumps(net.architecture)))
    again = Network.from_architecture(by_hand(rng, plan, ctx) if rng.rand() < .6 else plan)
    ctx.count('rebuilt')
    compare(ctx, again, prog, 'rebuilt')
    ctx.check(list(again.layers) == first[1][0], 'rebuilt-layers', 'order %s, expected %s', list(again.layers), first[1][0])
    ctx.check({k: list(v.items()) for k, v in nets.param_shapes(again).items()} == first[1][1], 'rebuilt-parameters', 'parameters differ')
    behave(ctx, again, net, twin_spec, params, data, 'rebuilt')
    if any(l['type'] == 'Loss' for l in spec['layers']):
        trace(ctx, net, prog.want_connections(), data)
    else:
        trace(ctx, net, prog.want_connections(), data, backward=False)
    if rng.rand() < .35:
        extend(ctx, prog, net)


def behave(ctx, a, b, spec, params, data, msg):
    from brainstorm.handlers import NumpyHandler
    res = []
    for n in (a, b):
        n.set_handler(NumpyHandler(np.float64, seed=3))
        nets.set_params(n, params)
        n.provide_external_data(data)
        n.forward_pass(training_pass=True)
        r = nets.outputs(n, spec)
        if n.loss_layers:
            n.backward_pass()
            r['gradients'] = n.get('gradients')
        res.append(r)
    for k in sorted(res[0], key=str):
        ctx.close(res[0][k], res[1][k], msg + '-results', '%s: %s' % (msg, k), rtol=1e-12, atol=1e-13)


def extend(ctx, prog, net):
    """Wiring on after a network was built: the old one stays, the new one has it all."""
    from brainstorm import Network, layers as L
    rng = ctx.rng
    before = copy.deepcopy(net.architecture)
    vec = [(l['name'], o) for l in prog.spec['layers'] for o in l['outs'] if l['type'] not in ('Loss',) and o == 'default']
    if not vec:
        return
    s, o = vec[rng.randint(len(vec))]
    base = POOL[rng.randint(len(POOL))]
    name = 'new layer'
    l = {'name': name, 'type': 'NoOp', 'kwargs': {}, 'in': {'default': [[s, o]]}, 'outs': {}}
    prog.layers.append(l)
    prog.given.append(base)
    prog.order.append(len(prog.layers) - 1)
    final = predict_names([prog.given[i] or prog.layers[i]['type'] for i in prog.order])
    old = dict(prog.final)
    prog.final = {prog.layers[i]['name']: f for i, f in zip(prog.order, final)}
    prog.expected = dict([(prog.final[n], prog.expected[f]) for n, f in old.items()] + [(prog.final[name], ('NoOp', {}))])
    prog.edges = prog.edges + [(s, o, name, 'default')]
    prog.wrappers[name] = L.NoOp(name=base)
    prog.wire([(s, o, name, 'default')])
    ctx.count('extended')
    for n in sorted(prog.wrappers):
        compare(ctx, Network.from_layer(prog.wrappers[n]), prog, 'extended, from %s' % n)
    ctx.check(before == net.architecture, 'built-network-changed', 'wiring on changed a network that was built before')


def case_names(ctx):
    """Trees of layers with many equal names, wired up in any order."""
    from brainstorm import Network
    rng = ctx.rng
    n = int(rng.choice([2, 4, 8, 16, 40]))
    ins = {'default': {'shape': [2], 'kind': 'real'}}
    spec = {'inputs': ins, 'layers': []}
    deep = rng.rand()
    for i in range(n):
        src = 'Input' if not i else ('n%d' % (i - 1) if rng.rand() < deep else
                                     ['Input', 'n%d' % rng.randint(i)][int(rng.rand() < .8)])
        spec['layers'].append({'name': 'n%d' % i, 'type': ['NoOp', 'Elementwise', 'FullyConnected'][rng.choice(3, p=[.7, .2, .1])],
                               'kwargs': {}, 'in': {'default': [[src, 'default']]}, 'outs': {'default': [2]}})
        if spec['layers'][-1]['type'] == 'FullyConnected':
            spec['layers'][-1]['kwargs'] = {'size': 2, 'activation': 'tanh'}
    prog = Program(spec, rng)
    prog.create()
    prog.wire()
    ctx.count('bystanders', prog.bystanders)
    ctx.count('renamed_layers', prog.renamed)
    ctx.distinct(tuple(sorted(prog.final.values())))
    start = sorted(prog.wrappers)
    for j in rng.permutation(len(start))[:3]:
        net = Network.from_layer(prog.wrappers[start[j]])
        if not compare(ctx, net, prog, 'from %s' % start[j]):
            return
    trace(ctx, net, prog.want_connections(), nets.make_data(spec, rng, 1, 1), backward=False)


# ---------------------------------------------------------------- broken architectures

class Skip(Exception):
    pass


def pick(rng, seq):
    seq = list(seq)
    if not seq:
        raise Skip()
    return seq[rng.randint(len(seq))]


def out(arch, n):
    return arch[n]['@outgoing_connections']


def detach(arch, dst, inp=None):
    """Remove connections into a layer (all, or one input); returns how many."""
    k = 0
    for n in arch:
        for o in list(out(arch, n)):
            keep = [c for c in out(arch, n)[o] if not (c.split('.')[0] == dst and (inp is None or c.split('.')[1] == inp))]
            k += len(out(arch, n)[o]) - len(keep)
            out(arch, n)[o] = keep
            if not keep:
                del out(arch, n)[o]
    return k


def inner(arch):
    return sorted(n for n in arch if n != 'Input')


def of_type(arch, *types):
    return sorted(n for n in arch if arch[n]['@type'] in types)


def ancestors(arch, n):
    con = connections(arch)
    res, new = set(), {n}
    while new:
        res |= new
        new = {s for s, _, d, _ in con if d in new} - res
    return res


def descendants(arch, n):
    con = connections(arch)
    res, new = set(), {n}
    while new:
        res |= new
        new = {d for s, _, d, _ in con if s in new} - res
    return res


def default_out(arch, n):
    return 'loss' if arch[n]['@type'] in ('SoftmaxCE', 'SigmoidCE', 'SquaredError', 'L1Decay', 'L2Decay', 'Loss') else 'default'


def m_cycle(a, rng):
    con = [c for c in connections(a) if c[0] != 'Input']
    s, o, d, i = pick(rng, connections(a))
    below = sorted(descendants(a, d))
    x = pick(rng, below)
    if rng.rand() < .5:                         # take the place of the old source
        out(a, s)[o] = [c for c in out(a, s)[o] if c != d + '.' + i]
    out(a, x).setdefault(default_out(a, x), []).append(d + '.' + i)


def m_self_loop(a, rng):
    n = pick(rng, inner(a))
    con = [c for c in connections(a) if c[2] == n]
    out(a, n).setdefault(default_out(a, n), []).append(n + '.' + con[0][3])


def m_island(a, rng):
    t, kw = [('FullyConnected', {'size': 2}), ('NoOp', {}), ('Loss', {}), ('Merge', {}), ('Lstm', {'size': 3})][rng.randint(5)]
    a['island'] = dict({'@type': t, '@outgoing_connections': {}}, **kw)
    if rng.rand() < .5:
        a['island2'] = {'@type': 'NoOp', '@outgoing_connections': {}}
        out(a, 'island')['loss' if t == 'Loss' else 'default'] = ['island2']


def m_cyclic_island(a, rng):
    k = int(rng.randint(1, 4))
    for j in range(k):
        a['isle%d' % j] = {'@type': 'NoOp', '@outgoing_connections': {'default': ['isle%d' % ((j + 1) % k)]}}


def m_cut(a, rng):
    s, o, d, i = pick(rng, connections(a))
    detach(a, d, i)


def m_cut_off(a, rng):
    detach(a, pick(rng, inner(a)))


def m_unknown_layer(a, rng):
    n = pick(rng, a)
    out(a, n).setdefault(default_out(a, n), []).append(pick(rng, ['nowhere', 'nowhere.default', 'Inpu', 'F.', 'x.y']))


def m_unknown_input(a, rng):
    s, o, d, i = pick(rng, connections(a))
    detach(a, d, i) if rng.rand() < .5 else None
    out(a, s).setdefault(o, []).append(d + '.' + pick(rng, ['nope', 'defaul', 'Default', 'inputs.default', 'x_']))


def m_unknown_output(a, rng):
    s, o, d, i = pick(rng, connections(a))
    out(a, s).setdefault(pick(rng, ['nope', 'Default', '..parameters.nope', '..internals.nope', '..outputs.default', '..parameters',
                                    '.parameters.W', '..gradients.W']), []).append(d + '.' + i)


def m_unknown_output_only(a, rng):
    s, o, d, i = pick(rng, connections(a))
    out(a, s)[o] = [c for c in out(a, s)[o] if c != d + '.' + i]
    out(a, s).setdefault(pick(rng, ['nope', '..parameters.nope']), []).append(d + '.' + i)


def rename(a, old, new):
    a[new] = a.pop(old)
    for n in a:
        for o in out(a, n):
            out(a, n)[o] = [new + '.' + c.split('.', 1)[1] if c.split('.', 1)[0] == old else c for c in out(a, n)[o]]


def m_bad_name(a, rng):
    rename(a, pick(rng, inner(a)), pick(rng, ['', '1a', 'a b', 'a-b', '@x', 'default', 'fallback', u'\xe4', 'a\n', ' a', '*', 'a/b', 'a:']))


def m_non_string_name(a, rng):
    n = pick(rng, inner(a))
    if any(c[2] == n for c in connections(a)) and rng.rand() < .5:
        detach(a, n)
    a[pick(rng, [3, None, ('a',), b'x'])] = a.pop(n) if rng.rand() < .5 else {'@type': 'NoOp', '@outgoing_connections': {}}


def m_no_input(a, rng):
    del a['Input']


def m_input_renamed(a, rng):
    rename(a, 'Input', pick(rng, ['input', 'Input_1', 'X']))


def m_input_wrong_type(a, rng):
    a['Input']['@type'] = pick(rng, ['NoOp', 'FullyConnected', 'Inputt'])


def m_two_inputs(a, rng):
    a['Input_2'] = {'@type': 'Input', 'out_shapes': {'default': ['T', 'B', 2]}, '@outgoing_connections': {}}
    if rng.rand() < .5:
        a['Extra'] = {'@type': 'NoOp', '@outgoing_connections': {}}
        out(a, 'Input_2')['default'] = ['Extra.default']


def m_feeds_input(a, rng):
    n = pick(rng, inner(a))
    out(a, n).setdefault(default_out(a, n), []).append('Input' + pick(rng, ['', '.default', '.x2']))


def m_unknown_type(a, rng):
    n = pick(rng, inner(a))
    a[n]['@type'] = pick(rng, ['Nope', 'fullyconnected', 'FullyConnectedLayerImpl', '', 'Layer', a[n]['@type'] + ' '])


def m_no_type(a, rng):
    del a[pick(rng, inner(a))]['@type']


def m_odd_type(a, rng):
    a[pick(rng, inner(a))]['@type'] = pick(rng, [3, None, ['NoOp'], b'NoOp'])


def m_unknown_setting(a, rng):
    n = pick(rng, inner(a))
    a[n][pick(rng, ['nope', 'Size', 'act', 'shape', 'names', 'weights', 'W'])] = pick(rng, [1, 'a', None])


def m_foreign_setting(a, rng):
    n = pick(rng, of_type(a, 'NoOp', 'Merge', 'Highway', 'Mask', 'Dropout', 'BatchNorm', 'SoftmaxCE', 'SigmoidCE', 'SquaredError', 'L1Decay', 'L2Decay', 'Loss'))
    a[n][pick(rng, ['size', 'kernel_size', 'factor', 'out_shapes'])] = 2


def m_missing_setting(a, rng):
    n = pick(rng, of_type(a, 'Input', 'Convolution2D', 'Pooling2D', 'DeltasScaling'))
    del a[n][{'Input': 'out_shapes', 'Convolution2D': pick(rng, ['num_filters', 'kernel_size']),
              'Pooling2D': pick(rng, ['kernel_size', 'type']), 'DeltasScaling': 'factor'}[a[n]['@type']]]


def m_odd_outgoing(a, rng):
    a[pick(rng, a)]['@outgoing_connections'] = pick(rng, ['Loss', 3, 2.5, True])


def m_odd_size(a, rng):
    n = pick(rng, of_type(a, 'FullyConnected', 'Recurrent', 'Lstm', 'Clockwork', 'ClockworkLstm'))
    a[n]['size'] = pick(rng, ['a', 2.5, '3', {}, [2.5], ['a']])


def m_odd_geometry(a, rng):
    n = pick(rng, of_type(a, 'Convolution2D', 'Pooling2D'))
    k = pick(rng, ['kernel_size', 'stride', 'padding'])
    a[n][k] = pick(rng, [-1, 1.5, 'a', [1, 1], None] if k == 'padding' else [2, [1], [1, 1, 1], 'ab', [-1, 1], [1, 'a'], None]
                   if k == 'stride' else [2, [1], [1, 1, 1], 'ab', ['a', 1], None])


def m_big_kernel(a, rng):
    n = pick(rng, of_type(a, 'Convolution2D', 'Pooling2D'))
    k = [int(x) for x in a[n]['kernel_size']]
    src = [c for c in connections(a) if c[2] == n][0]
    # an image is at most 6 pixels plus padding, or a little more behind a chain of padded layers
    k[rng.randint(2)] = 60 + int(rng.randint(10))
    a[n]['kernel_size'] = k


def m_tight_kernel(a, rng):
    """A kernel exceeding the padded image by one pixel or a few."""
    n = pick(rng, of_type(a, 'Convolution2D', 'Pooling2D'))
    src = [c for c in connections(a) if c[2] == n]
    if len(src) != 1 or src[0][0] != 'Input':
        raise Skip()
    shape = a['Input']['out_shapes'][src[0][1]][2:]
    j = rng.randint(2)
    k, s = [int(x) for x in a[n]['kernel_size']], list(a[n].get('stride', [1, 1]))
    k[j] = shape[j] + 2 * a[n].get('padding', 0) + int(rng.randint(1, s[j] + 2))
    a[n]['kernel_size'] = k


def m_pool_type(a, rng):
    a[pick(rng, of_type(a, 'Pooling2D'))]['type'] = pick(rng, ['foo', 'MAX', '', None])


def m_decay(a, rng):
    a[pick(rng, of_type(a, 'BatchNorm'))]['decay'] = pick(rng, [-.1, 1.1, 5, 'a'])


def m_total_loss(a, rng):
    rename(a, pick(rng, of_type(a, 'Loss')), 'total_loss')


def m_out_shapes(a, rng):
    name = pick(rng, a['Input']['out_shapes'])
    a['Input']['out_shapes'][name] = pick(rng, [['T', 'B'], ['B', 'T', 3], ['T', 3], ['T', 'B', 2.5], ['T', 'B', 'x'], ['T', 'B', None],
                                                ['T', 2, 3], [2, 'T', 'B'], [], ['T', 'B', 2, 'B']])


def m_not_time(a, rng):
    """An input without time feeds a layer that needs it."""
    con = [c for c in connections(a) if c[0] == 'Input' and a[c[2]]['@type'] not in ('Loss', 'Merge')]
    s, o, d, i = pick(rng, con)
    sh = a['Input']['out_shapes'][o]
    a['Input']['out_shapes'][o] = pick(rng, [['B'] + sh[2:], sh[2:]])


def m_target_shape(a, rng):
    con = [c for c in connections(a) if c[0] == 'Input' and c[3] in ('targets', 'inputs_2')
           and a[c[2]]['@type'] in ('SoftmaxCE', 'SigmoidCE', 'SquaredError', 'SquaredDifference', 'BinomialCrossEntropy')]
    s, o, d, i = pick(rng, con)
    if sum(c[1] == o for c in connections(a) if c[0] == 'Input') > 1:
        raise Skip()
    sh = list(a['Input']['out_shapes'][o])
    r = rng.randint(3)
    if r == 0:
        sh.append(2)
    elif r == 1 and len(sh) > 3:
        sh.pop(2)
    else:
        sh[rng.randint(2, len(sh))] += 1
    a['Input']['out_shapes'][o] = sh


def m_mask_shape(a, rng):
    con = [c for c in connections(a) if c[0] == 'Input' and c[3] == 'mask']
    s, o, d, i = pick(rng, con)
    sh = list(a['Input']['out_shapes'][o])
    a['Input']['out_shapes'][o] = sh[:2] + [17] * int(rng.randint(1, 3)) + sh[2:]


def m_highway_shape(a, rng):
    n = pick(rng, of_type(a, 'Highway'))
    i = pick(rng, ['H', 'T'])
    src = [c for c in connections(a) if c[2] == n and c[3] == i][0]
    sz = a[src[0]]['size']
    a[src[0]]['size'] = sz + 1 if isinstance(sz, int) else list(sz[:-1]) + [sz[-1] + 1]
    others = [c for c in connections(a) if c[2] == n and c[3] != i and c[0] == src[0]]
    if others:
        raise Skip()


def m_merge_shape(a, rng):
    n = pick(rng, of_type(a, 'Merge'))
    i = pick(rng, ['inputs_1', 'inputs_2'])
    detach(a, n, i)
    a['Input']['out_shapes']['odd'] = ['T', 'B', 13, 11, 7]
    out(a, 'Input')['odd'] = [n + '.' + i]


def m_fan_in_shape(a, rng):
    s, o, d, i = pick(rng, connections(a))
    a['Input']['out_shapes']['odd'] = pick(rng, [['T', 'B', 13, 11, 7, 2, 2], ['B', 3, 3, 3, 3, 3], ['B', 5]])
    out(a, 'Input')['odd'] = [d + '.' + i]


def m_image_for_vector(a, rng):
    n = pick(rng, of_type(a, 'Recurrent', 'Lstm', 'Clockwork', 'ClockworkLstm', 'BinomialCrossEntropy'))
    if a[n]['@type'] != 'BinomialCrossEntropy':
        raise Skip()
    detach(a, n, 'default')
    a['Input']['out_shapes']['odd'] = ['T', 'B', 2, 3]
    out(a, 'Input')['odd'] = [n + '.default']


def m_vector_for_image(a, rng):
    n = pick(rng, of_type(a, 'Convolution2D', 'Pooling2D'))
    detach(a, n)
    a['Input']['out_shapes']['odd'] = pick(rng, [['T', 'B', 5], ['T', 'B', 5, 5], ['T', 'B', 5, 5, 2, 2]])
    out(a, 'Input')['odd'] = [n + '.default']


MUTATIONS = {k[2:]: v for k, v in globals().items() if k.startswith('m_')}


def case_reject(ctx):
    from brainstorm import Network
    rng = ctx.rng
    kinds = sorted(MUTATIONS)
    kind = kinds[rng.randint(len(kinds))]
    for attempt in range(12):
        images = True if kind in ('odd_geometry', 'big_kernel', 'tight_kernel', 'pool_type', 'vector_for_image', 'missing_setting') else None
        menu = {'BatchNorm': 6} if kind == 'decay' else {'highway': 6} if kind == 'highway_shape' else {'DeltasScaling': 2} \
            if kind == 'missing_setting' else {}
        spec = nets.random_spec(rng, menu=menu, max_layers=5, images=images, heads=int(rng.randint(1, 3)), max_size=4)
        good = nets.to_architecture(spec)
        bad = copy.deepcopy(good)
        try:
            MUTATIONS[kind](bad, rng)
        except Skip:
            continue
        break
    else:
        return
    if not spec['layers']:
        return
    ctx.count('networks_built')
    Network.from_architecture(good)
    ctx.distinct(('reject', kind))
    ctx.sample = {'broken by': kind, 'architecture': str(bad)[:600]}
    ctx.count('mutants')
    ctx.raises(Exception, lambda: Network.from_architecture(bad), 'accepted:' + kind, 'architecture with %s: %s' % (kind, bad))


def case_refuse(ctx):
    """Refusals of the wiring code itself."""
    from brainstorm import Network, layers as L
    rng = ctx.rng
    inp = L.Input(out_shapes={'default': ('T', 'B', 3), 'other': ('T', 'B', 2)})
    bad = ['1a', 'a b', 'a.b', 'default', 'fallback', 'a-b', '@a', u'\xe4', 'a\n', ' ', '*']
    name = bad[rng.randint(len(bad))]
    ctor = [lambda **k: L.FullyConnected(2, **k), L.NoOp, L.Loss, L.Merge, L.BatchNorm, lambda **k: L.Lstm(2, **k), L.SoftmaxCE,
            lambda **k: L.Convolution2D(2, (1, 1), **k)][rng.randint(8)]
    ctx.raises(Exception, lambda: ctor(name=name), 'accepted:name', 'layer called %r' % name)
    for odd in (3, 'x', None, L.NoOp, [L.NoOp()]):
        ctx.raises(Exception, lambda: inp >> odd, 'accepted:operand', 'Input >> %r' % (odd,))
    ctx.raises(Exception, lambda: inp - 3, 'accepted:operand', 'Input - 3')
    ctx.raises(Exception, lambda: 3 - inp, 'accepted:operand', '3 - Input')
    ctx.raises(Exception, lambda: L.FullyConnected(2, nope=3), 'accepted:setting', 'unknown setting')
    # a cycle of random length somewhere behind the input
    a = [L.NoOp() for _ in range(int(rng.randint(2, 6)))]
    w = inp - 'other'
    for x in a:
        w = w >> x
    i, j = sorted(int(x) for x in rng.randint(0, len(a), 2))
    a[j] >> a[i]
    s = [inp] + a
    ctx.raises(Exception, lambda: Network.from_layer(s[rng.randint(len(s))]), 'accepted:cycle', 'cycle from %d to %d of %d' % (j, i, len(a)))
    # a layer called Input, a missing Input, two Inputs
    i1 = L.Input(out_shapes={'default': ('T', 'B', 3)})
    x = i1 >> L.FullyConnected(2, name='Input')
    ctx.raises(Exception, lambda: Network.from_layer([i1, x][rng.randint(2)]), 'accepted:input-name', 'layer called Input')
    ctx.raises(Exception, lambda: Network.from_layer(L.NoOp() >> L.FullyConnected(2)), 'accepted:no-input', 'no Input')
    i1, i2, m = L.Input(out_shapes={'default': ('T', 'B', 3)}), L.Input(out_shapes={'default': ('T', 'B', 3)}), L.Merge()
    i1 >> 'inputs_1' - m
    i2 >> 'inputs_2' - m
    ctx.raises(Exception, lambda: Network.from_layer([i1, i2, m][rng.randint(3)]), 'accepted:two-inputs', 'two Inputs')
    # something hangs on a missing output or input
    i1 = L.Input(out_shapes={'default': ('T', 'B', 3)})
    y = i1 - ['other', 'Default', 'defaul'][rng.randint(3)] >> L.NoOp()
    ctx.raises(Exception, lambda: Network.from_layer(y), 'accepted:output', 'unknown output')
    i1 = L.Input(out_shapes={'default': ('T', 'B', 3)})
    y = i1 >> ['x', 'inputs_1', 'Default'][rng.randint(3)] - L.NoOp()
    ctx.raises(Exception, lambda: Network.from_layer(y), 'accepted:input', 'unknown input')
    i1 = L.Input(out_shapes={'default': ('T', 'B', 3)})
    y = i1 >> ['inputs_1', 'inputs_2'][rng.randint(2)] - L.Merge()
    ctx.raises(Exception, lambda: Network.from_layer(y), 'accepted:half-wired', 'one input of Merge missing')
    i1 = L.Input(out_shapes={'default': ('T', 'B', 3)})
    y = i1 >> L.NoOp()
    z = L.FullyConnected(2) >> y
    ctx.raises(Exception, lambda: Network.from_layer([i1, y, z][rng.randint(3)]), 'accepted:source-missing', 'a layer without source feeds another')
    ctx.distinct(('refuse', name))
