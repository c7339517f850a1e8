"""C22: samples do not influence each other, nor the future the past.

Monitor: pairs of executions of the same network on related data - permuted, cut out, with the
other sequences or the future replaced (by noise, huge values, infinities or NaN), with masked
steps rewritten or cut off - whose buffers must agree wherever the change must not reach."""
import copy

import numpy as np

from vlib import nets

TECHNIQUE = 'runtime monitor: metamorphic pairs of executions (permutation, isolation, poisoned neighbours, truncated future, rewritten masked steps)'
LEVEL_NOTE = ('Random architectures over all layer types without batch statistics (BatchNorm in evaluation mode), random batches; '
              'outputs of all layers, losses per sequence, input gradients and parameter gradients of the pairs are compared.')
RULE = 'random network x batch x relation. Distinct: graph signature and relation.'
ASSUMPTIONS = ['the loss of a batch is the mean over its sequences, so gradients are compared per sequence (times batch size)',
               'masked steps hold finite values (0 * nan is nan)',
               'replaced steps of a recurrent network lie behind the last step that is not masked']
MIN_COUNTERS = {'cut_off': 70, 'deltas_compared': 60000, 'gradients_compared': 25000, 'independent_steps': 35, 'masked_steps': 1500, 'mean_losses': 45, 'pairs': 1000, 'poisoned_huge': 20, 'poisoned_inf': 20, 'poisoned_nan': 20, 'poisoned_noise': 20, 'values_compared': 120000}


def families(tier):
    k = 1 if tier == 'quick' else 30
    return [('permute', 350 * k), ('subset', 350 * k), ('poison', 400 * k), ('future', 450 * k), ('truncate', 350 * k),
            ('mask', 500 * k), ('steps', 200 * k)]


def run_case(case, ctx):
    globals()['case_' + case['family']](ctx)


class Subject(object):
    """A random network with parameters; results of passes over data."""

    def __init__(self, rng, training=True, recurrent=True, dropout=False, loss=True, T=None, masked=False, B=None):
        self.rng, self.training = rng, training
        menu = {'BatchNorm': 0 if training else 2, 'Dropout': 1 if dropout else 0, 'DeltasScaling': 1}
        if not recurrent:
            menu.update(Recurrent=0, Lstm=0, Clockwork=0, ClockworkLstm=0)
        else:
            menu.update(Recurrent=3, Lstm=3, Clockwork=2, ClockworkLstm=2)
        if rng.rand() < .5:
            menu.update(fc=2)
        while True:
            self.spec = nets.random_spec(rng, menu=menu, loss=True, max_size=4)
            if not recurrent and any(l['type'] in nets.recurrent_types() for l in self.spec['layers']):
                continue                                     # a fan-in may have brought one
            break
        if masked:
            self.add_masks()
        self.T = int(rng.randint(1, 7)) if T is None else T
        self.B = int(rng.choice([2, 3, 4, 7])) if B is None else B
        self.data = nets.make_data(self.spec, rng, self.T, self.B)
        self.net = nets.build(self.spec, seed=1)
        self.params = nets.random_params(self.spec, self.net, rng)
        self.used = [i for i in sorted(nets.used_inputs(self.spec)) if self.spec['inputs'][i]['kind'] == 'real']
        self.recurrent = any(l['type'] in nets.recurrent_types() for l in self.spec['layers'])
        self.names = [(l['name'], o) for l in self.spec['layers'] for o in l['outs'] if l['type'] != 'Loss']

    def add_masks(self):
        """All losses go through one mask."""
        self.spec = copy.deepcopy(self.spec)
        self.spec['inputs']['M'] = {'shape': [1], 'kind': 'mask'}
        res = []
        for l in self.spec['layers']:
            if l['type'] == 'Loss':
                name = 'M_' + l['name']
                res.append({'name': name, 'type': 'Mask', 'kwargs': {}, 'in': {'default': l['in']['default'], 'mask': [['Input', 'M']]},
                            'outs': {'default': self.shape(l['in']['default'])}})
                l['in'] = {'default': [[name, 'default']]}
            res.append(l)
        self.spec['layers'] = res

    def shape(self, srcs):
        for l in self.spec['layers']:
            if [l['name']] == [s for s, _ in srcs]:
                return l['outs'][srcs[0][1]]
        return self.spec['inputs'][srcs[0][1]]['shape']

    def run(self, data, fresh=True, backward=True):
        """outputs of all layers, per-sequence input gradients, parameter gradients and total loss."""
        from brainstorm.handlers import NumpyHandler
        net = nets.build(self.spec, seed=1) if fresh else self.net
        if not fresh:
            net.set_handler(NumpyHandler(np.float64, seed=1))
        nets.set_params(net, self.params)
        net.provide_external_data({k: v.copy() for k, v in data.items()})
        net.forward_pass(training_pass=self.training)
        T, B = next(iter(data.values())).shape[:2]
        r = {'out': {k: net.get('%s.outputs.%s' % k)[:T] for k in self.names}, 'delta': {}, 'B': B, 'T': T}
        if self.training and backward:
            net.backward_pass()
            r['delta'] = {i: net.get('Input.output_deltas.' + i) * B for i in self.used}
            r['gradients'] = net.get('gradients') if net.buffer.parameters.size else np.zeros(0)
        r['loss'] = net.get_loss_values()['total_loss']
        return r

    def agree(self, ctx, a, b, pa, pb, msg, deltas=True):
        """a.out[pa] against b.out[pb] (index expressions over time and batch)."""
        ctx.count('pairs')
        for k in self.names:
            ctx.count('values_compared', b['out'][k][pb].size)
            ctx.close(a['out'][k][pa], b['out'][k][pb], 'outputs', '%s: outputs of %s' % (msg, k), rtol=1e-8, atol=1e-10)
        if deltas:
            for i in a['delta']:
                ctx.count('deltas_compared', b['delta'][i][pb].size)
                scale = np.nanmax(np.abs(b['delta'][i][pb])) if b['delta'][i][pb].size else 0.
                ctx.close(a['delta'][i][pa], b['delta'][i][pb], 'input-gradients', '%s: gradient of input %s' % (msg, i), rtol=1e-8,
                          atol=1e-10 * max(1., scale if np.isfinite(scale) else 1.))

    def distinct(self, ctx, what):
        ctx.distinct((what, nets.signature(self.spec)))
        ctx.sample = {'relation': what, 'network': nets.brief(self.spec), 'T': self.T, 'B': self.B}


ALL = slice(None)


def case_permute(ctx):
    rng = ctx.rng
    s = Subject(rng, training=bool(rng.rand() < .7))
    s.distinct(ctx, 'permutation')
    p = rng.permutation(s.B)
    a = s.run(s.data)
    b = s.run({k: v[:, p] for k, v in s.data.items()}, fresh=bool(rng.rand() < .5))
    s.agree(ctx, a, b, (ALL, p), (ALL, ALL), 'permuted %s' % list(p))
    ctx.close(b['loss'], a['loss'], 'loss', 'total loss of the permuted batch', rtol=1e-9, atol=1e-10)


def case_subset(ctx):
    rng = ctx.rng
    s = Subject(rng, training=bool(rng.rand() < .7))
    s.distinct(ctx, 'subset')
    a = s.run(s.data)
    total = 0.
    if rng.rand() < .5:
        for j in range(s.B):            # every sequence alone
            b = s.run({k: v[:, j:j + 1] for k, v in s.data.items()}, fresh=False)
            s.agree(ctx, a, b, (ALL, [j]), (ALL, ALL), 'sequence %d alone' % j)
            total += b['loss']
        ctx.close(total / s.B, a['loss'], 'loss', 'mean of the losses of the single sequences', rtol=1e-9, atol=1e-10)
        ctx.count('mean_losses')
    else:
        idx = rng.permutation(s.B)[:int(rng.randint(1, s.B + 1))]
        if rng.rand() < .3:
            idx = rng.randint(0, s.B, int(rng.randint(1, 9)))       # repeated sequences
        b = s.run({k: v[:, idx] for k, v in s.data.items()}, fresh=bool(rng.rand() < .5))
        s.agree(ctx, a, b, (ALL, idx), (ALL, ALL), 'sequences %s' % list(idx))


def poison(rng, spec, data, where, kinds=None):
    """Replace the data at an index (over time and batch) by something else."""
    kind = (kinds or ['noise', 'huge', 'inf', 'nan'])[rng.randint(len(kinds or 'abcd'))]
    res = {k: v.copy() for k, v in data.items()}
    for k in sorted(res):
        i = spec['inputs'][k]
        new = nets.make_data({'inputs': {k: i}}, rng, *data[k].shape[:2])[k]
        if i['kind'] in ('real', 'value'):
            if kind == 'huge':
                new *= 1e6
            elif kind == 'inf':
                new[...] = np.inf * np.sign(new)
            elif kind == 'nan':
                new[...] = np.nan
        res[k][where] = new[where]
    return kind, res


def case_poison(ctx):
    rng = ctx.rng
    s = Subject(rng, training=bool(rng.rand() < .8), dropout=bool(rng.rand() < .4))
    keep = rng.rand(s.B) < .5
    keep[rng.randint(s.B)] = True
    others = np.nonzero(~keep)[0]
    a = s.run(s.data)
    kind, data = poison(rng, s.spec, s.data, (ALL, others))
    s.distinct(ctx, 'neighbours replaced by ' + kind)
    ctx.count('poisoned_' + kind)
    b = s.run(data, fresh=bool(rng.rand() < .5))
    k = np.nonzero(keep)[0]
    s.agree(ctx, b, a, (ALL, k), (ALL, k), 'sequences %s replaced by %s' % (list(others), kind))


def case_future(ctx):
    rng = ctx.rng
    s = Subject(rng, training=bool(rng.rand() < .8), dropout=bool(rng.rand() < .4), T=int(rng.randint(2, 8)))
    t0 = int(rng.randint(1, s.T))
    a = s.run(s.data)
    kind, data = poison(rng, s.spec, s.data, (slice(t0, None),))
    s.distinct(ctx, 'future replaced by ' + kind)
    b = s.run(data, fresh=bool(rng.rand() < .5))
    s.agree(ctx, b, a, (slice(0, t0),), (slice(0, t0),), 'steps from %d replaced by %s' % (t0, kind), deltas=not s.recurrent)
    if not s.recurrent:                       # any other step, before or behind
        t = int(rng.randint(s.T))
        where = np.nonzero(np.arange(s.T) != t)[0]
        kind, data = poison(rng, s.spec, s.data, (where,))
        c = s.run(data)
        s.agree(ctx, c, a, ([t],), ([t],), 'steps other than %d replaced by %s' % (t, kind))
        ctx.count('independent_steps')


def case_truncate(ctx):
    rng = ctx.rng
    s = Subject(rng, training=bool(rng.rand() < .7), T=int(rng.randint(2, 8)))
    s.distinct(ctx, 'truncation')
    t0 = int(rng.randint(1, s.T))
    a = s.run(s.data)
    b = s.run({k: v[:t0] for k, v in s.data.items()}, fresh=bool(rng.rand() < .5))
    s.agree(ctx, a, b, (slice(0, t0),), (ALL,), 'first %d steps' % t0, deltas=not s.recurrent)


def case_mask(ctx):
    """Steps behind the end of the sequences, as told by the mask."""
    rng = ctx.rng
    s = Subject(rng, masked=True, T=int(rng.randint(2, 8)), dropout=bool(rng.rand() < .3))
    s.distinct(ctx, 'masked end')
    lens = rng.randint(0, s.T + 1, s.B)
    if rng.rand() < .3:
        lens[:] = rng.randint(1, s.T + 1)
    s.data['M'][...] = 0
    for j, n in enumerate(lens):
        s.data['M'][:n, j] = 1
        if rng.rand() < .3 and n:
            s.data['M'][:n, j, 0] = rng.rand(n) < .6
            s.data['M'][n - 1, j] = 1
    a = s.run(s.data)
    behind = np.arange(s.T)[:, None] >= lens[None, :]
    kind, data = poison(rng, s.spec, s.data, behind, ['noise', 'huge'][:1 + int(rng.rand() < .3)])
    data['M'] = s.data['M']
    b = s.run(data, fresh=bool(rng.rand() < .5))
    msg = 'lengths %s, steps behind replaced by %s' % (list(lens), kind)
    ctx.count('masked_steps', int(behind.sum()))
    close_runs(ctx, s, a, b, msg, ~behind)
    for i in a['delta']:
        ctx.check(not a['delta'][i][behind].any(), 'masked-gradient', '%s: input %s gets gradients at masked steps', msg, i)
    n = int(lens.max())
    dropout = any(l['type'] == 'Dropout' for l in s.spec['layers'])
    if 0 < n < s.T and not dropout:
        c = s.run({k: v[:n] for k, v in s.data.items()})
        ctx.count('cut_off')
        close_runs(ctx, s, a, c, 'lengths %s, cut off' % list(lens), ~behind, n)


def close_runs(ctx, s, a, b, msg, where, n=None):
    ctx.count('pairs')
    ctx.close(b['loss'], a['loss'], 'masked-loss', msg + ': total loss', rtol=1e-9, atol=1e-10)
    scale = np.max(np.abs(a['gradients'])) if a['gradients'].size else 0
    ctx.count('gradients_compared', a['gradients'].size)
    ctx.close(b['gradients'], a['gradients'], 'masked-gradient', msg + ': parameter gradients', rtol=1e-8, atol=1e-10 * max(1, scale))
    for i in a['delta']:
        d, e = a['delta'][i], b['delta'][i]
        if n is not None:
            d, w = d[:n], where[:n]
        else:
            w = where
        ctx.count('deltas_compared', d[w].size)
        ctx.close(e[w], d[w], 'masked-gradient', '%s: gradient of input %s' % (msg, i), rtol=1e-8, atol=1e-10)


def case_steps(ctx):
    """Any masked steps: their targets never matter, without recurrence nor do their inputs."""
    rng = ctx.rng
    s = Subject(rng, masked=True, recurrent=bool(rng.rand() < .4), T=int(rng.randint(1, 6)))
    s.distinct(ctx, 'masked steps')
    off = rng.rand(s.T, s.B) < .4
    s.data['M'][...] = ~off[:, :, None]
    a = s.run(s.data)
    kind, data = poison(rng, s.spec, s.data, off, ['noise'])
    for k in data:
        if k == 'M' or (s.recurrent and s.spec['inputs'][k]['kind'] in ('real', 'mask')):
            data[k] = s.data[k]
    b = s.run(data)
    ctx.count('masked_steps', int(off.sum()))
    close_runs(ctx, s, a, b, 'masked steps rewritten', ~off)
    if not s.recurrent:
        for i in a['delta']:
            ctx.check(not a['delta'][i][off].any(), 'masked-gradient', 'input %s gets gradients at masked steps', i)
