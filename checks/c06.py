"""C06: save_as_hdf5 / from_hdf5 round trips.

Monitor: everything observable of a network (architecture, precision, parameters,
modifiers, output name, outputs, losses, gradients, the parameters after further
training steps) is recorded at the moment of saving, and compared with what loading
the file gives - at once, after the original has moved on, and in another process."""
import json
import os
import subprocess
import sys
import tempfile
import shutil

import numpy as np

from vlib import env, nets, specs

TECHNIQUE = 'runtime monitor: state recorded at save vs the loaded network (also in a new process)'
LEVEL_NOTE = ('Random networks, precisions, initializations, modifiers and training histories; files '
              'loaded in the same and in other processes; all comparisons bit-exact.')
RULE = ('random network x precision x initialization spec x modifiers x history, then save, mutate, '
        'load, compare. Distinct: network signature x dtype x kinds of modifiers x history.')
ASSUMPTIONS = ['the dropout generator is re-seeded before compared passes (not part of a file)',
               'the same BLAS/numpy on both sides of a round trip (bit-exact comparison)']
MIN_COUNTERS = {'files_saved': 300, 'files_loaded': 300, 'other_process_loads': 10,
                'trained_comparisons': 150}


def families(tier):
    k = 1 if tier == 'quick' else 25
    return [('roundtrip', 1400 * k), ('special', 250 * k), ('process', 24 * (1 if k == 1 else 8)),
            ('shared', 2), ('overwrite', 120 * k), ('tools', 60 * k)]


def describe(net):
    from brainstorm.describable import get_description
    return json.dumps(get_description(net), sort_keys=True)


def reseed(net, seed):
    h = net.handler
    while not hasattr(h, 'rnd') and hasattr(h, 'handler'):
        h = h.handler
    h.rnd.set_seed(seed)


def run(net, spec, data, seed, training=True):
    reseed(net, seed)
    net.provide_external_data(data)
    net.forward_pass(training_pass=training)
    res = {}
    for (l, o), v in nets.outputs(net, spec).items():
        res['%s.%s' % (l, o)] = v
    for k, v in net.get_loss_values().items():
        res['loss ' + k] = np.array(v)
    if training:
        net.backward_pass()
        res['gradients'] = net.get('gradients')
    res['parameters'] = net.get('parameters')
    return res


def train_some(net, datas, stepper, seed):
    reseed(net, seed)
    if type(net.handler).__name__ == 'DebugHandler':     # it refuses to diverge
        stepper.learning_rate = 1e-5
    stepper.start(net)
    for d in datas:
        net.provide_external_data(d)
        stepper.run()
        net.apply_weight_modifiers()
    return net.get('parameters')


def compare(ctx, a, b, key, msg):
    ctx.check(set(a) == set(b), key, '%s: other buffers: %s', msg, sorted(set(a) ^ set(b)))
    for k in sorted(set(a) & set(b)):
        if not ctx.same(a[k], b[k], key, '%s: %s' % (msg, k)):
            return


def make(ctx, special=False):
    from brainstorm.handlers import NumpyHandler, DebugHandler
    rng = ctx.rng
    spec = nets.random_spec(rng)
    dtype = [np.float32, np.float64][rng.randint(2)]
    net = nets.build(spec, dtype)
    hkind = dtype.__name__
    wrap = rng.rand() < 0.06 and not special
    if wrap:
        net.set_handler(DebugHandler(NumpyHandler(dtype)))
        hkind += '+debug'
    shapes = nets.param_shapes(net)
    hist = []
    if rng.rand() < 0.85 and shapes:
        net.initialize(specs.init_spec(rng, shapes), seed=int(rng.randint(1000)))
        hist.append('init')
    if rng.rand() < 0.7:
        nets.set_params(net, nets.random_params(spec, net, rng))
        hist.append('set')
    elif 'init' in hist:            # BatchNorm statistics must be positive to run
        p = nets.random_params(spec, net, rng)
        keep = {l['name'] for l in spec['layers'] if l['type'] in ('BatchNorm', 'Clockwork',
                                                                 'ClockworkLstm')}
        nets.set_params(net, {k: v for k, v in p.items() if k in keep})
    else:
        nets.set_params(net, nets.random_params(spec, net, rng))
        hist.append('set')
    if rng.rand() < 0.6 and shapes and not wrap:
        net.set_weight_modifiers(specs.modifier_spec(rng, shapes, specs.weight_modifier))
        hist.append('wm')
    if rng.rand() < 0.6 and shapes and not wrap:
        net.set_gradient_modifiers(specs.modifier_spec(rng, shapes, specs.gradient_modifier))
        hist.append('gm')
    if rng.rand() < 0.5:
        l = spec['layers'][int(rng.randint(len(spec['layers'])))]
        net.output_name = '%s.outputs.%s' % (l['name'], sorted(l['outs'])[0])
        hist.append('out')
    T, B = int(rng.randint(1, 5)), int(rng.randint(1, 4))
    if rng.rand() < 0.6:
        train_some(net, [nets.make_data(spec, rng, T, B, dtype=dtype) for _ in range(2)],
                   specs.random_stepper(rng), 5)
        hist.append('train')
    if special:
        flat = net.get('parameters')
        if flat.size:
            vals = np.array([0.0, -0.0, 1e-40, 5e-324, 1e30, -3e38, np.nan, np.inf, -np.inf, 1 / 3.])
            with np.errstate(all='ignore'):
                vals = vals.astype(flat.dtype)
            flat = vals[rng.randint(0, len(vals), flat.size)]
            net.handler.set_from_numpy(net.buffer.parameters, flat)
        hist.append('special')
    ctx.distinct(nets.signature(spec), hkind, ','.join(hist))
    if ctx.sample is None:
        ctx.sample = {'net': nets.brief(spec), 'dtype': hkind, 'history': hist}
    return spec, net, dtype, hist


def compare_nets(ctx, net, loaded, params, desc, msg):
    """loaded against what was recorded when the file was written"""
    ctx.check(type(loaded).__name__ == 'Network', 'type', '%s', msg)
    ctx.check(loaded.architecture == json.loads(json.dumps(net.architecture)), 'architecture',
              '%s: %s', msg, loaded.architecture)
    ctx.check(list(loaded.layers) == list(net.layers), 'layer-order', '%s: %s', msg,
              list(loaded.layers))
    ctx.check(type(loaded.handler) is type(net.handler), 'handler-type', '%s', msg)
    got = loaded.get('parameters')
    ctx.same(got, params, 'parameters', msg)
    ctx.check(got.tobytes() == params.tobytes() or np.isnan(params).any(), 'parameter-bits', '%s', msg)
    ctx.check(loaded.output_name == json.loads(desc)['output_name'], 'output-name', '%s: %s', msg,
              loaded.output_name)
    d2 = json.loads(describe(loaded))
    d1 = json.loads(desc)
    for k in sorted(set(d1) | set(d2)):
        ctx.check(json.dumps(d1.get(k), sort_keys=True) == json.dumps(d2.get(k), sort_keys=True),
                  'description-' + k, '%s: saved %s, loaded %s', msg, d1.get(k), d2.get(k))


def run_case(case, ctx):
    fam = case['family']
    tmp = tempfile.mkdtemp(prefix='c06-')
    try:
        globals()['case_' + fam](ctx, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def case_roundtrip(ctx, tmp, special=False):
    from brainstorm import Network
    rng = ctx.rng
    spec, net, dtype, hist = make(ctx, special)
    T, B = int(rng.randint(1, 5)), int(rng.randint(1, 4))
    data = [nets.make_data(spec, rng, T + i, B, dtype=dtype) for i in range(3)]
    path = os.path.join(tmp, 'net.h5')
    desc, params = describe(net), net.get('parameters')
    before = None
    if not special and rng.rand() < 0.4:
        before = run(net, spec, data[0], 3, training=False)
        params, desc = net.get('parameters'), describe(net)
    rs = net.rnd.get_state()
    net.save_as_hdf5(path, **({'comment': u'a \u00e4 comment'} if rng.rand() < .3 else {}))
    ctx.count('files_saved')
    # saving changes nothing
    ctx.same(net.get('parameters'), params, 'save-changes-parameters', 'after saving')
    ctx.check(describe(net) == desc, 'save-changes-network', 'description differs after saving')
    ctx.check(str(net.rnd.get_state()) == str(rs), 'save-changes-rnd', 'random state differs')
    order = int(rng.randint(3))
    loaded = None
    if order == 0:
        loaded = Network.from_hdf5(path)
        ctx.count('files_loaded')
        compare_nets(ctx, net, loaded, params, desc, 'loaded at once')
    if special:
        loaded = loaded or Network.from_hdf5(path)
        ctx.count('files_loaded')
        compare_nets(ctx, net, loaded, params, desc, 'special values')
        return
    if before is not None:
        after = run(net, spec, data[0], 3, training=False)
        compare(ctx, after, before, 'save-changes-outputs', 'the network after saving')
    # what the original does from here on
    stepper_seed = int(rng.randint(1000))
    mk = lambda: specs.random_stepper(np.random.RandomState(stepper_seed))
    want_eval = run(net, spec, data[0], 7, training=False)
    want_train = run(net, spec, data[1], 8)
    bn = any(l['type'] == 'BatchNorm' for l in spec['layers'])
    want_par = train_some(net, data, mk(), 9)
    if order == 1:
        net.handler.set_from_numpy(net.buffer.parameters, np.zeros_like(params) + 7)
        net.set_weight_modifiers({})
        net.output_name = 'nonsense'
    loaded = loaded or Network.from_hdf5(path)
    ctx.count('files_loaded')
    if order:
        compare_nets(ctx, net, loaded, params, desc, 'loaded after the original moved on')
    compare(ctx, run(loaded, spec, data[0], 7, training=False), want_eval, 'outputs', 'evaluation')
    compare(ctx, run(loaded, spec, data[1], 8), want_train, 'training-pass', 'training pass')
    got_par = train_some(loaded, data, mk(), 9)
    ctx.count('trained_comparisons')
    ctx.same(got_par, want_par, 'trained', 'parameters after further training')
    # the file did not follow the networks
    again = Network.from_hdf5(path)
    ctx.same(again.get('parameters'), params, 'file-changed', 'second load')
    # a second generation is the same again
    p2 = os.path.join(tmp, 'net2.h5')
    again.save_as_hdf5(p2)
    third = Network.from_hdf5(p2)
    compare_nets(ctx, again, third, params, desc, 'second generation')
    ctx.count('files_saved')
    ctx.count('files_loaded', 2)


def case_special(ctx, tmp):
    case_roundtrip(ctx, tmp, True)


def case_overwrite(ctx, tmp):
    """several networks saved to one path / several paths; each load gives the last one written"""
    from brainstorm import Network
    rng = ctx.rng
    paths = [os.path.join(tmp, 'f%d.h5' % i) for i in range(2)]
    state = {}
    made = [make(ctx) for _ in range(3)]
    for step in range(6):
        spec, net, dtype, hist = made[rng.randint(3)]
        if rng.rand() < 0.5:
            train_some(net, [nets.make_data(spec, rng, 2, 2, dtype=dtype)], specs.random_stepper(rng), 5)
        p = paths[rng.randint(2)]
        if rng.rand() < 0.6:
            net.save_as_hdf5(p)
            ctx.count('files_saved')
            state[p] = (net, net.get('parameters'), describe(net))
        for q in sorted(state):
            n0, pr, ds = state[q]
            loaded = Network.from_hdf5(q)
            ctx.count('files_loaded')
            compare_nets(ctx, n0, loaded, pr, ds, 'step %d' % step)
    if not state:
        ctx.check(True, 'nothing')


def case_shared(ctx, tmp):
    """one initializer object selected by two patterns for the same parameter"""
    from brainstorm import Network
    from brainstorm.initializers import Gaussian
    spec = nets.Gen(ctx.rng)
    spec.add_input('default', (3,))
    spec.fc(name='ab', size=2, act='tanh')
    spec.head(kind='SquaredError', mask=False)
    net = nets.build(spec.spec())
    g = Gaussian()
    net.initialize({'a*': g, '*b': g, 'default': 0}, seed=1)
    params = net.get('parameters')
    path = os.path.join(tmp, 'n.h5')
    net.save_as_hdf5(path)
    from brainstorm.utils import NetworkValidationError
    try:
        loaded = Network.from_hdf5(path)
    except NetworkValidationError as e:
        ctx.check(False, 'shared-initializer-overlap', str(e))
        return
    ctx.same(loaded.get('parameters'), params, 'parameters', 'shared initializer')


def case_tools(ctx, tmp):
    """networks from the shorthand builders, default (float32) handler"""
    import brainstorm as bs
    from brainstorm import Network
    rng = ctx.rng
    out_type = ['classification', 'regression', 'multi-label'][rng.randint(3)]
    n_out = int(rng.randint(2, 5))
    txt = ['F8', 'R5', 'L4 D', 'F5 B', 'F4 R3', 'L3 F4'][rng.randint(6)]
    net = bs.tools.create_net_from_spec(out_type, (4,), (n_out,) if out_type != 'classification'
                                        else n_out, txt)
    net.initialize(bs.initializers.Gaussian(0.3), seed=int(rng.randint(99)))
    path = os.path.join(tmp, 'n.h5')
    desc, params = describe(net), net.get('parameters')
    net.save_as_hdf5(path)
    ctx.count('files_saved')
    loaded = Network.from_hdf5(path)
    ctx.count('files_loaded')
    compare_nets(ctx, net, loaded, params, desc, 'tools network')
    x = rng.randn(3, 2, 4)
    shapes = net.buffer.Input.outputs
    data = {k: (np.zeros if k != 'default' else np.ones)((3, 2) + tuple(shapes[k].shape[2:]))
            for k in shapes.keys()}
    data['default'] = x
    for n in (net, loaded):
        reseed(n, 4)
        n.provide_external_data(data)
        n.forward_pass(training_pass=True)
        n.backward_pass()
    ctx.same(loaded.get('gradients'), net.get('gradients'), 'training-pass', 'tools network')
    ctx.same(loaded.get(net.output_name), net.get(net.output_name), 'outputs', 'tools network')
    ctx.distinct('tools', out_type, txt)


CHILD = r'''
import sys, os
sys.path.insert(0, sys.argv[1])
from vlib import env
env.install(env.build_ext())
import json, pickle, numpy as np
from checks import c06
from vlib import nets
from brainstorm import Network
spec, data, path, out = pickle.load(open(sys.argv[2], 'rb'))
net = Network.from_hdf5(path)
res = {'params': net.get('parameters'), 'desc': c06.describe(net),
       'eval': c06.run(net, spec, data, 7, training=False), 'train': c06.run(net, spec, data, 8),
       'out': net.output_name, 'layers': list(net.layers)}
pickle.dump(res, open(out, 'wb'))
'''


def case_process(ctx, tmp):
    """load in a new interpreter with another hash seed"""
    import pickle
    rng = ctx.rng
    spec, net, dtype, hist = make(ctx)
    data = nets.make_data(spec, rng, 3, 2, dtype=dtype)
    path = os.path.join(tmp, 'net.h5')
    net.save_as_hdf5(path)
    ctx.count('files_saved')
    desc, params = describe(net), net.get('parameters')
    job = os.path.join(tmp, 'job')
    with open(job, 'wb') as f:
        pickle.dump((spec, data, path, os.path.join(tmp, 'out')), f)
    e = dict(os.environ, PYTHONHASHSEED=str(int(rng.randint(1, 10000))))
    p = subprocess.run([sys.executable, '-W', 'ignore', '-c', CHILD, env.VERIF, job], env=e,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True,
                       timeout=200)
    if p.returncode != 0:
        ctx.fatal('load-in-other-process', p.stdout[-1500:])
    with open(os.path.join(tmp, 'out'), 'rb') as f:
        res = pickle.load(f)
    ctx.count('other_process_loads')
    ctx.count('files_loaded')
    ctx.same(res['params'], params, 'parameters', 'other process')
    ctx.check(res['desc'] == desc, 'description-other-process', '%s vs %s', res['desc'], desc)
    ctx.check(res['layers'] == list(net.layers), 'layer-order', 'other process: %s', res['layers'])
    compare(ctx, run(net, spec, data, 7, training=False), res['eval'], 'outputs', 'other process')
    compare(ctx, run(net, spec, data, 8), res['train'], 'training-pass', 'other process')
