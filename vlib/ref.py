"""Independent float64 reference of the forward semantics of all layers, written
from their mathematical definitions with plain loops (no code shared with the
package)."""
import numpy as np

LO = 1e-6


def act(name, x):
    if name == 'linear':
        return x.copy()
    if name == 'tanh':
        return np.tanh(x)
    if name == 'sigmoid':
        e = np.exp(-np.abs(x))
        return np.where(x >= 0, 1 / (1 + e), e / (1 + e))
    if name == 'rel':
        return np.where(x > 0, x, 0.0)
    if name == 'el':
        return np.where(x > 0, x, np.expm1(np.minimum(x, 0)))
    raise ValueError(name)


def softmax(x):
    e = np.exp(x - x.max(axis=-1, keepdims=True))
    return e / e.sum(axis=-1, keepdims=True)


def conv2d(x, W, b, k, s, p):
    n, h, w, c = x.shape
    nf = W.shape[0]
    xp = np.zeros((n, h + 2 * p, w + 2 * p, c))
    xp[:, p:p + h, p:p + w] = x
    oh = (h + 2 * p - k[0]) // s[0] + 1
    ow = (w + 2 * p - k[1]) // s[1] + 1
    out = np.zeros((n, oh, ow, nf))
    Wf = W.reshape(nf, -1)
    for i in range(oh):
        for j in range(ow):
            patch = xp[:, i * s[0]:i * s[0] + k[0], j * s[1]:j * s[1] + k[1]].reshape(n, -1)
            out[:, i, j] = (patch[:, None, :] * Wf[None]).sum(-1) + b
    return out


def pool2d(x, k, s, p, ptype):
    n, h, w, c = x.shape
    oh = (h + 2 * p - k[0]) // s[0] + 1
    ow = (w + 2 * p - k[1]) // s[1] + 1
    out = np.zeros((n, oh, ow, c))
    for i in range(oh):
        for j in range(ow):
            y0, y1 = max(i * s[0] - p, 0), min(i * s[0] - p + k[0], h)
            x0, x1 = max(j * s[1] - p, 0), min(j * s[1] - p + k[1], w)
            if y1 <= y0 or x1 <= x0:          # entirely in the padding
                continue
            win = x[:, y0:y1, x0:x1].reshape(n, -1, c)
            out[:, i, j] = win.max(1) if ptype == 'max' else win.mean(1)
    return out


def lstm(x, P, a, clock=None):
    T, B = x.shape[:2]
    H = P['Rz'].shape[0]
    xf = x.reshape(T, B, -1)
    y = np.zeros((B, H))
    c = np.zeros((B, H))
    out = np.zeros((T, B, H))
    sg = lambda v: act('sigmoid', v)  # noqa
    for t in range(T):
        z = act(a, xf[t].dot(P['Wz'].T) + y.dot(P['Rz'].T) + P['bz'])
        i = sg(xf[t].dot(P['Wi'].T) + y.dot(P['Ri'].T) + c * P['pi'] + P['bi'])
        f = sg(xf[t].dot(P['Wf'].T) + y.dot(P['Rf'].T) + c * P['pf'] + P['bf'])
        cn = i * z + f * c
        if clock is not None:
            hold = (t % clock) != 0
            cn = np.where(hold, c, cn)
        o = sg(xf[t].dot(P['Wo'].T) + y.dot(P['Ro'].T) + cn * P['po'] + P['bo'])
        yn = o * act(a, cn)
        if clock is not None:
            yn = np.where(hold, y, yn)
        c, y = cn, yn
        out[t] = y
    return out


def rnn(x, P, a, clock=None):
    T, B = x.shape[:2]
    xf = x.reshape(T, B, -1)
    y = np.zeros((B, P['R'].shape[0]))
    out = np.zeros((T,) + y.shape)
    for t in range(T):
        yn = act(a, xf[t].dot(P['W'].T) + y.dot(P['R'].T) + P['bias'])
        if clock is not None:
            yn = np.where((t % clock) != 0, y, yn)
        y = yn
        out[t] = y
    return out


def layer(l, ins, P, training, aux):
    """outputs of one layer; P its parameters; aux: {'mask': dropout keep mask}.
    Returns ({out: array}, {param: new value}) — the latter for running statistics."""
    t, kw = l['type'], l['kwargs']
    if 'default' in ins:
        x = ins['default']
        T, B = x.shape[:2]
        feat = x.shape[2:]
        n = T * B
    upd = {}
    if t == 'FullyConnected':
        size = kw.get('size', feat)
        size = (size,) if isinstance(size, int) else tuple(size)
        y = x.reshape(n, -1).dot(P['W'].T) + P['bias']
        return {'default': act(kw.get('activation', 'rel'), y).reshape((T, B) + size)}, upd
    if t in ('Recurrent', 'Clockwork'):
        return {'default': rnn(x, P, kw.get('activation', 'tanh'),
                               P['timing'] if t == 'Clockwork' else None)}, upd
    if t in ('Lstm', 'ClockworkLstm'):
        return {'default': lstm(x, P, kw.get('activation', 'tanh'),
                                P['timing'] if t == 'ClockworkLstm' else None)}, upd
    if t == 'Convolution2D':
        y = conv2d(x.reshape((n,) + feat), P['W'], P['bias'], kw['kernel_size'],
                   kw.get('stride', (1, 1)), kw.get('padding', 0))
        y = act(kw.get('activation', 'tanh'), y)
        return {'default': y.reshape((T, B) + y.shape[1:])}, upd
    if t == 'Pooling2D':
        y = pool2d(x.reshape((n,) + feat), kw['kernel_size'], kw.get('stride', (1, 1)),
                   kw.get('padding', 0), kw['type'])
        return {'default': y.reshape((T, B) + y.shape[1:])}, upd
    if t == 'BatchNorm':
        f = x.reshape(-1, feat[-1])
        if training:
            m = f.mean(0)
            sd = np.sqrt(((f - m) ** 2).mean(0) + kw.get('epsilon', 1e-5))
            d = kw.get('decay', 0.9)
            upd['mu'] = d * P['mu'] + (1 - d) * (-m)
            upd['sigma'] = d * P['sigma'] + (1 - d) * sd
        else:
            m, sd = -P['mu'], P['sigma']
        y = P['gamma'] * (f - m) / sd + P['beta']
        return {'default': y.reshape(x.shape)}, upd
    if t == 'Dropout':
        if not training:
            return {'default': x.copy()}, upd
        return {'default': x * aux['mask'] / (1 - kw.get('drop_prob', 0.5))}, upd
    if t == 'Elementwise':
        return {'default': act(kw.get('activation', 'rel'), x)}, upd
    if t in ('NoOp', 'DeltasScaling'):
        return {'default': x.copy()}, upd
    if t == 'Merge':
        return {'default': np.concatenate([ins['inputs_1'], ins['inputs_2']], axis=-1)}, upd
    if t == 'Highway':
        g = ins['T']
        return {'default': g * ins['H'] + (1 - g) * ins['x']}, upd
    if t == 'Mask':
        m = ins['mask']
        if m.shape[2:] == (1,):
            m = m.reshape(m.shape[:2] + (1,) * len(feat))
        return {'default': x * m}, upd
    if t == 'SoftmaxCE':
        p = softmax(x)
        tg = ins['targets'].astype(int)
        pt = np.take_along_axis(p, tg, axis=-1)
        return {'predictions': p, 'loss': -np.log(np.clip(pt, LO, 1))}, upd
    if t == 'SigmoidCE':
        p = act('sigmoid', x)
        tg = ins['targets']
        return {'predictions': p,
                'loss': -(tg * np.log(np.clip(p, LO, 1)) +
                          (1 - tg) * np.log(np.clip(1 - p, LO, 1)))}, upd
    if t == 'SquaredError':
        return {'predictions': x.copy(), 'loss': 0.5 * (x - ins['targets']) ** 2}, upd
    if t == 'SquaredDifference':
        return {'default': (ins['inputs_1'] - ins['inputs_2']) ** 2}, upd
    if t == 'BinomialCrossEntropy':
        tg = ins['targets']
        e = -(tg * np.log(np.clip(x, LO, 1)) + (1 - tg) * np.log(np.clip(1 - x, LO, 1)))
        return {'default': e.reshape(T, B, -1).sum(-1, keepdims=True)}, upd
    if t == 'L1Decay':
        return {'loss': np.abs(x).reshape(T, B, -1).sum(-1, keepdims=True)}, upd
    if t == 'L2Decay':
        return {'loss': 0.5 * (x ** 2).reshape(T, B, -1).sum(-1, keepdims=True)}, upd
    if t == 'Loss':
        return {'loss': np.array([kw.get('importance', 1.0) * x.sum() / B])}, upd
    raise ValueError(t)


def address(a):
    return a.__array_interface__['data'][0]


def fan_order(net, l, inp):
    """Sources of one input in the order in which the input's memory holds them."""
    srcs = [tuple(s) for s in l['in'][inp]]
    if len(srcs) == 1:
        return srcs
    return sorted(srcs, key=lambda s: address(net.buffer[s[0]].outputs[s[1]]))


def forward(spec, params, data, training=False, aux=None, order=None):
    """All outputs of the network described by spec. order(l, inp) gives the order
    of several sources of one input. aux: {layer: {'mask': ...}}.
    Returns (outputs {(layer, out): array}, parameter updates {layer: {..}})."""
    vals = {('Input', k): np.asarray(v, dtype=np.float64) for k, v in data.items()}
    upds = {}
    for l in spec['layers']:
        ins = {}
        for inp, srcs in l['in'].items():
            srcs = [tuple(s) for s in srcs]
            if len(srcs) > 1:
                srcs = order(l, inp) if order else srcs
                ins[inp] = np.concatenate([vals[s] for s in srcs], axis=-1)
            else:
                ins[inp] = vals[srcs[0]]
        P = {k: np.asarray(v, dtype=np.float64)
             for k, v in params.get(l['name'], {}).items()}
        outs, upd = layer(l, ins, P, training, (aux or {}).get(l['name'], {}))
        for o, v in outs.items():
            vals[(l['name'], o)] = v
        if upd:
            upds[l['name']] = upd
    return vals, upds
