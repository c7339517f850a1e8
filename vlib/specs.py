"""Random initializer / modifier / hook / stepper specifications for live networks."""
import numpy as np

from .nets import prod

SCALES = ['rel', 'tanh', 'sigmoid', 'linear', 0.5, 2.0]


def any_initializer(rng, depth=0, for_shape=None):
    """An initializer object (or number) that can handle every shape, or - if
    for_shape is given - at least this shape."""
    from brainstorm import initializers as I
    opts = ['gauss', 'uniform', 'uniform2', 'number']
    if for_shape is not None:
        if len(for_shape) >= 2:
            opts += ['fanin', 'faninout']
        if len(for_shape) == 2:
            opts += ['orthogonal', 'identity_any', 'sparse_in', 'sparse_out']
            if for_shape[0] == for_shape[1]:
                opts += ['echo', 'walk', 'identity']
        if for_shape[0] % 4 == 0:
            opts += ['lstmopt']
        opts += ['array', 'list']
    if depth > 1:
        opts = ['gauss', 'uniform', 'number']
    k = opts[int(rng.randint(len(opts)))]
    f = lambda a, b: float(np.round(rng.uniform(a, b), 3))
    if k == 'gauss':
        return I.Gaussian(std=f(0.01, 1), mean=f(-1, 1))
    if k == 'uniform':
        return I.Uniform(f(0.05, 1) * (1 if rng.rand() < .7 else -1))
    if k == 'uniform2':
        lo = f(-1, 1)
        return I.Uniform(lo, lo + f(0.1, 1))
    if k == 'number':
        return [0, 1, -2, 0.5, f(-2, 2)][int(rng.randint(5))]
    if k == 'fanin':
        return I.DenseSqrtFanIn(SCALES[int(rng.randint(len(SCALES)))])
    if k == 'faninout':
        return I.DenseSqrtFanInOut(SCALES[int(rng.randint(len(SCALES)))])
    if k == 'orthogonal':
        return I.Orthogonal(f(0.2, 2))
    if k == 'identity_any':
        return I.Identity(f(0.2, 2), f(0, 0.1), enforce_square=False)
    if k == 'identity':
        return I.Identity(f(0.2, 2), f(0, 0.1))
    if k == 'echo':
        return I.EchoState(f(0.2, 1.5))
    if k == 'walk':
        return I.RandomWalk(['linear', 'rel'][int(rng.randint(2))],
                            None if rng.rand() < .5 else f(0.2, 2))
    if k == 'sparse_in':
        return I.SparseInputs(any_initializer(rng, depth + 1, for_shape),
                              int(rng.randint(1, for_shape[0] + 1)))
    if k == 'sparse_out':
        return I.SparseOutputs(any_initializer(rng, depth + 1, for_shape),
                               int(rng.randint(1, for_shape[1] + 1)))
    if k == 'lstmopt':
        sub = (for_shape[0] // 4,) + tuple(for_shape[1:])
        return I.LstmOptInit(*[any_initializer(rng, depth + 1, sub) for _ in range(4)])
    arr = np.round(rng.randn(*for_shape), 4)
    if k == 'array':
        return I.ArrayInitializer(arr)
    return arr.tolist() if depth == 0 else I.ArrayInitializer(arr)


def init_spec(rng, shapes):
    """An unambiguous initialization specification for {layer: {param: shape}}."""
    from brainstorm import initializers as I
    spec = {'default': any_initializer(rng)}
    if rng.rand() < 0.3:
        spec['default'] = [I.EchoState(0.9), I.Orthogonal(), I.DenseSqrtFanIn()][rng.randint(3)]
        spec['fallback'] = any_initializer(rng)
    for ln in sorted(shapes):
        r = rng.rand()
        if r < 0.35:
            sub = {}
            for pn in sorted(shapes[ln]):
                if rng.rand() < 0.6:
                    sub[pn] = any_initializer(rng, 0, shapes[ln][pn])
            if rng.rand() < 0.4:
                sub['default'] = any_initializer(rng)
            if sub:
                spec[ln] = sub
        elif r < 0.5:
            spec[ln] = any_initializer(rng)
    return spec


def weight_modifier(rng, shape):
    from brainstorm import value_modifiers as V
    k = int(rng.randint(6))
    if k == 0:
        return V.ConstrainL2Norm(float(np.round(rng.uniform(0.1, 1.5), 3)))
    if k == 1:
        return V.ClipValues()
    if k == 2:
        a = float(np.round(rng.uniform(-1, 0.2), 3))
        return V.ClipValues(a, a + float(np.round(rng.uniform(0.1, 1), 3)))
    if k == 3:
        return V.MaskValues(rng.randint(0, 2, shape).astype([float, np.float32, int][rng.randint(3)]))
    if k == 4:
        return V.FreezeValues()
    return V.FreezeValues(np.round(rng.randn(*shape), 3))


def gradient_modifier(rng, shape):
    from brainstorm import value_modifiers as V
    k = int(rng.randint(6))
    if k == 0:
        return V.L1Decay(float(np.round(rng.uniform(-0.1, 0.5), 3)))
    if k == 1:
        return V.L2Decay(float(np.round(rng.uniform(-0.1, 0.5), 3)))
    if k == 2:
        return V.ClipValues(-0.05, 0.05)
    if k == 3:
        return V.MaskValues(rng.randint(0, 2, shape).astype(float))
    if k == 4:
        return V.ConstrainL2Norm(0.1)
    return V.ClipValues(-0.5, 0.2)


def modifier_spec(rng, shapes, make, p=0.4):
    """{layer: {param: modifier or list}} for explicit names."""
    spec = {}
    for ln in sorted(shapes):
        for pn in sorted(shapes[ln]):
            if rng.rand() < p:
                m = make(rng, shapes[ln][pn])
                if rng.rand() < 0.4:
                    m = [m] + [make(rng, shapes[ln][pn]) for _ in range(rng.randint(0, 3))]
                spec.setdefault(ln, {})[pn] = m
    return spec


def random_stepper(rng):
    from brainstorm.training import SgdStepper, MomentumStepper, NesterovStepper
    lr = float([0.01, 0.1, 0.05][rng.randint(3)])
    k = int(rng.randint(3))
    if k == 0:
        return SgdStepper(lr)
    cls = MomentumStepper if k == 1 else NesterovStepper
    return cls(lr, float([0.0, 0.5, 0.9][rng.randint(3)]), bool(rng.rand() < .5))


def random_schedule(rng):
    from brainstorm.training import schedules as S
    f = lambda a, b: float(np.round(rng.uniform(a, b), 4))
    k = int(rng.randint(4))
    if k == 0:
        return S.Linear(f(0, 1), f(0, 1), int(rng.randint(1, 12)))
    if k == 1:
        if rng.rand() < .5:
            return S.Exponential(f(0.1, 1), f(0.3, 1.8))
        return S.Exponential(f(0.1, 1), f(0.3, 1.8), f(0, 0.1), f(1, 3))
    if k == 2:
        n = int(rng.randint(0, 4))
        steps = sorted(set(int(x) for x in rng.randint(1, 20, n)))
        return S.MultiStep(f(0, 1), steps, [f(0, 1) for _ in steps])
    return S.DecreaseAfterEpoch(f(0.01, 1), int(rng.randint(1, 8)))
