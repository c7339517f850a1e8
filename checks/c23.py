"""C23: schedules return their documented value, and driven attributes hold it.

Monitor: schedules are called for long and scattered sequences of epoch and update numbers;
in training, recording steppers log the attribute that every single update uses. The oracle
computes the documented value with exact rational arithmetic from the numbers alone and
replays the documented hook moments."""
from fractions import Fraction

import numpy as np

from vlib.training import Task

TECHNIQUE = 'runtime monitor: recorded schedule values and per-update stepper attributes vs exact documented formulas'
LEVEL_NOTE = ('Random schedules, timescales, intervals, counters up to 10^6, epochs, resumes and steppers; every value '
              'of every update is compared.')
RULE = 'random schedule x timescale x interval x counters / training run. Distinct: schedule, timescale, interval.'
ASSUMPTIONS = ['values may differ by float64 rounding (1e-12 relative)',
               'before training, schedules see the counters as they are; update schedules are applied after every '
               'update, epoch schedules after every epoch whose number is a multiple of the interval']
MIN_COUNTERS = {'values_compared': 200000, 'bounds_checked': 100000, 'updates_recorded': 10000, 'changes_seen': 1500,
                'resumes': 400, 'steps_verified': 5000, 'limits_reached': 10000}


def families(tier):
    k = 3 if tier == 'quick' else 150
    return [('values', 1500 * k), ('training', 900 * k), ('rebuilt', 150 * k)]


def run_case(case, ctx):
    globals()['case_' + case['family']](ctx)


def random_schedule(rng):
    """(schedule, {'kind', arguments}) including extreme arguments"""
    from brainstorm.training import schedules as S
    f = lambda a, b: float(np.round(rng.uniform(a, b), int(rng.randint(0, 8))))
    k = int(rng.randint(4))
    if k == 0:
        a = dict(initial_value=f(-1, 2), final_value=f(-1, 2), num_changes=int(rng.choice([1, 2, 3, 7, 10, 100, 1000])))
        return S.Linear(**a), dict(a, kind='Linear')
    if k == 1:
        a = dict(initial_value=f(.01, 1), factor=float(rng.choice([.5, .9, .99, 1., 1.01, 1.1, 2., 0.])))
        if rng.rand() < .6:
            a['minimum'] = f(0, .1)
        if rng.rand() < .6:
            a['maximum'] = f(.9, 3)
        return S.Exponential(**a), dict(a, kind='Exponential')
    if k == 2:
        n = int(rng.randint(0, 6))
        steps = sorted(set(int(x) for x in rng.randint(0 if rng.rand() < .2 else 1, int(rng.choice([8, 60, 3000])), n)))
        a = dict(initial_value=f(0, 1), steps=steps, values=[f(0, 1) for _ in steps])
        lists = list(steps), list(a['values'])
        s = S.MultiStep(a['initial_value'], *lists)
        if rng.rand() < .3:                      # several schedules from the same lists
            for _ in range(int(rng.randint(1, 3))):
                S.MultiStep(f(0, 1), *lists)
        return s, dict(a, kind='MultiStep')
    a = dict(initial_value=f(0, 1), T=int(rng.randint(1, 12)))
    return S.DecreaseAfterEpoch(**a), dict(a, kind='DecreaseAfterEpoch')


def documented(a, epoch, update, timescale, interval):
    """exact value as a Fraction, or None where float64 cannot hold it"""
    cur = epoch if timescale == 'epoch' else update
    n = cur // interval
    F = lambda x: Fraction(float(x))
    if a['kind'] == 'Linear':
        i, f, c = F(a['initial_value']), F(a['final_value']), a['num_changes']
        return f if n >= c else i + (f - i) * n / c
    if a['kind'] == 'Exponential':
        i, q = F(a['initial_value']), F(a['factor'])
        lo, hi = a.get('minimum', -np.inf), a.get('maximum', np.inf)
        if i > 0 and q > 1 and n * np.log(float(q)) + np.log(float(i)) > 690:
            return None if hi == np.inf else F(hi)
        if i == 0:
            v = i
        elif q < 1 and (q == 0 or n * -np.log(float(q)) > 690):
            v = i if n == 0 else Fraction(0)
        elif n > 20000:              # the exact power would be huge: float64 with logs
            v = F(a['initial_value'] * float(np.exp(n * np.log(float(q))))) if q != 1 else i
        else:
            v = i * q ** n if n < 200 else F(a['initial_value'] * float(np.power(np.longdouble(a['factor']), n)))
        if lo != -np.inf:
            v = max(v, F(lo))
        if hi != np.inf:
            v = min(v, F(hi))
        return v
    if a['kind'] == 'MultiStep':
        v = a['initial_value']
        for s, w in zip(a['steps'], a['values']):
            if cur >= s:
                v = w
        return F(v)
    e = epoch + 1
    return F(a['initial_value']) if e <= a['T'] else F(a['initial_value']) * a['T'] / e


def compare(ctx, got, a, e, u, ts, iv, what):
    want = documented(a, e, u, ts, iv)
    if want is None:
        return
    ctx.count('values_compared')
    w = float(want)
    r = 1e-12 if a['kind'] != 'Exponential' else 1e-9
    scale = max(abs(w), abs(a['initial_value']), abs(a.get('final_value', 0)))
    ok = np.isscalar(got) and abs(float(got) - w) <= r * scale + 1e-300
    ctx.check(ok, 'value-' + a['kind'], '%s: %s at epoch %d update %d (%s, interval %d) gave %r, documented %r',
              what, a, e, u, ts, iv, got, w)
    if a['kind'] == 'Exponential':
        lo, hi = a.get('minimum', -np.inf), a.get('maximum', np.inf)
        ctx.check(lo <= got <= hi, 'bounds', '%s: %r outside [%r, %r]', a, got, lo, hi)
        ctx.count('bounds_checked')
        if got in (lo, hi):
            ctx.count('limits_reached')
    elif a['kind'] == 'Linear':
        n = (e if ts == 'epoch' else u) // iv
        if n > a['num_changes']:
            ctx.check(got == a['final_value'], 'final', '%s: %r after the last change', a, got)
            ctx.count('limits_reached')
        lo, hi = sorted([a['initial_value'], a['final_value']])
        ctx.check(lo - 1e-12 <= got <= hi + 1e-12, 'bounds', '%s: %r outside [%r, %r]', a, got, lo, hi)
        ctx.count('bounds_checked')


def case_values(ctx):
    rng = ctx.rng
    s, a = random_schedule(rng)
    ts = ['epoch', 'update'][rng.randint(2)]
    iv = 1 if a['kind'] == 'MultiStep' else int(rng.choice([1, 1, 2, 3, 5, 10, 100]))
    before = repr(sorted(s.__describe__().items(), key=str))
    per_epoch = int(rng.choice([1, 2, 3, 7, 50]))
    points = []
    for u in range(int(rng.randint(30, 120))):          # as in training
        points.append((u // per_epoch, u))
    for p in a.get('steps', []) + [a.get('num_changes', 3) * iv, a.get('T', 2)]:
        points += [(max(0, p + d), max(0, p + d)) for d in (-1, 0, 1)]
    for _ in range(12):                                 # far away, unrelated numbers
        points.append((int(10 ** rng.uniform(0, 5)), int(10 ** rng.uniform(0, 6))))
    order = list(range(len(points)))
    if rng.rand() < .5:
        rng.shuffle(order)
    last = {}
    for i in order:
        e, u = points[i]
        got = s(e, u, ts, iv, None, None, {})
        compare(ctx, got, a, e, u, ts, iv, 'direct')
        last.setdefault((e, u), got)
        ctx.check(last[(e, u)] == got, 'history', '%s depends on earlier calls', a)
    # only the counter of the own timescale counts, and only whole intervals
    for i in order[:20]:
        e, u = points[i]
        got = s(e, u, ts, iv, None, None, {})
        cur = (e if ts == 'epoch' else u) // iv * iv
        other = int(rng.randint(1000))
        if a['kind'] != 'DecreaseAfterEpoch':
            for j in (0, iv - 1):
                x = s(cur + j if ts == 'epoch' else other, cur + j if ts == 'update' else other, ts, iv, None, None, {})
                ctx.check(x == got, 'interval', '%s changes within an interval of %d %ss', a, iv, ts)
    ctx.check(repr(sorted(s.__describe__().items(), key=str)) == before, 'schedule-changed', '%s', a)
    if a['kind'] == 'MultiStep':
        ctx.raises((AssertionError,), lambda: s(0, 0, ts, 2, None, None, {}), 'multistep-interval', 'interval 2')
    ctx.distinct('v', a['kind'], ts, iv, sorted(a.items(), key=str))
    ctx.sample = dict(schedule=a, timescale=ts, interval=iv)


def recording(rng):
    from brainstorm.training import SgdStepper, MomentumStepper, NesterovStepper
    base = [SgdStepper, MomentumStepper, NesterovStepper][rng.randint(3)]

    class Recording(base):
        def run(self):
            row = {'learning_rate': self.learning_rate}
            if hasattr(self, 'momentum'):
                row['momentum'] = self.momentum
            row['before'] = self.net.get('parameters')
            super(Recording, self).run()
            row['after'] = self.net.get('parameters')
            row['gradients'] = self.net.get('gradients')
            self.rows.append(row)
    st = Recording(.01)
    st.rows = []
    return st, base.__name__


class Moments(object):
    """which counters each schedule saw last"""
    def __init__(self, hooks):
        self.hooks = hooks                # [(attr, schedule args, timescale, interval)]
        self.e = self.u = 0

    def emit(self, ts, values):
        c = self.e if ts == 'epoch' else self.u
        for attr, a, t, iv in self.hooks:
            if t == ts and c % iv == 0:
                values[attr] = (a, self.e, self.u, t, iv)


def case_training(ctx):
    from brainstorm import Trainer
    from brainstorm.hooks import ModifyStepperAttribute, Hook, StopAfterEpoch
    rng = ctx.rng
    task = Task(rng, np.float64, dropout=False, n=int(rng.randint(1, 7)), max_layers=1)
    net = task.make_net()
    st, base = recording(rng)
    attrs = ['learning_rate'] if base == 'SgdStepper' else ['learning_rate', 'momentum']
    tr = Trainer(st, verbose=False)
    hooks = []
    for attr in attrs:
        if rng.rand() < .8:
            s, a = random_schedule(rng)
            ts = ['epoch', 'update'][rng.randint(2)]
            iv = 1 if a['kind'] == 'MultiStep' else int(rng.randint(1, 5))
            hooks.append((attr, a, ts, iv))
            tr.add_hook(ModifyStepperAttribute(s, attr, timescale=ts, interval=iv, name='mod_' + attr))
    bs = int(rng.randint(1, task.N + 1))
    updates = -(-task.N // bs)
    mo = Moments(hooks)
    initial = {'learning_rate': .01, 'momentum': 0.}
    values = {}
    seen = 0
    for part in range(int(rng.randint(1, 3))):
        if part:
            ctx.count('resumes')
        n = int(rng.randint(1, 8))
        tr.hooks.pop('stop', None)
        tr.add_hook(StopAfterEpoch(mo.e + n, name='stop'))
        tr.train(net, task.make_iter(shuffle=False, batch_size=bs))
        mo.emit('update', values)
        mo.emit('epoch', values)
        for _ in range(n):
            mo.e += 1
            for _ in range(updates):
                mo.u += 1
                if not ctx.check(seen < len(st.rows), 'updates', 'only %d updates ran', len(st.rows)):
                    return
                row = st.rows[seen]
                seen += 1
                ctx.count('updates_recorded')
                for attr in attrs:
                    what = '%s of %s at update %d (epoch %d)' % (attr, base, mo.u, mo.e)
                    if attr not in values:
                        ctx.check(row[attr] == initial[attr], 'undriven', '%s is %r without a schedule', what, row[attr])
                        continue
                    compare(ctx, row[attr], *values[attr], what=what)
                if seen > 1 and any(st.rows[seen - 2][a] != row[a] for a in attrs):
                    ctx.count('changes_seen')
                if base == 'SgdStepper' and np.all(np.isfinite(row['gradients'])) and abs(row['learning_rate']) < 1e6:
                    ctx.close(row['after'], row['before'] - row['learning_rate'] * row['gradients'], 'step',
                              'the update does not use the scheduled learning rate', rtol=1e-9,
                              atol=1e-12 * (1 + np.abs(row['before']).max()))
                    ctx.count('steps_verified')
                mo.emit('update', values)
            mo.emit('epoch', values)
        for attr in values:
            compare(ctx, getattr(st, attr), *values[attr], what='%s after training' % attr)
    ctx.check(seen == len(st.rows), 'updates', '%d updates ran, expected %d', len(st.rows), seen)
    ctx.distinct('t', base, [(h[0], h[1]['kind'], h[2], h[3]) for h in hooks], updates)
    ctx.sample = {'stepper': base, 'hooks': hooks}


def case_rebuilt(ctx):
    """a schedule rebuilt from its description behaves the same"""
    from brainstorm.describable import create_from_description, get_description
    import json
    rng = ctx.rng
    s, a = random_schedule(rng)
    a = dict(a)
    if a['kind'] == 'Exponential':
        a.setdefault('minimum', -1e9)
        a.setdefault('maximum', 1e9)
        from brainstorm.training.schedules import Exponential
        s = Exponential(**{k: v for k, v in a.items() if k != 'kind'})
    d = get_description(s)
    t = create_from_description(json.loads(json.dumps(d)))
    iv = 1
    for u in list(range(30)) + [100, 10 ** 4]:
        got = t(u // 3, u, 'update', iv, None, None, {})
        compare(ctx, got, a, u // 3, u, 'update', iv, 'rebuilt')
        ctx.check(got == s(u // 3, u, 'update', iv, None, None, {}), 'rebuilt', '%s differs after rebuilding', a)
    ctx.distinct('d', sorted(a.items(), key=str))
