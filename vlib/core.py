"""Case runner: executes workload cases in worker processes, collects what the
monitors observed, classifies violations, writes evidence and replays."""
import contextlib
import hashlib
import io
import json
import os
import select
import signal
import sys
import time
import traceback

from . import env
from .env import HarnessError

MAX_VIOL_PER_CASE = 6


class Violation(Exception):
    def __init__(self, key, msg):
        Exception.__init__(self, '%s: %s' % (key, msg))
        self.key, self.msg = key, msg


def case_seed(*parts):
    h = hashlib.sha256('|'.join(str(p) for p in parts).encode()).digest()
    return int.from_bytes(h[:4], 'big') & 0x7fffffff


class Ctx(object):
    """What a case sees: randomness, and the place to report observations."""

    def __init__(self, case):
        import numpy as np
        self.case = case
        self.seed = case['seed']
        self.rng = np.random.RandomState(case['seed'])
        self.counters = {}
        self.distinct_keys = set()
        self.violations = []
        self.sample = None

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + int(n)

    def distinct(self, *key):
        self.distinct_keys.add('|'.join(str(k) for k in key))

    def violate(self, key, msg):
        """Report a violation; key names the mechanism (what failed, where)."""
        if len(self.violations) < MAX_VIOL_PER_CASE:
            self.violations.append({'key': key, 'msg': str(msg)[:2000]})

    def check(self, cond, key, msg='', *fmt):
        self.count('monitor_checks')
        if not cond:
            self.violate(key, (msg % fmt) if fmt else msg)
        return bool(cond)

    def fatal(self, key, msg):
        raise Violation(key, msg)

    # -- numeric comparison ------------------------------------------------
    def close(self, got, want, key, msg='', rtol=1e-9, atol=1e-11):
        import numpy as np
        self.count('monitor_checks')
        got = np.asarray(got)
        want = np.asarray(want)
        if got.shape != want.shape:
            self.violate(key, '%s: shape %s, expected %s' % (msg, got.shape, want.shape))
            return False
        if got.size == 0:
            return True
        g = np.atleast_1d(got).astype(np.float64)
        w = np.atleast_1d(want).astype(np.float64)
        with np.errstate(all='ignore'):
            bad = ~((np.abs(g - w) <= atol + rtol * np.abs(w)) | (g == w) |
                    (np.isnan(g) & np.isnan(w)))
        if bad.any():
            i = tuple(int(x[0]) for x in np.nonzero(bad))
            self.violate(key, '%s: at %s got %r, expected %r (%d of %d entries differ)' % (
                msg, i, float(g[i]), float(w[i]), int(bad.sum()), bad.size))
            return False
        return True

    def same(self, got, want, key, msg=''):
        """Bit-identical arrays (NaN equal to NaN, 0.0 distinct from nothing)."""
        import numpy as np
        self.count('monitor_checks')
        got = np.asarray(got)
        want = np.asarray(want)
        if got.shape != want.shape or got.dtype != want.dtype:
            self.violate(key, '%s: %s%s, expected %s%s' % (
                msg, got.dtype, got.shape, want.dtype, want.shape))
            return False
        bad = got != want
        if got.dtype.kind in 'fc':
            bad &= ~(np.isnan(got) & np.isnan(want))
        if np.any(bad):
            i = tuple(int(x[0]) for x in np.nonzero(bad)) if got.ndim else ()
            self.violate(key, '%s: at %s got %r, expected %r (%d of %d entries differ)' % (
                msg, i, got[i], want[i], int(np.sum(bad)), got.size))
            return False
        return True

    def raises(self, exc, fn, key, msg=''):
        """fn() must raise one of exc."""
        self.count('monitor_checks')
        try:
            fn()
        except exc:
            self.count('rejections_seen')
            return True
        except Exception as e:
            self.violate(key, '%s: raised %s(%s) instead of being rejected with %s' % (
                msg, type(e).__name__, str(e)[:200], exc))
            return False
        self.violate(key, '%s: was accepted' % msg)
        return False


INFRA = (MemoryError, KeyboardInterrupt, HarnessError, OSError)


def in_repo(tb):
    return [f for f in traceback.extract_tb(tb)
            if os.path.abspath(f.filename).startswith(env.REPO + os.sep)]


def execute(mod, case):
    """Run one case; returns a JSON-able result."""
    import numpy as np
    import warnings
    warnings.simplefilter('ignore')
    np.random.seed(case['seed'] % (2 ** 32))
    reset_global_rnd(case['seed'])
    ctx = Ctx(case)
    harness = None
    out = io.StringIO()
    t0 = time.time()
    try:
        with contextlib.redirect_stdout(out):
            with np.errstate(all='ignore'):
                mod.run_case(case, ctx)
    except Violation as v:
        ctx.violate(v.key, v.msg)
    except INFRA as e:
        tb = sys.exc_info()[2]
        if isinstance(e, OSError) and in_repo(tb) and getattr(e, 'errno', None) not in (12, 28, 24):
            ctx.violate(exc_key(e, tb), exc_text(e))
        else:
            harness = exc_text(e)
    except Exception as e:
        ctx.violate(exc_key(e, sys.exc_info()[2]), exc_text(e))
    return {'counters': ctx.counters, 'distinct': sorted(ctx.distinct_keys),
            'violations': ctx.violations, 'sample': ctx.sample,
            'harness': harness, 't': time.time() - t0}


def exc_key(e, tb):
    fr = in_repo(tb)
    where = '%s' % fr[-1].name if fr else 'workload'
    return 'unexpected-error:%s:%s' % (type(e).__name__, where)


def exc_text(e):
    return '%s: %s\n%s' % (type(e).__name__, e, ''.join(
        traceback.format_exception(type(e), e, e.__traceback__)[-12:]))


def reset_global_rnd(seed):
    from brainstorm.randomness import global_rnd
    global_rnd.set_seed(seed)


# ---------------------------------------------------------------- worker pool

class Worker(object):
    open_fds = set()       # pipe ends of the parent; a child closes them all

    def __init__(self, mod, cases):
        r1, w1 = os.pipe()   # parent -> child
        r2, w2 = os.pipe()   # child -> parent
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            os.close(w1)
            os.close(r2)
            for fd in Worker.open_fds:
                os.close(fd)
            try:
                child_loop(mod, cases, r1, w2)
            finally:
                os._exit(0)
        os.close(r1)
        os.close(w2)
        self.pid, self.w, self.r = pid, w1, r2
        Worker.open_fds |= {w1, r2}
        self.buf = b''
        self.current = None
        self.started = 0.

    def send(self, idx):
        self.current = idx
        self.started = time.time()
        os.write(self.w, b'%d\n' % idx)

    def close(self, kill=False):
        if kill:
            try:
                os.kill(self.pid, signal.SIGKILL)
            except OSError:
                pass
        for fd in (self.w, self.r):
            Worker.open_fds.discard(fd)
            try:
                os.close(fd)
            except OSError:
                pass
        try:
            _, st = os.waitpid(self.pid, 0)
        except OSError:
            st = 0
        return st


def watch_lines(folder):
    """Writes which lines of the library are executed into folder/<pid> (tools/cover.py)."""
    mon, seen, root = sys.monitoring, set(), os.path.join(env.REPO, 'brainstorm') + os.sep
    out = open(os.path.join(folder, str(os.getpid())), 'a')

    def line(code, n):
        if code.co_filename.startswith(root) and (code.co_filename, n) not in seen:
            seen.add((code.co_filename, n))
            out.write('%s:%d\n' % (code.co_filename[len(root):], n))
            out.flush()
        return mon.DISABLE
    mon.use_tool_id(3, 'verif')
    mon.register_callback(3, mon.events.LINE, line)
    mon.set_events(3, mon.events.LINE)


def child_loop(mod, cases, r, w):
    if os.environ.get('VERIF_COVER'):
        watch_lines(os.environ['VERIF_COVER'])
    signal.signal(signal.SIGINT, signal.SIG_DFL)
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    f = os.fdopen(r, 'rb')
    for line in f:
        idx = int(line)
        res = execute(mod, cases[idx])
        data = json.dumps(res, default=str).encode() + b'\n'
        while data:
            n = os.write(w, data)
            data = data[n:]


def run_pool(mod, cases, jobs, budget, case_timeout, on_result):
    """Runs all cases; on_result(idx, result). Returns the list of skipped ones."""
    deadline = time.time() + budget
    todo = list(range(len(cases)))[::-1]
    workers = []
    for _ in range(min(jobs, max(1, len(cases)))):
        workers.append(Worker(mod, cases))
    skipped = []
    active = {}

    def feed(wk):
        if todo and time.time() < deadline:
            wk.send(todo.pop())
            active[wk.r] = wk
        else:
            active.pop(wk.r, None)

    for wk in list(workers):
        feed(wk)
    while active:
        ready, _, _ = select.select(list(active), [], [], 1.0)
        for fd in ready:
            wk = active[fd]
            try:
                chunk = os.read(fd, 1 << 20)
            except OSError:
                chunk = b''
            if not chunk:          # the worker died
                active.pop(fd)
                st = wk.close()
                workers.remove(wk)
                idx = wk.current
                if os.WIFSIGNALED(st) and os.WTERMSIG(st) in (
                        signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS,
                        signal.SIGFPE, signal.SIGILL):
                    on_result(idx, {'counters': {}, 'distinct': [], 'sample': None,
                                    'harness': None, 't': 0, 'violations': [
                                        {'key': 'crash:signal-%d' % os.WTERMSIG(st),
                                         'msg': 'the process running this case crashed'}]})
                else:
                    on_result(idx, {'counters': {}, 'distinct': [], 'sample': None,
                                    'harness': 'worker ended with status %d' % st,
                                    't': 0, 'violations': []})
                nw = Worker(mod, cases)
                workers.append(nw)
                feed(nw)
                continue
            wk.buf += chunk
            if wk.buf.endswith(b'\n'):
                res = json.loads(wk.buf.decode())
                wk.buf = b''
                idx = wk.current
                wk.current = None
                on_result(idx, res)
                feed(wk)
        now = time.time()
        for fd, wk in list(active.items()):
            if wk.current is not None and now - wk.started > case_timeout:
                active.pop(fd)
                idx = wk.current
                wk.close(kill=True)
                workers.remove(wk)
                on_result(idx, {'counters': {}, 'distinct': [], 'sample': None,
                                'harness': None, 't': case_timeout, 'violations': [
                                    {'key': 'hang', 'msg': 'the case did not end within %d s (usual: below one '
                                     'second)' % case_timeout}]})
                nw = Worker(mod, cases)
                workers.append(nw)
                feed(nw)
    skipped = todo
    for wk in workers:
        wk.close()
    return skipped


# --------------------------------------------------------------- known findings

def load_known(path, prop):
    """Lines `known: property=<id> key=<mechanism key> <text>`; lines starting
    with `fixed:` suppress nothing."""
    known = {}
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if not line.startswith('known:'):
                    continue
                parts = line.split(None, 3)
                if parts[1] == 'property=' + prop:
                    known[parts[2].partition('=')[2]] = parts[3] if len(parts) > 3 else ''
    return known


# ------------------------------------------------------------------------ main

def main(prop, mod, tier, seed, jobs, only=None, limit=None):
    t0 = time.time()
    cases = []
    for fam, n in mod.families(tier):
        if only and fam != only:
            continue
        for i in range(n):
            cases.append({'property': prop, 'family': fam, 'index': i, 'tier': tier,
                          'seed': case_seed(prop, fam, i, seed)})
    # interleave families so that a time cap cuts all of them evenly
    order = sorted(range(len(cases)), key=lambda k: (
        cases[k]['index'] / float(max(1, dict(mod.families(tier))[cases[k]['family']])), k))
    cases = [cases[k] for k in order]
    if limit:
        cases = cases[:limit]
    budget = getattr(mod, 'BUDGET', {}).get(tier, 420 if tier == 'quick' else 3000)
    timeout = getattr(mod, 'CASE_TIMEOUT', 240)
    counters, distinct, samples = {}, set(), []
    viols, harness = [], []
    per_family = {}
    slow = []

    def on_result(idx, res):
        c = cases[idx]
        pf = per_family.setdefault(c['family'], {'cases': 0, 'checks': 0})
        pf['cases'] += 1
        pf['checks'] += res['counters'].get('monitor_checks', 0)
        for k, v in res['counters'].items():
            counters[k] = counters.get(k, 0) + v
        distinct.update(res['distinct'])
        if res['sample'] is not None and len(samples) < 400:
            samples.append({'family': c['family'], 'index': c['index'],
                            'case': res['sample']})
        if res['harness']:
            harness.append((c, res['harness']))
        for v in res['violations']:
            viols.append((c, v))
        slow.append((res['t'], c['family'], c['index']))

    skipped = run_pool(mod, cases, jobs, budget, timeout, on_result)
    done = len(cases) - len(skipped)

    known = load_known(os.path.join(env.VERIF, 'known_findings.txt'), prop)
    fresh = [(c, v) for c, v in viols if v['key'] not in known]
    seen_known = sorted({v['key'] for c, v in viols if v['key'] in known})
    for k in seen_known:
        print('KNOWN-FINDING: property=%s %s' % (prop, known[k] or k))

    # inconclusive conditions
    problems = []
    for fam, n in mod.families(tier):
        if only and fam != only:
            continue
        if not per_family.get(fam, {}).get('checks'):
            problems.append('family %s: monitors observed nothing' % fam)
    for name, least in getattr(mod, 'MIN_COUNTERS', {}).items():
        if not only and not limit and counters.get(name, 0) < least:
            problems.append('too few events %s: %d < %d' % (name, counters.get(name, 0), least))
    for c, h in harness[:5]:
        problems.append('case %s/%d: %s' % (c['family'], c['index'], h))

    picked = []
    seen_f = {}
    for s in samples:
        if seen_f.get(s['family'], 0) < 2:
            seen_f[s['family']] = seen_f.get(s['family'], 0) + 1
            picked.append(s)
    evidence = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': done,
            'distinct_nontrivial': len(distinct),
            'rule': getattr(mod, 'RULE', ''),
            'samples': picked[:24],
            'observed': counters,
            'families': per_family,
            'cases_skipped_for_time': len(skipped),
            'known_findings_seen': seen_known,
        },
        'assumptions': getattr(mod, 'ASSUMPTIONS', []),
        'wall_s': round(time.time() - t0, 2),
        'violations': len(fresh),
    }
    if not only and not limit:
        os.makedirs(os.path.join(env.VERIF, 'evidence'), exist_ok=True)
        path = os.path.join(env.VERIF, 'evidence', prop + '.json')
        with open(path + '.tmp', 'w') as f:
            json.dump(evidence, f, indent=1, sort_keys=True, default=str)
        os.replace(path + '.tmp', path)

    print('%s %s seed=%d: %d cases (%d skipped for time), %d monitor checks, '
          '%d distinct, %.1fs' % (prop, tier, seed, done, len(skipped),
                                  counters.get('monitor_checks', 0), len(distinct),
                                  time.time() - t0))
    if os.environ.get('VERIF_SLOW'):
        for s in sorted(slow)[-8:]:
            print('   slow %.2fs %s/%d' % s)
    if fresh:
        os.makedirs(os.path.join(env.VERIF, 'replays'), exist_ok=True)
        shown = {}
        for c, v in fresh:
            k = v['key']
            shown[k] = shown.get(k, 0) + 1
            if shown[k] > 1 or len(shown) > 12:
                continue
            rp = os.path.join(env.VERIF, 'replays', '%s-%s-%d.json' % (
                prop, c['family'], c['index']))
            with open(rp, 'w') as f:
                json.dump({'property': prop, 'case': c, 'violation': v}, f, indent=1)
            print('VIOLATION property=%s replay=%s' % (prop, rp))
            print('   [%s] %s' % (k, v['msg'][:600].replace('\n', '\n   ')))
        for k, n in sorted(shown.items()):
            print('   %6d x %s' % (n, k))
        return 1
    if problems:
        for p in problems:
            print('INCONCLUSIVE: ' + p)
        return 2
    return 0


def replay(mod, path):
    with open(path) as f:
        rec = json.load(f)
    res = execute(mod, rec['case'])
    print(json.dumps({k: res[k] for k in ('violations', 'harness', 'counters', 'sample')},
                     indent=1, default=str))
    if res['violations']:
        print('VIOLATION property=%s replay=%s' % (rec['property'], path))
        for v in res['violations']:
            print('[%s] %s' % (v['key'], v['msg']))
        return 1
    return 2 if res['harness'] else 0
