"""C17: the compiled kernels.

Monitors: (1) guard zones of NaN patterns around every argument and a reference by
definition, in process; (2) the extension compiled with AddressSanitizer and
UndefinedBehaviourSanitizer, every argument in a heap block of exactly its size;
(3) the extension compiled with ThreadSanitizer, kernels running in several threads on
disjoint outputs; each sanitizer's report (exit status) decides."""
import json
import os
import re
import signal
import subprocess
import sys
import tempfile

import numpy as np

from vlib import env
from vlib import kernels as K

TECHNIQUE = ('AddressSanitizer + UndefinedBehaviourSanitizer + ThreadSanitizer builds of the extension, guard '
             'zones, reference comparison of recorded kernel calls')
LEVEL_NOTE = ('Random geometries (windows inside, across and entirely in the padding, single rows, partial outputs), '
              'values (ties, constants, signs) and threads; images up to 2^24+ entries; arrays above 2^31 entries '
              'are out of reach here.')
RULE = 'random admissible geometry x precision x values. Distinct: kernel x geometry x precision.'
ASSUMPTIONS = ['values are finite and above the smallest value of the precision',
               'CPython runs the kernels in threads with the interpreter lock held or not, as compiled']
MIN_COUNTERS = {'kernel_calls_guarded': 20000, 'kernel_calls_asan': 4000, 'kernel_calls_threaded': 1500,
                'handler_calls': 2000, 'large_images': 2}
CASE_TIMEOUT = 400

PRELOAD = {'asan': ['libasan.so', 'libubsan.so'], 'tsan': ['libtsan.so']}
USABLE = {}


def families(tier):
    k = 1 if tier == 'quick' else 12
    return [('guarded', 300 * k), ('handler', 60 * k), ('asan', 24 * k), ('tsan', 12 * k), ('threads', 60 * k),
            ('large', 3 * k)]


def environment(flavour):
    e = dict(os.environ)
    libs = []
    for l in PRELOAD[flavour]:
        libs.append(subprocess.check_output(['gcc', '-print-file-name=' + l], universal_newlines=True).strip())
    e['LD_PRELOAD'] = ':'.join(libs)
    e['ASAN_OPTIONS'] = 'detect_leaks=0:exitcode=66'
    e['UBSAN_OPTIONS'] = 'print_stacktrace=1:halt_on_error=1:exitcode=66'
    e['TSAN_OPTIONS'] = 'exitcode=66:halt_on_error=0'
    e['PYTHONMALLOC'] = 'malloc'
    return e


def launch(flavour, kind, seed, count):
    """(exit status, result or None, stderr, state) of an instrumented process"""
    fd, state = tempfile.mkstemp(prefix='k-', dir=env.BUILD)
    os.close(fd)
    try:
        p = subprocess.run([sys.executable, '-W', 'ignore', os.path.join(env.VERIF, 'vlib', 'kernels.py'), flavour,
                            kind, str(seed), str(count), state], env=environment(flavour), stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, universal_newlines=True, errors='replace', timeout=380)
        m = re.search(r'^RESULT (.*)$', p.stdout, re.M)
        with open(state) as f:
            st = ' '.join(f.read().split())
        return p.returncode, json.loads(m.group(1)) if m else None, p.stderr, st
    finally:
        os.unlink(state)


def prepare(tier):
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(2) as ex:
        list(ex.map(env.build_ext, ['asan', 'tsan']))
    for fl in ('asan', 'tsan'):
        # a process that calls no kernel: does the sanitizer run here at all?
        rc, res, err, _ = launch(fl, 'exact', 1, 0)
        USABLE[fl] = rc == 0 and res is not None
        if not USABLE[fl] and fl == 'asan':
            raise env.HarnessError('AddressSanitizer does not start: %s' % err[-1000:])


def run_case(case, ctx):
    globals()['case_' + case['family']](ctx)


def report(ctx, bad, prefix):
    ctx.check(not bad, prefix + ':' + (re.sub(r'\W+', '-', bad[0].split(':')[0]) if bad else ''), '%s', '; '.join(bad)[:1500])


def case_guarded(ctx):
    from brainstorm.handlers import _cpuop as c
    for i in range(120):
        k = K.Call(ctx.rng, K.Guarded())
        k.run(c)
        ctx.count('kernel_calls_guarded')
        report(ctx, k.problems(), 'kernel')
        ctx.distinct(k.key())
    ctx.sample = k.key()


def case_handler(ctx):
    for i in range(60):
        bad, key = K.through_handler(ctx.rng, K.Guarded())
        ctx.count('handler_calls')
        report(ctx, bad, 'handler')
        ctx.distinct(key)


def sanitized(ctx, flavour, kind, count):
    rc, res, err, st = launch(flavour, kind, ctx.seed, count)
    if rc != 0 or res is None:
        m = re.search(r'(AddressSanitizer: [\w-]+|ThreadSanitizer: [\w -]+|runtime error: [^\n]*|\w*Error[^\n]*)', err)
        what = m.group(1).strip() if m else 'exit status %s' % rc
        if not m and rc in (-signal.SIGKILL, -signal.SIGTERM):
            raise env.HarnessError('instrumented process was killed')
        ctx.check(False, flavour + ':' + re.sub(r'[^A-Za-z]+', '-', what)[:60], 'call %s: %s\n%s', st, what, err[:1800])
        return None
    report(ctx, res['bad'], flavour)
    for k in res['keys']:
        ctx.distinct(k)
    return res


def case_asan(ctx):
    res = sanitized(ctx, 'asan', 'exact', 300)
    if res:
        ctx.count('kernel_calls_asan', res['calls'])
        ctx.count('handler_calls', 300 - res['calls'])


def case_tsan(ctx):
    if not USABLE.get('tsan', True):
        ctx.count('tsan_unavailable')
        return case_threads(ctx)
    res = sanitized(ctx, 'tsan', 'threads', 12)
    if res:
        ctx.count('kernel_calls_threaded', res['calls'])
        ctx.count('threads', res['threads'])


def case_threads(ctx):
    """results of kernels run in several threads, without instrumentation"""
    from brainstorm.handlers import _cpuop as c
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    try:
        for i in range(4):
            n = int(ctx.rng.randint(2, 7))
            bad, keys = K.threaded(c, ctx.rng, n, 20) if i % 2 else K.batched_threads(c, ctx.rng, n)
            ctx.count('kernel_calls_threaded', len(keys))
            ctx.count('threads', n)
            report(ctx, bad, 'threads')
    finally:
        sys.setswitchinterval(old)


def case_large(ctx):
    from brainstorm.handlers import _cpuop as c
    bad = K.large_pool(c, ctx.rng, K.Guarded(), int(ctx.rng.randint(1, 2000)))
    ctx.count('large_images')
    report(ctx, bad, 'large')
