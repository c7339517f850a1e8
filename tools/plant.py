#!/usr/bin/env python3
"""Turn the bug definitions in tools/bugs/*.py into seeded/<id>/, and confirm each:
it applies to /repo's HEAD, touches only original lines, builds, passes the stable
tests, its demonstration passes on the clean tree and fails with the patch.

    python3 tools/plant.py [ID ...]         confirm (and write seeded/) for all or some
    python3 tools/plant.py --checks [ID ..] run the property's own check against each bug
    python3 tools/plant.py --checks --all   ... every check
"""
import glob, json, os, shutil, subprocess, sys, tempfile, textwrap
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCR = '/tmp/plant'
PY = '/opt/venv/bin/python'
BASE = subprocess.check_output(['git', '-C', '/repo', 'rev-list', '--max-parents=0', 'HEAD'], text=True).split()[0]


def load():
    bugs = {}
    for f in sorted(glob.glob(V + '/tools/bugs/*.py')):
        ns = {'__file__': f}
        exec(compile(open(f).read(), f, 'exec'), ns)
        for b in ns['BUGS']:
            assert b['id'] not in bugs, b['id']
            bugs[b['id']] = b
    return bugs


def sh(cmd, cwd=None, env=None, timeout=900):
    p = subprocess.run(cmd, shell=isinstance(cmd, str), cwd=cwd, env=env, text=True, errors='replace',
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout


def env_for(tree):
    e = dict(os.environ, HOME='/root', LANG='C.UTF-8', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
             PYTHONPATH=tree, PYTHONNOUSERSITE='1', MPLBACKEND='Agg', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
    e['PATH'] = '/opt/venv/bin:' + e['PATH']
    return e


def build(tree):
    return sh([PY, 'setup.py', 'build_ext', '--inplace', '--force'], cwd=tree, env=env_for(tree))


def run_tests(tree):
    rep = tree + '/build/rep.xml'
    os.makedirs(tree + '/build', exist_ok=True)
    sh([PY, '-m', 'pytest', '-c', '/opt/vp/pytest.ini', '--rootdir=' + tree, '-q', '-p', 'no:cacheprovider',
        '--timeout=300', '--continue-on-collection-errors', '-o', 'junit_family=xunit2', '--junitxml=' + rep,
        'brainstorm'], cwd=tree, env=env_for(tree))
    out = tree + '/build/res.json'
    sh(['/usr/bin/python3', '/opt/vp/results.py', out, 'junit:' + rep])
    base = json.load(open('/opt/vp/BASELINE.json'))
    stable = set(base.get('passed') or base.get('stable') or base.get('tests'))
    return sorted(stable - set(json.load(open(out))['passed']))


def demo(tree, bid):
    d = tempfile.mkdtemp(prefix='demo_')
    for f in os.listdir(V + '/seeded/' + bid):
        if f not in ('patch.diff', 'meta.json'):
            src = V + '/seeded/' + bid + '/' + f
            shutil.copytree(src, d + '/' + f) if os.path.isdir(src) else shutil.copy(src, d)
    e = {k: v for k, v in os.environ.items() if not k.startswith('VERIF')}
    e['HOME'] = '/root'
    try:
        return sh(['bash', d + '/demo.sh'], cwd=tree, env=e, timeout=300)
    finally:
        shutil.rmtree(d)


def fresh(tree):
    shutil.rmtree(tree, ignore_errors=True)
    shutil.copytree('/repo', tree, symlinks=True)


DEMO_SH = '''#!/bin/bash
# run with cwd /repo after the build; exit 0: the property holds here
export PYTHONPATH=$PWD PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OMP_NUM_THREADS=1
exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
'''


def write(b):
    """apply the edits in a scratch tree, write patch, demo, meta"""
    tree = SCR + '/' + b['id']
    fresh(tree)
    for path, old, new in b['edits']:
        src = open(tree + '/' + path).read()
        assert src.count(old) == 1, (b['id'], path, src.count(old), old)
        open(tree + '/' + path, 'w').write(src.replace(old, new))
    rc, diff = sh('git diff HEAD', cwd=tree)
    d = V + '/seeded/' + b['id']
    os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo.sh', 'w').write(DEMO_SH)
    os.chmod(d + '/demo.sh', 0o755)
    open(d + '/demo.py', 'w').write(textwrap.dedent(b['demo']).strip() + '\n')
    for name in b.get('with', ()):
        shutil.rmtree(d + '/' + name, ignore_errors=True)
        shutil.copytree(V + '/' + name, d + '/' + name, ignore=shutil.ignore_patterns('__pycache__'))
    json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']},
              open(d + '/meta.json', 'w'), indent=1)
    return tree, diff


def original_lines(diff):
    """the removed lines are all lines of the original repository"""
    bad, path, ln, removed = [], None, 0, 0
    for line in diff.split('\n'):
        if line.startswith('--- a/'):
            path = line[6:]
        elif line.startswith('@@'):
            ln = int(line.split()[1].split(',')[0][1:])
        elif line.startswith('-') and not line.startswith('---'):
            removed += 1
            rc, o = sh(['git', '-C', '/repo', 'blame', '-l', '-L', '%d,%d' % (ln, ln), 'HEAD', '--', path])
            if not o.lstrip('^').startswith(BASE[:30]):
                bad.append('%s:%d %s' % (path, ln, line))
            ln += 1
        elif line.startswith(' '):
            ln += 1
    return bad if removed else ['no line of the original is changed']


def confirm(b):
    try:
        tree, diff = write(b)
        probs = ['not original: ' + x for x in original_lines(diff)]
        if any(p.endswith('.pyx') for p, _, _ in b['edits']):
            rc, o = build(tree)
            if rc:
                probs.append('build: ' + o[-1500:])
        miss = run_tests(tree)
        if miss:
            probs.append('tests fail: %d %s' % (len(miss), miss[:4]))
        rc, o = demo(SCR + '/clean', b['id'])
        if rc:
            probs.append('demo fails on the clean tree: ' + o[-1200:])
        rc, o2 = demo(tree, b['id'])
        if rc == 0:
            probs.append('demo passes with the patch: ' + o2[-600:])
        elif 'AssertionError' not in o2:
            probs.append('WARNING demo ends with another error: ' + o2[-700:])
        return b['id'], probs
    except Exception as e:
        return b['id'], ['%s: %s' % (type(e).__name__, e)]


def check(b, checks, seed='1'):
    tree = SCR + '/' + b['id']
    if not os.path.isdir(tree):
        write(b)
    hit = []
    for c in checks:
        rc, o = sh([PY, V + '/run.py', c], cwd=V, env=dict(os.environ, VERIF_REPO=tree, VERIF_SEED=seed,
                                                         VERIF_TIER='quick'), timeout=1800)
        lines = [l for l in o.split('\n') if l.startswith('VIOLATION property=' + c)]
        if rc == 1 and lines:
            hit.append(c)
        elif rc != 0:
            print('  ', b['id'], c, 'rc', rc, o[-300:].replace('\n', ' | '))
    return hit


if __name__ == '__main__':
    args = sys.argv[1:]
    bugs = load()
    ids = [a for a in args if not a.startswith('-')] or sorted(bugs)
    if '--checks' in args:
        res_file = V + '/tools/seeded_results.json'
        for i in ids:
            res = json.load(open(res_file)) if os.path.exists(res_file) else {}
            b = bugs[i]
            own = [b['property']]
            cs = ['C%02d' % k for k in range(1, 26)] if '--all' in args else own
            hit = check(b, cs)
            res[i] = sorted(set(hit) | (set(res.get(i, [])) - set(cs)))
            json.dump(res, open(res_file, 'w'), indent=1, sort_keys=True)
            print(i, 'CAUGHT' if b['property'] in hit else 'MISSED', hit, flush=True)
    else:
        os.makedirs(SCR, exist_ok=True)
        fresh(SCR + '/clean')
        build(SCR + '/clean')
        # scratch trees start from the clean build
        with ThreadPoolExecutor(8) as ex:
            for i, probs in ex.map(lambda i: confirm(bugs[i]), ids):
                print(i, 'ok' if not probs else 'PROBLEM', flush=True)
                for p in probs:
                    print('     ', p.replace('\n', '\n        '))
