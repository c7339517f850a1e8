#!/usr/bin/env python3
"""Which lines of the library do the checks execute?  cover.py [Cxx ...]
Runs the quick checks with line monitoring and lists the lines never reached."""
import ast, glob, os, shutil, subprocess, sys, tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks = sys.argv[1:] or ['C%02d' % i for i in range(1, 29)]
d = tempfile.mkdtemp(prefix='cover')
try:
    for c in checks:
        subprocess.run(['/opt/venv/bin/python', 'run.py', c], cwd=V, env=dict(os.environ, VERIF_COVER=d),
                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    seen = {l.strip() for f in glob.glob(d + '/*') for l in open(f)}
finally:
    shutil.rmtree(d)
root = '/repo/brainstorm/'
for f in sorted(glob.glob(root + '**/*.py', recursive=True)):
    rel = f[len(root):]
    if 'test' in rel or 'pycuda' in rel:
        continue
    src = open(f).read()
    lines = src.split('\n')
    want = set()
    for fn in ast.walk(ast.parse(src)):
        if isinstance(fn, ast.FunctionDef):
            for s in ast.walk(fn):
                if isinstance(s, ast.stmt) and s is not fn and not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                    want.add(s.lineno)
    miss = sorted(n for n in want if '%s:%d' % (rel, n) not in seen)
    print('%-45s %4d of %4d statements not reached' % (rel, len(miss), len(want)))
    for n in miss:
        print('      %4d %s' % (n, lines[n - 1].strip()[:110]))
