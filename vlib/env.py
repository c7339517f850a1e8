"""Brings the code under test in from /repo: rebuilds the Cython extension from
the working tree and makes the interpreter import exactly that build."""
import hashlib
import importlib.abc
import importlib.machinery
import importlib.util
import os
import shutil
import subprocess
import sys
import sysconfig
import tempfile

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, '.build')
HANDLERS = os.path.join(REPO, 'brainstorm', 'handlers')


class HarnessError(Exception):
    """Something is wrong with the harness or its environment (inconclusive)."""


FLAVOURS = {
    'plain': (['-O2'], []),
    'asan': (['-O1', '-g', '-fsanitize=address,undefined',
              '-fno-sanitize-recover=undefined', '-fno-omit-frame-pointer'],
             ['-fsanitize=address,undefined']),
    'tsan': (['-O1', '-g', '-fsanitize=thread'], ['-fsanitize=thread']),
}


def build_ext(flavour='plain'):
    """Compile every .pyx of brainstorm/handlers; returns {modname: path}.
    Builds are kept under a name derived from their content, so an unchanged
    source is not compiled twice and a changed one always is."""
    import numpy as np
    srcs = sorted(f for f in os.listdir(HANDLERS) if f.endswith('.pyx'))
    aux = sorted(f for f in os.listdir(HANDLERS)
                 if f.endswith(('.pxd', '.pxi', '.h')))
    if not srcs:
        raise HarnessError('no .pyx sources found in ' + HANDLERS)
    cflags, ldflags = FLAVOURS[flavour]
    h = hashlib.sha256()
    for f in srcs + aux:
        with open(os.path.join(HANDLERS, f), 'rb') as fh:
            h.update(f.encode() + b'\0' + fh.read() + b'\0')
    h.update(repr((flavour, cflags, ldflags, sys.version, np.__version__)).encode())
    dest = os.path.join(BUILD, flavour + '-' + h.hexdigest()[:20])
    suffix = sysconfig.get_config_var('EXT_SUFFIX')
    mods = {'brainstorm.handlers.' + f[:-4]: os.path.join(dest, f[:-4] + suffix)
            for f in srcs}
    if all(os.path.exists(p) for p in mods.values()):
        return mods
    os.makedirs(BUILD, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix='tmp-', dir=BUILD)
    try:
        pkg = os.path.join(tmp, 'brainstorm', 'handlers')
        os.makedirs(pkg)
        for d in (os.path.join(tmp, 'brainstorm'), pkg):
            open(os.path.join(d, '__init__.py'), 'w').close()
        for f in srcs + aux:
            shutil.copy(os.path.join(HANDLERS, f), pkg)
        inc = ['-I' + sysconfig.get_paths()['include'], '-I' + np.get_include()]
        for f in srcs:
            base = os.path.join(pkg, f[:-4])
            run([sys.executable, '-W', 'ignore', '-m', 'cython',
                 os.path.join('brainstorm', 'handlers', f),
                 '-o', base + '.c'], cwd=tmp)
            run(['gcc', '-shared', '-fPIC', '-fwrapv' if flavour == 'plain' else '-fPIC',
                 '-w', '-DNDEBUG'] + cflags + inc +
                [base + '.c', '-o', os.path.join(tmp, f[:-4] + suffix)] + ldflags,
                cwd=tmp)
        shutil.rmtree(os.path.join(tmp, 'brainstorm'))
        try:
            os.rename(tmp, dest)
        except OSError:
            if not os.path.isdir(dest):
                raise
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return mods


def run(cmd, cwd=None):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, universal_newlines=True)
    if p.returncode != 0:
        raise HarnessError('command failed: %s\n%s' % (' '.join(cmd), p.stdout[-4000:]))
    return p.stdout


class _Finder(importlib.abc.MetaPathFinder):
    def __init__(self, mods):
        self.mods = mods

    def find_spec(self, fullname, path=None, target=None):
        p = self.mods.get(fullname)
        if p is None:
            return None
        loader = importlib.machinery.ExtensionFileLoader(fullname, p)
        return importlib.util.spec_from_file_location(fullname, p, loader=loader)


def install(mods):
    """Make `import brainstorm` use /repo and the extension modules in mods."""
    if 'brainstorm' in sys.modules:
        raise HarnessError('brainstorm was imported before install()')
    sys.meta_path.insert(0, _Finder(mods))
    sys.path.insert(0, REPO)
    import brainstorm
    f = os.path.abspath(brainstorm.__file__)
    if not f.startswith(os.path.abspath(REPO) + os.sep):
        raise HarnessError('brainstorm imported from ' + f)
    import brainstorm.handlers._cpuop as c
    if os.path.abspath(c.__file__) not in [os.path.abspath(p) for p in mods.values()]:
        raise HarnessError('extension imported from ' + c.__file__)
    return brainstorm


def reexec_clean():
    """Fix the interpreter's environment once (hash seed, byte code, locale)."""
    want = {'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONHASHSEED': '0',
            'PYTHONNOUSERSITE': '1', 'MPLBACKEND': 'Agg', 'OMP_NUM_THREADS': '1',
            'OPENBLAS_NUM_THREADS': '1', 'LANG': 'C.UTF-8',
            # never use byte code left behind in /repo
            'PYTHONPYCACHEPREFIX': os.path.join(BUILD, 'nopyc')}
    if all(os.environ.get(k) == v for k, v in want.items()) and \
            'PYTHONPATH' not in os.environ:
        return
    env = dict(os.environ)
    env.update(want)
    env.pop('PYTHONPATH', None)
    os.execve(sys.executable, [sys.executable, '-W', 'ignore'] + sys.argv, env)
