"""C28: the data set scripts put every published sample where it belongs.

Monitor: every script in data/ is run on raw files in the published format, filled with random
content and of the published size (their sizes are part of the format; the text is shorter).
Downloads are replaced by a stand-in that records the call and copies the prepared file.  The HDF5
file that results is read back and compared element by element with an independent conversion
of the raw content; for text, the sequences are followed through the batches and decoded."""
import gzip
import io
import json
import os
import pickle
import shutil
import subprocess
import sys
import tarfile
import tempfile
import zipfile

import numpy as np

from vlib import env

TECHNIQUE = 'runtime monitor: real script runs on synthetic raw files; offline element-by-element comparison of the files they write'
LEVEL_NOTE = ('Every script, random content in the published format, present or downloaded by a stand-in, data directory given '
              'or not; every element of every written array is compared (conservation, order, layout, normalisation).')
RULE = 'random raw files of the published format. Distinct: script, content, environment.'
ASSUMPTIONS = ['raw files have the published format and sizes; the text may have any length that the sequences divide',
               'every pixel varies over the training images (otherwise its standard deviation is zero)',
               'compression of the HDF5 file is switched off for speed: it does not change what is read']
MIN_COUNTERS = {'elements_compared': 300000000, 'arrays_compared': 40, 'characters_followed': 25000000, 'downloads': 1}
BUDGET = {'quick': 500, 'thorough': 3000}
CASE_TIMEOUT = 400

RUN = r'''
import json, os, shutil, sys, runpy
import urllib.request
source, script, name = sys.argv[1:4]
calls = []
def urlretrieve(url, filename=None, *args, **kwargs):
    calls.append([url, filename])
    if source == 'none' or filename is None or len(calls) > 3:
        raise IOError('nothing to download: %s' % url)
    shutil.copy(source, filename)
    return filename, None
def urlopen(*args, **kwargs):
    raise IOError('no network')
urllib.request.urlretrieve = urlretrieve
urllib.request.urlopen = urlopen
import h5py
create = h5py.Group.create_dataset
def create_dataset(self, name, shape=None, dtype=None, data=None, **kwargs):
    for k in ('compression', 'compression_opts', 'shuffle', 'fletcher32', 'chunks'):
        kwargs.pop(k, None)
    return create(self, name, shape=shape, dtype=dtype, data=data, **kwargs)
h5py.Group.create_dataset = create_dataset
runpy.run_path(script, run_name='__main__')
print('CALLS ' + json.dumps(calls))
'''


def families(tier):
    k = 1 if tier == 'quick' else 6
    return [('mnist', 2 * k), ('cifar10', k), ('cifar100', k), ('hutter', 4 * k)]


def run_case(case, ctx):
    ctx.dir = tempfile.mkdtemp(prefix='c28-')
    try:
        globals()['case_' + case['family']](ctx)
    finally:
        shutil.rmtree(ctx.dir, ignore_errors=True)


def run_script(ctx, script, raw, result):
    """raw: name of the published file (already written to ctx.dir)."""
    rng = ctx.rng
    where = os.path.join(ctx.dir, 'data')
    cwd = os.path.join(ctx.dir, 'cwd')
    os.mkdir(where)
    os.mkdir(cwd)
    environ = {k: v for k, v in os.environ.items() if k != 'BRAINSTORM_DATA_DIR'}
    if rng.rand() < .5:
        environ['BRAINSTORM_DATA_DIR'] = where
    else:
        where = cwd
    source = os.path.join(ctx.dir, raw)
    present = bool(rng.rand() < .5) if ctx.case['index'] else False
    if present:
        os.rename(source, os.path.join(where, raw))
    p = subprocess.run([sys.executable, '-W', 'ignore', '-c', RUN, 'none' if present else source,
                        os.path.join(env.REPO, 'data', script), result], cwd=cwd, env=environ, text=True,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if not ctx.check(p.returncode == 0, script + ':failed', '%s', p.stderr[-500:]):
        return None
    calls = json.loads(p.stdout.split('CALLS ')[-1])
    ctx.check(len(calls) == (0 if present else 1), script + ':download', 'downloads: %s, file was %s', calls, 'there' if present else 'missing')
    ctx.count('downloads', len(calls))
    ctx.check(os.path.exists(os.path.join(where, raw)), script + ':raw-file', 'the raw file is gone')
    f = os.path.join(where, result)
    if not ctx.check(os.path.exists(f), script + ':no-file', '%s was not written, but %s', result, os.listdir(where)):
        return None
    ctx.count('scripts_run')
    return f


def compare(ctx, key, ds, want, rtol=0):
    """want(a, b): samples a to b, along the second dimension."""
    ctx.count('arrays_compared')
    first = want(0, 1)
    shape = first.shape[:1] + (want.n,) + first.shape[2:]
    if not ctx.check(ds.shape == shape, key + ':shape', '%s has shape %s, expected %s', ds.name, ds.shape, shape):
        return
    bad = 0
    for a in range(0, shape[1], 4000):
        w = want(a, min(a + 4000, shape[1]))
        g = ds[:, a:a + 4000]
        ok = np.abs(g - w) <= rtol * (1 + np.abs(w)) if rtol else g == w
        bad += int(ok.size - ok.sum())
        ctx.count('elements_compared', ok.size)
        if bad:
            i = tuple(int(x) for x in np.argwhere(~ok)[0])
            ctx.check(False, key, '%s: element %s is %s, expected %s', ds.name, (i[0], a + i[1]) + i[2:], g[i], w[i])
            return
    ctx.check(not bad, key, '%s', ds.name)


class Want(object):
    def __init__(self, n, f):
        self.n, self.f = n, f

    def __call__(self, a, b):
        return self.f(a, b)


def variants(ctx, key, f, want):
    ctx.check(sorted(f) == sorted(want), key + ':variants', 'variants %s, expected %s', sorted(f), sorted(want))
    for v in want:
        if v in f:
            ctx.check(sorted(f[v]) == sorted(want[v]), key + ':sets', '%s: %s, expected %s', v, sorted(f[v]), sorted(want[v]))
            for s in want[v]:
                if s in f[v]:
                    ctx.check(sorted(f[v][s]) == ['default', 'targets'], key + ':arrays', '%s/%s: %s', v, s, sorted(f[v][s]))
                    yield f[v][s], want[v][s]


SPLIT = {'normalized_split': {'training': None, 'validation': None, 'test': None}, 'normalized_full': {'training': None, 'test': None}}


def case_mnist(ctx):
    import h5py
    rng = ctx.rng
    sizes = (50000, 10000, 10000)
    x = rng.randint(0, 256, (70000, 784)).astype(np.float32) / np.float32(256)
    y = rng.randint(0, 10, 70000)
    cuts = np.cumsum((0,) + sizes)
    sets = [(x[a:b], y[a:b].astype(np.int64)) for a, b in zip(cuts, cuts[1:])]
    with gzip.open(os.path.join(ctx.dir, 'mnist.pkl.gz'), 'wb', compresslevel=1) as f:
        pickle.dump(tuple(sets), f, protocol=2)
    out = run_script(ctx, 'create_mnist.py', 'mnist.pkl.gz', 'MNIST.hdf5')
    if out is None:
        return
    spans = {'normalized_split': {'training': (0, 50000), 'validation': (50000, 60000), 'test': (60000, 70000)},
             'normalized_full': {'training': (0, 60000), 'test': (60000, 70000)}}
    with h5py.File(out, 'r') as f:
        ctx.check('description' in f.attrs, 'mnist:description', 'missing')
        for g, (a, b) in variants(ctx, 'mnist', f, spans):
            compare(ctx, 'mnist:images', g['default'], Want(b - a, lambda i, j: x[a + i:a + j].reshape(1, j - i, 28, 28, 1)))
            compare(ctx, 'mnist:targets', g['targets'], Want(b - a, lambda i, j: y[a + i:a + j].reshape(1, j - i, 1)))
    ctx.distinct(int(y[:8].sum()), float(x[0, :5].sum()))


def cifar(ctx, name, script, labels, files):
    import h5py
    rng = ctx.rng
    n = 60000
    pix = np.frombuffer(rng.bytes(n * 3072), dtype=np.uint8).reshape(n, 3, 32, 32)
    lab = np.stack([rng.randint(0, m, n) for m in labels], axis=1).astype(np.uint8)
    with tarfile.open(os.path.join(ctx.dir, name + '-binary.tar.gz'), 'w:gz', compresslevel=1) as t:
        members, at = [], 0
        for fn, k in files:
            rows = np.concatenate([lab[at:at + k], pix[at:at + k].reshape(k, 3072)], axis=1)
            members.append((fn, rows.tobytes()))
            at += k
        members.append((files[0][0].split('/')[0] + '/readme.html', b'<html/>'))
        for i in rng.permutation(len(members)):
            fn, b = members[i]
            info = tarfile.TarInfo(fn)
            info.size = len(b)
            t.addfile(info, io.BytesIO(b))
        del members
    out = run_script(ctx, script, name + '-binary.tar.gz', name.upper() + '.hdf5')
    if out is None:
        return
    mean = pix[:40000].mean(axis=0, dtype=np.float64)
    var = np.zeros((3, 32, 32))
    for a in range(0, 40000, 4000):
        var += ((pix[a:a + 4000] - mean) ** 2).sum(axis=0)
    std = np.sqrt(var / 40000)
    spans = {'normalized_split': {'training': (0, 40000), 'validation': (40000, 50000), 'test': (50000, 60000)},
             'normalized_full': {'training': (0, 50000), 'test': (50000, 60000)}}
    hwc = lambda z: np.moveaxis(z, -3, -1)
    with h5py.File(out, 'r') as f:
        for k in ('description', 'mean', 'std'):
            ctx.check(k in f.attrs, name + ':attributes', '%s missing', k)
        ctx.close(f.attrs['mean'], hwc(mean), name + ':mean', 'mean', rtol=1e-9, atol=1e-9)
        ctx.close(f.attrs['std'], hwc(std), name + ':std', 'std', rtol=1e-9, atol=1e-9)
        for g, (a, b) in variants(ctx, name, f, spans):
            compare(ctx, name + ':images', g['default'],
                    Want(b - a, lambda i, j: hwc((pix[a + i:a + j] - mean) / std)[None]), rtol=1e-6)
            compare(ctx, name + ':targets', g['targets'], Want(b - a, lambda i, j: lab[a + i:a + j, -1].reshape(1, j - i, 1)))
    ctx.distinct(name, int(lab[:9].sum()))


def case_cifar10(ctx):
    d = 'cifar-10-batches-bin/'
    cifar(ctx, 'cifar-10', 'create_cifar10.py', [10], [(d + 'data_batch_%d.bin' % i, 10000) for i in range(1, 6)] + [(d + 'test_batch.bin', 10000)])


def case_cifar100(ctx):
    d = 'cifar-100-binary/'
    cifar(ctx, 'cifar-100', 'create_cifar100.py', [20, 100], [(d + 'train.bin', 50000), (d + 'test.bin', 10000)])


def case_hutter(ctx):
    """Followed sequence by sequence: what comes next in the text comes next in the same row of the next batch."""
    import h5py
    rng = ctx.rng
    held, T, B = 5000000, 100, 100
    n = 2 * held + T * B * int(rng.randint(1, 60))
    alphabet = np.sort(rng.permutation(256)[:int(rng.randint(2, 257))]).astype(np.uint8)
    text = alphabet[rng.randint(0, len(alphabet), n)]
    with zipfile.ZipFile(os.path.join(ctx.dir, 'enwik8.zip'), 'w', zipfile.ZIP_DEFLATED, compresslevel=1) as z:
        z.writestr('enwik8', text.tobytes())
    out = run_script(ctx, 'create_hutter.py', 'enwik8.zip', 'HutterPrize.hdf5')
    if out is None:
        return
    cuts = {'training': (0, n - 2 * held), 'validation': (n - 2 * held, n - held), 'test': (n - held, n)}
    with h5py.File(out, 'r') as f:
        unique = np.array(f.attrs['unique'])
        ctx.check('description' in f.attrs, 'hutter:description', 'missing')
        if not ctx.check(unique.shape == alphabet.shape and np.all(unique == np.unique(text)), 'hutter:unique', '%s, expected %s', unique[:9], alphabet[:9]):
            return
        for g, (a, b) in variants(ctx, 'hutter', f, {'split': cuts}):
            ids, nxt = g['default'][:], g['targets'][:]
            ctx.count('arrays_compared', 2)
            shape = (T, (b - a) // T, 1)
            if not ctx.check(ids.shape == nxt.shape == shape, 'hutter:shape', '%s: %s and %s, expected %s', g.name, ids.shape, nxt.shape, shape):
                continue
            k = shape[1] // B
            # (T, batch, row) -> the stream of each row
            streams = ids[:, :, 0].reshape(T, k, B).transpose(2, 1, 0).reshape(B, k * T)
            want = text[a:b].reshape(B, k * T)
            ctx.check(streams.min() >= 0 and streams.max() < len(unique) and bool(np.all(unique[streams] == want)), 'hutter:text',
                      '%s: the rows do not spell the text', g.name)
            following = nxt[:, :, 0].reshape(T, k, B).transpose(2, 1, 0).reshape(-1)
            known = b - a if b < n else b - a - 1           # nothing follows the end of the text
            ok = following.min() >= 0 and following.max() < len(unique) and np.all(unique[following[:known]] == text[a + 1:a + 1 + known])
            ctx.check(bool(ok), 'hutter:targets', '%s: the targets are not the characters that follow', g.name)
            ctx.count('characters_followed', ids.size + nxt.size)
    ctx.distinct(n, len(alphabet))
