BUGS = [
 dict(id='c28_mnist_order', property='C28',
  edits=[('data/create_mnist.py', "train_inputs = np.concatenate((train_inputs, valid_inputs), axis=1)\n", "train_inputs = np.concatenate((valid_inputs, train_inputs), axis=1)\n")],
  needs='the full training set of MNIST, which is put together from two parts',
  breaks='the images of the full training set belong to other labels',
  demo="""
import gzip, os, pickle, runpy, shutil, tempfile
import h5py, numpy as np
d = tempfile.mkdtemp()
try:
    sets = []
    for n, v in ((50000, .25), (10000, .5), (10000, .75)):
        sets.append((np.full((n, 784), v, np.float32), np.full(n, int(v * 4))))
    with gzip.open(os.path.join(d, 'mnist.pkl.gz'), 'wb', compresslevel=1) as f:
        pickle.dump(tuple(sets), f, protocol=2)
    os.environ['BRAINSTORM_DATA_DIR'] = d
    runpy.run_path('data/create_mnist.py')
    with h5py.File(os.path.join(d, 'MNIST.hdf5'), 'r') as f:
        g = f['normalized_full']['training']
        assert (g['default'][0, :, 0, 0, 0] * 4 == g['targets'][0, :, 0]).all()
finally:
    shutil.rmtree(d)
"""),
 dict(id='c28_row_continuity', property='C28',
  edits=[('data/create_hutter.py', "    serial_data = serial_data.reshape((bs, num_batches * length))\n    serial_data = np.vstack(np.hsplit(serial_data, num_batches)).T[:, :, None]\n", "    serial_data = serial_data.reshape((num_sequences, length)).T[:, :, None]\n")],
  needs='text processed in consecutive batches, row by row',
  breaks='the sequences are simply lined up, so that the next batch does not continue the text of the rows of the last',
  demo="""
import os, runpy, shutil, tempfile, zipfile
import h5py, numpy as np
d = tempfile.mkdtemp()
try:
    text = (np.arange(10040000) % 251).astype(np.uint8)
    with zipfile.ZipFile(os.path.join(d, 'enwik8.zip'), 'w') as z:
        z.writestr('enwik8', text.tobytes())
    os.environ['BRAINSTORM_DATA_DIR'] = d
    runpy.run_path('data/create_hutter.py')
    with h5py.File(os.path.join(d, 'HutterPrize.hdf5'), 'r') as f:
        x = f['split']['training']['default'][:, :, 0]
        assert x.shape == (100, 400)
        assert np.array_equal(np.concatenate([x[:, 0], x[:, 100], x[:, 200], x[:, 300]]), text[:400])
finally:
    shutil.rmtree(d)
"""),
]
