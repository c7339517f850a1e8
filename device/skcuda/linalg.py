import numpy as np

from pycuda import emu, gpuarray
from skcuda.misc import _apart, _contig


def init():
    pass


def _t(a, flag):
    if flag in ('T', 't', 'C', 'c'):
        return a.T
    if flag in ('N', 'n'):
        return a
    raise ValueError('invalid value for transpose flag')


def add_dot(a_gpu, b_gpu, c_gpu, transa='N', transb='N', alpha=1.0, beta=1.0, handle=None):
    if len(a_gpu.shape) != 2 or len(b_gpu.shape) != 2 or len(c_gpu.shape) != 2:
        raise ValueError('objects are not matrices: %s %s %s' % (a_gpu.shape, b_gpu.shape, c_gpu.shape))
    if not a_gpu.dtype == b_gpu.dtype == c_gpu.dtype:
        raise TypeError('dtypes differ')
    _contig(a_gpu, b_gpu, c_gpu)
    a, b = _t(a_gpu._np, transa), _t(b_gpu._np, transb)
    if a.shape[1] != b.shape[0]:
        raise ValueError('objects are not aligned')
    if c_gpu.shape != (a.shape[0], b.shape[1]):
        raise ValueError('invalid value for c_gpu')
    _apart(c_gpu, a_gpu, b_gpu)
    with np.errstate(all='ignore'):
        r = alpha * np.dot(a.astype(np.float64), b.astype(np.float64))
        if beta:                                   # BLAS does not read C otherwise
            r = r + beta * c_gpu._np
        c_gpu._np[...] = r.astype(c_gpu.dtype)
    emu.stats.library_calls += 1
    return c_gpu


def dot(x_gpu, y_gpu, transa='N', transb='N', handle=None, out=None):
    if len(x_gpu.shape) == 1 and len(y_gpu.shape) == 1:
        if x_gpu.size != y_gpu.size:
            raise ValueError('arrays must be of same length')
        return float(np.dot(x_gpu._np, y_gpu._np))
    if out is None:
        a, b = _t(x_gpu._np, transa), _t(y_gpu._np, transb)
        out = gpuarray.empty((a.shape[0], b.shape[1]), x_gpu.dtype)
    return add_dot(x_gpu, y_gpu, out, transa, transb, 1.0, 0.0)
