import numpy as np

from pycuda import emu
from pycuda.gpuarray import contiguous, empty_like


def _function(fn):
    def f(a, out=None, stream=None):
        contiguous(a)
        if out is None:
            out = empty_like(a)
        else:
            contiguous(out)
            if out.dtype != a.dtype:
                raise TypeError('dtypes differ')
            if out.strides != a.strides or out.shape != a.shape:
                raise ValueError('layouts differ: %s %s' % (a.shape, out.shape))
        with np.errstate(all='ignore'):
            out._np[...] = fn(a._np)
        emu.stats.library_calls += 1
        return out
    return f


fabs, log, sqrt, exp, tanh, floor, ceil, log10, sin, cos, tan, sinh, cosh, asin, acos, atan = [_function(f) for f in (
    np.fabs, np.log, np.sqrt, np.exp, np.tanh, np.floor, np.ceil, np.log10, np.sin, np.cos, np.tan, np.sinh, np.cosh, np.arcsin,
    np.arccos, np.arctan)]
