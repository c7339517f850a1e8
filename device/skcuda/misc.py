import numpy as np

from pycuda import emu, gpuarray

_global_cublas_handle = 1


def init():
    pass


def _apart(out, *ins):
    """a library call whose result is undefined when its output overlaps an input"""
    o = out.gpudata
    for a in ins:
        p = a.gpudata
        if o.lo < p.hi and p.lo < o.hi:
            emu.fault('overlap', 'the output of a matrix operation overlaps an input')


def _contig(*arrays):
    for a in arrays:
        if not a.flags.c_contiguous:
            raise ValueError('unsupported memory layout')


OPS = {'+': np.add, '-': np.subtract, '*': np.multiply, '/': np.divide}


def binaryop_matvec(binary_op, x_gpu, a_gpu, axis=None, out=None, stream=None):
    if len(x_gpu.shape) != 2:
        raise ValueError('x_gpu must be a matrix, not of shape %s' % (x_gpu.shape,))
    if x_gpu.dtype != a_gpu.dtype:
        raise ValueError('dtypes differ')
    n, m = x_gpu.shape
    s = a_gpu.shape
    if axis is None:
        if len(s) == 1 and s[0] == m:
            axis = 1
        elif len(s) == 2 and s[0] == 1 and s[1] == m:
            axis = 1
        elif len(s) == 2 and s[1] == 1 and s[0] == n:
            axis = 0
        else:
            raise ValueError('operands could not be broadcast together with shapes %s %s' % (x_gpu.shape, s))
    if a_gpu.size != (m if axis in (1, -1) else n):
        raise ValueError('operands could not be broadcast together with shapes %s %s' % (x_gpu.shape, s))
    _contig(x_gpu, a_gpu)
    if out is None:
        out = gpuarray.empty_like(x_gpu)
    else:
        _contig(out)
        if out.dtype != x_gpu.dtype or out.shape != x_gpu.shape:
            raise ValueError('out has shape %s dtype %s' % (out.shape, out.dtype))
    v = a_gpu._np.reshape(1, m) if axis in (1, -1) else a_gpu._np.reshape(n, 1)
    with np.errstate(all='ignore'):
        out._np[...] = OPS[binary_op](x_gpu._np, v)
    emu.stats.library_calls += 1
    return out


def add_matvec(x_gpu, a_gpu, axis=None, out=None, stream=None):
    return binaryop_matvec('+', x_gpu, a_gpu, axis, out, stream)


def mult_matvec(x_gpu, a_gpu, axis=None, out=None, stream=None):
    return binaryop_matvec('*', x_gpu, a_gpu, axis, out, stream)


def div_matvec(x_gpu, a_gpu, axis=None, out=None, stream=None):
    return binaryop_matvec('/', x_gpu, a_gpu, axis, out, stream)


def sum(x_gpu, axis=None, out=None, keepdims=False):
    if len(x_gpu.shape) > 2:
        raise ValueError('invalid number of dimensions')
    _contig(x_gpu)
    if axis is not None and axis < 0:
        axis += len(x_gpu.shape)
    if axis is not None and axis >= len(x_gpu.shape):
        raise ValueError('invalid axis')
    with np.errstate(all='ignore'):
        r = x_gpu._np.astype(np.float64).sum(axis).astype(x_gpu.dtype)
    if out is None:
        return gpuarray.to_gpu(np.asarray(r))
    if out.dtype != x_gpu.dtype:
        raise ValueError('dtypes differ')
    if out.size != r.size:
        raise ValueError('out holds %d entries instead of %d' % (out.size, r.size))
    _contig(out)
    if r.size != x_gpu.size:
        _apart(out, x_gpu)
    out._np[...] = np.asarray(r).reshape(out.shape)
    emu.stats.library_calls += 1
    return out


def _tensor(fn):
    def f(x_gpu, y_gpu):
        if x_gpu.shape != y_gpu.shape:
            raise ValueError('shapes differ')
        return x_gpu._binary(y_gpu, fn)
    return f


add, subtract, multiply, divide = [_tensor(f) for f in (np.add, np.subtract, np.multiply, np.divide)]


def mean(x_gpu, axis=None, out=None, keepdims=False):
    r = sum(x_gpu, axis, out)
    n = x_gpu.size if axis is None else x_gpu.shape[axis]
    r._np[...] /= n
    return r


def zeros(shape, dtype, order='C', allocator=None):
    return gpuarray.zeros(shape, dtype)


def ones(shape, dtype, order='C', allocator=None):
    return gpuarray.ones(shape, dtype)


def zeros_like(a):
    return gpuarray.zeros_like(a)


def ones_like(a):
    return gpuarray.ones_like(a)
