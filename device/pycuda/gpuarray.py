import builtins

import numpy as np

from pycuda import emu


class Flags(object):
    def __init__(self, a):
        self.c_contiguous, self.f_contiguous = a.flags.c_contiguous, a.flags.f_contiguous
        self.forc = self.c_contiguous or self.f_contiguous


class GPUArray(object):
    __array_priority__ = 100

    def __init__(self, shape, dtype, allocator=None, base=None, gpudata=None, strides=None, order='C', _view=None):
        if _view is None:
            if isinstance(shape, (int, np.integer)):
                shape = (int(shape),)
            shape = tuple(int(s) for s in shape)
            self._alloc = emu.Allocation(int(np.prod(shape, dtype=np.int64)) * np.dtype(dtype).itemsize)
            _view = self._alloc.bytes().view(dtype)[:int(np.prod(shape, dtype=np.int64))].reshape(shape, order=order)
        else:
            self._alloc = base._alloc
        self._np = _view
        self.base = base

    shape = property(lambda self: self._np.shape)
    dtype = property(lambda self: self._np.dtype)
    strides = property(lambda self: self._np.strides)
    size = property(lambda self: self._np.size)
    mem_size = property(lambda self: self._np.size)
    nbytes = property(lambda self: self._np.nbytes)
    ndim = property(lambda self: self._np.ndim)
    flags = property(lambda self: Flags(self._np))

    @property
    def gpudata(self):
        a = self._np
        lo = a.ctypes.data
        if a.size == 0:
            return emu.DevicePointer(lo, self._alloc, lo, lo)
        hi = lo + builtins.sum((n - 1) * s for n, s in zip(a.shape, a.strides)) + a.itemsize
        return emu.DevicePointer(lo, self._alloc, lo, hi)

    ptr = gpudata

    def __array__(self, *a, **k):
        raise TypeError('GPUArray is not a host array')

    def __len__(self):
        if not self.shape:
            raise TypeError('len() of unsized object')
        return self.shape[0]

    def __bool__(self):
        raise ValueError('The truth value of an array is not defined here')

    def _sub(self, view):
        return GPUArray(None, None, base=self, _view=view)

    def __getitem__(self, index):
        for i in index if isinstance(index, tuple) else (index,):
            if not (i is None or i is Ellipsis or isinstance(i, (int, np.integer, slice))):
                raise TypeError('invalid subindex %r' % (i,))
        v = self._np[index]
        if not isinstance(v, np.ndarray):
            ix = index if isinstance(index, tuple) else (index,)
            v = self._np[ix + (Ellipsis,)]
        return self._sub(v)

    def __setitem__(self, index, value):
        sub = self[index]._np
        if isinstance(value, GPUArray):
            if value.shape != sub.shape and value.shape != ():
                raise ValueError('shapes do not match')
            sub[...] = value._np
        elif isinstance(value, np.ndarray):
            if value.shape != sub.shape:
                raise ValueError('shapes do not match')
            sub[...] = value
        else:
            sub[...] = value

    def reshape(self, *shape, **kw):
        if not self.flags.forc:
            raise RuntimeError('only contiguous arrays may be reshaped')
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        if tuple(shape) == self.shape:
            return self
        if not self.flags.c_contiguous:
            raise RuntimeError('only C-contiguous arrays may be reshaped here')
        if -1 not in shape and int(np.prod(shape, dtype=np.int64)) != self.size:
            raise ValueError('total size of new array must be unchanged')
        return self._sub(self._np.reshape(shape))

    def ravel(self):
        return self.reshape(self.size)

    def view(self, dtype=None):
        return self._sub(self._np.view(dtype or self.dtype))

    def copy(self):
        new = GPUArray(self.shape, self.dtype)
        new._np[...] = self._np
        return new

    def fill(self, value, stream=None):
        if not self.flags.forc:
            raise RuntimeError('fill of a non-contiguous array')
        self._np.fill(value)
        emu.stats.library_calls += 1
        return self

    def get(self, ary=None, stream=None, pagelocked=False):
        if ary is None:
            return np.array(self._np)
        if ary.shape != self.shape or ary.dtype != self.dtype:
            raise ValueError("self and ary must have the same shape and type")
        ary[...] = self._np
        return ary

    def set(self, ary, stream=None):
        if ary.size != self.size:
            raise ValueError('ary and self must be the same size')
        if ary.shape != self.shape:
            raise ValueError('ary and self must have the same shape')
        if ary.dtype != self.dtype:
            raise ValueError('ary and self must be the same dtype')
        self._np[...] = ary
        emu.stats.library_calls += 1

    def set_async(self, ary, stream=None):
        self.set(ary, stream)

    def get_async(self, stream=None, ary=None):
        return self.get(ary, stream)

    def astype(self, dtype):
        a = GPUArray(self.shape, dtype)
        a._np[...] = self._np
        return a

    def squeeze(self):
        return self._sub(self._np.squeeze())

    @property
    def T(self):
        return self._sub(self._np.T)

    # arithmetic: elementwise, with scalars or arrays of the same shape

    def _binary(self, other, fn, out=None, swap=False):
        contiguous(self)
        b = other
        if isinstance(other, GPUArray):
            contiguous(other)
            if other.shape != self.shape and other.shape != () and self.shape != ():
                raise ValueError('shapes %s and %s do not match' % (self.shape, other.shape))
            b = other._np
        elif not np.isscalar(other):
            raise TypeError('arithmetic of a GPUArray with %s' % type(other).__name__)
        with np.errstate(all='ignore'):
            r = fn(b, self._np) if swap else fn(self._np, b)
        if out is None:
            out = GPUArray(r.shape, self.dtype)
        out._np[...] = r
        emu.stats.library_calls += 1
        return out

    def __add__(self, o): return self._binary(o, np.add)                      # noqa
    def __sub__(self, o): return self._binary(o, np.subtract)                 # noqa
    def __rsub__(self, o): return self._binary(o, np.subtract, swap=True)     # noqa
    def __mul__(self, o): return self._binary(o, np.multiply)                 # noqa
    def __truediv__(self, o): return self._binary(o, np.divide)               # noqa
    def __rtruediv__(self, o): return self._binary(o, np.divide, swap=True)   # noqa
    def __pow__(self, o): return self._binary(o, np.power)                    # noqa
    def __iadd__(self, o): return self._binary(o, np.add, self)               # noqa
    def __isub__(self, o): return self._binary(o, np.subtract, self)          # noqa
    def __imul__(self, o): return self._binary(o, np.multiply, self)          # noqa
    def __itruediv__(self, o): return self._binary(o, np.divide, self)        # noqa
    __radd__, __rmul__, __div__, __idiv__ = __add__, __mul__, __truediv__, __itruediv__

    def __neg__(self): return self._binary(-1, np.multiply)                   # noqa
    def __abs__(self): return self._binary(0, lambda a, b: np.abs(a))         # noqa
    def __eq__(self, o): return self._binary(o, np.equal)                     # noqa
    def __ne__(self, o): return self._binary(o, np.not_equal)                 # noqa
    def __lt__(self, o): return self._binary(o, np.less)                      # noqa
    def __le__(self, o): return self._binary(o, np.less_equal)                # noqa
    def __gt__(self, o): return self._binary(o, np.greater)                   # noqa
    def __ge__(self, o): return self._binary(o, np.greater_equal)             # noqa
    __hash__ = object.__hash__

    def mul_add(self, selffac, other, otherfac, add_timer=None, stream=None):
        return self._binary(other, lambda a, b: selffac * a + otherfac * b)


def _reduction(fn):
    def f(a, dtype=None, stream=None):
        contiguous(a)
        r = GPUArray((), dtype or a.dtype)
        r._np[...] = fn(a._np.astype(np.float64))
        emu.stats.library_calls += 1
        return r
    return f


sum, max, min = _reduction(np.sum), _reduction(np.max), _reduction(np.min)     # noqa


def dot(a, b, dtype=None, stream=None):
    return sum(a * b)


def _pair(fn):
    def f(a, b, out=None, stream=None):
        return a._binary(b, fn, out) if isinstance(a, GPUArray) else b._binary(a, fn, out, swap=True)
    return f


maximum, minimum = _pair(np.maximum), _pair(np.minimum)


def if_positive(criterion, then_, else_, out=None, stream=None):
    return then_._binary(else_, lambda a, b: np.where(criterion._np > 0, a, b), out)


def contiguous(*arrays):
    for a in arrays:
        if not a.flags.forc:
            raise RuntimeError('elementwise kernel cannot deal with non-contiguous arrays')


def empty(shape, dtype=np.float64, allocator=None, order='C'):
    return GPUArray(shape, dtype, order=order)


def zeros(shape, dtype=np.float64, allocator=None, order='C'):
    a = GPUArray(shape, dtype, order=order)
    a._np[...] = 0
    return a


def zeros_like(other):
    return zeros(other.shape, other.dtype)


def empty_like(other):
    return empty(other.shape, other.dtype)


def to_gpu_async(ary, allocator=None, stream=None):
    return to_gpu(ary)


def ones(shape, dtype=np.float64, allocator=None, order='C'):
    a = GPUArray(shape, dtype, order=order)
    a._np[...] = 1
    return a


def ones_like(other):
    return ones(other.shape, other.dtype)


def to_gpu(ary, allocator=None):
    a = GPUArray(ary.shape, ary.dtype)
    a._np[...] = ary
    return a
