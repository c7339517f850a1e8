import numpy as np

from pycuda import emu
from pycuda.gpuarray import GPUArray


def seed_getter_uniform(n):
    raise NotImplementedError


twin = None                      # draws come from here instead, when set (to compare with another handler)


class XORWOWRandomNumberGenerator(object):
    def __init__(self, seed_getter=None, offset=0):
        s = seed_getter(192)
        if not (isinstance(s, GPUArray) and s.dtype == np.int32 and s.size == 192):
            raise TypeError('seed must be GPUArray of integers of right length')
        v = s.get()
        self.state = np.random.RandomState([int(x) & 0xffffffff for x in v])

    def fill_uniform(self, data, stream=None):
        self._check(data)
        if twin is not None:
            data._np[...] = twin.uniform(size=data.shape)
            return
        data._np[...] = np.clip(1 - self.state.random_sample(data.shape), 2.0 ** -32, 1)      # (0, 1], as curand

    def fill_normal(self, data, stream=None):
        self._check(data)
        data._np[...] = (twin or self.state).standard_normal(data.shape)

    def _check(self, data):
        if data.dtype not in (np.float32, np.float64):
            raise NotImplementedError
        if not data.flags.forc:
            raise RuntimeError('non-contiguous')
        emu.stats.library_calls += 1
