import numpy as np

from pycuda import emu
from pycuda.gpuarray import GPUArray


class Function(object):
    def __init__(self, module, name):
        self.kernel = emu.Kernel(module, name)

    def __call__(self, *args, **kw):
        block, grid = kw.pop('block', None), kw.pop('grid', (1, 1))
        for k in ('stream', 'shared', 'texrefs', 'time_kernel'):
            kw.pop(k, None)
        if kw:
            raise TypeError('extra keyword arguments: ' + ','.join(kw))
        if block is None:
            raise ValueError('must specify block size')
        packed = []
        for i, a in enumerate(args):
            if isinstance(a, (np.number, np.bool_, emu.DevicePointer)):
                packed.append(a)
            elif isinstance(a, GPUArray):
                packed.append(a.gpudata)
            else:
                raise TypeError('invalid type on parameter #%d (0-based)' % i)
        self.kernel.launch(packed, grid, block)


class SourceModule(object):
    def __init__(self, source, **kw):
        self.module = emu.Module(source)

    def get_function(self, name):
        if name not in self.module.names:
            raise emu.LogicError('cuModuleGetFunction failed: named symbol not found: ' + name)
        return Function(self.module, name)
