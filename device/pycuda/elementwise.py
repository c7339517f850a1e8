import re

import numpy as np

from pycuda import emu
from pycuda.gpuarray import GPUArray

DTYPES = {'float': np.float32, 'double': np.float64, 'int': np.int32, 'unsigned int': np.uint32, 'unsigned': np.uint32,
          'long': np.int64, 'short': np.int16, 'char': np.int8, 'bool': np.bool_}


class ElementwiseKernel(object):
    def __init__(self, arguments, operation, name='kernel', keep=False, options=None, preamble='', **kw):
        self.args = []
        for text in arguments.split(','):
            text = text.replace('const', ' ').strip()
            m = re.match(r'^([\w ]+?)\s*(\*?)\s*(\w+)$', text)
            if not m:
                raise ValueError('cannot parse argument %r' % text)
            self.args.append((bool(m.group(2)), ' '.join(m.group(1).split()), m.group(3)))
        if not any(v for v, t, n in self.args):
            raise RuntimeError('ElementwiseKernel can only be used with functions that have at least one vector argument')
        self.name = name
        source = '''
%s
__global__ void %s(%s, long n)
{
  unsigned tid = threadIdx.x;
  unsigned total_threads = gridDim.x*blockDim.x;
  unsigned cta_start = blockDim.x*blockIdx.x;
  unsigned i;
  for (i = cta_start + tid; i < n; i += total_threads)
  {
    %s;
  }
}
''' % (preamble, name, ', '.join('%s %s%s' % (t, '*' if v else '', n) for v, t, n in self.args), operation)
        self.kernel = emu.Kernel(emu.Module(source), name)

    def __call__(self, *args, **kw):
        if len(args) != len(self.args):
            raise TypeError('%s takes %d arguments (%d given)' % (self.name, len(self.args), len(args)))
        vectors, packed = [], []
        for a, (vector, t, n) in zip(args, self.args):
            if vector:
                if not isinstance(a, GPUArray):
                    raise TypeError('%s: argument %s is no GPUArray but %s' % (self.name, n, type(a).__name__))
                if not a.flags.forc:
                    raise RuntimeError('elementwise kernel cannot deal with non-contiguous arrays')
                if a.dtype != DTYPES[t]:
                    emu.fault('bad launch', '%s: argument %s holds %s' % (self.name, n, a.dtype))
                vectors.append(a)
                packed.append(a.gpudata)
            else:
                if isinstance(a, GPUArray):
                    raise TypeError('%s: argument %s is an array' % (self.name, n))
                packed.append(DTYPES[t](a))
        n = vectors[0].mem_size
        if n == 0:
            return
        # as many threads as PyCUDA would use, up to a size that keeps the emulation quick
        threads = 32 * int(emu.rng.randint(1, 5))
        blocks = max(1, min(-(-n // threads), int(emu.rng.randint(1, 9))))
        self.kernel.launch(packed + [np.int64(n)], (blocks, 1), (threads, 1, 1))
