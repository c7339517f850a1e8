"""The emulated device behind the stand-in pycuda and skcuda packages: memory, compilation of
kernel sources as C++ and their execution under the access monitor of runtime.cpp."""
import concurrent.futures
import ctypes
import hashlib
import os
import re
import subprocess
import tempfile

import numpy as np

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.environ.get('EMU_CACHE') or os.path.join(os.path.dirname(HERE), '.build', 'device')
ZONE = 256                       # bytes around every allocation nobody may touch
FLAGS = ['-std=c++17', '-w', '-fPIC', '-fno-exceptions', '-fno-rtti', '-fvisibility=hidden', '-fno-strict-aliasing']


class LogicError(RuntimeError):
    """pycuda.driver.LogicError: the device refused or aborted an operation"""


class DeviceFault(LogicError):
    """a kernel touched memory that is not its own, raced or used a barrier wrongly"""


class Stats(object):
    """what the monitor saw"""
    def __init__(self):
        self.clear()

    def clear(self):
        self.launches = self.reads = self.writes = self.atomics = self.barriers = self.threads = 0
        self.words_shared = self.allocations = self.library_calls = 0
        self.kernels = {}
        self.faults = []


stats = Stats()
rng = np.random.RandomState(0)   # thread order and garbage in fresh memory


def seed(n):
    rng.seed(n % (2 ** 32))


def fault(kind, text):
    stats.faults.append((kind, text))
    raise DeviceFault('%s: %s' % (kind, text))


# ------------------------------------------------------------------ memory

class Allocation(object):
    """a block of device memory with zones around it"""
    def __init__(self, nbytes):
        nbytes = int(nbytes)
        self.nbytes = nbytes
        self.raw = np.empty(nbytes + 2 * ZONE, np.uint8)
        self.junk = [np.float32(np.nan), np.float32(3e30), np.float32(-3e30), np.float32(7.25)][rng.randint(4)]
        self.raw[:(self.raw.size // 4) * 4].view(np.float32)[...] = self.junk
        self.raw[ZONE + nbytes:] = 0xA5
        self.addr = self.raw.ctypes.data + ZONE
        stats.allocations += 1

    def bytes(self):
        return self.raw[ZONE:ZONE + self.nbytes]


class DevicePointer(int):
    """an address that remembers the memory it was taken from"""
    def __new__(cls, addr, alloc, lo, hi):
        p = int.__new__(cls, addr)
        p.alloc, p.lo, p.hi = alloc, lo, hi
        return p


def memcpy(dest, src, nbytes):
    nbytes = int(nbytes)
    for what, p in (('written', dest), ('read', src)):
        if not isinstance(p, DevicePointer):
            raise TypeError('not a device pointer: %r' % (p,))
        if not (p.lo <= int(p) and int(p) + nbytes <= p.hi):
            fault('illegal copy', '%d bytes %s at offset %d of %d bytes' % (nbytes, what, int(p) - p.lo, p.hi - p.lo))
    if not nbytes:
        return
    a, b = int(dest), int(src)
    if a != b and max(a, b) < min(a, b) + nbytes:
        fault('illegal copy', 'source and destination overlap')
    ctypes.memmove(a, b, nbytes)
    stats.library_calls += 1


# ------------------------------------------------------------------ compilation

class Range(ctypes.Structure):
    _fields_ = [('lo', ctypes.c_uint64), ('hi', ctypes.c_uint64)]


class Report(ctypes.Structure):
    _fields_ = [(n, ctypes.c_uint64) for n in ('reads', 'writes', 'atomics', 'barriers', 'threads', 'blocks', 'words_shared')] + \
        [('text', ctypes.c_char * 256)]


_runtime = None


def _build(sources, out, flags, link):
    if os.path.exists(out):
        return
    os.makedirs(CACHE, exist_ok=True)
    fd, tmp = tempfile.mkstemp(prefix='tmp-', suffix='.so', dir=CACHE)
    os.close(fd)
    obj = tmp + '.o'
    try:
        for cmd in (['g++'] + flags + ['-c', sources, '-o', obj], ['g++', '-shared', '-o', tmp, obj] + link):
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)
            if p.returncode:
                raise CompileError(p.stdout)
        os.rename(tmp, out)
    finally:
        for f in (tmp, obj):
            if os.path.exists(f):
                os.unlink(f)


class CompileError(Exception):
    """pycuda.driver.CompileError: nvcc rejected the source"""


def _digest(*files_or_text):
    h = hashlib.sha256()
    for f in files_or_text:
        h.update(f.encode() + b'\0')
    return h.hexdigest()[:24]


def runtime():
    global _runtime
    if _runtime is None:
        src = os.path.join(HERE, 'runtime.cpp')
        out = os.path.join(CACHE, 'runtime-%s.so' % _digest(open(src).read()))
        _build(src, out, ['-O2'] + FLAGS[:3], [])
        _runtime = ctypes.CDLL(out, mode=ctypes.RTLD_GLOBAL)
    return _runtime


class Module(object):
    """one kernel source; compiled when first needed"""
    everything = []

    def __init__(self, source):
        self.source = source
        code = re.sub(r'//[^\n]*|/\*.*?\*/', ' ', source, flags=re.S)
        self.names = re.findall(r'__global__\s+(?:__launch_bounds__\s*\([^)]*\)\s*)?void\s+(\w+)\s*\(', code)
        self.barrier = '__syncthreads' in code
        self.lib = None
        Module.everything.append(self)

    def path(self):
        prelude = open(os.path.join(HERE, 'prelude.h')).read()
        return os.path.join(CACHE, 'k-%s.so' % _digest(prelude, self.source))

    def compile(self):
        out = self.path()
        if os.path.exists(out):
            return
        os.makedirs(CACHE, exist_ok=True)
        try:
            self._compile(self.source, out)
        except CompileError as e:
            if 'comparison' not in str(e):
                raise
            # older dialects compare a pointer with 0
            text = self.source
            for n in set(re.findall(r'\*\s*(\w+)\s*[,)]', self.source)):
                text = re.sub(r'\b%s\s*(>=|<=|>|<)\s*0\b' % n, r'(long)(%s) \1 0' % n, text)
            self._compile(text, out)

    def _compile(self, source, out):
        fd, src = tempfile.mkstemp(prefix='tmp-', suffix='.cpp', dir=CACHE)
        with os.fdopen(fd, 'w') as f:
            f.write('#include "%s"\nextern "C" {\n%s\n}\n' % (os.path.join(HERE, 'prelude.h'), source) +
                    ''.join('EMU_EXPORT(%s)\n' % n for n in self.names))
        try:
            _build(src, out, ['-O1', '-fsanitize=thread'] + FLAGS, [])
        finally:
            os.unlink(src)

    def load(self):
        if self.lib is None:
            runtime()
            self.compile()
            self.lib = ctypes.CDLL(self.path())
        return self.lib


def compile_all(jobs=8):
    runtime()
    with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
        list(ex.map(lambda m: m.compile(), list(Module.everything)))
    return len(Module.everything)


# ------------------------------------------------------------------ execution

CTYPES = {'f': ctypes.c_float, 'd': ctypes.c_double, 'i': ctypes.c_int, 'I': ctypes.c_uint, 'l': ctypes.c_long,
          'L': ctypes.c_ulong, 'h': ctypes.c_short, 'b': ctypes.c_char, 'B': ctypes.c_bool}
NUMPY = {'f': (np.float32,), 'd': (np.float64,), 'i': (np.int32, np.uint32), 'I': (np.int32, np.uint32),
         'l': (np.int64, np.uint64), 'L': (np.int64, np.uint64), 'h': (np.int16,), 'b': (np.int8, np.uint8), 'B': (np.bool_,)}


class Kernel(object):
    def __init__(self, module, name):
        self.module, self.name = module, name
        self.entry = None

    def ready(self):
        if self.entry is None:
            lib = self.module.load()
            f = getattr(lib, 'emu_sig_' + self.name)
            f.restype = ctypes.c_char_p
            self.signature = f().decode()
            image = (ctypes.c_uint64 * 2)()
            getattr(lib, 'emu_image_' + self.name)(image)
            self.image = image[0], image[1]
            self.entry = ctypes.cast(getattr(lib, 'emu_entry_' + self.name), ctypes.c_void_p)

    def launch(self, args, grid, block):
        self.ready()
        if len(args) != len(self.signature):
            fault('bad launch', '%s takes %d arguments, %d were passed' % (self.name, len(self.signature), len(args)))
        grid, block = [int(v) for v in grid], [int(v) for v in block]
        grid += [1] * (3 - len(grid))
        block += [1] * (3 - len(block))
        if min(grid + block) < 1 or np.prod(block) > 1024 or block[2] > 64 or max(grid[1:]) > 65535 or grid[0] >= 2 ** 31:
            fault('bad launch', '%s: grid %s block %s' % (self.name, grid, block))
        values, ranges, keep = [], [], []
        for k, (v, kind) in enumerate(zip(args, self.signature)):
            if kind == 'P':
                if not isinstance(v, DevicePointer):
                    fault('bad launch', '%s: argument %d (%s) is no device memory' % (self.name, k, type(v).__name__))
                values.append(ctypes.c_void_p(int(v)))
                if (v.lo, v.hi) not in ranges:
                    ranges.append((v.lo, v.hi))
                keep.append(v.alloc)
            else:
                if not isinstance(v, NUMPY[kind]):
                    fault('bad launch', '%s: argument %d is %s where the kernel takes %s' % (self.name, k, type(v).__name__, kind))
                values.append(CTYPES[kind](v.item()))
        arr = (ctypes.c_void_p * len(values))(*[ctypes.addressof(v) for v in values])
        rs = (Range * max(1, len(ranges)))(*[Range(a, b) for a, b in ranges])
        rep = Report()
        bad = _runtime.emu_launch(self.entry, arr, (ctypes.c_uint64 * 3)(*grid), (ctypes.c_uint64 * 3)(*block), rs, len(ranges),
                                  ctypes.c_uint64(self.image[0]), ctypes.c_uint64(self.image[1]), int(self.module.barrier),
                                  ctypes.c_uint64(int(rng.randint(1, 2 ** 31))), ctypes.byref(rep))
        stats.launches += 1
        for n in ('reads', 'writes', 'atomics', 'barriers', 'threads', 'words_shared'):
            setattr(stats, n, getattr(stats, n) + getattr(rep, n))
        stats.kernels[self.name] = stats.kernels.get(self.name, 0) + 1
        if bad:
            fault('kernel ' + self.name, rep.text.decode())
