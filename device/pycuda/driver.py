from pycuda.emu import CompileError, DeviceFault, LogicError, memcpy  # noqa

Error = RuntimeError


def memcpy_dtod(dest, src, size):
    memcpy(dest, src, size)


def init():
    pass


def memcpy_dtod_async(dest, src, size, stream=None):
    memcpy(dest, src, size)


class Context(object):
    @staticmethod
    def synchronize():
        pass
