"""In-memory streams over symbolic bytes, and a model `io` module."""
import io as _io, types
from .core import Unsupported, cur
from .vals import Sym, SymInt, is_sym, realise, intx, mkint
from .byt import SymBytes, blen, bsub, mkbytes, bvs, same_int

SEEK_SET, SEEK_CUR, SEEK_END = 0, 1, 2


class BytesIO:
    def __init__(self, initial_bytes=b''):
        if initial_bytes is None:
            initial_bytes = b''
        if isinstance(initial_bytes, (bytearray, memoryview)):
            initial_bytes = bytes(initial_bytes)
        if not isinstance(initial_bytes, (bytes, SymBytes)):
            raise TypeError("a bytes-like object is required, not '%s'" % type(initial_bytes).__name__)
        self._buf = initial_bytes
        self._pos = 0
        self._closed = False

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def _chk(self):
        if self._closed:
            raise ValueError('I/O operation on closed file.')

    @property
    def closed(self):
        return self._closed

    def close(self):
        self._closed = True

    def flush(self):
        pass

    def readable(self):
        return True

    def writable(self):
        return True

    def seekable(self):
        return True

    def tell(self):
        self._chk()
        return self._pos

    def seek(self, offset, whence=0):
        self._chk()
        if whence == 0:
            if offset < 0:
                raise ValueError('negative seek value')
            self._pos = offset
        elif whence == 1:
            self._pos = self._clamp(self._pos + offset)
        else:
            self._pos = self._clamp(blen(self._buf) + offset)
        return self._pos

    def _clamp(self, p):
        return 0 if p < 0 else p

    def read(self, n=-1):
        self._chk()
        L = blen(self._buf)
        p = self._pos
        if same_int(p, L):
            return b''
        if p >= L:
            return b''
        if n is None or (isinstance(n, int) and n < 0) or (isinstance(n, SymInt) and n < 0):
            end = L
        else:
            end = p + n
            if not same_int(end, L) and end > L:
                end = L
        r = bsub(self._buf, p, end)
        self._pos = end
        return r

    read1 = read

    def readline(self, *a):
        raise Unsupported('readline')

    def readinto(self, b):
        raise Unsupported('readinto')

    def write(self, data):
        self._chk()
        if isinstance(data, (bytearray, memoryview)):
            data = bytes(data)
        if not isinstance(data, (bytes, SymBytes)):
            raise TypeError("a bytes-like object is required, not '%s'" % type(data).__name__)
        n = blen(data)
        L = blen(self._buf)
        p = self._pos
        if same_int(p, L):
            self._buf = mkbytes(bvs(self._buf) + bvs(data))
        elif p > L:
            self._buf = mkbytes(bvs(self._buf) + [b'\0' * realise(p - L)] + bvs(data))
        else:
            end = p + n
            if same_int(end, L) or end >= L:
                tail = b''
            else:
                tail = bsub(self._buf, end, L)
            self._buf = mkbytes(bvs(bsub(self._buf, 0, p)) + bvs(data) + bvs(tail))
        self._pos = p + n
        return n

    def truncate(self, size=None):
        size = self._pos if size is None else size
        self._buf = bsub(self._buf, 0, size)
        return size

    def getvalue(self):
        self._chk()
        return self._buf

    def getbuffer(self):
        return self._buf

    def __deepcopy__(self, memo):
        r = type(self)(self._buf)
        r._pos = self._pos
        return r


class ModelIO(types.ModuleType):
    def __init__(self):
        super().__init__('io')

    def __getattr__(self, n):
        return getattr(_io, n)


module = ModelIO()
module.BytesIO = BytesIO
