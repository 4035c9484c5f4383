"""Model file system for paths under ROOT: every mutating operation is numbered, may fail (the fault index is a
symbolic integer) and can be the crash point (the state before it is kept)."""
import builtins, io, os, shutil, pathlib, tempfile, errno
from . import mio
from .core import Unsupported, cur
from .vals import Sym, SymStr, realise
from .byt import SymBytes

ROOT = '/sxfs/'


def norm(p):
    if isinstance(p, SymStr):
        p = realise(p, 'path')
    if isinstance(p, (bytes, SymBytes)):
        p = os.fsdecode(realise(p, 'path'))
    if isinstance(p, int):
        return p
    return os.path.normpath(os.path.join('/', os.fspath(p)))


class State:
    def __init__(self):
        self.files = {}
        self.links = {}
        self.dirs = {ROOT.rstrip('/')}
        self.n = 0
        self.fault = None
        self.crash = None
        self.snap = None
        self.log = []
        self.fds = {}

    def op(self, name, *a):
        k = self.n
        self.n += 1
        self.log.append((name,) + a)
        if self.crash is not None and self.snap is None and self.crash == k:
            self.snap = view(self)
        if self.fault is not None and self.fault == k:
            raise OSError(errno.EIO, 'injected fault', name)


def view(s):
    """what every name shows"""
    out = dict(s.files)
    for q in s.links:
        t = real(q, s)
        if t in s.files:
            out[q] = s.files[t]
    return out


def real(q, s=None):
    s = s or st()
    for _ in range(8):
        if q not in s.links:
            return q
        q = os.path.normpath(os.path.join(os.path.dirname(q), s.links[q]))
    raise OSError(errno.ELOOP, 'Too many levels of symbolic links', q)


def st():
    eng = cur()
    if eng is None:
        return GLOBAL
    s = eng.reg.get('fs')
    if s is None:
        s = eng.reg['fs'] = State()
    return s


GLOBAL = State()


def model(p):
    q = norm(p)
    return isinstance(q, str) and (q + '/').startswith(ROOT)


def need(q):
    s = st()
    q = real(q)
    if q not in s.files:
        if q in s.dirs:
            raise IsADirectoryError(errno.EISDIR, 'Is a directory', q)
        raise FileNotFoundError(errno.ENOENT, 'No such file or directory', q)
    return s.files[q]


class ModelFile(mio.BytesIO):
    """the content reaches the (model) disk at every write: page cache, no power loss"""

    def __init__(self, path, mode):
        self.mode, self.name = mode, path
        self.path = path = real(path)
        s = st()
        w = mode.replace('b', '').replace('t', '')
        self.w = w not in ('r',)
        if w in ('r', 'r+'):
            data = need(path)
        elif w in ('a', 'a+'):
            s.op('open', path)
            data = s.files.get(path, b'')
        else:
            d = os.path.dirname(path)
            s.op('open', path)
            if d not in s.dirs:
                raise FileNotFoundError(errno.ENOENT, 'No such file or directory', path)
            if path in s.dirs:
                raise IsADirectoryError(errno.EISDIR, 'Is a directory', path)
            if w.startswith('x') and path in s.files:
                raise FileExistsError(errno.EEXIST, 'File exists', path)
            data = b''
        super().__init__(data)
        if self.w:
            s.files[path] = self._buf
        if w in ('a', 'a+'):
            self._pos = mio.blen(data)

    def write(self, data):
        if 'b' not in self.mode:
            raise Unsupported('text file write')
        if not self.w:
            raise io.UnsupportedOperation('not writable')
        st().op('write', self.path)
        r = super().write(data)
        st().files[self.path] = self._buf
        return r

    def read(self, n=-1):
        if 'b' not in self.mode:
            r = super().read(n)
            return r.decode() if isinstance(r, bytes) else mio_decode(r)
        return super().read(n)

    def truncate(self, size=None):
        r = super().truncate(size)
        st().files[self.path] = self._buf
        return r

    def close(self):
        if not self._closed:
            self._closed = True
            if self.w:
                st().op('close', self.path)

    def fileno(self):
        return FD(self)


def mio_decode(b):
    from .byt import bdecode
    return bdecode(b, 'utf-8')


class FD(int):
    def __new__(cls, f):
        s = st()
        n = 1000 + len(s.fds)
        r = int.__new__(cls, n)
        s.fds[n] = f
        return r


class FS:
    @staticmethod
    def open(file, mode='r', *a, **k):
        if isinstance(file, int):
            f = st().fds.get(int(file))
            if f is None:
                return io.open(file, mode, *a, **k)
            return f
        if not model(file):
            f = norm(file)
            if any(c in mode for c in 'wax+'):
                raise Unsupported('write outside the model file system: %s' % f)
            return io.open(f, mode, *a, **k)
        return ModelFile(norm(file), mode)


def m_remove(p, *a, **k):
    q = norm(p)
    if not model(q):
        raise Unsupported('remove outside the model file system')
    s = st()
    s.op('remove', q)
    if q in s.links:
        del s.links[q]
        return
    need(q)
    del s.files[q]


def m_rename(a, b, *x, **k):
    a, b = norm(a), norm(b)
    if not (model(a) and model(b)):
        raise Unsupported('rename outside the model file system')
    s = st()
    s.op('rename', a, b)
    if a not in s.links:
        d = need(a)
    if os.path.dirname(b) not in s.dirs:
        raise FileNotFoundError(errno.ENOENT, 'No such file or directory', b)
    if b in s.dirs:
        raise IsADirectoryError(errno.EISDIR, 'Is a directory', b)
    if a in s.links:
        s.files.pop(b, None)
        s.links[b] = s.links.pop(a)
        return
    del s.files[a]
    s.links.pop(b, None)
    s.files[b] = d


def m_copy(a, b, *x, **k):
    a, b = norm(a), norm(b)
    if real(a) == real(b):
        raise shutil.SameFileError('same file')
    src = FS.open(a, 'rb')
    data = src.read()
    with FS.open(b, 'wb') as f:
        f.write(data)
    return b


def m_move(a, b, copy_function=None):
    if norm(b) in st().dirs:
        b = os.path.join(norm(b), os.path.basename(norm(a)))
    try:
        m_rename(a, b)
    except OSError:
        m_copy(a, b)
        m_remove(a)
    return b


def only(fn, real):
    def h(p, *a, **k):
        if model(p):
            return fn(norm(p), *a, **k)
        return real(realise(p), *a, **k)
    return h


def m_exists(q):
    q = real(q)
    return q in st().files or q in st().dirs


def m_symlink(a, b, *x, **k):
    b = norm(b)
    if not model(b):
        raise Unsupported('symlink outside the model file system')
    s = st()
    s.op('symlink', b)
    if b in s.files or b in s.dirs or b in s.links:
        raise FileExistsError(errno.EEXIST, 'File exists', b)
    s.links[b] = os.fspath(a)


def m_mkstemp(suffix=None, prefix=None, dir=None, text=False):
    if dir is None or not model(dir):
        raise Unsupported('mkstemp outside the model file system')
    s = st()
    n = s.n
    q = os.path.join(norm(dir), (prefix or 'tmp') + 'abc%d' % n + (suffix or ''))
    return FD(ModelFile(q, 'w+b')), q


class NamedTemp:
    def __init__(self, mode='w+b', *a, suffix=None, prefix=None, dir=None, delete=True, **k):
        fd, q = m_mkstemp(suffix, prefix, dir)
        self.f, self.name, self.delete = st().fds[int(fd)], q, delete

    def __getattr__(self, n):
        return getattr(self.f, n)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def close(self):
        if not self.f.closed:
            self.f.close()
            if self.delete and self.name in st().files:
                m_remove(self.name)


def m_fdclose(fd):
    f = st().fds.get(int(fd))
    if f is None:
        return os.close(fd)
    f.close()


def m_fdwrite(fd, data):
    f = st().fds.get(int(fd))
    if f is None:
        raise Unsupported('os.write')
    return f.write(data)


def m_fsync(fd):
    if int(fd) in st().fds:
        return None
    return os.fsync(fd)


class Stat:
    st_mode, st_size, st_uid, st_gid = 0o100600, 0, 0, 0


def setup(H, METHODS):
    P = pathlib.Path
    H.update({
        os.remove: m_remove, os.unlink: m_remove, os.rename: m_rename, os.replace: m_rename, shutil.move: m_move,
        shutil.copy: m_copy, shutil.copy2: m_copy, shutil.copyfile: m_copy,
        os.path.exists: only(m_exists, os.path.exists), os.path.isfile: only(lambda q: real(q) in st().files, os.path.isfile),
        os.path.isdir: only(lambda q: q in st().dirs, os.path.isdir), os.path.lexists: only(lambda q: q in st().links or m_exists(q), os.path.lexists),
        os.path.islink: only(lambda q: q in st().links, os.path.islink),
        os.readlink: only(lambda q: st().links[q], os.readlink), os.symlink: m_symlink,
        os.path.realpath: only(lambda q, **k: real(q), os.path.realpath), os.path.abspath: only(lambda q: q, os.path.abspath),
        os.access: only(lambda q, *a: m_exists(q), os.access),
        os.fdopen: lambda fd, *a, **k: FS.open(fd, *a, **k), os.close: m_fdclose, os.write: m_fdwrite, os.fsync: m_fsync,
        tempfile.mkstemp: m_mkstemp, tempfile.NamedTemporaryFile: NamedTemp,
        os.stat: only(lambda q, *a, **k: (need(q), Stat)[1], os.stat),
        os.chmod: only(lambda q, *a, **k: need(q) and None, os.chmod),
        P.unlink: lambda p, missing_ok=False: m_remove(p) if not (missing_ok and model(p) and not m_exists(norm(p))) else None,
        P.rename: lambda p, t: (m_rename(p, t), P(t))[1], P.replace: lambda p, t: (m_rename(p, t), P(t))[1],
        P.exists: lambda p, **k: m_exists(norm(p)) if model(p) else p.exists(), P.is_file: lambda p: real(norm(p)) in st().files if model(p) else p.is_file(),
        P.is_dir: lambda p: norm(p) in st().dirs if model(p) else p.is_dir(),
        P.is_symlink: lambda p: norm(p) in st().links if model(p) else p.is_symlink(),
        P.resolve: lambda p, strict=False: P(real(norm(p))) if model(p) else p.resolve(strict),
        P.open: lambda p, mode='r', *a, **k: FS.open(p, mode, *a, **k),
        P.read_bytes: lambda p: FS.open(p, 'rb').read(),
        P.write_bytes: _write_bytes,
    })


def _write_bytes(p, data):
    with FS.open(p, 'wb') as f:
        return f.write(data)
