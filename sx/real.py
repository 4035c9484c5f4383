"""Replay server: runs scenarios with concrete inputs on the unmodified code (no symbolic machinery is loaded).

Protocol: one JSON request per line {scenario, inputs, limit}; one JSON answer per line."""
import sys, os, json, io, builtins, shutil, tempfile, traceback, errno, signal, importlib, copy
import datetime as _dt
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
sys.path.insert(0, os.environ.get('SX_REPO', '/repo'))
from sx.wire import enc, dec
from sx.api import DATA

REAL = _dt.datetime
CLOCK = {'n': 0, 'f': None}


class Meta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, REAL)


class FakeDT(REAL, metaclass=Meta):
    def __new__(cls, *a, **k):
        return REAL(*a, **k)

    @classmethod
    def now(cls, tz=None):
        d = tick()
        return d.astimezone(tz) if tz is not None else d.replace(tzinfo=None)

    @classmethod
    def utcnow(cls):
        return tick().replace(tzinfo=None)

    fromisoformat = REAL.fromisoformat
    strptime = REAL.strptime
    fromtimestamp = REAL.fromtimestamp
    utcfromtimestamp = REAL.utcfromtimestamp
    combine = REAL.combine
    min, max = REAL.min, REAL.max


def tick():
    if CLOCK['f'] is not None:
        return CLOCK['f']()
    n = CLOCK['n']
    CLOCK['n'] = n + 1
    return REAL(2031, 3, 5, 12, 0, 0, tzinfo=_dt.timezone.utc) + _dt.timedelta(seconds=n)


_dt.datetime = FakeDT
import uuid as _uuid, time as _time
UN = {'n': 0}


def fake_uuid(*a, **k):
    UN['n'] += 1
    return _uuid.UUID(int=(0xC0FFEE << 100) | UN['n'])


_uuid.uuid1 = _uuid.uuid4 = fake_uuid


def argon2_memo():
    """the same key derivation is not computed twice"""
    import argon2.low_level as low
    import functools
    low.hash_secret_raw = functools.lru_cache(1000)(low.hash_secret_raw)


argon2_memo()


class CheckFailed(BaseException):
    pass


class AssumeFailed(BaseException):
    pass


class TimeLimit(BaseException):
    pass


class FSState:
    def __init__(self):
        self.root = None
        self.n = 0
        self.fault = self.crash = self.snap = None

    def inside(self, p):
        try:
            return self.root is not None and os.path.realpath(os.fsdecode(p)).startswith(self.root + '/')
        except TypeError:
            return False

    def op(self, name):
        k = self.n
        self.n += 1
        if self.crash is not None and self.snap is None and self.crash == k:
            self.snap = self.read()
        if self.fault is not None and self.fault == k:
            raise OSError(errno.EIO, 'injected fault', name)

    def read(self):
        out = {}
        for d, _, fs in os.walk(self.root):
            for f in fs:
                p = os.path.join(d, f)
                if not os.path.exists(p):
                    continue
                with R_open(p, 'rb') as h:
                    out[os.path.relpath(p, self.root)] = h.read()
        return out


FS = FSState()
R_open, R_remove, R_unlink, R_rename, R_replace = builtins.open, os.remove, os.unlink, os.rename, os.replace


class W:
    def __init__(self, f):
        self.__dict__['f'] = f

    def __getattr__(self, n):
        return getattr(self.f, n)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def __iter__(self):
        return iter(self.f)

    def write(self, data):
        FS.op('write')
        r = self.f.write(data)
        self.f.flush()
        return r

    def close(self):
        if not self.f.closed:
            self.f.close()
            FS.op('close')


KEEP = tuple(os.path.realpath(p) + '/' for p in (os.environ.get('SX_REPO', '/repo'), os.path.dirname(HERE)))


def guard(p):
    """the files of the program and of the checks are never touched, whatever the code does"""
    if isinstance(p, (str, bytes, os.PathLike)) and os.path.realpath(os.fsdecode(p)).startswith(KEEP) and '__pycache__' not in os.fsdecode(p):
        raise CheckFailed("changes the program's own files")


def p_open(file, mode='r', *a, **k):
    if any(c in mode for c in 'wax+'):
        guard(file)
    if isinstance(file, (str, bytes, os.PathLike)) and FS.inside(file) and any(c in mode for c in 'wax+'):
        if not mode.startswith('r'):
            FS.op('open')
        return W(R_open(file, mode, *a, **k))
    return R_open(file, mode, *a, **k)


def wrap(f, name):
    def g(p, *a, **k):
        if not k:       # (file descriptors as directories are the clean-up's own)
            for q in (p,) + a[:1]:
                guard(q)
        if FS.inside(p):
            FS.op(name)
        return f(p, *a, **k)
    return g


def patch_fs():
    builtins.open = p_open
    io.open = p_open
    os.remove, os.unlink = wrap(R_remove, 'remove'), wrap(R_unlink, 'remove')
    os.rename, os.replace = wrap(R_rename, 'rename'), wrap(R_replace, 'rename')
    shutil._USE_CP_SENDFILE = False


class Cx:
    symbolic = False

    def __init__(self, inputs):
        self.inputs = inputs
        self.obs = {}
        self.checks = 0
        self.dir = None

    # inputs
    def _in(self, name):
        if name not in self.inputs:
            raise AssumeFailed()
        return dec(self.inputs[name])

    def str(self, name, *a, **k):
        return self._in(name)
    int = bool = bytes = blob = uuid = datetime = timedelta = str

    def choice(self, name, opts):
        return opts[self._in(name)]

    def flip(self, name):
        return self._in(name)

    # claims
    def assume(self, c):
        if not c:
            raise AssumeFailed()

    def check(self, c, label):
        self.checks += 1
        if not c:
            raise CheckFailed(label)

    def fail(self, label):
        self.check(False, label)

    def observe(self, name, v):
        self.obs[name] = enc(v)

    def truth(self, c):
        return bool(c)

    def both(self, *cs):
        return all(cs)

    def either(self, *cs):
        return any(cs)

    def neg(self, c):
        return not c

    def ite(self, c, a, b):
        return a if c else b

    # databases and files
    def db(self, name='v4_chacha20_argon2_gz', password='pw', **k):
        from pykeepass import PyKeePass
        return PyKeePass(os.path.join(DATA, name + '.kdbx'), password=password, **k)

    def data_path(self, name):
        return os.path.join(DATA, name)

    def data_bytes(self, name):
        with R_open(os.path.join(DATA, name), 'rb') as f:
            return f.read()

    def bio(self, data=b''):
        return io.BytesIO(data)

    def path(self, name):
        return os.path.join(self.dir, name)

    def link(self, name, to):
        os.symlink(self.path(to), self.path(name))

    def is_link(self, name):
        return os.path.islink(self.path(name))

    def put(self, name, data):
        with R_open(self.path(name), 'wb') as f:
            f.write(data)

    def get(self, name):
        with R_open(self.path(name), 'rb') as f:
            return f.read()

    def files(self):
        return FS.read()

    def arm(self, fault=None, crash=None):
        FS.n, FS.fault, FS.crash, FS.snap = 0, fault, crash, None

    def disarm(self):
        n = FS.n
        FS.fault = FS.crash = None
        return n

    def snapshot(self):
        return FS.snap

    def clock(self, f):
        CLOCK['f'] = f

    def words(self):
        pass

    def unlimit(self, n):
        pass

    def note(self, s):
        pass

    def tree_eq(self, a, b):
        return xml_eq(a, b)

    def sha256(self, b):
        import hashlib
        return hashlib.sha256(b).digest()

    def sha512(self, b):
        import hashlib
        return hashlib.sha512(b).digest()

    def hmac256(self, key, b):
        import hashlib, hmac
        return hmac.new(key, b, hashlib.sha256).digest()


def xml_eq(a, b):
    if hasattr(a, 'getroot'):
        a = a.getroot()
    if hasattr(b, 'getroot'):
        b = b.getroot()
    if a.tag != b.tag or dict(a.attrib) != dict(b.attrib) or len(a) != len(b):
        return False
    if (a.text or '').strip(' \t\r\n' if len(a) else '') != (b.text or '').strip(' \t\r\n' if len(b) else ''):
        return False
    return all(xml_eq(x, y) for x, y in zip(a, b))


def run(scen, inputs, limit):
    CLOCK['n'], CLOCK['f'], UN['n'] = 0, None, 0
    cx = Cx(inputs)
    cx.dir = os.path.realpath(tempfile.mkdtemp(prefix='sxreplay'))
    FS.__init__()
    FS.root = cx.dir
    out = {'status': 'ok'}

    def alarm(*a):
        raise TimeLimit()
    signal.signal(signal.SIGALRM, alarm)
    signal.alarm(int(limit))
    so = sys.stdout
    sys.stdout = io.StringIO()
    try:
        scen['fn'](cx, **scen['kw'])
    except CheckFailed as e:
        out = {'status': 'fail', 'label': str(e)}
    except AssumeFailed:
        out = {'status': 'assume'}
    except TimeLimit:
        out = {'status': 'timeout'}
    except MemoryError:
        out = {'status': 'memory'}
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = ''
        for f in tb:
            where = '%s:%s' % (os.path.basename(f.filename), f.name)
        out = {'status': 'exc', 'label': 'unexpected %s' % type(e).__name__, 'detail': str(e)[:300], 'where': where,
               'tb': traceback.format_exc()[-1500:]}
    finally:
        signal.alarm(0)
        sys.stdout = so
        FS.root = None
        FS.fault = FS.crash = None
        shutil.rmtree(cx.dir, ignore_errors=True)
    out['obs'] = cx.obs
    out['checks'] = cx.checks
    return out


def main():
    import resource
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except Exception:
        pass
    out = os.fdopen(os.dup(1), 'w')
    os.dup2(2, 1)
    patch_fs()
    try:
        mod = importlib.import_module('props.' + sys.argv[1].lower())
        scs = {s['name']: s for s in mod.SCENARIOS}
        print(json.dumps({'ready': True}), file=out, flush=True)
    except Exception as e:
        print(json.dumps({'ready': False, 'error': traceback.format_exc()[-3000:]}), file=out, flush=True)
        return
    for line in sys.stdin:
        q = json.loads(line)
        if q.get('quit'):
            break
        r = run(scs[q['scenario']], q['inputs'], q.get('limit', 20))
        print(json.dumps(r), file=out, flush=True)


if __name__ == '__main__':
    main()
