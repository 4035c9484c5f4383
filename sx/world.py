"""Symbolic side of the scenario interface."""
import os, io, json, copy, datetime as _dt, z3, select, subprocess, sys, time
from . import core, fs as sfs, mio, mxml, crypto, byt, dt as sdt
from .api import DATA
from .core import cur, PathCut, Unsupported, Found
from .vals import (Sym, SymBool, SymInt, SymStr, Atom, mkbool, mkint, and_, or_, not_, conc, XML_VALID, boolx, is_sym, ite, zstr_value, MAXCHAR)
from .wire import enc

DBCACHE = {}


class Replay:
    """one replay server process"""

    def __init__(self, prop):
        self.prop = prop
        self.p = None

    def start(self):
        env = dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1')
        self.p = subprocess.Popen(['/opt/venv/bin/python', os.path.join(os.path.dirname(__file__), 'real.py'), self.prop],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env)
        r = self._line(60)
        if r is None or not r.get('ready'):
            raise RuntimeError('replay server: %s' % (r or {}).get('error', 'no answer'))

    def _line(self, t):
        buf = b''
        end = time.time() + t
        fd = self.p.stdout.fileno()
        while True:
            left = end - time.time()
            if left <= 0:
                return None
            r, _, _ = select.select([fd], [], [], left)
            if not r:
                return None
            d = os.read(fd, 1 << 20)
            if not d:
                return {'status': 'died'}
            buf += d
            if buf.endswith(b'\n'):
                return json.loads(buf)

    def run(self, scenario, inputs, limit=20):
        for attempt in (0, 1):
            if self.p is None or self.p.poll() is not None:
                self.start()
            try:
                self.p.stdin.write((json.dumps({'scenario': scenario, 'inputs': inputs, 'limit': limit}) + '\n').encode())
                self.p.stdin.flush()
                break
            except OSError:
                self.p = None
        r = self._line(limit + 15)
        if r is None or r.get('status') == 'died':
            st = 'timeout' if r is None else 'died'
            try:
                self.p.kill()
                self.p.wait()
            except Exception:
                pass
            self.p = None
            return {'status': st, 'obs': {}}
        return r

    def stop(self):
        if self.p is not None:
            try:
                self.p.kill()
                self.p.wait()
            except Exception:
                pass
            self.p = None


class Violation(Exception):
    pass


class Cx:
    symbolic = True

    def __init__(self, eng, scen, replay, found):
        self.eng, self.scen, self.replay, self.found = eng, scen, replay, found
        self.inputs = {}
        self.obs = []
        self.nchecks = 0

    # ---------------------------------------------------------------- inputs
    def _reg(self, name, v):
        if name in self.inputs:
            raise RuntimeError('duplicate input ' + name)
        self.inputs[name] = v
        return v

    def str(self, name, lo=0, hi=None, valid=True, alphabet=None, lacks=''):
        t = z3.String('in_' + name)
        if lo:
            self.eng.add(z3.Length(t) >= lo)
        if hi is not None:
            self.eng.add(z3.Length(t) <= hi)
        if alphabet is not None:
            self.eng.add(z3.InRe(t, z3.Star(alphabet)))
        elif valid:
            self.eng.final_constraints.append(z3.InRe(t, XML_VALID))
        else:
            # any text Python can encode: no lone surrogates
            from .vals import zrange
            self.eng.final_constraints.append(z3.InRe(t, z3.Star(z3.Union(zrange(0, 0xD7FF), zrange(0xE000, MAXCHAR)))))
        for c in lacks:
            self.eng.final_constraints.append(z3.Not(z3.Contains(t, z3.StringVal(c))))
        return self._reg(name, SymStr([Atom(t, valid, lacks)]))

    def int(self, name, lo=None, hi=None):
        t = z3.Int('in_' + name)
        if lo is not None:
            self.eng.add(t >= lo)
        if hi is not None:
            self.eng.add(t <= hi)
        return self._reg(name, SymInt(t))

    def bool(self, name):
        return self._reg(name, SymBool(z3.Bool('in_' + name)))

    def flip(self, name):
        """boolean decided now (both explored)"""
        v = bool(self.eng.choose(2))
        return self._reg(name, v)

    def choice(self, name, opts):
        i = self.eng.choose(len(opts))
        self._reg(name, i)
        return opts[i]

    def bytes(self, name, n):
        v = byt.bytes_of([SymInt(bv=z3.BitVec('in_%s_%d' % (name, i), 8)) for i in range(n)])
        return self._reg(name, v)

    def blob(self, name, lo=0, hi=2 ** 24):
        """bytes of unknown content and length"""
        b = z3.Int('bid_' + name)
        self.eng.add(z3.And(b >= 0, b < 2 ** 32))
        if lo == hi:
            return self._reg(name, byt.blob('in', (b,), lo))
        n = z3.Int('len_' + name)
        self.eng.add(z3.And(n >= lo, n <= hi))
        return self._reg(name, byt.blob('in', (b,), SymInt(n)))

    def uuid(self, name):
        t = z3.Int('in_' + name)
        self.eng.add(z3.And(t >= 0, t < 2 ** 128))
        for v in self.eng.reg.get('uuids_c', []):
            self.eng.add(t != v)
        self.eng.reg.setdefault('uuids', []).append(t)
        return self._reg(name, sdt.SymUUID(SymInt(t)))

    def datetime(self, name, lo=_dt.datetime(1, 1, 1), hi=_dt.datetime(9999, 12, 31, 23, 59, 59, 999999), tz='utc', step=1):
        """tz: 'utc', None (naive) or 'any' (fixed offset within +-23:59 minutes); step: microseconds granularity"""
        t = z3.Int('in_' + name)
        a, b = sdt.us_of_naive(lo), sdt.us_of_naive(hi)
        if step == 1:
            us = t
            self.eng.add(z3.And(t >= a, t <= b))
        else:
            us = t * step
            self.eng.add(z3.And(us >= a, us <= b))
        z = _dt.timezone.utc if tz == 'utc' else None
        if tz == 'any':
            o = z3.Int('off_' + name)
            self.eng.add(z3.And(o >= -1439, o <= 1439))
            z = sdt.SymTz(o * 60000000)
        return self._reg(name, sdt.SymDatetime(us, z))

    def timedelta(self, name, lo_us, hi_us):
        t = z3.Int('in_' + name)
        self.eng.add(z3.And(t >= lo_us, t <= hi_us))
        return self._reg(name, sdt.mktd(t))

    # ---------------------------------------------------------------- claims
    def assume(self, c):
        if isinstance(c, SymBool):
            self.eng.assume(c.e)
        elif not c:
            raise PathCut('assumption false')

    def truth(self, c):
        return bool(c)

    def both(self, *cs):
        return and_(*[tb(c) for c in cs])

    def either(self, *cs):
        return or_(*[tb(c) for c in cs])

    def neg(self, c):
        return not_(c)

    def ite(self, c, a, b):
        return ite(c, a, b)

    def check(self, c, label):
        st = self.eng.stats
        st.checks += 1
        self.nchecks += 1
        st.label(label, 'checked')
        if not isinstance(c, SymBool):
            if c:
                st.trivially_true += 1
                st.label(label, 'held on path')
                return
            self.cex([], label)
            return
        e = z3.simplify(c.e)
        if z3.is_true(e):
            st.trivially_true += 1
            st.label(label, 'held on path')
            return
        wd = self.eng.reg.get('words')
        if wd is not None and wd.order:
            return self.check_words(wd, e, label)
        r, m = self.eng._solve([z3.Not(e)])
        if r == 'unsat':
            st.discharged += 1
            st.label(label, 'discharged')
            return
        if r == 'unknown':
            st.check_unknown += 1
            st.label(label, 'unknown')
            self.eng.incomplete = True
            self.eng.add(e)
            return
        ok = self.cex([z3.Not(e)], label)
        if ok == 'none':
            st.discharged += 1
            st.label(label, 'discharged')
        self.eng.add(e)

    def words(self):
        """from here on: word arithmetic (see words.py)"""
        from .words import Words
        self.eng.reg['words'] = Words(self.eng)

    def check_words(self, wd, e, label):
        st = self.eng.stats
        t = time.time()
        if wd.norm(e) is True and wd.prove(e):
            st.solver_s += time.time() - t
            st.discharged += 1
            st.label(label, 'discharged')
            return
        r = wd.counterexample(e)
        st.solver_s += time.time() - t
        if r == 'unsat':
            st.discharged += 1
            st.label(label, 'discharged')
        elif r is None:
            st.check_unknown += 1
            st.label(label, 'unknown')
            self.eng.incomplete = True
        else:
            self.cex(r, label)

    def cex(self, extra, label):
        m = self.eng.model(extra)
        if m is None:
            if not extra:
                raise PathCut('path has no well-formed model')
            return 'none'
        st = self.eng.stats
        if m == 'unknown':
            st.check_unknown += 1
            st.label(label, 'unknown model')
            self.eng.incomplete = True
            return 'unknown'
        try:
            inp = self.concrete(m)
        except Unsupported as e:
            st.check_unknown += 1
            st.note('no concrete input: %s' % e)
            return 'unknown'
        r = self.do_replay(inp, label)
        if r is not None:
            self.found(r, inp)
            raise Found()
        st.spurious += 1
        st.label(label, 'not reproduced')
        self.eng.incomplete = True
        st.note('spurious: %s / %s' % (self.scen['name'], label))
        self.spur = (label, inp)
        if len(SPURIOUS) < 20:
            SPURIOUS.append({'scenario': self.scen['name'], 'label': label, 'inputs': inp, 'real': self.last})
        if not extra:
            raise PathCut('not reproduced')
        return 'spurious'

    def do_replay(self, inp, label, limit=20):
        """-> violation record or None"""
        t = time.time()
        r = self.replay.run(self.scen['name'], inp, limit)
        self.eng.stats.replays += 1
        self.eng.stats.note('replay_ms', int((time.time() - t) * 1000))
        self.last = r
        if r['status'] == 'fail':
            return {'label': r['label'], 'expected': label, 'real': r}
        if r['status'] == 'exc':
            return {'label': r['label'], 'expected': label, 'real': r}
        if r['status'] == 'timeout':
            # once more, alone, with a longer limit: a slow machine is not a hang
            r = self.replay.run(self.scen['name'], inp, 60)
            self.last = r
            if r['status'] in ('timeout', 'fail', 'exc'):
                return {'label': r.get('label', 'does not terminate'), 'expected': label, 'real': r}
        return None

    def fail(self, label):
        self.check(False, label)

    def observe(self, name, v):
        self.obs.append((name, v))

    def concrete(self, m):
        return {k: enc(conc(v, m)) for k, v in self.inputs.items()}

    def witness(self):
        """replay a model of the whole path and compare the observations"""
        m = self.eng.model()
        if m is None or m == 'unknown':
            return None
        try:
            inp = self.concrete(m)
        except Unsupported:
            return None
        v = self.do_replay(inp, 'path witness')
        if v is not None:
            return v, inp
        r = self.last
        if r['status'] != 'ok':
            self.eng.stats.replay_mismatch += 1
            self.eng.stats.note('witness status: %s (%s)' % (r['status'], self.scen['name']))
            return None
        for name, val in self.obs:
            try:
                x = enc(conc(val, m))
            except Unsupported:
                continue
            except Exception as e:
                self.eng.stats.note('observe error %s' % type(e).__name__)
                continue
            if r['obs'].get(name) != x:
                self.eng.stats.replay_mismatch += 1
                self.eng.stats.note('mismatch %s / %s' % (self.scen['name'], name))
                if len(SPURIOUS) < 20:
                    SPURIOUS.append({'scenario': self.scen['name'], 'observe': name, 'model': x, 'real': r['obs'].get(name), 'inputs': inp})
        return None

    # ---------------------------------------------------------------- databases and files
    def db(self, name='v4_chacha20_argon2_gz', password='pw', **k):
        from pykeepass import PyKeePass
        key = (name, password, tuple(sorted(k.items())))
        kp = DBCACHE.get(key)
        if kp is None:
            eng, core.CUR = core.CUR, None
            crypto.TRUST = True
            try:
                kp = DBCACHE[key] = PyKeePass(mio.BytesIO(self.data_bytes(name + '.kdbx')), password=password, **k)
                kp.filename = os.path.join(DATA, name + '.kdbx')
            finally:
                core.CUR = eng
                crypto.TRUST = False
        return dc(kp, {})

    def data_path(self, name):
        return os.path.join(DATA, name)

    def data_bytes(self, name):
        with open(os.path.join(DATA, name), 'rb') as f:
            return f.read()

    def bio(self, data=b''):
        return mio.BytesIO(data)

    def path(self, name):
        return sfs.ROOT + name

    def link(self, name, to):
        sfs.st().links[sfs.ROOT + name] = sfs.ROOT + to

    def is_link(self, name):
        return sfs.ROOT + name in sfs.st().links

    def put(self, name, data):
        sfs.st().files[sfs.ROOT + name] = data

    def get(self, name):
        return sfs.need(sfs.ROOT + name)

    def files(self):
        return {k[len(sfs.ROOT):]: v for k, v in sfs.view(sfs.st()).items()}

    def arm(self, fault=None, crash=None):
        s = sfs.st()
        s.n, s.fault, s.crash, s.snap = 0, fault, crash, None

    def disarm(self):
        s = sfs.st()
        s.fault = s.crash = None
        return s.n

    def snapshot(self):
        s = sfs.st().snap
        return None if s is None else {k[len(sfs.ROOT):]: v for k, v in s.items()}

    def clock(self, f):
        self.eng.reg['clock'] = f

    def unlimit(self, n):
        self.eng.reg['xml_max'] = n

    def note(self, s):
        self.eng.stats.note(s)

    def tree_eq(self, a, b):
        return mxml.trees_equal(a._root if isinstance(a, mxml._ElementTree) else a, b._root if isinstance(b, mxml._ElementTree) else b)

    def sha256(self, b):
        return crypto.Hash('sha256', b).digest()

    def sha512(self, b):
        return crypto.Hash('sha512', b).digest()

    def hmac256(self, key, b):
        return crypto.HMAC(key, b, 'sha256').digest()


def dc(x, memo):
    """copy of an opened database: containers, trees and pykeepass objects; immutable and library objects are shared"""
    i = id(x)
    if i in memo:
        return memo[i]
    t = type(x)
    if isinstance(x, dict):
        n = memo[i] = t.__new__(t)
        for k, v in x.items():
            dict.__setitem__(n, k, dc(v, memo))
        d = getattr(x, '__dict__', None)
        if d is not None and d is not x:
            for k, v in d.items():
                try:
                    n.__dict__[k] = dc(v, memo)
                except Exception:
                    pass
        return n
    if isinstance(x, list):
        n = memo[i] = t.__new__(t)
        list.extend(n, [dc(v, memo) for v in list.__iter__(x)])
        return n
    if t in (tuple, set):
        n = t([dc(v, memo) for v in x])
        memo[i] = n
        return n
    if t is mxml._Element:
        n = memo[i] = mxml._Element(x._tag)
        n._text, n._reparsed, n._tail = x._text, x._reparsed, x._tail
        n._attrs = dict(x._attrs)
        n._kids = [dc(k, memo) for k in x._kids]
        n._parent = dc(x._parent, memo) if x._parent is not None else None
        return n
    if t is mxml._ElementTree:
        n = memo[i] = mxml._ElementTree(dc(x._root, memo))
        return n
    if t.__module__.split('.')[0] == 'pykeepass' and hasattr(x, '__dict__'):
        n = memo[i] = t.__new__(t)
        for k, v in x.__dict__.items():
            n.__dict__[k] = dc(v, memo)
        return n
    return x


SPURIOUS = []


def tb(c):
    return c if isinstance(c, (bool, SymBool)) else bool(c)
