"""Models of builtins and library functions for symbolic arguments."""
import builtins, base64, binascii, codecs, struct, hashlib, hmac, zlib, re, uuid, datetime as _dt, time, os, shutil, pathlib, logging, copy
import operator, collections, functools, itertools, io, types, string, tempfile, z3, random, secrets, warnings, math
from . import core, ops, mio, mxml, crypto, dt as sdt
from .core import Unsupported, PathCut, cur
from .ops import HOOKS, METHODS, SAFE, PYTYPE, IMPORT_MAP, pytype, call, mcall, py_str, py_repr, py_format, SymSet
from .vals import (Sym, SymBool, SymInt, SymStr, Atom, Opq, is_sym, any_sym, realise, to_text, mkstr, mkint, mkbool, mkbv, and_, or_, not_,
                   str_len, intx, conc, zterm, zrange, strval, has_opq, segs_of, join)
from .byt import (SymBytes, Blob, Sl, Vec, mkbytes, bvs, blen, bytes_of, int_to_bytes, int_from_bytes, blob, bdecode, hex_of, beq, bindex, bsub,
                  bslice, utf8_of, memo_blob, as_text)
from . import fs as sfs

PYTYPE.update({sdt.SymDatetime: _dt.datetime, sdt.SymTimedelta: _dt.timedelta, sdt.SymDate: _dt.date, sdt.SymUUID: uuid.UUID, sdt.SymFrac: float})


# ------------------------------------------------------------------ builtins
def h_len(x):
    if isinstance(x, SymStr):
        return str_len(x)
    if isinstance(x, SymBytes):
        return blen(x)
    f = getattr(type(x), '__len__', None)
    if type(f) is types.FunctionType:
        return f(x)
    return len(x)


def classes(c):
    if isinstance(c, tuple):
        out = []
        for x in c:
            out += classes(x)
        return out
    if isinstance(c, types.UnionType):
        return classes(c.__args__)
    return [c]


def h_isinstance(x, c):
    if isinstance(x, Sym):
        t = pytype(x)
        return any(issubclass(t, k) for k in classes(c) if isinstance(k, type))
    if isinstance(x, SymSet):
        return any(k is set for k in classes(c))
    if isinstance(x, mio.BytesIO):
        return any(issubclass(io.BytesIO, k) if k is not mio.BytesIO else True for k in classes(c)) or isinstance(x, c)
    if isinstance(x, sfs.ModelFile):
        return any(isinstance(k, type) and issubclass(io.BufferedRandom, k) for k in classes(c))
    return isinstance(x, c)


def h_type(*a, **k):
    if len(a) == 1 and not k:
        if isinstance(a[0], SymSet):
            return set
        return pytype(a[0])
    return type(*a, **k)


def h_int(x=0, base=None, *a):
    if base is None:
        if isinstance(x, SymInt):
            return x
        if isinstance(x, SymBool):
            return int(bool(x))
        if isinstance(x, sdt.SymFrac):
            return x.trunc()
        if isinstance(x, SymStr):
            return str_to_int(x)
        if isinstance(x, SymBytes):
            return str_to_int(bdecode(x, 'ascii'))
        if isinstance(x, (list, dict)) or x is None:
            return int(x)
        f = getattr(type(x), '__int__', None) or getattr(type(x), '__index__', None)
        if type(f) is types.FunctionType:
            return f(x)
        return int(x)
    if not (is_sym(x) or is_sym(base)):
        return int(x, base)
    if isinstance(x, SymBytes):
        return int_base_bytes(x, base)
    if isinstance(x, SymStr) and base == 16 and len(x.segs) == 1 and isinstance(x.segs[0], Opq) and x.segs[0].kind in ('hex', 'HEX'):
        return x.segs[0].v[0]
    if isinstance(x, SymStr) and base == 10:
        return str_to_int(x)
    return int(realise(x, 'int(base)'), realise(base))


def int_base_bytes(x, base):
    """int(bytes, 16): forks on whether every byte is a plain hexadecimal digit"""
    n = blen(x)
    t = as_text(x.segs)
    if t is not None and isinstance(t, SymStr) and len(t.segs) == 1 and isinstance(t.segs[0], Opq) and t.segs[0].kind in ('hex', 'HEX', 'hexb'):
        return int_from_bytes(t.segs[0].v, 'big') if t.segs[0].kind == 'hexb' else t.segs[0].v[0]
    if base == 16 and any(isinstance(s, Sl) and s.b.kind in ('in', 'garbage') for s in x.segs):
        if isinstance(n, int) and n == 0:
            raise ValueError('invalid literal for int()')
        raise Unsupported('int(blob, 16)')
    if base == 16 and isinstance(n, int) and all(isinstance(s, (bytes, Vec)) for s in x.segs):
        bs = [bindex(x, i) for i in range(n)]
        ok = and_(*[is_hexdigit(b) for b in bs])
        if n and ok:
            return SymInt(z3.Int(cur().fresh('hexval')))      # value unused by the code except for success
    return int(realise(x, 'int(bytes)'), base)


def is_hexdigit(b):
    if isinstance(b, int):
        return chr(b) in '0123456789abcdefABCDEF'
    return or_(and_(b >= 48, b <= 57), and_(b >= 97, b <= 102), and_(b >= 65, b <= 70))


def str_to_int(s):
    segs = s.segs
    if len(segs) == 1 and isinstance(segs[0], Opq) and segs[0].kind == 'dec':
        return segs[0].v
    if not has_opq(s):
        t = zterm(s)
        digits = z3.Plus(zrange(0x30, 0x39))
        if cur().branch(z3.InRe(t, digits)):
            return mkint(z3.StrToInt(t))
        if cur().branch(z3.InRe(t, z3.Concat(z3.Re('-'), digits))):
            return mkint(-z3.StrToInt(z3.SubString(t, 1, z3.Length(t) - 1)))
        if cur().branch(z3.InRe(t, z3.Star(z3.Union(zrange(0x21, 0x2a), zrange(0x2c, 0x2c), zrange(0x2e, 0x2f), zrange(0x3a, 0x5e), zrange(0x60, 0x7e))))):
            raise ValueError('invalid literal for int() with base 10')
    return int(realise(s, 'int(text)'))


def h_bytes(*a, **k):
    if not a:
        return b''
    x = a[0]
    if isinstance(x, SymBytes):
        return x
    if isinstance(x, SymStr):
        return mcall(x, 'encode', *a[1:], **k)
    if isinstance(x, SymInt):
        if x < 0:
            raise ValueError('negative count')
        return blob('rep', (0, x), x)
    if isinstance(x, (list, tuple)) or isinstance(x, types.GeneratorType) or isinstance(x, (range, map)):
        xs = list(x)
        if any_sym(xs):
            for v in xs:
                if isinstance(v, SymInt) and v.bv is None or isinstance(v, SymInt) and v.bv.size() > 8:
                    if not and_(v >= 0, v < 256):
                        raise ValueError('bytes must be in range(0, 256)')
            return bytes_of([to8(v) for v in xs])
        return bytes(xs)
    f = getattr(type(x), '__bytes__', None)
    if type(f) is types.FunctionType:
        return f(x)
    return bytes(*a, **k)


def to8(v):
    if isinstance(v, SymInt):
        if v.bv is None:
            eng = cur()
            b = z3.BitVec(eng.fresh('b8'), 8)
            eng.add(z3.BV2Int(b) == v.e)
            return SymInt(bv=b)
        w = v.bv.size()
        if w > 8:
            return mkbv(z3.Extract(7, 0, v.bv))
        if w < 8:
            return SymInt(bv=z3.ZeroExt(8 - w, v.bv))
    return v


class SymRange:
    def __init__(self, a, b, s):
        self.a, self.b, self.s = a, b, s

    def __iter__(self):
        i = self.a
        while (i < self.b) if self.s > 0 else (i > self.b):
            cur().step()
            yield i
            i = i + self.s

    def __len__(self):
        return len(list(iter(self)))


def h_range(*a):
    if not any_sym(a):
        return range(*a)
    if len(a) == 1:
        a = (0, a[0], 1)
    elif len(a) == 2:
        a = (a[0], a[1], 1)
    if isinstance(a[2], Sym):
        raise Unsupported('symbolic range step')
    return SymRange(*a)


def h_set(xs=()):
    xs = list(xs)
    return SymSet(xs) if any_sym(xs) or usersym(xs) else set(xs)


def usersym(xs):
    return any(type(getattr(type(x), '__hash__', None)) is types.FunctionType and isinstance(h_hash(x), HashVal) for x in xs)


def h_frozenset(xs=()):
    xs = list(xs)
    return SymSet(xs) if any_sym(xs) or usersym(xs) else frozenset(xs)


def h_dict(*a, **k):
    d = {}
    if a:
        if not isinstance(a[0], dict) and not hasattr(a[0], 'keys'):
            for kk, v in a[0]:
                ops.setitem(v, d, kk)
        else:
            for kk in a[0].keys():
                ops.setitem(a[0][kk], d, kk)
    d.update(k)
    return d


def h_odict(*a, **k):
    d = collections.OrderedDict()
    for kk, v in h_dict(*a, **k).items():
        d[kk] = v
    return d


def h_map(f, *its):
    return (call(f, *xs) for xs in zip(*its))


def h_filter(f, it):
    return (x for x in it if (x if f is None else call(f, x)))


def h_sorted(it, *, key=None, reverse=False):
    xs = list(it)
    if not any_sym(xs):
        return sorted(xs, key=(lambda x: call(key, x)) if key else None, reverse=reverse)
    return sorted(xs, key=(lambda x: call(key, x)) if key else None, reverse=reverse)


def h_ord(x):
    if isinstance(x, SymStr):
        if (str_len(x) != 1):
            raise TypeError('ord() expected a character')
        return mkint(z3.StrToCode(zterm(x)))
    if isinstance(x, SymBytes):
        return bindex(x, 0)
    return ord(x)


def h_chr(x):
    if isinstance(x, SymInt):
        return mkstr([Atom(z3.StrFromCode(x.e), False)])
    return chr(x)


def h_bool(x=False):
    return bool(x)


class HashVal(Sym):
    """hash(x): equal values have equal hashes; unequal ones may coincide only where CPython's hash is not injective"""
    __slots__ = ('k',)

    def __init__(self, k):
        self.k = k

    def __eq__(self, o):
        if isinstance(o, HashVal):
            return hv_eq(self.k, o.k)
        return False

    def __ne__(self, o):
        return not_(self == o)

    def __hash__(self):
        return 3

    def __index__(self):
        return 3

    def leaves(self):
        return []

    def conc(self, m):
        return 0


M61 = (1 << 61) - 1


def hv(x):
    if isinstance(x, sdt.SymUUID):
        return ('int', x.v)
    if isinstance(x, uuid.UUID):
        return ('int', x.int)
    if isinstance(x, (bool, int, SymInt)):
        return ('int', x)
    if isinstance(x, tuple):
        return ('tuple',) + tuple(hv(y) for y in x)
    if isinstance(x, (str, SymStr)):
        return ('str', x)
    if isinstance(x, (bytes, SymBytes)):
        return ('str', x)
    if isinstance(x, (_dt.datetime, sdt.SymDatetime)):
        return ('dt', x)
    if x is None:
        return ('none',)
    if isinstance(x, HashVal):
        return x.k
    f = getattr(type(x), '__hash__', None)
    if type(f) is types.FunctionType:
        r = f(x)
        return r.k if isinstance(r, HashVal) else ('int', r)
    return ('int', hash(x))


def hv_eq(a, b):
    if a[0] != b[0]:
        return False
    if a[0] == 'int':
        return mkbool(intx(a[1]) % M61 == intx(b[1]) % M61)
    if a[0] == 'tuple':
        return len(a) == len(b) and and_(*[hv_eq(x, y) for x, y in zip(a[1:], b[1:])])
    if a[0] == 'none':
        return True
    r = a[1] == b[1]
    return r


def h_hash(x):
    if isinstance(x, (str, bytes, int, float, type(None))):
        return hash(x)
    k = hv(x)
    if not hv_sym(k):
        return hv_int(k)
    return HashVal(k)


def hv_sym(k):
    return any(hv_sym(y) if type(y) is tuple else isinstance(y, Sym) for y in k[1:])


def hv_int(k):
    return hash(tuple(hv_int(y) for y in k[1:])) if k[0] == 'tuple' else hash(k[1]) if len(k) > 1 else hash(None)


def h_open(file, mode='r', *a, **k):
    return sfs.FS.open(file, mode, *a, **k)


def h_getattr(o, name, *d):
    if isinstance(name, SymStr):
        name = realise(name, 'getattr')
    return getattr(o, name, *d)


def h_hasattr(o, name):
    return hasattr(o, name)


def h_callable(x):
    return callable(x)


def h_sum(xs, start=0):
    for x in xs:
        start = start + x
    return start


def h_any(xs):
    for x in xs:
        if x:
            return True
    return False


def h_all(xs):
    for x in xs:
        if not x:
            return False
    return True


def h_round(x, n=None):
    if isinstance(x, sdt.SymFrac):
        return x.__round__(n)
    return round(x) if n is None else round(x, n)


def h_deepcopy(x, memo=None):
    return copy.deepcopy(x, memo) if memo is not None else copy.deepcopy(x)


# ------------------------------------------------------------------ base64 / hex
def text_bytes(x):
    """ASCII text or bytes argument -> SymStr/str view"""
    if isinstance(x, SymBytes):
        t = as_text(x.segs)
        if t is None:
            return None
        return t
    return x


def h_b64encode(s, altchars=None):
    if isinstance(s, (str, SymStr)):
        raise TypeError("a bytes-like object is required, not 'str'")
    if is_sym(s):
        if altchars is not None:
            raise Unsupported('altchars')
        return utf8_of(SymStr([b64_opq(s)]))
    return base64.b64encode(s, altchars)


def b64_opq(x):
    eng = cur()
    from .byt import syn_eq
    tab = eng.reg.setdefault('b64opq', [])
    for y, o in tab:
        if syn_eq(y, x):
            return o
    o = Opq('b64', x)
    tab.append((x, o))
    return o


def h_b64decode(s, altchars=None, validate=False):
    if s is None:
        return base64.b64decode(s)
    if not is_sym(s):
        return base64.b64decode(s, altchars, validate)
    t = text_bytes(s)
    if isinstance(t, str):
        return base64.b64decode(t, altchars, validate)
    if t is not None:
        segs = t.segs
        if len(segs) == 1 and isinstance(segs[0], Opq) and segs[0].kind == 'b64':
            return segs[0].v
        # whitespace around is discarded when not validating
        if not validate:
            core_ = [q for q in segs if not (isinstance(q, str) and not q.strip())]
            if len(core_) == 1 and isinstance(core_[0], Opq) and core_[0].kind == 'b64':
                return core_[0].v
        if isinstance(segs[0], Opq) and segs[0].kind == 'iso' and altchars is None and all(isinstance(q, str) and '=' not in q for q in segs[1:]):
            # text of a date: '-' and ':' are dropped (or refused), and the number of the other characters decides
            import binascii, string
            from .dt import tz_off
            if validate:
                raise binascii.Error('Only base64 data is allowed')
            d, n = segs[0].v, 15
            if cur().branch(d.us % 1000000 != 0):
                n += 6
            o = tz_off(d.tz)
            if o is not None:
                n += 5 if cur().branch(o >= 0) else 4
                if cur().branch(o % 60000000 != 0):
                    raise Unsupported('offset with seconds')
            n += sum(c in string.ascii_letters + string.digits + '+/' for q in segs[1:] for c in q)
            if n % 4:
                raise binascii.Error('Incorrect padding')
            cur().stats.note('base64 of a date: content left open')
            return bytes_of([SymInt(bv=z3.BitVec(cur().fresh('b64iso'), 8)) for i in range(n // 4 * 3)])
    return base64.b64decode(realise(s, 'b64decode'), altchars, validate)


def h_fromhex(cls, s):
    if not is_sym(s):
        return bytes.fromhex(s)
    if isinstance(s, SymStr):
        if len(s.segs) == 1 and isinstance(s.segs[0], Opq):
            o = s.segs[0]
            if o.kind == 'hexb':
                return o.v
            if o.kind in ('hex', 'HEX'):
                return int_to_bytes(o.v[0], o.v[1] // 2, 'big', False)
    return bytes.fromhex(realise(s, 'fromhex'))


def h_hexlify(x, *a):
    if not is_sym(x):
        return binascii.hexlify(x, *a)
    return utf8_of(hex_of(x))


def h_unhexlify(x):
    if not is_sym(x):
        return binascii.unhexlify(x)
    t = text_bytes(x)
    if isinstance(t, SymStr) and len(t.segs) == 1 and isinstance(t.segs[0], Opq) and t.segs[0].kind in ('hexb', 'hex', 'HEX'):
        return h_fromhex(bytes, t)
    if isinstance(x, SymBytes) and all(isinstance(s, (bytes, Vec)) for s in x.segs):
        n = blen(x)
        if n % 2:
            raise binascii.Error('Odd-length string')
        bs = [bindex(x, i) for i in range(n)]
        if and_(*[is_hexdigit(b) for b in bs]):
            return bytes_of([hexval(bs[i]) * 16 + hexval(bs[i + 1]) if isinstance(bs[i], int) and isinstance(bs[i + 1], int) else
                             nib(hexval(bs[i]), hexval(bs[i + 1])) for i in range(0, n, 2)])
        raise binascii.Error('Non-hexadecimal digit found')
    if isinstance(x, SymBytes) and any(isinstance(s, Sl) and s.b.kind in ('in', 'garbage', 'enc', 'stream', 'gz', 'sha256', 'hmac') for s in x.segs):
        cur().stats.note('assumption: opaque bytes are not hexadecimal digits')
        raise binascii.Error('Non-hexadecimal digit found')
    return binascii.unhexlify(realise(x, 'unhexlify'))


def hexval(b):
    if isinstance(b, int):
        return int(chr(b), 16)
    v = b.bv
    if v.size() < 8:
        v = z3.ZeroExt(8 - v.size(), v)
    d = z3.If(z3.ULE(v, 57), v - 48, z3.If(z3.UGE(v, 97), v - 87, v - 55))
    return mkbv(z3.Extract(3, 0, d))


def nib(a, b):
    def x(v):
        return z3.BitVecVal(v, 4) if isinstance(v, int) else v.bv
    return mkbv(z3.Concat(x(a), x(b)))


def h_codecs_decode(obj, encoding='utf-8', errors='strict'):
    if not is_sym(obj):
        return codecs.decode(obj, encoding, errors)
    if encoding in ('hex', 'hex_codec'):
        return h_unhexlify(obj)
    if encoding in ('base64', 'base64_codec'):
        return h_b64decode(obj)
    return bdecode(obj, encoding, errors)


def h_codecs_encode(obj, encoding='utf-8', errors='strict'):
    if not is_sym(obj):
        return codecs.encode(obj, encoding, errors)
    if encoding in ('hex', 'hex_codec'):
        return h_hexlify(obj)
    if encoding in ('base64', 'base64_codec'):
        raise Unsupported('codecs base64')
    return mcall(obj, 'encode', encoding, errors)


# ------------------------------------------------------------------ struct
_SIZES = {'b': 1, 'B': 1, '?': 1, 'h': 2, 'H': 2, 'i': 4, 'I': 4, 'l': 4, 'L': 4, 'q': 8, 'Q': 8}


def fmt_items(fmt):
    if isinstance(fmt, bytes):
        fmt = fmt.decode()
    en = 'little'
    if fmt and fmt[0] in '<>!=@':
        if fmt[0] in '>!':
            en = 'big'
        if fmt[0] == '@':
            raise Unsupported('native struct')
        body = fmt[1:]
    else:
        body = fmt
    out = []
    for m in re.finditer(r'(\d*)([a-zA-Z?])', body):
        n = int(m.group(1) or 1)
        c = m.group(2)
        if c == 's':
            out.append(('s', n, en))
        elif c == 'x':
            out.append(('x', n, en))
        elif c in _SIZES:
            out += [(c, _SIZES[c], en)] * n
        else:
            raise Unsupported('struct ' + c)
    return out


def h_pack(fmt, *vals):
    if not any_sym(vals):
        return struct.pack(fmt, *vals)
    out, i = [], 0
    for c, n, en in fmt_items(fmt):
        if c == 'x':
            out.append(b'\0' * n)
            continue
        v = vals[i]
        i += 1
        if c == 's':
            if blen(v) != n:
                raise Unsupported('struct s')
            out += bvs(v)
            continue
        if not isinstance(v, (int, SymInt, SymBool)):
            raise struct.error('required argument is not an integer')
        try:
            out += bvs(int_to_bytes(v, n, en, c.islower())) if is_sym(v) else [v.to_bytes(n, en, signed=c.islower())]
        except OverflowError:
            raise struct.error("'%s' format requires a number in range" % c)
    return mkbytes(out)


def h_unpack(fmt, data):
    if not is_sym(data):
        return struct.unpack(fmt, data)
    items = fmt_items(fmt)
    tot = sum(n for _, n, _ in items)
    L = blen(data)
    if L != tot:
        raise struct.error('unpack requires a buffer of %d bytes' % tot)
    return tuple(_unpack(items, data, 0))


def _unpack(items, data, pos):
    out = []
    for c, n, en in items:
        part = bsub(data, pos, pos + n)
        pos += n
        if c == 'x':
            continue
        if c == 's':
            out.append(part)
        elif c == '?':
            v = int_from_bytes(part, en, False)
            out.append(v != 0)
        else:
            out.append(int_from_bytes(part, en, c.islower()))
    return out


def h_unpack_from(fmt, data, offset=0):
    if not is_sym(data):
        return struct.unpack_from(fmt, data, offset)
    items = fmt_items(fmt)
    tot = sum(n for _, n, _ in items)
    if blen(data) - offset < tot:
        raise struct.error('unpack_from requires a buffer of at least %d bytes' % tot)
    return tuple(_unpack(items, data, offset))


class StructM:
    def __init__(self, fmt):
        self.format = fmt
        self.size = struct.calcsize(fmt)

    def pack(self, *v):
        return h_pack(self.format, *v)

    def unpack(self, d):
        return h_unpack(self.format, d)

    def unpack_from(self, d, offset=0):
        return h_unpack_from(self.format, d, offset)


# ------------------------------------------------------------------ re
class PatternM:
    def __init__(self, pat, flags=0):
        self.pattern = pat
        self.flags = flags
        self.real = re.compile(pat, flags)

    def __getattr__(self, n):
        if n in ('groups', 'groupindex'):
            return getattr(self.real, n)
        raise Unsupported('re.Pattern.' + n)

    def sub(self, repl, s, count=0):
        return h_sub(self.real, repl, s, count)

    def subn(self, repl, s, count=0):
        return self.real.subn(realise(repl), realise(s, 're.subn'), count)

    def findall(self, s, *a):
        return h_findall(self.real, s)

    def finditer(self, s, *a):
        return h_finditer(self.real, s)

    def search(self, s, *a):
        return h_rx('search', self.real, s)

    def match(self, s, *a):
        return h_rx('match', self.real, s)

    def fullmatch(self, s, *a):
        return h_rx('fullmatch', self.real, s)

    def split(self, s, maxsplit=0):
        return self.real.split(realise(s, 're.split'), maxsplit)


def rx(p, flags=0):
    if isinstance(p, PatternM):
        return p.real
    if isinstance(p, re.Pattern):
        return p
    if isinstance(p, SymStr):
        p = realise(p, 'regex pattern')
    return re.compile(p, flags)


def class_of(pat):
    """ranges of a pattern that is a single character class with + or * or nothing; None otherwise"""
    import re._parser as sp
    try:
        t = list(sp.parse(pat))
    except Exception:
        return None
    if len(t) != 1:
        return None
    op, av = t[0]
    if str(op) == 'MAX_REPEAT' and av[0] <= 1:
        inner = list(av[2])
        if len(inner) != 1 or av[0] == 0:
            return None
        op, av = inner[0]
    if str(op) == 'IN':
        return mxpath_ranges(av)
    if str(op) == 'LITERAL':
        return [(av, av)]
    if str(op) == 'NOT_LITERAL':
        return mxpath_compl([(av, av)])
    return None


def mxpath_ranges(items):
    rs, neg = [], False
    for op, av in items:
        o = str(op)
        if o == 'NEGATE':
            neg = True
        elif o == 'LITERAL':
            rs.append((av, av))
        elif o == 'RANGE':
            rs.append(av)
        elif o == 'CATEGORY':
            rs += cat_ranges((op, av))
        else:
            return None
    return mxpath_compl(rs) if neg else rs


def mxpath_compl(rs):
    rs = sorted(rs)
    out, p = [], 0
    for a, b in rs:
        if a > p:
            out.append((p, a - 1))
        p = max(p, b + 1)
    if p <= 0x10FFFF:
        out.append((p, 0x10FFFF))
    return out


XMLR = [(9, 10), (13, 13), (0x20, 0xD7FF), (0xE000, 0xFFFD), (0x10000, 0x10FFFF)]
ALPH = {'dec': '-0123456789', 'b64': 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/=', 'hex': '0123456789abcdef',
        'HEX': '0123456789ABCDEF', 'hexb': '0123456789abcdef', 'iso': '0123456789-:T.+'}


def inter(a, b):
    return [(max(x, u), min(y, v)) for x, y in a for u, v in b if max(x, u) <= min(y, v)]


def h_sub(p, repl, s, count=0, flags=0):
    r = rx(p, flags)
    if isinstance(repl, SymStr) and (isinstance(s, SymStr) or type(s) is str):
        if '\\' in repl:
            return r.sub(realise(repl), realise(s, 're.sub'), count)
        text, repl = repl, lambda m: text
    if callable(repl) and (isinstance(s, SymStr) or type(s) is str):
        x = sub_fn(r, repl, s, count)
        if x is not None:
            return x
        if not is_sym(s):
            return s
    if not is_sym(s) and not is_sym(repl):
        return r.sub(repl, s, count)
    cls = class_of(r.pattern) if isinstance(s, SymStr) and not r.flags & re.I else None
    if cls is not None:
        clean = True
        for q in s.segs:
            if isinstance(q, str):
                if r.search(q):
                    clean = False
            elif isinstance(q, Opq):
                if q.kind in ALPH:
                    if any(a <= ord(c) <= b for c in ALPH[q.kind] for a, b in cls):
                        clean = False
                elif q.kind == 'utf8dec':
                    # arbitrary decoded text: may or may not contain such characters
                    f = z3.Bool(cur().fresh('strips'))
                    if cur().branch(f):
                        return mkstr([Opq('stripped', (q,))])
                else:
                    clean = False
            else:
                hit = inter(cls, XMLR) if q.valid else [(a, min(b, 0x2FFFF)) for a, b in cls if a <= 0x2FFFF]
                if hit:
                    u = z3.Union(*[zrange(a, min(b, 0x2FFFF)) for a, b in hit]) if len(hit) > 1 else zrange(hit[0][0], min(hit[0][1], 0x2FFFF))
                    anyc = z3.Star(z3.AllChar(z3.ReSort(z3.StringSort())))
                    if cur().branch(z3.InRe(q.t, z3.Concat(anyc, u, anyc))):
                        clean = False
        if clean:
            return s
    return r.sub(realise(repl), realise(s, 're.sub'), count)


PH0 = 0xF0000


def placeholder(s, r):
    """text in which each symbolic piece is one private character, and their table; None if what a piece contains can change how the pattern matches.
    Decided by running the pattern with the pieces replaced by probes: every literal of the pattern that a piece may contain, doubled, and nothing."""
    import re._parser as sp
    sets = []

    def walk(t):
        for op, av in t:
            o = str(op)
            if o in ('LITERAL', 'NOT_LITERAL'):
                sets.append([(av, av)])
            elif o == 'IN':
                for x in av:
                    if str(x[0]) != 'NEGATE':
                        sets.append(cat_ranges(x))
            elif o == 'ANY':
                sets.append([(10, 10)])
            elif o == 'SUBPATTERN':
                walk(av[3])
            elif 'REPEAT' in o:
                walk(av[2])
            elif o == 'BRANCH':
                for b in av[1]:
                    walk(b)
            elif o in ('ASSERT', 'ASSERT_NOT'):
                walk(av[1])
            elif o == 'AT' and str(av) in ('AT_BEGINNING', 'AT_END', 'AT_BEGINNING_STRING', 'AT_END_STRING'):
                sets.append([(10, 10)])
            else:
                raise NotImplementedError
    try:
        walk(sp.parse(r.pattern))
    except (NotImplementedError, re.error):
        return None, None
    kinds = char_kinds(sets)
    segs = [q for q in s.segs]
    head = []

    def heads(t):
        """the single characters at the start of the pattern; False once there is something else"""
        for op, av in t:
            o = str(op)
            if o == 'SUBPATTERN':
                if not heads(av[3]):
                    return False
            elif o == 'LITERAL' or o == 'IN' or o == 'NOT_LITERAL':
                head.append([(op, av)])
            else:
                return False
        return True
    heads(sp.parse(r.pattern))
    if not head or str(head[0][0][0]) != 'LITERAL' or r.flags & re.I:
        return None, None
    c0 = chr(head[0][0][1])

    def fits(h, c):
        op, av = h[0]
        if str(op) == 'IN':
            rs = mxpath_ranges(av)
            return rs is None or any(a <= ord(c) <= b for a, b in rs)
        return (ord(c) == av) == (str(op) == 'LITERAL')
    for i, q in enumerate(segs):
        # a match begins in a literal piece, and its fixed first characters lie in that piece
        if isinstance(q, str):
            k = q.find(c0)
            while k >= 0:
                n = min(len(head), len(q) - k)
                if n < len(head) and i + 1 < len(segs) and all(fits(head[j], q[k + j]) for j in range(n)):
                    return None, None
                k = q.find(c0, k + 1)
        elif isinstance(q, Opq):
            if q.kind not in ALPH or c0 in ALPH[q.kind]:
                return None, None
        elif c0 not in q.lacks and cur().branch(z3.Contains(q.t, strval(c0))):
            return None, None

    def may(q):
        """the kinds of characters a piece may contain, one of each kind with all of the kind"""
        for rs in kinds:
            if isinstance(q, Opq):
                cs = [c for c in ALPH[q.kind] if any(a <= ord(c) <= b for a, b in rs)] if q.kind in ALPH else [chr(rs[0][0])]
            else:
                cs = [chr(c) for a, b in rs for c in range(a, min(b, a + 40) + 1) if chr(c) not in q.lacks and chr(c) != c0 and ok_char(q, c)][:1]
            if cs:
                yield cs[0], rs

    def shape(fill):
        """spans of all groups of all matches, in terms of pieces"""
        t, owner = '', []
        for i, q in enumerate(segs):
            x = q if isinstance(q, str) else fill(i, q)
            owner += [(i, k) for k in range(len(x))] if isinstance(q, str) else [(i, 0)] * len(x)
            t += x
        owner.append((len(segs), 0))

        def where(a, b):
            return (owner[a], owner[b - 1]) if b > a else None
        return [[where(*m.span(g)) if m.span(g)[0] >= 0 else None for g in range(r.groups + 1)] for m in r.finditer(t)]
    base = shape(lambda i, q: chr(PH0 + i))
    for i, q in enumerate(segs):
        if isinstance(q, str):
            continue
        for c, rs in may(q):
            for x in (c, c + chr(PH0 + i), chr(PH0 + i) + c):
                if shape(lambda j, p: x if j == i else chr(PH0 + j)) != base:
                    # pieces without such characters are taken apart; one with them is given a value
                    if isinstance(q, Opq):
                        return None, None
                    if cur().branch(has_char(q.t, rs)):
                        return placeholder(mkstr(segs[:i] + [realise(SymStr([q]), 're')] + segs[i + 1:]), r)
                    break
        if isinstance(q, Atom) and shape(lambda j, p: '' if j == i else chr(PH0 + j)) != strip(base, i):
            if cur().branch(z3.Length(q.t) == 0):
                return placeholder(mkstr(segs[:i] + segs[i + 1:]), r) if len(segs) > 1 else (None, None)
    table = {chr(PH0 + i): q for i, q in enumerate(segs) if not isinstance(q, str)}
    if table:
        cur().stats.note('model: how a pattern matches around symbolic text was decided by probes')
    return ''.join(q if isinstance(q, str) else chr(PH0 + i) for i, q in enumerate(segs)), table


def ok_char(q, c):
    return not q.valid or any(a <= c <= b for a, b in XMLR)


def has_char(t, rs):
    rs = [(a, min(b, 0x2FFFF)) for a, b in rs if a <= 0x2FFFF]
    if len(rs) == 1 and rs[0][0] == rs[0][1]:
        return z3.Contains(t, strval(chr(rs[0][0])))
    u = z3.Union(*[zrange(a, b) for a, b in rs]) if len(rs) > 1 else zrange(*rs[0])
    anyc = z3.Star(z3.AllChar(z3.ReSort(z3.StringSort())))
    return z3.InRe(t, z3.Concat(anyc, u, anyc))


@functools.lru_cache(None)
def category(c):
    """all characters of a class such as \\s"""
    r, out = re.compile(c), []
    for i in range(0x30000):
        if r.match(chr(i)):
            if out and out[-1][1] == i - 1:
                out[-1][1] = i
            else:
                out.append([i, i])
    return [tuple(x) for x in out]


CATS = {'DIGIT': r'\d', 'SPACE': r'\s', 'WORD': r'\w', 'NOT_DIGIT': r'\D', 'NOT_SPACE': r'\S', 'NOT_WORD': r'\W'}


def cat_ranges(x):
    op, av = x
    o = str(op)
    if o == 'LITERAL':
        return [(av, av)]
    if o == 'RANGE':
        return [tuple(av)]
    if o == 'CATEGORY':
        return category(CATS[str(av).replace('CATEGORY_UNI_', '').replace('CATEGORY_', '')])
    raise NotImplementedError


def char_kinds(sets):
    """the characters named by a pattern, apart into those no part of it distinguishes"""
    cuts = sorted({a for rs in sets for a, b in rs} | {b + 1 for rs in sets for a, b in rs})
    by = {}
    for a, b in zip(cuts, cuts[1:]):
        sig = tuple(any(x <= a and b - 1 <= y for x, y in rs) for rs in sets)
        if any(sig):
            by.setdefault(sig, []).append((a, b - 1))
    return list(by.values())


def strip(base, i):
    """the same matches, if a piece inside them vanished; None when it was at the edge of a group"""
    for m in base:
        for g in m:
            if g is not None and (g[0][0] == i or g[1][0] == i):
                return None
    return base


def unplace(x, table):
    if isinstance(x, tuple):
        return tuple(unplace(y, table) for y in x)
    if isinstance(x, str):
        return mkstr([table.get(c, c) for c in x])
    return x


def no_match(r, s):
    """whether the solver takes the branch on which the pattern occurs nowhere in the text"""
    from .mxpath import search_lang
    from .vals import has_opq
    fl = r.flags & ~re.UNICODE
    if isinstance(r.pattern, str) and not fl & ~re.IGNORECASE and not has_opq(s):
        z = search_lang(r.pattern, bool(fl & re.IGNORECASE), 'search')
        if z is not None:
            return not cur().branch(z3.InRe(zterm(s), z))
    return False


class PlMatch:
    """a match within a text whose symbolic pieces are single private characters"""

    def __init__(self, m, table, s):
        self.m, self.table, self.string, self.re = m, table, s, m.re

    def group(self, *g):
        return unplace(self.m.group(*g), self.table)

    def groups(self, default=None):
        return unplace(self.m.groups(default), self.table)

    def groupdict(self, default=None):
        return {k: unplace(v, self.table) for k, v in self.m.groupdict(default).items()}

    def __getitem__(self, g):
        return self.group(g)

    def __bool__(self):
        return True

    def expand(self, t):
        return unplace(self.m.expand(t), self.table)

    def __getattr__(self, n):
        if n in ('lastindex', 'lastgroup'):
            return getattr(self.m, n)
        raise Unsupported('re.Match.' + n)


def h_findall(p, s, flags=0):
    r = rx(p, flags)
    if not is_sym(s):
        return r.findall(s)
    if isinstance(s, SymStr):
        t, table = placeholder(s, r)
        if t is not None:
            return [unplace(x, table) for x in r.findall(t)]
        if no_match(r, s):
            return []
    return r.findall(realise(s, 're.findall'))


def h_finditer(p, s, flags=0):
    r = rx(p, flags)
    if not is_sym(s):
        return r.finditer(s)
    if isinstance(s, SymStr):
        t, table = placeholder(s, r)
        if t is not None:
            return iter([PlMatch(m, table, s) for m in r.finditer(t)])
        if no_match(r, s):
            return iter([])
    return r.finditer(realise(s, 're.finditer'))


def sub_fn(r, repl, s, count):
    """substitution by a function"""
    if not is_sym(s):
        return None if not r.search(s) else pieces(r, repl, s, {}, count)
    t, table = placeholder(s, r)
    if t is None:
        return s if no_match(r, s) else None
    return pieces(r, repl, t, table, count)


def pieces(r, repl, t, table, count):
    out, at = [], 0
    for i, m in enumerate(r.finditer(t)):
        if count and i >= count:
            break
        out.append(unplace(t[at:m.start()], table))
        out.append(repl(PlMatch(m, table, t) if table else m))
        at = m.end()
    out.append(unplace(t[at:], table))
    x = ''
    for y in out:
        x = x + y
    return x


def h_rx(kind, p, s, flags=0):
    r = rx(p, flags)
    if not is_sym(s):
        return getattr(r, kind)(s)
    from .mxpath import search_lang
    from .vals import has_opq
    fl = r.flags & ~re.UNICODE
    if isinstance(s, SymStr) and isinstance(r.pattern, str) and not fl & ~re.IGNORECASE and not has_opq(s):
        z = search_lang(r.pattern, bool(fl & re.IGNORECASE), kind)
        if z is not None:
            if not cur().branch(z3.InRe(zterm(s), z)):
                return None
            return LazyMatch(r, kind, s)
    return getattr(r, kind)(realise(s, 're.' + kind))


class LazyMatch:
    """a match whose text is decided only if it is looked at"""

    def __init__(self, r, kind, s):
        self.__dict__.update(re=r, kind=kind, string=s)

    def __getattr__(self, n):
        m = getattr(self.re, self.kind)(realise(self.string, 're.' + self.kind))
        return getattr(m, n)

    def __getitem__(self, g):
        return self.group(g)


# ------------------------------------------------------------------ uuid / time
def h_UUID(hex=None, bytes=None, bytes_le=None, fields=None, int=None, version=None, **k):
    if not any_sym([hex, bytes, bytes_le, fields, int]):
        return uuid.UUID(hex=hex, bytes=bytes, bytes_le=bytes_le, fields=fields, int=int, version=version, **k)
    if bytes is not None:
        if isinstance(bytes, SymBytes):
            if blen(bytes) != 16:
                raise ValueError('bytes is not a 16-char string')
            return sdt.mkuuid(int_from_bytes(bytes, 'big'))
    if int is not None:
        if not and_(int >= 0, int < 2 ** 128):
            raise ValueError('int is out of range (need a 128-bit value)')
        return sdt.mkuuid(int)
    if isinstance(hex, SymStr):
        h = hex
        if len(h.segs) == 1 and isinstance(h.segs[0], Opq) and h.segs[0].kind in ('hex', 'HEX') and h.segs[0].v[1] == 32:
            return sdt.mkuuid(h.segs[0].v[0])
        parts = [q for q in h.segs if q != '-']
        if len(parts) > 1 and all(isinstance(q, Opq) and q.kind in ('hex', 'HEX') for q in parts) and sum(q.v[1] for q in parts) == 32:
            n = 0
            for q in parts:
                n = n * 16 ** q.v[1] + q.v[0]
            return sdt.mkuuid(n)
        if all(isinstance(q, (str, Atom)) for q in h.segs):
            # most texts are not a UUID
            t = zterm(h)
            hx = z3.Union(zrange(48, 57), zrange(97, 102), zrange(65, 70), zrange(45, 45), zrange(0x7b, 0x7b), zrange(0x7d, 0x7d),
                          z3.Re('u'), z3.Re('r'), z3.Re('n'), z3.Re(':'), z3.Re('i'), z3.Re('d'))
            if not cur().branch(z3.And(z3.InRe(t, z3.Star(hx)), z3.Length(t) >= 32)):
                raise ValueError('badly formed hexadecimal UUID string')
    return uuid.UUID(realise(hex, 'UUID'))


def h_uuid1(*a, **k):
    """a new identifier, distinct from every other in play"""
    eng = cur()
    if eng is None:
        return uuid.UUID(int=0xA5A5 << 100 | random.getrandbits(60))
    n = eng.reg.get('uuidn', 0) + 1
    eng.reg['uuidn'] = n
    v = (0xC0FFEE << 100) | n
    for o in eng.reg.get('uuids', []):
        eng.add(o != v)
    eng.reg.setdefault('uuids_c', []).append(v)
    return uuid.UUID(int=v)


def clock():
    eng = cur()
    if eng is None:
        return _dt.datetime.now(_dt.timezone.utc)
    f = eng.reg.get('clock')
    if f is not None:
        return f()
    n = eng.reg.get('clockn', 0)
    eng.reg['clockn'] = n + 1
    return _dt.datetime(2031, 3, 5, 12, 0, 0, tzinfo=_dt.timezone.utc) + _dt.timedelta(seconds=n)


def h_now(cls, tz=None):
    d = clock()
    if tz is None:
        return d.replace(tzinfo=None)
    if tz is _dt.timezone.utc:
        return d
    return d.astimezone(tz)


def h_utcnow(cls):
    return clock().replace(tzinfo=None)


def h_fromiso(cls, s):
    return sdt.fromisoformat(s)


def h_timedelta(*a, **k):
    if any_sym(a) or any_sym(k.values()):
        return sdt.make_timedelta(*a, **k)
    return _dt.timedelta(*a, **k)


def h_time():
    d = clock()
    return mcall(d, 'timestamp')


def noop(*a, **k):
    return None


class PathM:
    pass


def setup():
    H = HOOKS
    H.update({
        len: h_len, isinstance: h_isinstance, type: h_type, int: h_int, str: py_str, repr: py_repr, format: py_format, bytes: h_bytes,
        range: h_range, set: h_set, frozenset: h_frozenset, dict: h_dict, map: h_map, filter: h_filter, sorted: h_sorted,
        ord: h_ord, chr: h_chr, bool: h_bool, hash: h_hash, open: h_open, io.open: h_open, getattr: h_getattr, sum: h_sum, any: h_any, all: h_all,
        round: h_round, print: noop, collections.OrderedDict: h_odict,
        base64.b64encode: h_b64encode, base64.b64decode: h_b64decode, base64.standard_b64encode: h_b64encode,
        base64.standard_b64decode: h_b64decode, binascii.hexlify: h_hexlify, binascii.unhexlify: h_unhexlify,
        binascii.b2a_hex: h_hexlify, binascii.a2b_hex: h_unhexlify,
        base64.b16encode: lambda s: h_hexlify(s).upper() if not is_sym(s) else utf8_of(SymStr([Opq('hexb', s)]).upper()),
        codecs.decode: h_codecs_decode, codecs.encode: h_codecs_encode,
        struct.pack: h_pack, struct.unpack: h_unpack, struct.unpack_from: h_unpack_from, struct.Struct: StructM,
        re.sub: h_sub, re.findall: h_findall, re.finditer: h_finditer, re.compile: lambda p, flags=0: PatternM(realise(p), flags),
        re.search: lambda p, s, flags=0: h_rx('search', p, s, flags), re.match: lambda p, s, flags=0: h_rx('match', p, s, flags),
        re.fullmatch: lambda p, s, flags=0: h_rx('fullmatch', p, s, flags),
        uuid.UUID: h_UUID, uuid.uuid1: h_uuid1, uuid.uuid4: h_uuid1, _dt.timedelta: h_timedelta, time.time: h_time,
        hmac.new: lambda key, msg=None, digestmod='': crypto.HMAC(key, msg, digestmod),
        hmac.digest: lambda key, msg, digest: crypto.HMAC(key, msg, digest).digest(),
        hmac.HMAC: crypto.HMAC, hmac.compare_digest: crypto.compare_digest, secrets.compare_digest: crypto.compare_digest,
        zlib.compressobj: crypto.Compressor, zlib.compress: crypto.compress, zlib.decompress: crypto.decompress, zlib.decompressobj: crypto.Decompressor,
    })
    crypto.R['hash'] = {}
    for n in ('sha256', 'sha512', 'sha1', 'md5', 'sha384', 'sha224'):
        f = getattr(hashlib, n)
        crypto.R['hash'][n] = f
        H[f] = functools.partial(_mkhash, n)
    H[hashlib.new] = lambda name, data=b'', **k: crypto.Hash(name.lower(), data)
    crypto.R['compressobj'], crypto.R['compress'], crypto.R['decompress'] = zlib.compressobj, zlib.compress, zlib.decompress
    METHODS.update({
        (_dt.datetime, 'now'): h_now, (_dt.datetime, 'utcnow'): h_utcnow, (_dt.datetime, 'fromisoformat'): h_fromiso,
        (_dt.datetime, 'strptime'): lambda cls, s, f: sdt.strptime(s, f),
        (bytes, 'fromhex'): h_fromhex, (int, 'from_bytes'): lambda cls, b, byteorder='big', *, signed=False: int_from_bytes(
            b, byteorder, signed) if is_sym(b) else int.from_bytes(b, byteorder, signed=signed),
        (dict, 'fromkeys'): lambda cls, it, v=None: h_dict([(k, v) for k in it]),
    })
    for m in ('debug', 'info', 'warning', 'error', 'critical', 'exception', 'log', 'warn'):
        H[getattr(logging.Logger, m)] = noop
        if hasattr(logging, m):
            H[getattr(logging, m)] = noop
    H[warnings.warn] = noop
    for f in (min, max, abs, divmod, iter, next, enumerate, zip, reversed, callable, id, hasattr, setattr, delattr, issubclass, list, tuple,
              copy.deepcopy, copy.copy, slice, property, staticmethod, classmethod, object, itertools.count, itertools.chain, itertools.islice,
              itertools.takewhile, itertools.dropwhile, itertools.repeat, itertools.zip_longest, itertools.product, functools.reduce,
              functools.partial, operator.itemgetter, operator.attrgetter, operator.methodcaller, collections.deque, functools.lru_cache, functools.wraps,
              itertools.starmap, collections.namedtuple, collections.defaultdict):
        SAFE.add(f)
    for n in dir(operator):
        f = getattr(operator, n)
        if callable(f) and isinstance(f, types.BuiltinFunctionType):
            SAFE.add(f)
    H[operator.contains] = lambda a, b: ops.contains(b, a)
    H[operator.getitem] = ops.getitem
    H[operator.mod] = ops.mod
    # third-party primitives
    from Cryptodome.Cipher import AES, ChaCha20, Salsa20
    from Cryptodome.Util import strxor as sx
    import argon2
    crypto.R.update({'AES': AES, 'ChaCha20': ChaCha20, 'Salsa20': Salsa20, 'strxor': sx.strxor, 'argon2': argon2.low_level.hash_secret_raw})
    H[AES.new] = crypto.AES
    H[ChaCha20.new] = crypto.stream_new('ChaCha20', (32,), (8, 12, 24))
    H[Salsa20.new] = crypto.stream_new('Salsa20', (16, 32), (8,))
    H[sx.strxor] = crypto.strxor
    H[argon2.low_level.hash_secret_raw] = crypto.argon2_raw
    from Cryptodome.Util import py3compat
    H[py3compat.bchr] = lambda s: bytes_of([to8(s)]) if is_sym(s) else bytes([s])
    H[py3compat.bord] = lambda s: s
    # model modules
    etree = types.ModuleType('lxml.etree')
    for n in dir(mxml):
        if not n.startswith('__') and n not in ('real', 'realE', 're', 'z3', 'partial'):
            setattr(etree, n, getattr(mxml, n))
    builder = types.ModuleType('lxml.builder')
    builder.E, builder.ElementMaker = mxml.E, mxml.ElementMaker
    objectify = types.ModuleType('lxml.objectify')
    objectify.ObjectifiedElement = mxml.ObjectifiedElement
    lx = types.ModuleType('lxml')
    lx.etree, lx.builder, lx.objectify = etree, builder, objectify
    IMPORT_MAP.update({'lxml': lx, 'lxml.etree': etree, 'lxml.builder': builder, 'lxml.objectify': objectify, 'io': mio.module})
    sfs.setup(H, METHODS)


def _mkhash(n, data=b'', **k):
    return crypto.Hash(n, k.get('string', data))
