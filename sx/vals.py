"""Symbolic values: booleans, integers, text.  All comparisons build z3 terms; truth tests fork."""
import re, z3
from . import core
from .core import Unsupported, PathCut, cur

IntSort = z3.IntSort()
MAXCHAR = 0x2FFFF


class Sym:
    """Base of every symbolic value."""
    __slots__ = ()
    __hash__ = None

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce__(self):
        raise Unsupported('pickle of symbolic value')


def is_sym(x):
    return isinstance(x, Sym)


def any_sym(xs, depth=2):
    for x in xs:
        if isinstance(x, Sym):
            return True
        if depth:
            t = type(x)
            if t in (list, tuple, set, frozenset):
                if any_sym(x, depth - 1):
                    return True
            elif t is dict:
                if any_sym(x.keys(), depth - 1) or any_sym(x.values(), depth - 1):
                    return True
    return False


# ------------------------------------------------------------------ booleans
class SymBool(Sym):
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return cur().branch(self.e)

    def __and__(self, o):
        return mkbool(z3.And(self.e, boolx(o)))
    __rand__ = __and__

    def __or__(self, o):
        return mkbool(z3.Or(self.e, boolx(o)))
    __ror__ = __or__

    def __xor__(self, o):
        return mkbool(z3.Xor(self.e, boolx(o)))
    __rxor__ = __xor__

    def __invert__(self):
        return mkbool(z3.Not(self.e))

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mkbool(self.e == boolx(o))
        if isinstance(o, (int, SymInt)):
            return SymInt(z3.If(self.e, z3.IntVal(1), z3.IntVal(0))) == o
        return False

    def __ne__(self, o):
        return not_(self == o)

    def __int__(self):
        return int(bool(self))

    def __index__(self):
        return int(bool(self))

    def __hash__(self):
        return hash(bool(self))

    def __add__(self, o):
        return int(bool(self)) + o
    __radd__ = __add__

    def __str__(self):
        return str(bool(self))

    def __repr__(self):
        return 'SymBool'

    def conc(self, m):
        return z3.is_true(m.eval(self.e, model_completion=True))

    def leaves(self):
        return leaves_of(self.e)


def boolx(o):
    if isinstance(o, SymBool):
        return o.e
    return z3.BoolVal(bool(o))


def mkbool(e):
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def not_(b):
    if isinstance(b, SymBool):
        return mkbool(z3.Not(b.e))
    return not b


def and_(*bs):
    es = []
    for b in bs:
        if isinstance(b, SymBool):
            es.append(b.e)
        elif not b:
            return False
    if not es:
        return True
    return mkbool(z3.And(*es)) if len(es) > 1 else mkbool(es[0])


def or_(*bs):
    es = []
    for b in bs:
        if isinstance(b, SymBool):
            es.append(b.e)
        elif b:
            return True
    if not es:
        return False
    return mkbool(z3.Or(*es)) if len(es) > 1 else mkbool(es[0])


def leaves_of(e, seen=None):
    out, seen, st = [], set(), [e]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.append(x)
        st.extend(x.children())
    return out


# ------------------------------------------------------------------ integers
def intx(o):
    if isinstance(o, SymInt):
        return o.e
    if isinstance(o, SymBool):
        return z3.If(o.e, z3.IntVal(1), z3.IntVal(0))
    return z3.IntVal(int(o))


class SymInt(Sym):
    """Python int.  Either a z3 Int term, or an exact unsigned bit-vector (bv) of some width."""
    __slots__ = ('_e', 'bv')

    def __init__(self, e=None, bv=None):
        self._e = e
        self.bv = bv

    @property
    def e(self):
        if self._e is None:
            self._e = z3.BV2Int(self.bv, False)
        return self._e

    # --- conversions
    def __int__(self):
        return self.__index__()

    def __index__(self):
        """C code needs a concrete value: enumerate the feasible ones (complete if the domain is small)."""
        eng = cur()
        for _ in range(300):
            v = self.pick()
            if eng.branch(self.e == v):
                return v
        raise PathCut('index enumeration bound')

    def pick(self):
        eng = cur()
        k = len(eng.trace)
        if k < len(eng.prefix):
            # replay: value recorded in the decision that follows is not stored; store picks in trace
            d = eng.prefix[k]
            eng.trace.append(d)
            return d[2]
        r, m = eng._solve([])
        if r != 'sat' or m is None:
            raise Unsupported('no model to pick an integer from')
        v = m.eval(self.e, model_completion=True).as_long()
        eng.trace.append((0, 1, v))
        return v

    def __bool__(self):
        if self.bv is not None:
            return cur().branch(self.bv != 0)
        return cur().branch(self.e != 0)

    def __hash__(self):
        return 0x5e

    def __float__(self):
        return float(self.__index__())

    def __repr__(self):
        return 'SymInt(%s)' % (self._e if self._e is not None else self.bv)

    def __str__(self):
        return str(realise(self))

    def conc(self, m):
        if self.bv is not None:
            return m.eval(self.bv, model_completion=True).as_long()
        return m.eval(self.e, model_completion=True).as_long()

    def leaves(self):
        return leaves_of(self.bv if self.bv is not None else self.e)

    # --- arithmetic on Int
    def _ibin(self, o, f, rev=False):
        if isinstance(o, (float,)):
            return f(o, realise(self)) if rev else f(realise(self), o)
        if not isinstance(o, (int, SymInt, SymBool)):
            return NotImplemented
        a, b = self.e, intx(o)
        return mkint(f(b, a) if rev else f(a, b))

    def __add__(self, o):
        if self.bv is not None and bvable(o):
            return bv_add(self, o)
        return self._ibin(o, lambda a, b: a + b)

    def __radd__(self, o):
        if self.bv is not None and bvable(o):
            return bv_add(o, self)
        return self._ibin(o, lambda a, b: a + b, True)

    def __sub__(self, o):
        return self._ibin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._ibin(o, lambda a, b: a - b, True)

    def __mul__(self, o):
        if isinstance(o, (bytes, str, list, tuple)) or isinstance(o, Sym) and not isinstance(o, (SymInt, SymBool)):
            from . import ops
            return ops.repeat(o, self)
        if self.bv is not None and isinstance(o, int) and o > 0:
            w = o.bit_length()
            W = self.bv.size() + w
            return mkbv(z3.ZeroExt(W - self.bv.size(), self.bv) * z3.BitVecVal(o, W))
        if isinstance(o, SymInt):
            return mkint(self.e * o.e)
        return self._ibin(o, lambda a, b: a * b)

    def __rmul__(self, o):
        return self.__mul__(o)

    def _divmod_ok(self, o):
        if isinstance(o, SymInt):
            if cur().branch(o.e == 0):
                raise ZeroDivisionError('integer division or modulo by zero')
            return
        if o == 0:
            raise ZeroDivisionError('integer division or modulo by zero')

    def __floordiv__(self, o):
        if not isinstance(o, (int, SymInt)):
            return NotImplemented
        self._divmod_ok(o)
        if self.bv is not None and isinstance(o, int) and o > 0 and o & (o - 1) == 0:
            return self >> (o.bit_length() - 1)
        if isinstance(o, int) and o > 0:
            return mkint(self.e / z3.IntVal(o))   # z3 int div floors for positive divisors
        raise Unsupported('floordiv')

    def __rfloordiv__(self, o):
        raise Unsupported('rfloordiv')

    def __mod__(self, o):
        if not isinstance(o, (int, SymInt)):
            return NotImplemented
        self._divmod_ok(o)
        if isinstance(o, int) and o > 0:
            if self.bv is not None and o & (o - 1) == 0:
                return self & (o - 1)
            return mkint(self.e % z3.IntVal(o))
        if isinstance(o, int) and o < 0:
            return -((-self) % (-o))
        raise Unsupported('mod')

    def __rmod__(self, o):
        if isinstance(o, (str, bytes)):
            return NotImplemented
        raise Unsupported('rmod')

    def __divmod__(self, o):
        return self // o, self % o

    def __truediv__(self, o):
        if isinstance(o, int) and o > 0:
            from .dt import SymFrac
            return SymFrac(self.e, o)
        raise Unsupported('truediv')

    def __rtruediv__(self, o):
        raise Unsupported('rtruediv')

    def __pow__(self, o, mod=None):
        raise Unsupported('pow')

    def __rpow__(self, o):
        raise Unsupported('rpow')

    def __neg__(self):
        return mkint(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return mkint(z3.If(self.e < 0, -self.e, self.e))

    def __invert__(self):
        return mkint(-self.e - 1)

    # --- bit operations (exact on non-negative bit-vectors)
    def _tobv(self):
        if self.bv is None:
            raise Unsupported('bit operation on unbounded integer')
        return self

    def __and__(self, o):
        if isinstance(o, SymBool):
            o = int(bool(o))
        if self.bv is None and isinstance(o, int) and o >= 0 and (o & (o + 1)) == 0:
            return self % (o + 1)
        return bv_and(self, o)
    __rand__ = __and__

    def __or__(self, o):
        return bv_or(self, o)
    __ror__ = __or__

    def __xor__(self, o):
        return bv_xor(self, o)
    __rxor__ = __xor__

    def __rshift__(self, o):
        if not isinstance(o, int):
            raise Unsupported('symbolic shift')
        if self.bv is None:
            return self // (1 << o)
        w = self.bv.size()
        if o >= w:
            return 0
        return mkbv(z3.Extract(w - 1, o, self.bv)) if o else self

    def __lshift__(self, o):
        if not isinstance(o, int):
            raise Unsupported('symbolic shift')
        if self.bv is None:
            return self * (1 << o)
        return mkbv(z3.Concat(self.bv, z3.BitVecVal(0, o))) if o else self

    def __rlshift__(self, o):
        raise Unsupported('symbolic shift')

    def __rrshift__(self, o):
        raise Unsupported('symbolic shift')

    # --- comparisons
    def _cmp(self, o, fi, fb):
        if isinstance(o, float):
            if o == int(o):
                o = int(o)
            else:
                raise Unsupported('float comparison')
        if isinstance(o, SymBool):
            o = int(bool(o))
        if not isinstance(o, (int, SymInt)):
            return NotImplemented
        if self.bv is not None and bvable(o):
            a, b = bv_align(self, o)
            return mkbool(fb(a, b))
        return mkbool(fi(self.e, intx(o)))

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b, lambda a, b: a == b) if isinstance(o, (int, SymInt, SymBool, float)) else False
        return r

    def __ne__(self, o):
        return not_(self == o)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b, z3.ULT)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b, z3.ULE)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b, z3.UGT)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b, z3.UGE)

    def to_bytes(self, length=1, byteorder='big', *, signed=False):
        from .byt import int_to_bytes
        return int_to_bytes(self, length, byteorder, signed)

    def bit_length(self):
        return realise(self).bit_length()

    @property
    def real(self):
        return self


def mkint(e):
    e = z3.simplify(e)
    if z3.is_int_value(e):
        return e.as_long()
    return SymInt(e)


def mkbv(bv):
    bv = z3.simplify(bv)
    if z3.is_bv_value(bv):
        return bv.as_long()
    return SymInt(bv=bv)


def bvable(o):
    return (isinstance(o, SymInt) and o.bv is not None) or (isinstance(o, int) and not isinstance(o, bool) and o >= 0)


def bv_align(a, b, extra=0):
    def w(x):
        return x.bv.size() if isinstance(x, SymInt) else max(1, x.bit_length())
    W = max(w(a), w(b)) + extra

    def z(x):
        if isinstance(x, SymInt):
            d = W - x.bv.size()
            return z3.ZeroExt(d, x.bv) if d else x.bv
        return z3.BitVecVal(x, W)
    return z(a), z(b)


def _flat(e, kind):
    out, st = [], [e]
    while st:
        x = st.pop()
        if z3.is_app(x) and x.decl().kind() == kind:
            st.extend(x.children())
        else:
            out.append(x)
    return out


def bv_xor(a, b):
    if not (bvable(a) and bvable(b)):
        raise Unsupported('xor on unbounded integer')
    x, y = bv_align(a, b)
    W = x.size()
    acc, const = {}, 0
    for t in _flat(z3.simplify(x), z3.Z3_OP_BXOR) + _flat(z3.simplify(y), z3.Z3_OP_BXOR):
        if z3.is_bv_value(t):
            const ^= t.as_long()
            continue
        k = t.get_id()
        if k in acc:
            del acc[k]
        else:
            acc[k] = t
    ts = [acc[k] for k in sorted(acc)]
    if len(ts) > 1 and cur() is not None and cur().reg.get('words') is not None:
        r = ts[0]
        for t in ts[1:]:
            r = r ^ t
        ts = [cur().reg['words'].name('xor', r, W)]
    if const:
        ts.append(z3.BitVecVal(const, W))
    if not ts:
        return 0
    r = ts[0]
    for t in ts[1:]:
        r = r ^ t
    if z3.is_bv_value(r):
        return r.as_long()
    return SymInt(bv=r)


def bv_and(a, b):
    if isinstance(b, SymInt) and b.bv is None or isinstance(a, SymInt) and a.bv is None:
        raise Unsupported('and on unbounded integer')
    if isinstance(a, int):
        a, b = b, a
    if isinstance(b, int):
        if b < 0:
            raise Unsupported('and negative')
        w = a.bv.size()
        if b & (b + 1) == 0:
            n = b.bit_length()
            if n == 0:
                return 0
            if n >= w:
                return a
            return mkbv(z3.Extract(n - 1, 0, a.bv))
        return mkbv(a.bv & z3.BitVecVal(b & ((1 << w) - 1), w))
    x, y = bv_align(a, b)
    return mkbv(x & y)


def _tz(e):
    """number of low bits of e that are syntactically zero"""
    e = z3.simplify(e)
    if z3.is_bv_value(e):
        v = e.as_long()
        return e.size() if v == 0 else (v & -v).bit_length() - 1
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_CONCAT:
        n = 0
        for c in reversed(e.children()):
            t = _tz(c)
            n += t
            if t < c.size():
                break
        return n
    return 0


def bv_or(a, b):
    if not (bvable(a) and bvable(b)):
        raise Unsupported('or on unbounded integer')
    for x, y in ((a, b), (b, a)):
        if isinstance(x, SymInt):
            k = _tz(x.bv)
            wy = y.bv.size() if isinstance(y, SymInt) else y.bit_length()
            if k and wy <= k < x.bv.size():
                yy = y.bv if isinstance(y, SymInt) else z3.BitVecVal(y, max(1, wy))
                if yy.size() < k:
                    yy = z3.ZeroExt(k - yy.size(), yy)
                return mkbv(z3.Concat(z3.Extract(x.bv.size() - 1, k, x.bv), yy))
    x, y = bv_align(a, b)
    return mkbv(x | y)


def bv_add(a, b):
    for x, y in ((a, b), (b, a)):
        if isinstance(x, SymInt):
            k = _tz(x.bv)
            wy = y.bv.size() if isinstance(y, SymInt) else y.bit_length()
            if k and wy <= k < x.bv.size():
                return bv_or(a, b)
    x, y = bv_align(a, b, 1)
    r = mkbv(x + y)
    wd = cur().reg.get('words') if cur() is not None else None
    if wd is not None and isinstance(r, SymInt):
        return SymInt(bv=wd.name('add', r.bv, r.bv.size()))
    return r


def ite(c, a, b):
    """merge two values under a symbolic condition"""
    if not isinstance(c, SymBool):
        return a if c else b
    if a is b:
        return a
    if bvable(a) and bvable(b):
        x, y = bv_align(a, b)
        r = mkbv(z3.If(c.e, x, y))
        wd = cur().reg.get('words')
        if wd is not None and isinstance(r, SymInt):
            return SymInt(bv=wd.name('ite', r.bv, r.bv.size()))
        return r
    if isinstance(a, (int, SymInt)) and isinstance(b, (int, SymInt)):
        return mkint(z3.If(c.e, intx(a), intx(b)))
    return a if c else b


# ------------------------------------------------------------------ text
def esc(s):
    return ''.join(ch if (ch.isascii() and (ch.isalnum() or ch in ' _-./:;,=+@#&()[]<>')) else '\\u{%x}' % ord(ch) for ch in s)


_sv_cache = {}


def strval(s):
    r = _sv_cache.get(s)
    if r is None:
        if any(ord(c) > MAXCHAR or 0xD800 <= ord(c) <= 0xDFFF for c in s):
            # outside the solver's alphabet: such a literal cannot equal an in-bound input
            s2 = ''.join(c if ord(c) <= MAXCHAR else '\ufffe' for c in s)
        else:
            s2 = s
        r = z3.StringVal(esc(s2))
        _sv_cache[s] = r
    return r


def unesc(s):
    return re.sub(r'\\u\{([0-9a-fA-F]+)\}|\\x([0-9a-fA-F]{2})', lambda m: chr(int(m.group(1) or m.group(2), 16)), s)


def zrange(a, b):
    return z3.Range(z3.StringVal('\\u{%x}' % a), z3.StringVal('\\u{%x}' % b))


XML_CHAR = z3.Union(zrange(9, 10), zrange(13, 13), zrange(0x20, 0xD7FF), zrange(0xE000, 0xFFFD), zrange(0x10000, MAXCHAR))
XML_VALID = z3.Star(XML_CHAR)
ANYTEXT = z3.Star(z3.Union(zrange(0, 0xD7FF), zrange(0xE000, MAXCHAR)))


class Atom:
    """A z3 String term.  valid: every character is allowed in XML (deferred constraint)."""
    __slots__ = ('t', 'valid', 'lacks')

    def __init__(self, t, valid=True, lacks=''):
        self.t = t
        self.valid = valid
        self.lacks = lacks          # characters that are known not to occur

    def same(self, o):
        return isinstance(o, Atom) and self.t.eq(o.t)


class Opq:
    """Text that is an injective function of a symbolic value.
    kind: dec(SymInt) b64(bytes) hex((SymInt,n)) HEX((SymInt,n)) iso(SymDatetime) hexb(bytes) repr(obj) lat1(bytes)"""
    __slots__ = ('kind', 'v')

    def __init__(self, kind, v):
        self.kind = kind
        self.v = v


class SymStr(Sym):
    __slots__ = ('segs',)

    def __init__(self, segs):
        self.segs = segs

    # ---- basic
    def __repr__(self):
        return 'SymStr(%s)' % ''.join(s if isinstance(s, str) else ('<%s>' % (s.t if isinstance(s, Atom) else s.kind)) for s in self.segs)

    def __hash__(self):
        return 0x57

    def __str__(self):
        return realise(self)      # only reached from C code

    def __format__(self, spec):
        return format(realise(self), spec)

    def __bool__(self):
        return bool(str_len_nonzero(self))

    def __len__(self):
        n = str_len(self)
        return n if isinstance(n, int) else n.__index__()

    def __add__(self, o):
        if isinstance(o, (str, SymStr)):
            return mkstr(segs_of(self) + segs_of(o))
        return NotImplemented

    def __radd__(self, o):
        if isinstance(o, str):
            return mkstr(segs_of(o) + segs_of(self))
        return NotImplemented

    def __mul__(self, n):
        if isinstance(n, int):
            return mkstr(self.segs * max(0, n))
        raise Unsupported('str * symbolic')
    __rmul__ = __mul__

    def __mod__(self, o):
        raise Unsupported('symbolic format string')

    def __eq__(self, o):
        if isinstance(o, (str, SymStr)):
            return str_eq(self, o)
        return False

    def __ne__(self, o):
        return not_(self == o)

    def _ord(self, o, f):
        if not isinstance(o, (str, SymStr)):
            return NotImplemented
        a, b = zterm(self), zterm(o)
        return mkbool(f(a, b))

    def __lt__(self, o):
        return self._ord(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._ord(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._ord(o, lambda a, b: b < a)

    def __ge__(self, o):
        return self._ord(o, lambda a, b: b <= a)

    def __contains__(self, o):
        return bool(str_contains(self, o))

    def __iter__(self):
        n = str_len(self)
        n = n if isinstance(n, int) else n.__index__()
        for i in range(n):
            yield self[i]

    def __getitem__(self, k):
        return str_getitem(self, k)

    def __getattr__(self, name):
        if hasattr(str, name):
            raise Unsupported('str.' + name)
        raise AttributeError("'str' object has no attribute %r" % name)

    # ---- methods
    def encode(self, encoding='utf-8', errors='strict'):
        from .byt import utf8_of
        enc = str(encoding).lower().replace('_', '-')
        if enc in ('utf-8', 'utf8'):
            return utf8_of(self)
        if enc in ('ascii', 'latin-1', 'latin1', 'iso-8859-1', 'us-ascii'):
            lim = 0x7f if 'ascii' in enc else 0xff
            if all(isinstance(s, (str, Opq)) and (not isinstance(s, str) or all(ord(c) <= 0x7f for c in s)) for s in self.segs):
                return utf8_of(self)
            if all(not isinstance(s, Atom) or cur().branch(z3.InRe(s.t, z3.Star(zrange(0, 0x7f)))) for s in self.segs):
                return utf8_of(self)
            return realise(self, 'encode ' + enc, prefer=lambda s: any(ord(c) > 127 for c in s)).encode(encoding, errors)
        return realise(self, 'encode').encode(encoding, errors)

    def startswith(self, p, *a):
        if a:
            return realise(self, 'startswith').startswith(p, *a)
        if isinstance(p, tuple):
            return or_(*[self.startswith(x) for x in p])
        return str_prefix(self, p, False)

    def endswith(self, p, *a):
        if a:
            return realise(self, 'endswith').endswith(p, *a)
        if isinstance(p, tuple):
            return or_(*[self.endswith(x) for x in p])
        return str_prefix(self, p, True)

    def replace(self, old, new, count=-1):
        return str_replace(self, old, new, count)

    def split(self, sep=None, maxsplit=-1):
        return str_split(self, sep, maxsplit)

    def rsplit(self, sep=None, maxsplit=-1):
        if maxsplit == -1 and sep is not None:
            return self.split(sep)
        if sep is not None and isinstance(maxsplit, int) and maxsplit >= 0:
            ps = str_split(self, sep, -1) if len(sep) == 1 else [self]
            if len(sep) == 1:
                n = len(ps) - maxsplit
                return ps if n <= 1 else [join(sep, ps[:n])] + ps[n:]
        return realise(self, 'rsplit').rsplit(sep, maxsplit)

    def partition(self, sep):
        ps = str_split(self, sep, 1)
        if len(ps) == 1:
            return (self, '', '')
        return (ps[0], sep, ps[1])

    def rpartition(self, sep):
        if not str_contains(self, sep):
            return ('', '', self)
        ps = str_split(self, sep, -1)
        return (join(sep, ps[:-1]), sep, ps[-1])

    def splitlines(self, keepends=False):
        if or_(*[str_contains(self, c) for c in '\n\r\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029']):
            return realise(self, 'splitlines').splitlines(keepends)
        return [self] if self else []

    def strip(self, chars=None):
        return str_strip(self, chars, 3)

    def lstrip(self, chars=None):
        return str_strip(self, chars, 1)

    def rstrip(self, chars=None):
        return str_strip(self, chars, 2)

    def _case(self, meth):
        out = []
        for s in self.segs:
            if isinstance(s, str):
                out.append(getattr(s, meth)())
            elif isinstance(s, Opq):
                if s.kind == 'dec':
                    out.append(s)
                elif s.kind in ('hex', 'HEX') and meth in ('upper', 'lower'):
                    out.append(Opq('HEX' if meth == 'upper' else 'hex', s.v))
                else:
                    return getattr(realise(self, meth), meth)()
            else:
                # characters that the case mapping leaves alone
                if meth in ('lower', 'casefold'):
                    stable = z3.Union(zrange(0, 0x40), zrange(0x5b, 0x7f))
                    moved = zrange(0x41, 0x5a)
                elif meth == 'upper':
                    stable = z3.Union(zrange(0, 0x60), zrange(0x7b, 0x7f))
                    moved = zrange(0x61, 0x7a)
                else:
                    return getattr(realise(self, meth), meth)()
                if cur().branch(z3.InRe(s.t, z3.Star(stable))):
                    out.append(s)
                else:
                    cur().branch(z3.InRe(s.t, z3.Concat(ANYTEXT, moved, ANYTEXT)))
                    v = realise(SymStr([s]), meth)
                    out.append(getattr(v, meth)())
        return mkstr(flat(out))

    def lower(self):
        return self._case('lower')

    def upper(self):
        return self._case('upper')

    def casefold(self):
        return self._case('casefold')

    def title(self):
        return realise(self, 'title').title()

    def capitalize(self):
        return realise(self, 'capitalize').capitalize()

    def isdigit(self):
        return self._cls('isdigit', zrange(0x30, 0x39))

    def isspace(self):
        return self._cls('isspace', z3.Union(zrange(9, 13), zrange(32, 32)))

    def _cls(self, meth, ranges):
        if all(isinstance(s, (str, Atom)) for s in self.segs):
            if cur().branch(z3.InRe(zterm(self), z3.Plus(ranges))):
                return True
        return getattr(realise(self, meth), meth)()

    def find(self, sub, *a):
        if not a and not str_contains(self, sub):
            return -1
        if not a and all(isinstance(s, (str, Atom)) for s in self.segs):
            return mkint(z3.IndexOf(zterm(self), zterm(sub), 0))
        return realise(self, 'find').find(realise(sub), *a)

    def index(self, sub, *a):
        r = self.find(sub, *a)
        if isinstance(r, int) and r < 0:
            raise ValueError('substring not found')
        return r

    def count(self, sub, *a):
        if not a and not str_contains(self, sub):
            return 0
        return realise(self, 'count').count(realise(sub), *a)

    def join(self, xs):
        return join(self, xs)

    def format(self, *a, **k):
        return realise(self, 'format').format(*[realise(x) for x in a], **{n: realise(v) for n, v in k.items()})

    def removeprefix(self, p):
        if not self.startswith(p):
            return self
        return self[len(p):]

    def removesuffix(self, p):
        if not p or not self.endswith(p):
            return self
        return self[:-len(p)]

    def zfill(self, n):
        return realise(self, 'zfill').zfill(n)

    def translate(self, t):
        return realise(self, 'translate').translate(t)

    def isascii(self):
        return mkbool(z3.And(*[z3.InRe(s.t, z3.Star(zrange(0, 0x7f))) for s in self.segs if isinstance(s, Atom)])) if all(not isinstance(s, str) or s.isascii() for s in self.segs) else False

    def isnumeric(self):
        return realise(self, 'isnumeric').isnumeric()

    def isalnum(self):
        return realise(self, 'isalnum').isalnum()

    def isalpha(self):
        return realise(self, 'isalpha').isalpha()

    def isprintable(self):
        return realise(self, 'isprintable').isprintable()

    # ---- model evaluation
    def conc(self, m):
        return ''.join(seg_conc(s, m) for s in self.segs)

    def leaves(self):
        out = []
        for s in self.segs:
            if isinstance(s, Atom):
                out += leaves_of(s.t)
            elif isinstance(s, Opq):
                v = s.v[0] if isinstance(s.v, tuple) else s.v
                out += leaves(v)
        return out

    @property
    def xml_valid(self):
        return all((isinstance(s, str)) or isinstance(s, Opq) or s.valid for s in self.segs)


def leaves(v):
    if isinstance(v, Sym):
        return v.leaves()
    if isinstance(v, (list, tuple)):
        out = []
        for x in v:
            out += leaves(x)
        return out
    if isinstance(v, dict):
        return leaves(list(v.keys())) + leaves(list(v.values()))
    return []


def conc(v, m):
    if isinstance(v, Sym):
        return v.conc(m)
    if type(v) is list:
        return [conc(x, m) for x in v]
    if type(v) is tuple:
        return tuple(conc(x, m) for x in v)
    if type(v) is dict:
        return {conc(k, m): conc(x, m) for k, x in v.items()}
    return v


def zstr_value(m, t):
    v = m.eval(t, model_completion=True)
    if not z3.is_string_value(v):
        raise Unsupported('no string value in model')
    return unesc(v.as_string())


def seg_conc(s, m):
    if isinstance(s, str):
        return s
    if isinstance(s, Atom):
        return zstr_value(m, s.t)
    import base64, binascii
    k, v = s.kind, s.v
    if k == 'dec':
        return str(conc(v, m))
    if k == 'b64':
        return base64.b64encode(conc(v, m)).decode()
    if k in ('hex', 'HEX'):
        r = '%0*x' % (v[1], conc(v[0], m))
        return r.upper() if k == 'HEX' else r
    if k == 'hexb':
        return binascii.hexlify(conc(v, m)).decode()
    if k == 'iso':
        return conc(v, m).isoformat()
    if k == 'isosp':
        return str(conc(v, m))
    if k == 'lat1':
        return conc(v, m).decode('latin-1')
    if k == 'utf8dec':
        return conc(v, m).decode('utf-8', 'replace')
    if k == 'repr':
        return repr(conc(v, m))
    raise Unsupported('conc ' + k)


def flat(xs):
    out = []
    for x in xs:
        out += segs_of(x) if isinstance(x, (str, SymStr)) else [x]
    return out


def segs_of(x):
    if isinstance(x, SymStr):
        return x.segs
    return [x] if x else []


def mkstr(segs):
    out = []
    for s in segs:
        if isinstance(s, str):
            if not s:
                continue
            if out and isinstance(out[-1], str):
                out[-1] = out[-1] + s
                continue
        elif isinstance(s, Atom):
            t = s.t
            if z3.is_string_value(t):
                lit = unesc(t.as_string())
                if not lit:
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] += lit
                else:
                    out.append(lit)
                continue
        out.append(s)
    if not out:
        return ''
    if len(out) == 1 and isinstance(out[0], str):
        return out[0]
    return SymStr(out)


def zterm(x):
    """z3 String term of a rope without opaque segments"""
    segs = segs_of(x)
    ts = []
    for s in segs:
        if isinstance(s, str):
            ts.append(strval(s))
        elif isinstance(s, Atom):
            ts.append(s.t)
        else:
            ts.append(opq_term(s))
    if not ts:
        return z3.StringVal('')
    return ts[0] if len(ts) == 1 else z3.Concat(*ts)


def opq_term(s):
    raise Unsupported('solver term for opaque text ' + s.kind)


def has_opq(x):
    return any(isinstance(s, Opq) for s in segs_of(x))


def opq_len(s):
    from .byt import blen
    if s.kind in ('hex', 'HEX'):
        return s.v[1]
    if s.kind == 'b64':
        n = blen(s.v)
        if isinstance(n, int):
            return 4 * ((n + 2) // 3)
        return ((n + 2) // 3) * 4
    if s.kind == 'hexb':
        return blen(s.v) * 2
    if s.kind == 'lat1':
        return blen(s.v)
    if s.kind == 'utf8dec':
        eng = cur()
        key = ('declen', id(s))
        if key not in eng.reg:
            l = z3.Int(eng.fresh('declen'))
            n = blen(s.v)
            eng.add(l >= 0)
            eng.add(l <= (n if isinstance(n, int) else n.e))
            eng.reg[key] = (SymInt(l), s)
        return eng.reg[key][0]
    if s.kind == 'dec':
        # digits (bounded magnitude)
        n = s.v
        e = z3.IntVal(1)
        a = z3.If(n.e < 0, -n.e, n.e)
        tot = z3.If(n.e < 0, z3.IntVal(1), z3.IntVal(0))
        for k in range(1, 25):
            e = z3.If(a >= 10 ** k, z3.IntVal(k + 1), e)
        return mkint(e + tot)
    raise Unsupported('length of opaque text ' + s.kind)


def str_len(x):
    n, parts = 0, []
    for s in segs_of(x):
        if isinstance(s, str):
            n += len(s)
        elif isinstance(s, Atom):
            parts.append(z3.Length(s.t))
        else:
            l = opq_len(s)
            if isinstance(l, int):
                n += l
            else:
                parts.append(l.e)
    if not parts:
        return n
    return mkint(z3.IntVal(n) + sum(parts[1:], parts[0]))


def str_len_nonzero(x):
    conds = []
    from .byt import blen
    for s in segs_of(x):
        if isinstance(s, str) and s:
            return True
        if isinstance(s, Atom):
            conds.append(s.t != z3.StringVal(''))
        elif isinstance(s, Opq):
            if s.kind in ('b64', 'hexb', 'lat1'):
                n = blen(s.v)
                if isinstance(n, int):
                    if n > 0:
                        return True
                else:
                    conds.append(n.e > 0)
            elif s.kind == 'utf8dec':
                l = opq_len(s)
                conds.append(l.e > 0)
            else:
                return True
    return mkbool(z3.Or(*conds)) if conds else False


def opq_eq(a, b):
    """two opaque segments"""
    from . import byt
    if a is b:
        return True
    ka, kb = a.kind, b.kind
    if ka == kb:
        if ka == 'dec':
            return mkbool(intx(a.v) == intx(b.v))
        if ka in ('b64', 'hexb', 'lat1', 'utf8dec'):
            return byt.beq(a.v, b.v)
        if ka in ('hex', 'HEX'):
            if a.v[1] == b.v[1]:
                return mkbool(intx(a.v[0]) == intx(b.v[0]))
            return False
        if ka in ('iso', 'isosp'):
            from .dt import iso_eq
            return iso_eq(a.v, b.v)
        if ka == 'repr':
            return a.v == b.v
    if {ka, kb} == {'hex', 'HEX'} and a.v[1] == b.v[1]:
        # equal only when the digits contain no letters; excluded from the claim
        cur().stats.note('assumed: lower- and upper-case hex text differ')
        return False
    cur().stats.note('assumed distinct: %s text vs %s text' % (ka, kb))
    return False


def opq_eq_lit(a, lit):
    from . import byt, dt
    import base64, binascii
    k = a.kind
    if k == 'dec':
        if re.fullmatch(r'0|-?[1-9][0-9]*', lit):
            return mkbool(intx(a.v) == int(lit))
        return False
    if k == 'b64':
        try:
            d = base64.b64decode(lit, validate=True)
        except Exception:
            return False
        if base64.b64encode(d).decode() != lit:
            return False
        return byt.beq(a.v, d)
    if k in ('hex', 'HEX'):
        if len(lit) == a.v[1] and re.fullmatch('[0-9a-f]+' if k == 'hex' else '[0-9A-F]+', lit):
            return mkbool(intx(a.v[0]) == int(lit, 16))
        return False
    if k == 'hexb':
        if re.fullmatch('([0-9a-f]{2})*', lit):
            return byt.beq(a.v, bytes.fromhex(lit))
        return False
    if k == 'lat1':
        try:
            return byt.beq(a.v, lit.encode('latin-1'))
        except UnicodeEncodeError:
            return False
    if k == 'utf8dec':
        return byt.beq(a.v, lit.encode('utf-8', 'surrogatepass'))
    if k == 'iso':
        return dt.iso_eq_lit(a.v, lit)
    if k == 'isosp':
        return lit[10:11] == ' ' and dt.iso_eq_lit(a.v, lit[:10] + 'T' + lit[11:])
    cur().stats.note('assumed distinct: %s text vs literal' % k)
    return False


def str_eq(a, b):
    A, B = list(segs_of(a)), list(segs_of(b))
    # strip common prefix / suffix
    for rev in (False, True):
        if rev:
            A.reverse()
            B.reverse()
        while A and B:
            x, y = A[0], B[0]
            if isinstance(x, str) and isinstance(y, str):
                n = min(len(x), len(y))
                if rev:
                    if x[-n:] != y[-n:]:
                        return False
                    A[0], B[0] = x[:-n], y[:-n]
                else:
                    if x[:n] != y[:n]:
                        return False
                    A[0], B[0] = x[n:], y[n:]
                if not A[0]:
                    A.pop(0)
                if not B[0]:
                    B.pop(0)
            elif isinstance(x, Atom) and x.same(y):
                A.pop(0)
                B.pop(0)
            elif isinstance(x, Opq) and isinstance(y, Opq) and x is y:
                A.pop(0)
                B.pop(0)
            else:
                break
        if rev:
            A.reverse()
            B.reverse()
    if not A and not B:
        return True
    if not A or not B:
        return not_(str_len_nonzero(SymStr(A or B)))
    oa, ob = any(isinstance(s, Opq) for s in A), any(isinstance(s, Opq) for s in B)
    if not oa and not ob:
        return mkbool(zterm(SymStr(A)) == zterm(SymStr(B)))
    if len(A) == 1 and len(B) == 1:
        x, y = A[0], B[0]
        if isinstance(x, Opq) and isinstance(y, Opq):
            return opq_eq(x, y)
        if isinstance(y, Opq):
            x, y = y, x
        if isinstance(y, str):
            return opq_eq_lit(x, y)
        if isinstance(y, Atom):
            cur().stats.note('assumed distinct: free text vs %s text' % x.kind)
            # empty text can coincide with an empty encoding
            return and_(not_(str_len_nonzero(SymStr([x]))), not_(str_len_nonzero(SymStr([y]))))
    # same shape, pairwise fixed-length opaque pieces
    if len(A) == len(B):
        ok = True
        for x, y in zip(A, B):
            if isinstance(x, Opq) and isinstance(y, Opq) and x.kind == y.kind and x.kind in ('hex', 'HEX', 'b64', 'iso'):
                continue
            if isinstance(x, Atom) and isinstance(y, Atom) and x.same(y):
                continue
            if isinstance(x, str) and x == y:
                continue
            ok = False
        if ok:
            return and_(*[opq_eq(x, y) for x, y in zip(A, B) if isinstance(x, Opq)])
    # a literal that is compared with opaque+literal text
    for P, Q in ((A, B), (B, A)):
        if len(P) == 1 and isinstance(P[0], str):
            return match_lit(Q, P[0])
    cur().stats.note('assumed distinct: structured text vs other text')
    return False


def match_lit(Q, lit):
    """structured text Q (literals, opaque of fixed length) equals literal"""
    lens = []
    for s in Q:
        if isinstance(s, str):
            lens.append(len(s))
        elif isinstance(s, Opq) and s.kind in ('hex', 'HEX'):
            lens.append(s.v[1])
        elif isinstance(s, Opq) and s.kind == 'b64' and isinstance(opq_len(s), int):
            lens.append(opq_len(s))
        else:
            lens.append(None)
    if lens.count(None) > 1:
        cur().stats.note('assumed distinct: structured text vs literal')
        return False
    known = sum(l for l in lens if l is not None)
    if None in lens:
        rest = len(lit) - known
        if rest < 0:
            return False
        lens[lens.index(None)] = rest
    elif known != len(lit):
        return False
    conds, i = [], 0
    for s, l in zip(Q, lens):
        piece = lit[i:i + l]
        i += l
        conds.append(str_eq(mkstr([s]), piece))
        if conds[-1] is False:
            return False
    return and_(*conds)


# characters that can occur in opaque text
_ALPH = {'dec': '-0123456789', 'hex': '0123456789abcdef', 'HEX': '0123456789ABCDEF', 'hexb': '0123456789abcdef',
         'b64': 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/=', 'iso': '0123456789-:T+.', 'isosp': '0123456789-: +.'}


def str_contains(a, sub):
    if not isinstance(sub, (str, SymStr)):
        raise TypeError("'in <string>' requires string as left operand, not " + type(sub).__name__)
    if isinstance(sub, str) and sub == '':
        return True
    if isinstance(a, str) and isinstance(sub, str):
        return sub in a
    segs = segs_of(a)
    if isinstance(sub, SymStr):
        if len(sub.segs) == 1 and isinstance(sub.segs[0], Atom) and any(isinstance(s, Atom) and s.same(sub.segs[0]) for s in segs):
            return True
        at = locate(segs, sub.segs, True)
        if at is not None:
            return bool(at)
        if not has_opq(a) and not has_opq(sub):
            return mkbool(z3.Contains(zterm(a), zterm(sub)))
        return realise(sub, 'contains') in realise(a, 'contains')
    for s in segs:
        if isinstance(s, str) and sub in s:
            return True
    at = locate(segs, [sub], True)
    if at is not None:
        return bool(at)
    if not has_opq(a):
        if len(sub) == 1:
            return or_(*[mkbool(z3.Contains(s.t, strval(sub))) for s in segs if isinstance(s, Atom) and sub not in s.lacks])
        return mkbool(z3.Contains(zterm(a), strval(sub)))
    # with opaque pieces: decide when sub has a character no opaque piece can contain
    for ch in sub:
        if all(not isinstance(s, Opq) or (s.kind in _ALPH and ch not in _ALPH[s.kind]) for s in segs):
            if len(sub) == 1:
                return or_(*[mkbool(z3.Contains(s.t, strval(sub))) for s in segs if isinstance(s, Atom)])
            # the occurrence lies in a maximal run containing ch; approximate by the non-opaque runs
            if all(all(c not in _ALPH.get(s.kind, '') for c in sub) for s in segs if isinstance(s, Opq)):
                conds, run = [], []
                for s in list(segs) + [None]:
                    if s is None or isinstance(s, Opq):
                        if run:
                            conds.append(mkbool(z3.Contains(zterm(SymStr(run)), strval(sub))))
                        run = []
                    else:
                        run.append(s)
                return or_(*conds)
    return sub in realise(a, 'contains')


def str_prefix(a, p, suffix):
    if isinstance(a, str) and isinstance(p, str):
        return a.endswith(p) if suffix else a.startswith(p)
    A, P = list(segs_of(a)), list(segs_of(p))
    if suffix:
        A.reverse()
        P.reverse()
    while A and P:
        x, y = A[0], P[0]
        if isinstance(x, str) and isinstance(y, str):
            n = min(len(x), len(y))
            xa, ya = (x[-n:], y[-n:]) if suffix else (x[:n], y[:n])
            if xa != ya:
                return False
            A[0], P[0] = (x[:-n], y[:-n]) if suffix else (x[n:], y[n:])
            if not A[0]:
                A.pop(0)
            if not P[0]:
                P.pop(0)
        elif isinstance(x, Atom) and x.same(y) or (isinstance(x, Opq) and x is y):
            A.pop(0)
            P.pop(0)
        else:
            break
    if not P:
        return True
    if not A:
        return not_(str_len_nonzero(SymStr(P)))
    if isinstance(A[0], Opq) and len(P) == 1 and isinstance(P[0], str):
        c = P[0][-1 if suffix else 0]
        if A[0].kind in _ALPH and c not in _ALPH[A[0].kind] and (A[0].kind not in ('b64', 'hexb') or str_len_nonzero(SymStr([A[0]])) is True):
            return False
        return realise(a, 'prefix').endswith(p) if suffix else realise(a, 'prefix').startswith(p)
    if suffix:
        A.reverse()
        P.reverse()
    if has_opq(SymStr(A)) or has_opq(SymStr(P)):
        # prefix lies within the leading opaque-free run?
        run = []
        for s in (reversed(A) if suffix else A):
            if isinstance(s, Opq):
                break
            run.append(s)
        if suffix:
            run.reverse()
        if not has_opq(SymStr(P)) and run:
            cur().stats.note('assumed: prefix test does not reach into opaque text')
            f = z3.SuffixOf if suffix else z3.PrefixOf
            return mkbool(f(zterm(SymStr(P)), zterm(SymStr(run))))
        return realise(a, 'prefix').endswith(realise(p)) if suffix else realise(a, 'prefix').startswith(realise(p))
    f = z3.SuffixOf if suffix else z3.PrefixOf
    return mkbool(f(zterm(SymStr(P)), zterm(SymStr(A))))


def str_replace(a, old, new, count=-1):
    if count == 0:
        return a
    if isinstance(a, str) and isinstance(old, str) and isinstance(new, SymStr):
        if old == '':
            raise Unsupported('replace empty')
        return join(new, a.split(old, count))
    at = locate(segs_of(a), segs_of(old)) if isinstance(a, SymStr) and not (isinstance(old, str) and not old) else None
    if at is not None:
        return join(new, cut_at(segs_of(a), at if count < 0 else at[:count]))
    if isinstance(old, SymStr):
        # replacing a whole known piece
        return rope_replace(a, old, new, count)
    if not str_contains(a, old):
        return a
    if len(old) == 1 and count == -1:
        parts = str_split(a, old, -1)
        return join(new, parts)
    return realise(a, 'replace').replace(old, realise(new), count)


def lacking(q, c):
    return c in q.lacks if isinstance(q, Atom) else q.kind in _ALPH and c not in _ALPH[q.kind]


def locate(A, O, once=False):
    """the places [(start, end)] (as (segment, offset)) where the text O occurs in A, left to right; None if the shape of the texts does not tell.
    Works when the first character of O is a literal that no symbolic piece of A can contain."""
    if not O or not isinstance(O[0], str):
        return None
    c = O[0][0]
    if any(not isinstance(q, str) and not lacking(q, c) for q in A):
        return None
    out = []
    i = j = 0
    while i < len(A):
        q = A[i]
        k = q.find(c, j) if isinstance(q, str) else -1
        if k < 0:
            i, j = i + 1, 0
            continue
        e = match_at(A, i, k, O)
        if e is None:
            return None
        if e is False:
            j = k + 1
            continue
        out.append(((i, k), e))
        if once:
            return out
        i, j = e
    return out


def match_at(A, i, j, O):
    for n, o in enumerate(O):
        if isinstance(o, str):
            for c in o:
                while True:
                    if i >= len(A):
                        return False
                    q = A[i]
                    if isinstance(q, str):
                        if j < len(q):
                            break
                        i, j = i + 1, 0
                    elif lacking(q, c):
                        if isinstance(q, Opq) or not cur().branch(z3.Length(q.t) == 0):
                            return False
                        i, j = i + 1, 0
                    else:
                        return None
                if A[i][j] != c:
                    return False
                j += 1
            continue
        while i < len(A) and isinstance(A[i], str) and j >= len(A[i]):
            i, j = i + 1, 0
        if i >= len(A):
            return None
        if not isinstance(A[i], str) and j == 0 and (A[i] is o or isinstance(o, Atom) and o.same(A[i])):
            i += 1
            continue
        nxt = O[n + 1] if n + 1 < len(O) else None
        if not isinstance(nxt, str) or not lacking(o, nxt[0]):
            return None
        run = []
        d = nxt[0]
        while True:
            if i >= len(A):
                return False
            q = A[i]
            if isinstance(q, str):
                k = q.find(d, j)
                if k >= 0:
                    run.append(q[j:k])
                    j = k
                    break
                run.append(q[j:])
            elif lacking(q, d):
                run.append(q)
            else:
                return None
            i, j = i + 1, 0
        if not (mkstr([o]) == mkstr([x for x in run if not (isinstance(x, str) and not x)])):
            return False
    return (i, j)


def cut_at(A, at):
    """the texts between the places"""
    parts, pos = [], (0, 0)

    def between(a, b):
        segs = []
        for i in range(a[0], min(b[0] + 1, len(A))):
            q = A[i]
            if isinstance(q, str):
                segs.append(q[a[1] if i == a[0] else 0:b[1] if i == b[0] else len(q)])
            elif i < b[0]:
                segs.append(q)
        return mkstr([x for x in segs if not (isinstance(x, str) and not x)])
    for st, en in at:
        parts.append(between(pos, st))
        pos = en
    parts.append(between(pos, (len(A), 0)))
    return parts


def rope_replace(a, old, new, count):
    """a.replace(old, new) where old occurs as a contiguous piece of the rope"""
    A, O = segs_of(a), segs_of(old)

    def same(x, y):
        if isinstance(x, str) and isinstance(y, str):
            return x == y
        if isinstance(x, Atom):
            return x.same(y)
        if isinstance(x, Opq) and isinstance(y, Opq) and x.kind == y.kind:
            return x is y or (x.v == y.v) is True or _same_v(x.v, y.v)
        return False

    n = len(O)
    i, out, hit = 0, [], False
    A = list(A)
    while i < len(A):
        win = A[i:i + n]
        if len(win) == n and count != 0:
            # first literal may have a prefix, last literal a suffix
            f, l = win[0], win[-1]
            pre = suf = ''
            ok = True
            if n == 1:
                ok = same(f, O[0]) and not isinstance(f, str)
            else:
                if isinstance(O[0], str):
                    ok = isinstance(f, str) and f.endswith(O[0])
                    if ok:
                        pre = f[:len(f) - len(O[0])]
                else:
                    ok = same(f, O[0])
                if ok and isinstance(O[-1], str):
                    ok = isinstance(l, str) and l.startswith(O[-1])
                    if ok:
                        suf = l[len(O[-1]):]
                elif ok:
                    ok = same(l, O[-1])
                ok = ok and all(same(x, y) for x, y in zip(win[1:-1], O[1:-1]))
            if ok:
                hit = True
                count -= 1
                out += [pre] if pre else []
                out += segs_of(new)
                A[i + n - 1:i + n] = [suf] if suf else []
                i += n - 1
                continue
        out.append(A[i])
        i += 1
    if hit:
        return mkstr(out)
    return realise(a, 'replace').replace(realise(old), realise(new), count)


def _same_v(x, y):
    try:
        if isinstance(x, tuple) and isinstance(y, tuple):
            return len(x) == len(y) and all(_same_v(p, q) for p, q in zip(x, y))
        if isinstance(x, SymInt) and isinstance(y, SymInt):
            return x.e.eq(y.e)
        r = x == y
        return r is True
    except Exception:
        return False


SPLIT_BOUND = 3


def str_split(a, sep, maxsplit=-1):
    if isinstance(a, str) and isinstance(sep, (str, type(None))):
        return a.split(sep, maxsplit)
    if sep is None or isinstance(sep, SymStr):
        return realise(a, 'split').split(realise(sep), maxsplit)
    if len(sep) > 1:
        at = locate(segs_of(a), [sep])
        if at is not None:
            return cut_at(segs_of(a), at if maxsplit < 0 else at[:maxsplit])
    parts, curp = [], []
    nsplit = 0
    for s in segs_of(a):
        if isinstance(s, str):
            if maxsplit >= 0:
                ps = s.split(sep, max(0, maxsplit - nsplit)) if maxsplit - nsplit > 0 else [s]
            else:
                ps = s.split(sep)
            curp.append(ps[0])
            for p in ps[1:]:
                parts.append(mkstr(curp))
                curp = [p]
                nsplit += 1
        elif isinstance(s, Opq):
            if s.kind in _ALPH and any(c not in _ALPH[s.kind] for c in sep):
                curp.append(s)
            else:
                return realise(a, 'split').split(sep, maxsplit)
        else:
            if len(sep) != 1:
                if str_contains(SymStr([s]), sep):
                    return realise(a, 'split').split(sep, maxsplit)
                curp.append(s)
                continue
            rest = s
            k = 0
            while (maxsplit < 0 or nsplit < maxsplit) and sep not in s.lacks and cur().branch(z3.Contains(rest.t, strval(sep))):
                if k >= SPLIT_BOUND:
                    raise PathCut('split bound')
                k += 1
                eng = cur()
                h, t = z3.String(eng.fresh('spl')), z3.String(eng.fresh('spl'))
                eng.add(rest.t == z3.Concat(h, strval(sep), t))
                eng.add(z3.Not(z3.Contains(h, strval(sep))))
                curp.append(Atom(h, s.valid, s.lacks))
                parts.append(mkstr(curp))
                nsplit += 1
                curp = []
                rest = Atom(t, s.valid, s.lacks)
            curp.append(rest)
    parts.append(mkstr(curp))
    return parts


def str_strip(a, chars, which):
    segs = list(segs_of(a))
    cs = chars
    if isinstance(chars, SymStr):
        return getattr(realise(a, 'strip'), ['', 'lstrip', 'rstrip', 'strip'][which])(realise(chars))
    ws = chars if chars is not None else (' \t\n\r\x0b\x0c\x1c\x1d\x1e\x1f\x85\xa0\u1680\u2000\u2001\u2002\u2003\u2004\u2005\u2006\u2007\u2008\u2009\u200a'
                                          '\u2028\u2029\u202f\u205f\u3000')

    if ws == '':
        return a

    def edge(s, left):
        """does atom/opaque start (end) with a stripped character?"""
        if isinstance(s, Opq):
            if s.kind in _ALPH and not any(c in _ALPH[s.kind] for c in ws):
                return False
            raise Unsupported('strip of opaque text')
        f = z3.PrefixOf if left else z3.SuffixOf
        ch = z3.SubString(s.t, 0, 1) if left else z3.SubString(s.t, z3.Length(s.t) - 1, 1)
        return z3.Or(*[f(strval(c), s.t) for c in ws])

    for left in (True, False):
        if not which & (1 if left else 2):
            continue
        while segs:
            s = segs[0] if left else segs[-1]
            if isinstance(s, str):
                t = (s.lstrip(chars) if left else s.rstrip(chars))
                if t:
                    segs[0 if left else -1] = t
                    break
                segs.pop(0 if left else -1)
                continue
            c = edge(s, left)
            if c is False:
                break
            if cur().branch(c):
                # what is stripped, and the rest
                eng = cur()
                h, t = z3.String(eng.fresh('strip')), z3.String(eng.fresh('strip'))
                res = [z3.Re(strval(x)) for x in sorted(set(ws))]
                eng.add(s.t == (z3.Concat(h, t) if left else z3.Concat(t, h)))
                eng.add(z3.InRe(h, z3.Plus(z3.Union(*res) if len(res) > 1 else res[0])))
                r = Atom(t, s.valid, s.lacks)
                eng.add(z3.Not(edge(r, left)))
                segs[0 if left else -1] = r
                if len(segs) > 1 and not str_len_nonzero(SymStr([r])):
                    segs.pop(0 if left else -1)
                    continue
                break
            # does not start with a stripped character: either empty (look further) or done
            if len(segs) > 1 and not str_len_nonzero(SymStr([s])):
                segs.pop(0 if left else -1)
                continue
            break
    return mkstr(segs)


def str_getitem(a, k):
    n = None
    if isinstance(k, slice):
        if k.step not in (None, 1):
            return realise(a, 'slice')[slice(realise(k.start), realise(k.stop), k.step)]
        segs = segs_of(a)
        start, stop = k.start, k.stop
        if start is None:
            start = 0
        if start == 0 and stop is None:
            return a
        # peel literals at the front for non-negative concrete bounds
        if isinstance(start, int) and start >= 0 and stop is None:
            i, rest = start, list(segs)
            while rest and i:
                s = rest[0]
                l = len(s) if isinstance(s, str) else (opq_len(s) if isinstance(s, Opq) else None)
                if not isinstance(l, int):
                    break
                if l <= i:
                    i -= l
                    rest.pop(0)
                elif isinstance(s, str):
                    rest[0] = s[i:]
                    i = 0
                else:
                    break
            if i == 0:
                return mkstr(rest)
        if isinstance(start, int) and start == 0 and isinstance(stop, int) and stop < 0:
            i, rest = -stop, list(segs)
            while rest and i:
                s = rest[-1]
                l = len(s) if isinstance(s, str) else (opq_len(s) if isinstance(s, Opq) else None)
                if not isinstance(l, int):
                    break
                if l <= i:
                    i -= l
                    rest.pop()
                elif isinstance(s, str):
                    rest[-1] = s[:-i]
                    i = 0
                else:
                    break
            if i == 0:
                return mkstr(rest)
        if has_opq(a):
            return realise(a, 'slice')[realise(start):realise(stop)]
        L = str_len(a)

        def norm(x, dflt):
            if x is None:
                return dflt
            if isinstance(x, int) and x < 0:
                r = L + x
                if (r < 0):
                    return 0
                return r
            if isinstance(x, SymInt):
                if x < 0:
                    r = L + x
                    return 0 if r < 0 else r
            if x > L:
                return L
            return x
        s0, s1 = norm(start, 0), norm(stop, L)
        if isinstance(s0, int) and s0 == 0 and s1 is L:
            return a
        valid = a.xml_valid if isinstance(a, SymStr) else True
        t = z3.simplify(z3.SubString(zterm(a), intx(s0), intx(s1 - s0 if not (isinstance(s0, int) and s0 == 0) else s1)))
        return mkstr([Atom(t, valid)])
    L = str_len(a)
    if isinstance(k, int) and k < 0:
        k = L + k
        if k < 0:
            raise IndexError('string index out of range')
    if k >= L:
        raise IndexError('string index out of range')
    if has_opq(a):
        return realise(a, 'index')[realise(k)]
    return mkstr([Atom(z3.simplify(z3.SubString(zterm(a), intx(k), 1)), a.xml_valid)])


def join(sep, xs):
    out = []
    for i, x in enumerate(xs):
        if i:
            out += segs_of(sep)
        if not isinstance(x, (str, SymStr)):
            raise TypeError('sequence item %d: expected str instance, %s found' % (i, type(x).__name__))
        out += segs_of(x)
    return mkstr(out)


def to_text(v):
    """str(v)"""
    if isinstance(v, (str, SymStr)):
        return v
    if isinstance(v, SymInt):
        return SymStr([Opq('dec', v)])
    if isinstance(v, SymBool):
        return str(bool(v))
    from . import dt, byt
    if isinstance(v, dt.SymDatetime):
        return v.text()
    if isinstance(v, dt.SymUUID):
        return v.__str__()
    if isinstance(v, Sym):
        return SymStr([Opq('repr', v)])
    f = type(v).__str__
    if isinstance(v, BaseException):
        if len(v.args) == 1:
            return to_text(v.args[0])
    r = f(v) if callable(f) else str(v)
    return r


# ------------------------------------------------------------------ concretisation
# what functions without a model often treat differently from plain text
PROBES = ['e\u0301 \u212b\u00df\u0130 ', 'A,;b\\"\'/{1}%20\n.']


def probe(eng, v):
    """Text about to be bound to one value: also look at these, once on a path"""
    if eng.reg.get('probed'):
        return
    eng.reg['probed'] = True
    i = eng.choose(1 + len(PROBES))
    if i and not (v == PROBES[i - 1]):
        raise PathCut('no probe')


def realise(v, why='', prefer=None):
    """Bind a symbolic value to one feasible concrete value (recorded: the path no longer covers all)."""
    if isinstance(v, (list, tuple)) and type(v) in (list, tuple):
        return type(v)(realise(x, why) for x in v)
    if type(v) is dict:
        return {realise(k, why): realise(x, why) for k, x in v.items()}
    if type(v) is slice:
        return slice(realise(v.start), realise(v.stop), realise(v.step))
    if not isinstance(v, Sym):
        return v
    eng = cur()
    if isinstance(v, SymStr) and (not why or why.startswith('call ')):
        probe(eng, v)
    lv = v.leaves()
    k = len(eng.trace)
    only = False
    terms = []
    seen = set()
    for t in lv:
        if t.get_id() not in seen:
            seen.add(t.get_id())
            terms.append(t)
    if k < len(eng.prefix):
        d = eng.prefix[k]
        eng.trace.append(d)
        vals = d[2]
        only = d[3]
        if only:
            return d[4]
        for t, x in zip(terms, vals):
            eng.add(t == decode_val(t, x))
    else:
        m = eng.model()
        if m is None:
            raise PathCut('no well-formed model')
        if m == 'unknown':
            raise Unsupported('no model for concretisation')
        vals = []
        for t in terms:
            vals.append(encode_val(m, t))
        # a value the path leaves no choice about loses nothing
        if isinstance(v, SymInt) and len(terms) <= 4:
            r, _ = eng._solve([z3.Not((v.bv if v.bv is not None else v.e) == v.conc(m))])
            if r == 'unsat':
                only = True
        if only:
            x = v.conc(m)
            eng.trace.append((0, 1, (), True, x))
            return x
        eng.trace.append((0, 1, tuple(vals), only))
        for t, x in zip(terms, vals):
            eng.add(t == decode_val(t, x))

    eng.stats.concretised += 1
    eng.stats.note('concretised:' + (why or type(v).__name__))
    eng.incomplete = True

    class M:
        def __init__(s):
            s.sub = [(t, decode_val(t, x)) for t, x in zip(terms, vals)]

        def eval(s, e, model_completion=True):
            return z3.simplify(z3.substitute(e, *s.sub)) if s.sub else z3.simplify(e)
    return v.conc(M())


def encode_val(m, t):
    v = m.eval(t, model_completion=True)
    if t.sort() == z3.StringSort():
        return ('s', unesc(v.as_string()))
    if t.sort() == z3.IntSort():
        return ('i', v.as_long())
    if t.sort() == z3.BoolSort():
        return ('b', z3.is_true(v))
    if isinstance(t.sort(), z3.BitVecSortRef):
        return ('v', v.as_long(), t.size())
    raise Unsupported('concretise sort %s' % t.sort())


def decode_val(t, x):
    if x[0] == 's':
        return strval(x[1])
    if x[0] == 'i':
        return z3.IntVal(x[1])
    if x[0] == 'b':
        return z3.BoolVal(x[1])
    return z3.BitVecVal(x[1], x[2])
