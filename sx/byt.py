"""Symbolic byte strings: ropes of literals, byte vectors and slices of opaque blobs.

Opaque blobs are terms of an algebra with ideal (injective) cryptography; see `blob_eq`."""
import hashlib, hmac, z3, base64, zlib
from .core import Unsupported, PathCut, cur
from .vals import (Sym, SymBool, SymInt, SymStr, Atom, Opq, mkbool, mkint, mkbv, mkstr, and_, or_, not_, intx,
                   leaves_of, leaves, conc, realise, str_eq, str_len, str_len_nonzero, is_sym, zstr_value)

# concrete digests seen so far: digest -> (algo, key, preimage); ideal-hash registry
DIGESTS = {}


class Blob:
    __slots__ = ('kind', 'args', 'n', 'uid')
    _c = 0

    def __init__(self, kind, args, n):
        self.kind, self.args, self.n = kind, args, n
        Blob._c += 1
        self.uid = Blob._c

    def __repr__(self):
        return '<%s:%s>' % (self.kind, self.n if isinstance(self.n, int) else '?')


class Sl:
    """slice of a blob"""
    __slots__ = ('b', 's', 'n')

    def __init__(self, b, s, n):
        self.b, self.s, self.n = b, s, n

    @property
    def full(self):
        return isinstance(self.s, int) and self.s == 0 and (self.n is self.b.n or same_int(self.n, self.b.n))

    def same(self, o):
        return isinstance(o, Sl) and self.b is o.b and same_int(self.s, o.s) and same_int(self.n, o.n)


class Vec:
    """explicit bytes, some symbolic"""
    __slots__ = ('bs',)

    def __init__(self, bs):
        self.bs = bs

    @property
    def n(self):
        return len(self.bs)


def same_int(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if isinstance(a, SymInt) and isinstance(b, SymInt):
        return z3.simplify(a.e == b.e).eq(z3.BoolVal(True))
    return False


def bvs(o):
    return o.segs if isinstance(o, SymBytes) else ([bytes(o)] if len(o) else [])


class SymBytes(Sym):
    __slots__ = ('segs',)

    def __init__(self, segs):
        self.segs = segs

    def __repr__(self):
        return 'SymBytes(%s)' % '+'.join(repr(s) if isinstance(s, bytes) and len(s) < 40 else (
            'b*%d' % len(s) if isinstance(s, bytes) else ('vec%d' % len(s.bs) if isinstance(s, Vec) else repr(s.b))) for s in self.segs)

    def __hash__(self):
        return 0xB7

    def __bool__(self):
        n = blen(self)
        return n != 0 if isinstance(n, int) else bool(n != 0)

    def __len__(self):
        n = blen(self)
        return n if isinstance(n, int) else n.__index__()

    def __add__(self, o):
        if isinstance(o, (bytes, bytearray, SymBytes)):
            return mkbytes(bvs(self) + bvs(o))
        return NotImplemented

    def __radd__(self, o):
        if isinstance(o, (bytes, bytearray)):
            return mkbytes(bvs(o) + bvs(self))
        return NotImplemented

    def __mul__(self, n):
        return brepeat(self, n)
    __rmul__ = __mul__

    def __eq__(self, o):
        if isinstance(o, (bytes, bytearray, SymBytes)):
            return beq(self, o)
        return False

    def __ne__(self, o):
        return not_(self == o)

    def __getitem__(self, k):
        if isinstance(k, slice):
            return bslice(self, k.start, k.stop, k.step)
        return bindex(self, k)

    def __iter__(self):
        for i in range(len(self)):
            yield bindex(self, i)

    def __contains__(self, x):
        if isinstance(x, (int, SymInt)):
            return any(bool(b == x) for b in self)
        return realise(x, 'bytes contains') in realise(self, 'bytes contains')

    def __getattr__(self, name):
        if hasattr(bytes, name):
            raise Unsupported('bytes.' + name)
        raise AttributeError("'bytes' object has no attribute %r" % name)

    def __bytes__(self):
        return realise(self, '__bytes__')

    def decode(self, encoding='utf-8', errors='strict'):
        return bdecode(self, encoding, errors)

    def hex(self, *a):
        if a:
            return realise(self, 'hex').hex(*a)
        return hex_of(self)

    def startswith(self, p):
        if isinstance(p, tuple):
            return or_(*[self.startswith(x) for x in p])
        n = blen(p)
        if blen(self) < n:
            return False
        return beq(self[:n], p)

    def endswith(self, p):
        if isinstance(p, tuple):
            return or_(*[self.endswith(x) for x in p])
        n = blen(p)
        if blen(self) < n:
            return False
        return beq(self[blen(self) - n:], p)

    def _strip(self, name, ends, chars):
        # exact if there is nothing to strip; else for the bytes of one model that has something to strip
        chars = realise(chars, 'bytes.strip') if chars is not None else b' \t\n\r\x0b\x0c'
        if blen(self) == 0:
            return b''
        if not or_(*[or_(*[bindex(self, e) == c for c in sorted(set(chars))]) for e in ends]):
            return self
        return getattr(realise(self, 'bytes.' + name), name)(chars)

    def strip(self, chars=None):
        return self._strip('strip', (0, -1), chars)

    def rstrip(self, chars=None):
        return self._strip('rstrip', (-1,), chars)

    def lstrip(self, chars=None):
        return self._strip('lstrip', (0,), chars)

    def join(self, xs):
        return bjoin(self, xs)

    def conc(self, m):
        out = b''
        for s in self.segs:
            if isinstance(s, bytes):
                out += s
            elif isinstance(s, Vec):
                out += bytes(conc(b, m) for b in s.bs)
            else:
                d = blob_conc(s.b, m)
                st, n = conc(s.s, m), conc(s.n, m)
                out += d[st:st + n]
        return out

    def leaves(self):
        out = []
        for s in self.segs:
            if isinstance(s, Vec):
                for b in s.bs:
                    if isinstance(b, Sym):
                        out += b.leaves()
            elif isinstance(s, Sl):
                out += leaves(s.s) + leaves(s.n) + blob_leaves(s.b)
        return out


def blob_leaves(b):
    out = leaves(b.n) if b.kind not in ('utf8',) else []
    if b.kind == 'in':
        for v, at in asked_bytes(b):
            out += leaves(v) + (leaves(at) if isinstance(at, Sym) else [])
    for a in b.args:
        if isinstance(a, (Sym, list, tuple)):
            out += leaves(a)
        elif z3.is_expr(a):
            out += leaves_of(a)
    return out


def prng(seed, n):
    out, i = [], 0
    seed = str(seed).encode()
    while n > 0:
        d = hashlib.sha256(seed + b'/' + str(i).encode()).digest()
        out.append(d[:n])
        n -= len(d)
        i += 1
    return b''.join(out)


def blob_conc(b, m):
    k, a = b.kind, b.args
    if k == 'in':
        d = prng(m.eval(a[0], model_completion=True).as_long(), conc(b.n, m))
        for v, at in asked_bytes(b):
            at = conc(at, m)
            if 0 <= at < len(d):
                d = d[:at] + bytes([conc(v, m)]) + d[at + 1:]
        return d
    if k == 'utf8':
        return conc(a[0], m).encode('utf-8', 'surrogatepass')
    if k == 'int':
        v, n, en, sg = a
        return conc(v, m).to_bytes(n, en, signed=sg)
    if k == 'sha256':
        return hashlib.sha256(conc(a[0], m)).digest()
    if k == 'sha512':
        return hashlib.sha512(conc(a[0], m)).digest()
    if k == 'hmac':
        return hmac.new(conc(a[1], m), conc(a[2], m), a[0]).digest()
    if k == 'rep':
        return conc(bytes_of([a[0]]), m) * conc(a[1], m)
    if k == 'gz':
        return zlib.compress(conc(a[0], m))
    raise Unsupported('concrete value of %s blob' % k)


def mkbytes(segs):
    out = []
    for s in segs:
        if isinstance(s, (bytes, bytearray)):
            s = bytes(s)
            if not s:
                continue
            if out and isinstance(out[-1], bytes):
                out[-1] += s
                continue
        elif isinstance(s, Vec):
            if not s.bs:
                continue
            if all(isinstance(b, int) for b in s.bs):
                s = bytes(s.bs)
                if out and isinstance(out[-1], bytes):
                    out[-1] += s
                    continue
            elif out and isinstance(out[-1], Vec):
                out[-1] = Vec(out[-1].bs + s.bs)
                continue
        else:
            if isinstance(s.n, int) and s.n == 0:
                continue
            # merge adjacent slices of one blob
            if out and isinstance(out[-1], Sl) and out[-1].b is s.b:
                p = out[-1]
                if same_int(p.s + p.n, s.s):
                    out[-1] = Sl(s.b, p.s, p.n + s.n)
                    continue
        out.append(s)
    if not out:
        return b''
    if len(out) == 1 and isinstance(out[0], bytes):
        return out[0]
    return SymBytes(out)


def bytes_of(ints):
    return mkbytes([Vec([x if isinstance(x, int) else x for x in ints])])


def blob(kind, args, n):
    return mkbytes([Sl(b, 0, n)]) if (b := Blob(kind, args, n)) else None


def seglen(s):
    return len(s) if isinstance(s, bytes) else s.n


def blen(x):
    if isinstance(x, (bytes, bytearray)):
        return len(x)
    n, sym = 0, []
    for s in x.segs:
        l = seglen(s)
        if isinstance(l, int):
            n += l
        else:
            sym.append(l.e)
    if not sym:
        return n
    return mkint(sum(sym[1:], sym[0]) + n)


def utf8_of(s):
    """bytes of text"""
    if isinstance(s, str):
        return s.encode('utf-8')
    eng = cur()
    out = []
    for seg in s.segs:
        if isinstance(seg, str):
            out.append(seg.encode('utf-8'))
            continue
        if isinstance(seg, Opq):
            if seg.kind == 'lat1':
                pass
            elif seg.kind == 'utf8dec':
                out += bvs(seg.v)
                continue
            else:
                from .vals import opq_len
                key = ('utf8o', id(seg))
                if key not in eng.reg:
                    eng.reg[key] = (Blob('utf8', (SymStr([seg]),), opq_len(seg) if seg.kind != 'iso' else SymInt(z3.Int(eng.fresh('isolen')))), seg)
                b = eng.reg[key][0]
                out.append(Sl(b, 0, b.n))
                continue
        key = ('utf8', seg.t.get_id()) if isinstance(seg, Atom) else ('utf8o', id(seg))
        if key not in eng.reg:
            n = z3.Int(eng.fresh('u8len'))
            L = str_len(SymStr([seg]))
            Le = L.e if isinstance(L, SymInt) else z3.IntVal(L)
            eng.add(z3.And(n >= Le, n <= 4 * Le))
            eng.reg[key] = (Blob('utf8', (SymStr([seg]),), SymInt(n)), seg)
        b = eng.reg[key][0]
        out.append(Sl(b, 0, b.n))
    return mkbytes(out)


def bdecode(x, encoding='utf-8', errors='strict'):
    enc = str(encoding).lower().replace('_', '-').replace('utf8', 'utf-8')
    if isinstance(x, bytes):
        return x.decode(encoding, errors)
    out = []
    for s in x.segs:
        if isinstance(s, bytes):
            out.append(s.decode(enc, errors))
        elif isinstance(s, Sl) and s.b.kind == 'utf8' and s.full and enc in ('utf-8', 'ascii', 'us-ascii', 'latin-1'):
            t = s.b.args[0]
            if enc != 'utf-8' and not all(isinstance(q, (str, Opq)) for q in t.segs):
                return realise(x, 'decode').decode(encoding, errors)
            out += t.segs
        elif isinstance(s, Vec) and enc in ('ascii', 'utf-8'):
            # each byte must be ASCII or the decode is out of the encoding's reach
            for b in s.bs:
                if isinstance(b, int):
                    if b >= 128:
                        return realise(x, 'decode').decode(encoding, errors)
                    out.append(chr(b))
                    continue
                if not (b < 128):
                    return realise(x, 'decode').decode(encoding, errors)
            out = None
            break
        elif isinstance(s, Sl) and s.b.kind in ('garbage', 'dec', 'stream', 'in'):
            # bytes not known to be text: may or may not decode
            eng = cur()
            f = z3.Bool(eng.fresh('decodes'))
            if s.n == 0 if isinstance(s.n, int) else (s.n == 0):
                continue
            if eng.branch(f):
                out.append(Opq('utf8dec', SymBytes([s])))
            else:
                raise UnicodeDecodeError('utf-8', b'\xff', 0, 1, 'invalid start byte')
        else:
            return realise(x, 'decode').decode(encoding, errors)
    if out is None:
        # explicit ASCII bytes -> fresh string characters tied to them
        res = []
        for s in x.segs:
            if isinstance(s, bytes):
                res.append(s.decode('ascii'))
            elif isinstance(s, Vec):
                for b in s.bs:
                    if isinstance(b, int):
                        res.append(chr(b))
                    else:
                        res.append(Atom(z3.StrFromCode(b.e), False))
            else:
                return realise(x, 'decode').decode(encoding, errors)
        return mkstr(res)
    return mkstr(out)


def hex_of(x):
    if isinstance(x, bytes):
        return x.hex()
    if len(x.segs) == 1 and isinstance(x.segs[0], Sl) and x.segs[0].full and x.segs[0].b.kind == 'int':
        v, n, en, sg = x.segs[0].b.args
        if en == 'big' and not sg:
            return SymStr([Opq('hex', (v, 2 * n))])
    return SymStr([Opq('hexb', x)])


# ------------------------------------------------------------------ slicing
def _norm(i, L, dflt):
    if i is None:
        return dflt
    if isinstance(i, int):
        if i < 0:
            r = L + i
            if isinstance(r, int):
                return max(0, r)
            return 0 if (r < 0) else r
        if isinstance(L, int):
            return min(i, L)
        return L if (L < i) else i
    if i < 0:
        r = L + i
        return 0 if r < 0 else r
    return L if (i > L) else i


def bslice(x, start, stop, step=None):
    if step not in (None, 1):
        return realise(x, 'strided slice')[slice(realise(start), realise(stop), step)]
    L = blen(x)
    a = _norm(start, L, 0)
    b = _norm(stop, L, L)
    return bsub(x, a, b)


def bsub(x, a, b):
    """x[a:b] for 0 <= a, b <= len"""
    if isinstance(x, bytes) and isinstance(a, int) and isinstance(b, int):
        return x[a:b]
    if same_int(a, b):
        return b''
    if isinstance(a, int) and a == 0 and same_int(b, blen(x)):
        return x
    if not (a < b):
        return b''
    out = []
    pos = 0
    segs = bvs(x)
    # skip to a
    i = 0
    inside = None
    while i < len(segs):
        l = seglen(segs[i])
        end = pos + l
        if same_int(end, a) or (end <= a):
            pos = end
            i += 1
            continue
        break
    off = a - pos           # 0 <= off < len(seg)
    need = b - a
    while i < len(segs):
        s = segs[i]
        l = seglen(s) - off
        if same_int(l, need):
            out.append(segsub(s, off, need))
            break
        if same_int(need, 0) or need <= 0:
            break
        if l <= need:
            out.append(segsub(s, off, l))
            need = need - l
            off = 0
            i += 1
            if same_int(need, 0):
                break
            continue
        out.append(segsub(s, off, need))
        break
    return mkbytes(out)


def segsub(s, off, n):
    if isinstance(off, int) and off == 0 and same_int(n, seglen(s)):
        return s
    if isinstance(s, bytes):
        if isinstance(off, int) and isinstance(n, int):
            return s[off:off + n]
        if len(set(s)) == 1:
            return Sl(Blob('rep', (s[0], n), n), 0, n)
        return s[realise(off):][:realise(n)]
    if isinstance(s, Vec):
        off, n = realise(off), realise(n)
        return Vec(s.bs[off:off + n])
    if s.b.kind == 'int' and isinstance(off, int) and isinstance(n, int):
        return Vec(int_bytes(s.b)[s.s + off:s.s + off + n])
    if s.b.kind == 'rep' and not (isinstance(off, int) and off == 0 and n is s.n):
        return Sl(Blob('rep', (s.b.args[0], n), n), 0, n)
    return Sl(s.b, s.s + off, n)


def int_bytes(b):
    """explicit bytes of an int blob"""
    v, n, en, sg = b.args
    out = []
    for i in range(n):
        if isinstance(v, SymInt) and v.bv is not None and not sg:
            w = v.bv.size()
            lo = 8 * i
            if lo >= w:
                out.append(0)
            else:
                out.append(mkbv(z3.Extract(min(lo + 7, w - 1), lo, v.bv)))
        else:
            out.append((v // (256 ** i)) % 256)
    if en == 'big':
        out.reverse()
    return out


def bindex(x, k):
    L = blen(x)
    if isinstance(k, int) and isinstance(L, int):
        if k < 0:
            k += L
        if not 0 <= k < L:
            raise IndexError('index out of range')
    else:
        if k < 0:
            k = L + k
            if k < 0:
                raise IndexError('index out of range')
        if k >= L:
            raise IndexError('index out of range')
    one = bsub(x, k, k + 1)
    if isinstance(one, bytes):
        return one[0]
    s = one.segs[0]
    if isinstance(s, Vec):
        return s.bs[0]
    if s.b.kind == 'rep':
        return s.b.args[0]
    if s.b.kind == 'int':
        return int_bytes(s.b)[realise(s.s)]
    eng = cur()
    key = ('byte', s.b.uid, z3.simplify(intx(s.s)).get_id())
    if key not in eng.reg:
        eng.reg[key] = (SymInt(bv=z3.BitVec(eng.fresh('byte'), 8)), s, z3.simplify(intx(s.s)))
        eng.reg.setdefault(('bytes', s.b.uid), []).append((eng.reg[key][0], s.s))
    return eng.reg[key][0]


def asked_bytes(b):
    """the single bytes of a blob that were looked at on this path, with their places"""
    try:
        return cur().reg.get(('bytes', b.uid), ())
    except Exception:
        return ()


def brepeat(x, n):
    if isinstance(n, int):
        return mkbytes(bvs(x) * max(0, n))
    if isinstance(x, bytes) and len(x) == 1:
        v = x[0]
    elif isinstance(x, SymBytes) and len(x.segs) == 1 and isinstance(x.segs[0], Vec) and len(x.segs[0].bs) == 1:
        v = x.segs[0].bs[0]
    else:
        return brepeat(x, n.__index__())
    if n <= 0:
        return b''
    return blob('rep', (v, n), n)


def bjoin(sep, xs):
    out = []
    for i, x in enumerate(xs):
        if i:
            out += bvs(sep)
        if not isinstance(x, (bytes, bytearray, SymBytes)):
            raise TypeError('sequence item %d: expected a bytes-like object, %s found' % (i, type(x).__name__))
        out += bvs(x)
    return mkbytes(out)


def int_to_bytes(v, n, byteorder, signed=False):
    if isinstance(v, int):
        return v.to_bytes(n, byteorder, signed=signed)
    lo, hi = (-(1 << (8 * n - 1)), (1 << (8 * n - 1))) if signed else (0, 1 << (8 * n))
    if not (lo <= v):
        raise OverflowError("can't convert negative int to unsigned")
    if not (v < hi):
        raise OverflowError('int too big to convert')
    if n == 1 and not signed and v.bv is not None:
        return bytes_of([v])
    return blob('int', (v, n, byteorder, signed), n)


def int_from_bytes(x, byteorder='big', signed=False):
    if isinstance(x, (bytes, bytearray)):
        return int.from_bytes(x, byteorder, signed=signed)
    n = blen(x)
    if not isinstance(n, int):
        n = n.__index__()
    if len(x.segs) == 1 and isinstance(x.segs[0], Sl) and x.segs[0].full and x.segs[0].b.kind == 'int':
        v, k, en, sg = x.segs[0].b.args
        if en == byteorder and sg == signed:
            return v
        if en == byteorder and isinstance(v, SymInt):
            if sg:   # stored signed, read unsigned
                return mkint(z3.If(v.e < 0, v.e + 256 ** k, v.e))
            return mkint(z3.If(v.e >= 256 ** k // 2, v.e - 256 ** k, v.e))
    # opaque bytes -> one integer per (rope); deterministic
    if len(x.segs) == 1 and isinstance(x.segs[0], Sl):
        s = x.segs[0]
        eng = cur()
        key = ('intof', s.b.uid, repr(s.s), n, byteorder, signed)
        if key not in eng.reg:
            v = z3.Int(eng.fresh('intof'))
            lo, hi = (-(256 ** n // 2), 256 ** n // 2) if signed else (0, 256 ** n)
            eng.add(z3.And(v >= lo, v < hi))
            eng.reg[key] = SymInt(v)
        return eng.reg[key]
    bs = [bindex(x, i) for i in range(n)]
    if byteorder == 'little':
        bs.reverse()
    parts = []
    for b in bs:
        if isinstance(b, int):
            parts.append(z3.BitVecVal(b, 8))
        elif b.bv is not None:
            w = b.bv.size()
            parts.append(b.bv if w == 8 else (z3.ZeroExt(8 - w, b.bv) if w < 8 else z3.Extract(7, 0, b.bv)))
        else:
            parts = None
            break
    if parts is not None and not signed:
        return mkbv(parts[0] if len(parts) == 1 else z3.Concat(*parts))
    tot = 0
    for b in bs:
        tot = tot * 256 + b
    if signed:
        return mkint(z3.If(intx(tot) >= 256 ** n // 2, intx(tot) - 256 ** n, intx(tot)))
    return tot


# ------------------------------------------------------------------ equality
IDEAL = {'sha256', 'sha512', 'hmac', 'enc', 'stream', 'argon2', 'ecb', 'gz', 'xml', 'aeskdf', 'dec', 'compute'}


def arg_eq(a, b):
    if isinstance(a, (bytes, SymBytes)) and isinstance(b, (bytes, SymBytes)):
        return beq(a, b)
    if isinstance(a, (str, SymStr)) and isinstance(b, (str, SymStr)):
        return str_eq(a, b)
    if isinstance(a, (int, SymInt)) and isinstance(b, (int, SymInt)):
        return mkbool(intx(a) == intx(b))
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        return and_(*[arg_eq(x, y) for x, y in zip(a, b)])
    if z3.is_expr(a) and z3.is_expr(b):
        return mkbool(a == b)
    return a is b or (a == b) is True


def blob_eq(x, y):
    """equality of two whole blobs"""
    if x is y:
        return True
    kx, ky = x.kind, y.kind
    if kx == ky:
        if kx == 'utf8':
            return str_eq(x.args[0], y.args[0])
        if kx == 'in':
            return and_(mkbool(intx(x.n) == intx(y.n)), or_(mkbool(intx(x.n) == 0), mkbool(x.args[0] == y.args[0])))
        if kx == 'int':
            if x.args[1:] == y.args[1:]:
                return mkbool(intx(x.args[0]) == intx(y.args[0]))
        if kx == 'rep':
            return and_(mkbool(intx(x.n) == intx(y.n)), arg_eq(x.args[0], y.args[0]))
        if kx == 'xml':
            from .mxml import trees_equal
            return trees_equal(x.args[0], y.args[0])
        if kx in IDEAL:
            # injective in all arguments (collision resistance)
            if len(x.args) != len(y.args):
                return False
            cs = []
            for a, b in zip(x.args, y.args):
                c = arg_eq(a, b)
                if c is False:
                    return False
                cs.append(c)
            return and_(*cs)
    if 'garbage' in (kx, ky):
        cur().stats.note('ideal: decryption under another key equals nothing')
        return False
    cur().stats.note('ideal: %s bytes never equal %s bytes' % tuple(sorted((kx, ky))))
    return and_(mkbool(intx(x.n) == 0), mkbool(intx(y.n) == 0))


def blob_eq_lit(b, lit):
    k = b.kind
    if k == 'utf8':
        try:
            return str_eq(b.args[0], lit.decode('utf-8'))
        except UnicodeDecodeError:
            return False
    if k == 'int':
        v, n, en, sg = b.args
        return mkbool(intx(v) == int.from_bytes(lit, en, signed=sg)) if len(lit) == n else False
    if k == 'rep':
        if not lit:
            return mkbool(intx(b.n) == 0)
        if len(set(lit)) != 1:
            return False
        return and_(mkbool(intx(b.n) == len(lit)), arg_eq(b.args[0], lit[0]))
    if k in ('sha256', 'sha512', 'hmac', 'aeskdf', 'argon2', 'ecb', 'enc', 'stream'):
        pre = DIGESTS.get((k, lit))
        if pre is None:
            cur().stats.note('ideal: no preimage for an unrelated concrete digest')
            return False
        return and_(*[arg_eq(a, c) for a, c in zip(b.args, pre)])
    if k in ('in',):
        eng = cur()
        key = ('inlit', b.uid, lit)
        if key not in eng.reg:
            # contents of an arbitrary input coincide with a literal: excluded unless empty
            eng.reg[key] = mkbool(intx(b.n) == 0) if not lit else False
            if lit:
                eng.stats.note('assumed: arbitrary blob input differs from concrete bytes')
        return eng.reg[key]
    cur().stats.note('ideal: %s bytes never equal concrete bytes' % k)
    return mkbool(intx(b.n) == 0) if not lit else False


def seg_eq(x, y):
    """equality of two segments known to have equal length"""
    if isinstance(x, bytes) and isinstance(y, bytes):
        return x == y
    if isinstance(x, (bytes, Vec)) and isinstance(y, (bytes, Vec)):
        xs = list(x) if isinstance(x, bytes) else x.bs
        ys = list(y) if isinstance(y, bytes) else y.bs
        return and_(*[(a == b) for a, b in zip(xs, ys)])
    if isinstance(x, Sl) and isinstance(y, Sl):
        if x.full and y.full:
            return blob_eq(x.b, y.b)
        if x.b is y.b:
            if x.b.kind == 'rep':
                return True
            return mkbool(intx(x.s) == intx(y.s)) if not same_int(x.s, y.s) else True
        if x.b.kind == 'rep' and y.b.kind == 'rep':
            return arg_eq(x.b.args[0], y.b.args[0])
        if x.b.kind == y.b.kind and same_int(x.s, y.s):
            # same part of two ideal values: equal iff the values are
            if x.b.kind in ('garbage',):
                return False
            return blob_eq(x.b, y.b)
        if 'garbage' in (x.b.kind, y.b.kind) or 'rep' in (x.b.kind, y.b.kind):
            eng = cur()
            return SymBool(z3.Bool(eng.fresh('coincide')))
        cur().stats.note('ideal: parts of unrelated blobs differ')
        return False
    if isinstance(y, Sl):
        x, y = y, x
    if isinstance(y, Vec):
        if x.b.kind == 'int':
            return and_(*[(a == b) for a, b in zip(int_bytes(x.b)[realise(x.s):], y.bs)])
        if x.b.kind == 'rep':
            return and_(*[arg_eq(x.b.args[0], b) for b in y.bs])
        if x.b.kind in ('sha256', 'sha512', 'hmac'):
            # digest against partly symbolic bytes
            cur().stats.note('ideal: no preimage for an unrelated digest')
            return False
        if x.b.kind in ('garbage', 'in') and len(y.bs) <= 16:
            return and_(*[(bindex(SymBytes([x]), i) == b) for i, b in enumerate(y.bs)])
        cur().stats.note('ideal: %s bytes differ from explicit bytes' % x.b.kind)
        return False
    # x: Sl, y: bytes
    if x.full:
        return blob_eq_lit(x.b, y)
    if x.b.kind == 'rep':
        return blob_eq_lit(x.b, y) if x.full else and_(*[arg_eq(x.b.args[0], c) for c in set(y)])
    if x.b.kind == 'garbage':
        if len(y) >= 16:
            cur().stats.note('ideal: wrong-key decryption does not reproduce a known 16+ byte value')
            return False
        return SymBool(z3.Bool(cur().fresh('coincide')))
    if x.b.kind == 'int':
        return and_(*[(a == b) for a, b in zip(int_bytes(x.b)[realise(x.s):], y)])
    if x.b.kind in ('sha256', 'sha512', 'hmac') and isinstance(x.s, int) and isinstance(x.n, int):
        conds = []
        for (k, dig), pre in DIGESTS.items():
            if k == x.b.kind and dig[x.s:x.s + x.n] == y:
                conds.append(and_(*[arg_eq(a, c) for a, c in zip(x.b.args, pre)]))
        return or_(*conds) if conds else False
    if x.b.kind == 'utf8' and isinstance(x.s, int) and isinstance(x.n, int):
        t = x.b.args[0]
        try:
            from .vals import str_getitem
            lit = y.decode('ascii')
        except UnicodeDecodeError:
            return realise(SymBytes([x]), 'text bytes slice') == y
        if all(isinstance(q, (str, Atom)) for q in t.segs) and cur().branch(z3.InRe(_z(t), _ascii())):
            return str_eq(str_getitem(t, slice(x.s, x.s + x.n)), lit)
        return realise(SymBytes([x]), 'text bytes slice') == y
    cur().stats.note('ideal: part of %s bytes differs from concrete bytes' % x.b.kind)
    return False


def _z(t):
    from .vals import zterm
    return zterm(t)


def _ascii():
    from .vals import zrange
    return z3.Star(zrange(0, 127))


def beq(a, b):
    if isinstance(a, bytes) and isinstance(b, bytes):
        return a == b
    A, B = list(bvs(a)), list(bvs(b))
    la, lb = blen(a), blen(b)
    conds = []
    if isinstance(la, int) and isinstance(lb, int):
        if la != lb:
            return False
    elif not same_int(la, lb):
        c = mkbool(intx(la) == intx(lb))
        if c is False:
            return False
        # structural comparison first when both are single whole blobs
        if len(A) == 1 and len(B) == 1:
            x, y = A[0], B[0]
            if isinstance(x, Sl) and isinstance(y, Sl) and x.full and y.full:
                return blob_eq(x.b, y.b)
            if isinstance(x, Sl) and x.full and isinstance(y, bytes):
                return blob_eq_lit(x.b, y)
            if isinstance(y, Sl) and y.full and isinstance(x, bytes):
                return blob_eq_lit(y.b, x)
        if not A or not B:
            return c
        if not cur().branch(boolx(c)):
            return False
    # text on both sides
    ta, tb = as_text(A), as_text(B)
    if ta is not None and tb is not None:
        return str_eq(ta, tb)
    guard = 0
    while A and B:
        guard += 1
        if guard > 20000:
            raise Unsupported('byte comparison too long')
        x, y = A[0], B[0]
        if isinstance(x, Sl) and x.same(y):
            A.pop(0)
            B.pop(0)
            continue
        lx, ly = seglen(x), seglen(y)
        if same_int(lx, ly) or (not (isinstance(lx, int) and isinstance(ly, int)) and cur().must(intx(lx) == intx(ly))):
            c = seg_eq(x, y)
            A.pop(0)
            B.pop(0)
        elif lx < ly:
            c = seg_eq(x, segsub(y, 0, lx))
            A.pop(0)
            B[0] = segsub(y, lx, ly - lx)
        else:
            c = seg_eq(segsub(x, 0, ly), y)
            B.pop(0)
            A[0] = segsub(x, ly, lx - ly)
        if c is False:
            return False
        conds.append(c)
    for s in A + B:
        conds.append(mkbool(intx(seglen(s)) == 0))
    return and_(*conds)


def as_text(segs):
    """text whose UTF-8 encoding this is, if known"""
    out = []
    anyt = False
    for s in segs:
        if isinstance(s, bytes):
            try:
                out.append(s.decode('utf-8'))
            except UnicodeDecodeError:
                return None
        elif isinstance(s, Sl) and s.b.kind == 'utf8' and s.full:
            out += s.b.args[0].segs
            anyt = True
        else:
            return None
    return mkstr(out)


def boolx(c):
    return c.e if isinstance(c, SymBool) else z3.BoolVal(bool(c))


# ------------------------------------------------------------------ primitives on blobs
def register_digest(kind, digest, args):
    DIGESTS[(kind, digest)] = args


def sha(kind, data):
    n = {'sha256': 32, 'sha512': 64}[kind]
    if isinstance(data, (bytes, bytearray)):
        data = bytes(data)
        d = getattr(hashlib, kind)(data).digest()
        DIGESTS[(kind, d)] = (data,)
        return d
    return memo_blob(kind, (data,), n)


def hmac_(algo, key, data):
    n = {'sha256': 32, 'sha512': 64}[algo]
    if isinstance(key, bytes) and isinstance(data, bytes):
        d = hmac.new(key, data, algo).digest()
        DIGESTS[('hmac', d)] = (algo, key, data)
        return d
    return memo_blob('hmac', (algo, key, data), n)


def memo_blob(kind, args, n):
    """one blob per syntactically equal argument tuple (keeps later comparisons syntactic)"""
    eng = cur()
    tab = eng.reg.setdefault(('memo', kind), [])
    for a, b in tab:
        if syn_eq(a, args):
            return mkbytes([Sl(b, 0, b.n)])
    b = Blob(kind, args, n)
    tab.append((args, b))
    return mkbytes([Sl(b, 0, n)])


def syn_eq(a, b):
    if a is b:
        return True
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(syn_eq(x, y) for x, y in zip(a, b))
    if isinstance(a, SymBytes) and isinstance(b, SymBytes):
        if len(a.segs) != len(b.segs):
            return False
        for x, y in zip(a.segs, b.segs):
            if isinstance(x, bytes) or isinstance(y, bytes):
                if not (isinstance(x, bytes) and isinstance(y, bytes) and x == y):
                    return False
            elif isinstance(x, Vec):
                if not (isinstance(y, Vec) and len(x.bs) == len(y.bs) and all(syn_eq(p, q) for p, q in zip(x.bs, y.bs))):
                    return False
            elif not x.same(y):
                return False
        return True
    if isinstance(a, SymInt) and isinstance(b, SymInt):
        if a.bv is not None and b.bv is not None:
            return a.bv.eq(b.bv)
        return a.e.eq(b.e)
    if isinstance(a, SymStr) and isinstance(b, SymStr):
        if len(a.segs) != len(b.segs):
            return False
        for x, y in zip(a.segs, b.segs):
            if isinstance(x, str) or isinstance(y, str):
                if x != y:
                    return False
            elif isinstance(x, Atom):
                if not x.same(y):
                    return False
            elif x is not y:
                return False
        return True
    if is_sym(a) or is_sym(b):
        return False
    if z3.is_expr(a) or z3.is_expr(b):
        return z3.is_expr(a) and z3.is_expr(b) and a.eq(b)
    return type(a) is type(b) and a == b


def garbage(n):
    return blob('garbage', (), n)
