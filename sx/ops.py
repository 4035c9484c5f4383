"""Operations the rewritten source is routed through."""
import z3, builtins, types, string, operator, collections, functools, itertools
from . import core
from .core import Unsupported, PathCut, SxControl, cur
from .vals import (Sym, SymBool, SymInt, SymStr, Atom, Opq, is_sym, any_sym, realise, to_text, mkstr, mkint, mkbool, mkbv, and_, or_, not_,
                   str_contains, str_getitem, str_len, str_eq, intx, join, ite)
from .byt import SymBytes, blen, bslice, bindex, brepeat, bytes_of, mkbytes, beq, bjoin

MODULES = set()
HOOKS = {}              # callable object -> model
METHODS = {}            # (type, method name) -> model(self, *a, **k)
SAFE = set()            # callables that handle symbolic arguments by themselves

PYTYPE = {SymStr: str, SymBytes: bytes, SymInt: int, SymBool: bool}


def pytype(x):
    t = type(x)
    return PYTYPE.get(t, t)


FunctionType = types.FunctionType
MethodType = types.MethodType
BuiltinType = types.BuiltinFunctionType
_simple = (str, int, float, bytes, bool, type(None))


def _own(mod):
    return mod is not None and (mod.startswith('sx.') or mod in MODULES)


def call(f, /, *a, **k):
    t = type(f)
    if t is FunctionType:
        if '__sx__' in f.__globals__:
            return f(*a, **k)
        h = HOOKS.get(f)
        if h is not None:
            return h(*a, **k)
        if f.__globals__.get('__name__', '').startswith('sx.') or f in SAFE:
            return f(*a, **k)
        if any_sym(a) or (k and any_sym(k.values())):
            return foreign(f, a, k)
        return f(*a, **k)
    if t is MethodType:
        fn = f.__func__
        if type(fn) is FunctionType:
            g = fn.__globals__
            if '__sx__' in g or g.get('__name__', '').startswith('sx.'):
                return f(*a, **k)
        try:
            h = HOOKS.get(fn)
        except TypeError:
            h = None
        if h is not None:
            return h(f.__self__, *a, **k)
        if fn in SAFE:
            return f(*a, **k)
        if any_sym(a) or (k and any_sym(k.values())):
            return foreign(f, a, k)
        return f(*a, **k)
    if t is BuiltinType:
        s = f.__self__
        if s is None or type(s) is types.ModuleType:
            h = HOOKS.get(f)
            if h is not None:
                return h(*a, **k)
            if f in SAFE:
                return f(*a, **k)
            if any_sym(a) or (k and any_sym(k.values())):
                return foreign(f, a, k)
            return f(*a, **k)
        return bmethod(s, f.__name__, f, a, k)
    try:
        h = HOOKS.get(f)
    except TypeError:
        h = None
    if h is not None:
        return h(*a, **k)
    if isinstance(f, type):
        if _own(f.__module__) or issubclass(f, BaseException) or f in SAFE:
            return f(*a, **k)
        if any_sym(a) or (k and any_sym(k.values())):
            return foreign(f, a, k)
        return f(*a, **k)
    if t.__name__ in ('method-wrapper', 'method_descriptor', 'wrapper_descriptor', 'classmethod_descriptor'):
        if t.__name__ == 'method-wrapper':
            return f(*a, **k)
        # unbound: type.method(self, ...)
        if a:
            if isinstance(a[0], Sym):
                return getattr(a[0], f.__name__)(*a[1:], **k)
            if t.__name__ == 'method_descriptor':
                return bmethod(a[0], f.__name__, functools.partial(f, a[0]), a[1:], k)
        return f(*a, **k)
    if t is functools.partial:
        return call(f.func, *f.args, *a, **{**f.keywords, **k})
    # callable instance (instrumented class with __call__, operator.attrgetter, ...)
    return f(*a, **k)


def foreign(f, a, k):
    """C or un-instrumented code given symbolic arguments: bind them to a concrete value (recorded)."""
    name = getattr(f, '__qualname__', repr(f))
    cur().stats.note('foreign:' + name)
    return f(*realise(tuple(a), 'call ' + name), **realise(dict(k), 'call ' + name))


def mcall(o, m, /, *a, **k):
    if isinstance(o, Sym):
        return getattr(o, m)(*a, **k)
    return call(getattr(o, m), *a, **k)


# ------------------------------------------------------------------ builtin methods
_LISTSAFE = {'append', 'extend', 'insert', 'pop', 'remove', 'index', 'count', 'sort', 'reverse', 'copy', 'clear', '__iter__', '__len__'}


def bmethod(s, name, f, a, k):
    ts = type(s)
    if isinstance(s, type):
        h = METHODS.get((s, name)) or METHODS.get(name if False else None)
        if h is None:
            for b in s.__mro__:
                h = METHODS.get((b, name))
                if h is not None:
                    break
        if h is not None:
            return h(s, *a, **k)
        if any_sym(a) or any_sym(k.values()):
            return foreign(f, a, k)
        return f(*a, **k)
    if isinstance(s, str):
        if name == 'join':
            if len(a) == 1:
                xs = list(a[0])
                return join(s, xs) if any_sym(xs) else str.join(s, xs)
        elif name == 'format':
            return str_format(s, a, k)
        elif name == 'format_map':
            return str_format(s, (), dict(a[0]))
        if any_sym(a) or any_sym(k.values()):
            return getattr(SymStr([s] if s else []), name)(*a, **k)
        return f(*a, **k)
    if isinstance(s, (bytes, bytearray)):
        if name == 'join':
            xs = list(a[0])
            return bjoin(s, xs) if any_sym(xs) else f(xs)
        if any_sym(a) or any_sym(k.values()):
            return getattr(SymBytes([bytes(s)]), name)(*a, **k)
        return f(*a, **k)
    if isinstance(s, dict):
        h = DICTM.get(name)
        if h is not None:
            return h(s, f, *a, **k)
        return f(*a, **k)
    if isinstance(s, list):
        if name in _LISTSAFE:
            if a and name in ('pop', 'insert') and isinstance(a[0], SymInt):
                n, i = list.__len__(s), a[0]
                if i >= n or i < -n:
                    if name == 'pop':
                        raise IndexError('pop index out of range')
                    return f(n if i >= n else 0, *a[1:])
            return f(*a, **k)
        return f(*a, **k)
    if isinstance(s, (set, frozenset)):
        if any_sym(a) or any_sym(s):
            raise Unsupported('set method %s' % name)
        return f(*a, **k)
    h = METHODS.get((ts, name))
    if h is None:
        for b in ts.__mro__:
            h = METHODS.get((b, name))
            if h is not None:
                break
    if h is not None:
        return h(s, *a, **k)
    if any_sym(a) or any_sym(k.values()):
        if isinstance(s, int):
            return foreign(f, a, k)
        if ts in (tuple, range) or name.startswith('__'):
            return f(*a, **k)
        return foreign(f, a, k)
    return f(*a, **k)


_MISSING = object()


def has_sym_keys(d):
    for k in d:
        if isinstance(k, Sym) or (type(k) is tuple and any_sym(k)):
            return True
    return False


def key_eq(a, b):
    if a is b:
        return True
    if type(a) is tuple and type(b) is tuple:
        return len(a) == len(b) and all(key_eq(x, y) for x, y in zip(a, b))
    r = a == b
    return bool(r)


def dfind(d, k):
    """the key of d equal to k, or _MISSING (forks when symbolic)"""
    ksym = isinstance(k, Sym) or (type(k) is tuple and any_sym(k))
    if not ksym and not has_sym_keys(d):
        return k if dict.__contains__(d, k) else _MISSING
    for key in list(d.keys()):
        if key_eq(key, k):
            return key
    return _MISSING


def _dget(d, f, k, default=None):
    key = dfind(d, k)
    return default if key is _MISSING else f(key, default) if key is k else dict.__getitem__(d, key)


def _dpop(d, f, k, *default):
    key = dfind(d, k)
    if key is _MISSING:
        if default:
            return default[0]
        raise KeyError(k)
    v = dict.__getitem__(d, key)
    ddel(d, key)
    return v


def _dset(d, f, k, default=None):
    key = dfind(d, k)
    if key is _MISSING:
        d[k] = default
        return default
    return dict.__getitem__(d, key)


def _dupdate(d, f, *a, **k):
    for src in a:
        items = src.items() if hasattr(src, 'keys') else src
        for x, v in list(items):
            setitem(v, d, x)
    for x, v in k.items():
        setitem(v, d, x)


DICTM = {'get': _dget, 'pop': _dpop, 'setdefault': _dset, 'update': _dupdate,
         '__contains__': lambda d, f, k: dfind(d, k) is not _MISSING}


def ddel(d, key):
    items = [(x, v) for x, v in d.items() if x is not key]
    d.clear()
    for x, v in items:
        dict.__setitem__(d, x, v)


# ------------------------------------------------------------------ subscripts
def mkslice(a, b, c):
    return slice(a, b, c)


TABLES = {}


def _elems(o):
    """content key of a constant table"""
    return tuple(o)


def table_select(o, k):
    """o[k] for a list/tuple/bytes of ints and a bit-vector index"""
    import z3
    n = len(o)
    w = k.bv.size()
    if (1 << w) > n:
        if k >= n:
            raise IndexError('list index out of range')
    vals = list(o[:1 << w])
    wd = cur().reg.get('words')
    if wd is not None and len(vals) == 1 << w and w <= 12:
        if all(type(v) is int and v >= 0 for v in vals):
            return mkbv(wd.table(tuple(vals), k.bv, w))
        if all((type(v) is int and v >= 0) or (isinstance(v, SymInt) and v.bv is not None) for v in vals):
            return mkbv(wd.select([v if isinstance(v, int) else v.bv for v in vals], k.bv, w))
    if all(type(v) is int and v >= 0 for v in vals):
        key = (tuple(vals), w)
        t = TABLES.get(key)
        if t is None:
            vw = max(1, max(v.bit_length() for v in vals))
            f = z3.Function('T%d_%d_%d' % (len(TABLES), w, vw), z3.BitVecSort(w), z3.BitVecSort(vw))
            t = TABLES[key] = (f, vals, vw, w)
        cur().reg.setdefault('tables', {})[key] = t
        return mkbv(t[0](k.bv))
    if all((type(v) is int and v >= 0) or (isinstance(v, SymInt) and v.bv is not None) for v in vals):
        # table with symbolic entries: same entry terms -> same uninterpreted table
        vw = max(max(1, v.bit_length()) if isinstance(v, int) else v.bv.size() for v in vals)
        key = ('sym', tuple(v if isinstance(v, int) else ('t', v.bv.get_id()) for v in vals), w)
        tabs = cur().reg.setdefault('symtables', {})
        t = tabs.get(key)
        if t is None:
            f = z3.Function('S%d_%d_%d' % (len(tabs), w, vw), z3.BitVecSort(w), z3.BitVecSort(vw))
            t = tabs[key] = (f, vals, vw, w)
        return mkbv(t[0](k.bv))
    return None


def getitem(o, k):
    if isinstance(o, Sym):
        return o[k]
    if isinstance(k, Sym):
        if isinstance(o, dict) and type(o).__getitem__ is dict.__getitem__:
            key = dfind(o, k)
            if key is _MISSING:
                raise KeyError(k)
            return dict.__getitem__(o, key)
        if isinstance(o, (list, tuple)) and isinstance(k, SymInt):
            if k.bv is not None:
                r = table_select(o, k)
                if r is not None:
                    return r
            return o[index_of(k, len(o))]
        if isinstance(o, (bytes, bytearray)):
            if k.bv is not None:
                r = table_select(o, k)
                if r is not None:
                    return r
            return bindex(bytes(o), k)
        if isinstance(o, str):
            return str_getitem(SymStr([o]), k)
        return o[k]
    if type(k) is slice:
        if isinstance(k.start, Sym) or isinstance(k.stop, Sym) or isinstance(k.step, Sym):
            if isinstance(o, (bytes, bytearray)):
                return bslice(bytes(o), k.start, k.stop, k.step)
            if isinstance(o, str):
                return str_getitem(SymStr([o]), k)
        return o[k]
    if isinstance(o, dict) and type(o).__getitem__ is dict.__getitem__ and has_sym_keys(o):
        key = dfind(o, k)
        if key is _MISSING:
            raise KeyError(k)
        return dict.__getitem__(o, key)
    if type(k) is tuple and any_sym(k) and isinstance(o, dict):
        key = dfind(o, k)
        if key is _MISSING:
            raise KeyError(k)
        return dict.__getitem__(o, key)
    return o[k]


def index_of(k, n):
    """concrete position for a symbolic index into a sequence of length n (forks; out of range stays symbolic)"""
    if k < 0:
        k2 = k + n
        if k2 < 0:
            raise IndexError('list index out of range')
        k = k2
    if isinstance(k, int):
        return k
    if k >= n:
        raise IndexError('list index out of range')
    for i in range(n):
        if k == i:
            return i
    raise PathCut('index')


def setitem(v, o, k):
    if isinstance(o, dict) and type(o).__setitem__ is dict.__setitem__ and (isinstance(k, Sym) or (type(k) is tuple and any_sym(k)) or has_sym_keys(o)):
        key = dfind(o, k)
        if key is _MISSING:
            o[k] = v
        else:
            dict.__setitem__(o, key, v)
        return
    if isinstance(o, list) and isinstance(k, SymInt):
        o[index_of(k, len(o))] = v
        return
    o[k] = v


def delitem(o, k):
    if isinstance(o, dict) and (isinstance(k, Sym) or has_sym_keys(o)):
        key = dfind(o, k)
        if key is _MISSING:
            raise KeyError(k)
        ddel(o, key)
        return
    del o[k]


_IOPS = {'Add': operator.iadd, 'Sub': operator.isub, 'Mult': operator.imul, 'BitXor': operator.ixor, 'BitOr': operator.ior,
         'BitAnd': operator.iand, 'LShift': operator.ilshift, 'RShift': operator.irshift, 'FloorDiv': operator.ifloordiv,
         'Div': operator.itruediv, 'Pow': operator.ipow, 'MatMult': operator.imatmul}


def aug(o, k, op, v):
    x = getitem(o, k)
    r = mod(x, v) if op == 'Mod' else _IOPS[op](x, v)
    setitem(r, o, k)


# ------------------------------------------------------------------ containment, bool identity
def contains(x, o):
    if isinstance(o, SymSet):
        return o.has(x)
    if isinstance(o, (str, SymStr)):
        if isinstance(x, Sym) or isinstance(o, Sym):
            if not isinstance(x, (str, SymStr)):
                raise TypeError("'in <string>' requires string as left operand, not %s" % pytype(x).__name__)
            return str_contains(o, x)
        return x in o
    if isinstance(o, dict) and type(o).__contains__ is dict.__contains__:
        return dfind(o, x) is not _MISSING
    if isinstance(o, (set, frozenset)):
        if isinstance(x, Sym) or any_sym(o):
            return or_(*[_eqb(y, x) for y in o])
        return x in o
    if isinstance(o, type({}.keys())) and (isinstance(x, Sym) or any_sym(list(o))):
        return or_(*[_eqb(y, x) for y in o])
    if isinstance(o, (list, tuple)) and (isinstance(x, Sym) or any_sym(o)):
        return or_(*[_eqb(y, x) for y in o])
    if isinstance(o, (bytes, bytearray)) and isinstance(x, Sym):
        return or_(*[_eqb(y, x) for y in o]) if isinstance(x, SymInt) else realise(x, 'bytes in') in o
    return x in o


def _eqb(a, b):
    if a is b:
        return True
    r = a == b
    if r is NotImplemented:
        return False
    return r


def notin(x, o):
    return not_(contains(x, o))


def isbool(x, c, pos):
    if isinstance(x, SymBool):
        r = x if c else not_(x)
        return r if pos else not_(r)
    return (x is c) if pos else (x is not c)


# ------------------------------------------------------------------ formatting
def py_str(x=_MISSING, *a, **k):
    if x is _MISSING:
        return ''
    if a or k:
        return mcall(x, 'decode', *a, **k)
    if isinstance(x, str) and type(x).__str__ is str.__str__:
        return str(x)
    if isinstance(x, Sym):
        return x.text() if hasattr(x, 'text') and type(x).__name__ == 'SymUUID' else to_text(x)
    if isinstance(x, BaseException) and type(x).__str__ in (BaseException.__str__, Exception.__str__):
        if len(x.args) == 0:
            return ''
        if len(x.args) == 1:
            return py_str(x.args[0])
        return py_repr(x.args)
    f = type(x).__str__
    if f is object.__str__:
        return py_repr(x)
    if type(f) is FunctionType:
        return f(x)
    if isinstance(x, (list, tuple, dict, set)):
        return py_repr(x)
    return str(x)


def py_repr(x):
    if isinstance(x, Sym):
        if isinstance(x, SymInt):
            return to_text(x)
        if isinstance(x, SymBool):
            return repr(bool(x))
        return SymStr([Opq('repr', x)])
    t = type(x)
    if t in (list, tuple):
        parts = [py_repr(y) for y in x]
        if not any_sym(parts):
            return repr(x) if all(type(y) in _simple for y in x) else (
                '[' + ', '.join(parts) + ']' if t is list else '(' + ', '.join(parts) + (',)' if len(parts) == 1 else ')'))
        body = join(', ', parts)
        return ('[' + body + ']') if t is list else ('(' + body + (',)' if len(parts) == 1 else ')'))
    if t is dict and any_sym([x]):
        body = join(', ', [py_repr(k) + ': ' + py_repr(v) for k, v in x.items()])
        return '{' + body + '}'
    f = t.__repr__
    if type(f) is FunctionType:
        return f(x)
    return repr(x)


def py_format(x, spec=''):
    if isinstance(spec, Sym):
        spec = realise(spec)
    if spec == '' or (spec == 's' and isinstance(x, (str, SymStr))) or (spec == 'd' and isinstance(x, SymInt)):
        f = type(x).__format__
        if isinstance(x, Sym) or f is object.__format__:
            return py_str(x)
        if type(f) is FunctionType:
            return f(x, spec)
        return format(x, spec)
    if isinstance(x, SymInt):
        import re
        m = re.fullmatch(r'0?(\d*)([xX])', spec)
        if m and m.group(1):
            n = int(m.group(1))
            if (x >= 0) and (x < 16 ** n):
                return SymStr([Opq('hex' if m.group(2) == 'x' else 'HEX', (x, n))])
    return format(realise(x, 'format spec'), spec)


def fmt_value(v, conv, spec):
    if conv == 114:
        v = py_repr(v)
    elif conv == 115:
        v = py_str(v)
    elif conv == 97:
        v = ascii(realise(v))
    return py_format(v, spec)


def cat(*parts):
    return mkstr([s for p in parts for s in (p.segs if isinstance(p, SymStr) else ([p] if p else []))])


_FMT = string.Formatter()


def str_format(s, a, k):
    if all(type(x) in _simple for x in a) and all(type(x) in _simple for x in k.values()):
        return s.format(*a, **k)
    out, auto = [], 0
    for lit, field, spec, conv in _FMT.parse(s):
        if lit:
            out.append(lit)
        if field is None:
            continue
        import _string
        first, rest = _string.formatter_field_name_split(field)
        if first == '':
            first = auto
            auto += 1
        v = a[first] if isinstance(first, int) else k[first]
        for is_attr, i in rest:
            v = getattr(v, i) if is_attr else getitem(v, i)
        if spec and '{' in spec:
            spec = str_format(spec, a[auto:] if auto else a, k)
        v = fmt_value(v, {'r': 114, 's': 115, 'a': 97}.get(conv, -1), spec or '')
        out += v.segs if isinstance(v, SymStr) else [v]
    return mkstr(out)


_PCT = None


def mod(l, r):
    if isinstance(l, SymStr):
        return realise(l, '%') % realise(r, '%')
    if isinstance(l, str):
        args = r if type(r) is tuple else (r,)
        if all(type(x) in _simple for x in args):
            return l % r
        import re
        out, i, pos = [], 0, 0
        for m in re.finditer(r'%(?:\((\w+)\))?([#0\- +]*)(\d*)(?:\.(\d+))?([%a-zA-Z])', l):
            out.append(l[pos:m.start()])
            pos = m.end()
            if m.group(5) == '%':
                out.append('%')
                continue
            if m.group(1) is not None:
                v = getitem(r, m.group(1))
            else:
                if i >= len(args):
                    raise TypeError('not enough arguments for format string')
                v = args[i]
                i += 1
            c = m.group(5)
            if c == 's':
                v = py_str(v)
            elif c == 'r':
                v = py_repr(v)
            elif c in 'di' and isinstance(v, (SymInt, SymBool)) and not m.group(2) and not m.group(3):
                v = to_text(v)
            elif c in 'di' and isinstance(v, (SymStr, SymBytes)):
                raise TypeError('%%%s format: a real number is required, not str' % c)
            elif c in 'xX' and isinstance(v, SymInt) and m.group(3) and '0' in m.group(2):
                v = py_format(v, '0' + m.group(3) + c)
            else:
                spec = '%' + (m.group(2) or '') + (m.group(3) or '') + ('.' + m.group(4) if m.group(4) else '') + c
                v = spec % (realise(v, '%'),)
            if (m.group(3) or m.group(4)) and c in 'sr':
                spec = '%' + (m.group(2) or '') + (m.group(3) or '') + ('.' + m.group(4) if m.group(4) else '') + 's'
                v = spec % (realise(v, '%'),)
            out += v.segs if isinstance(v, SymStr) else [v]
        out.append(l[pos:])
        return mkstr(out)
    return l % r


def repeat(o, n):
    """o * n with symbolic n"""
    if isinstance(o, (bytes, SymBytes)):
        return brepeat(o, n)
    return o * n.__index__()


# ------------------------------------------------------------------ sets with symbolic members
class SymSet:
    def __init__(self, xs=()):
        self.xs = []
        for x in xs:
            self.add(x)

    def has(self, x):
        return or_(*[_tup_eq(y, x) for y in self.xs])

    def add(self, x):
        if not self.has(x):
            self.xs.append(x)

    def discard(self, x):
        self.xs = [y for y in self.xs if not _tup_eq(y, x)]

    def remove(self, x):
        n = len(self.xs)
        self.discard(x)
        if len(self.xs) == n:
            raise KeyError(x)

    def update(self, *its):
        for it in its:
            for x in it:
                self.add(x)

    def __contains__(self, x):
        return bool(self.has(x))

    def __iter__(self):
        return iter(list(self.xs))

    def __len__(self):
        return len(self.xs)

    def __bool__(self):
        return bool(self.xs)

    def __or__(self, o):
        return SymSet(list(self.xs) + list(o))
    __ror__ = __or__
    union = __or__

    def __and__(self, o):
        return SymSet([x for x in self.xs if contains(x, o)])
    intersection = __and__

    def __sub__(self, o):
        return SymSet([x for x in self.xs if not contains(x, o)])
    difference = __sub__

    def __rsub__(self, o):
        return SymSet([x for x in o if not self.has(x)])

    def issubset(self, o):
        return and_(*[contains(x, o) for x in self.xs])
    __le__ = issubset

    def __eq__(self, o):
        return and_(*[contains(x, o) for x in self.xs], *[contains(x, self) for x in o])

    def __ne__(self, o):
        return not_(self == o)

    __hash__ = None


def _tup_eq(a, b):
    if a is b:
        return True
    if type(a) is tuple and type(b) is tuple:
        if len(a) != len(b):
            return False
        return and_(*[_tup_eq(x, y) for x, y in zip(a, b)])
    return _eqb(a, b)


# ------------------------------------------------------------------ builtins of instrumented modules
REAL_IMPORT = builtins.__import__
IMPORT_MAP = {}         # module name -> model module


def sx_import(name, globals=None, locals=None, fromlist=(), level=0):
    if level == 0 and name in IMPORT_MAP:
        m = IMPORT_MAP[name]
        if fromlist:
            return m
        top = name.split('.')[0]
        return IMPORT_MAP.get(top, m)
    return REAL_IMPORT(name, globals, locals, fromlist, level)


def merge_if(v):
    """condition of a conditional assignment: in words mode both sides are taken and merged"""
    if isinstance(v, (SymInt, SymBool)):
        wd = cur().reg.get('words') if cur() is not None else None
        if wd is not None:
            if isinstance(v, SymInt):
                if v.bv is None:
                    return v
                v = SymBool(v.bv != 0)
            r = wd.norm(z3.simplify(v.e))
            return v if r is None else r
    return v


def logic(conj, *fs):
    """and / or / not of a condition whose branches may be merged"""
    wd = cur().reg.get('words') if cur() is not None else None
    if conj is None:
        v = fs[0]()
        v = merge_if(v) if wd is not None else v
        return not_(v) if wd is not None and isinstance(v, SymBool) else not v
    acc = []
    for f in fs:
        v = f()
        v = merge_if(v) if wd is not None else v
        if isinstance(v, SymBool) and wd is not None:
            acc.append(v)
        elif bool(v) != conj:
            return v
    if not acc:
        return v
    return merge_if((and_ if conj else or_)(*acc))


def is_merge(c):
    return isinstance(c, SymBool) and cur() is not None and cur().reg.get('words') is not None


def ifexp(c, a, b):
    c = merge_if(c)
    if is_merge(c):
        return ite(c, a(), b())
    return a() if c else b()


BUILTINS = dict(vars(builtins))
BUILTINS.update({
    '__import__': sx_import,
    '_sx_call_': call, '_sx_mcall_': mcall, '_sx_get_': getitem, '_sx_set_': setitem, '_sx_del_': delitem, '_sx_aug_': aug,
    '_sx_slice_': mkslice, '_sx_if_': merge_if, '_sx_ismerge_': is_merge, '_sx_ite_': ite, '_sx_ifexp_': ifexp, '_sx_logic_': logic, '_sx_in_': contains, '_sx_notin_': notin, '_sx_isbool_': isbool, '_sx_mod_': mod,
    '_sx_fv_': fmt_value, '_sx_cat_': cat, '_sx_control_': SxControl,
})
