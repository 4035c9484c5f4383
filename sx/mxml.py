"""Model of the parts of lxml.etree / lxml.builder that pykeepass can reach, over symbolic text.

Fully concrete serialisation/parsing is delegated to the real lxml."""
import copy as _copy, re, z3
from functools import partial
from .core import Unsupported, PathCut, cur
from .vals import (Sym, SymBool, SymInt, SymStr, Atom, Opq, mkbool, and_, or_, not_, realise, str_eq, str_len_nonzero, is_sym,
                   XML_VALID, str_len, intx, conc)
from .byt import SymBytes, blob, bdecode, Blob, Sl, mkbytes, utf8_of, blen, Vec, bindex
from lxml import etree as real
from lxml.builder import E as realE

TEXT_LIMIT = 10_000_000
DEPTH_LIMIT = 256


class LxmlError(Exception):
    pass


XMLSyntaxError = real.XMLSyntaxError
XPathError = real.XPathError
XPathEvalError = real.XPathEvalError
XPathSyntaxError = real.XPathSyntaxError
ParseError = real.ParseError
LxmlError = real.LxmlError
Error = real.Error
XMLSchemaError = getattr(real, 'XMLSchemaError', None)

_bad = re.compile('[^\u0009\u000a\u000d\u0020-\ud7ff\ue000-\ufffd\U00010000-\U0010ffff]')
_MSG = 'All strings must be XML compatible: Unicode or ASCII, no NULL bytes or control characters'


def check_text(v):
    """value -> text as lxml stores it"""
    if v is None:
        return None
    if isinstance(v, (bytes, bytearray)):
        try:
            v = bytes(v).decode('ascii')
        except UnicodeDecodeError:
            try:
                v = bytes(v).decode('utf-8')
                raise ValueError(_MSG)
            except UnicodeDecodeError:
                raise ValueError(_MSG)
    elif isinstance(v, SymBytes):
        v = bdecode(v, 'ascii')
    if isinstance(v, str):
        for ch in v:
            if 0xD800 <= ord(ch) <= 0xDFFF:
                v.encode('utf-8')       # raises UnicodeEncodeError like lxml
        if _bad.search(v):
            raise ValueError(_MSG)
        return v
    if isinstance(v, SymStr):
        for s in v.segs:
            if isinstance(s, str):
                check_text(s)
            elif isinstance(s, Atom) and not s.valid:
                if not cur().branch(z3.InRe(s.t, XML_VALID)):
                    raise ValueError(_MSG)
            elif isinstance(s, Opq) and s.kind == 'utf8dec':
                eng = cur()
                f = z3.Bool('xmlok!%d' % eng.reg.setdefault(('xmlok', id(s)), (len(eng.reg), s))[0])
                if not eng.branch(f):
                    raise ValueError(_MSG)
        return v
    if isinstance(v, CDATA):
        return v.text
    raise TypeError('Argument must be bytes or unicode, got %r' % type(v).__name__)


class CDATA:
    def __init__(self, text):
        self.text = check_text(text)


class _Attrib:
    """ordered attribute mapping"""
    def __init__(self, el):
        self._el = el

    @property
    def _d(self):
        return self._el._attrs

    def _k(self, k):
        if is_sym(k):
            k = realise(k, 'attribute name')
        return k.decode() if isinstance(k, bytes) else k

    def __getitem__(self, k):
        return self._d[self._k(k)]

    def __setitem__(self, k, v):
        if v is None:
            raise TypeError("Argument must be bytes or unicode, got 'NoneType'")
        self._d[self._k(k)] = check_text(v)

    def __delitem__(self, k):
        del self._d[self._k(k)]

    def get(self, k, d=None):
        return self._d.get(self._k(k), d)

    def pop(self, k, *d):
        return self._d.pop(self._k(k), *d)

    def has_key(self, k):
        return self._k(k) in self._d

    def __contains__(self, k):
        return self._k(k) in self._d

    def __iter__(self):
        return iter(list(self._d))

    def __len__(self):
        return len(self._d)

    def __bool__(self):
        return bool(self._d)

    def keys(self):
        return list(self._d)

    def values(self):
        return list(self._d.values())

    def items(self):
        return list(self._d.items())

    def update(self, o, **k):
        for a, b in (o.items() if hasattr(o, 'items') else o):
            self[a] = b
        for a, b in k.items():
            self[a] = b

    def clear(self):
        self._d.clear()

    def setdefault(self, k, v):
        if k not in self:
            self[k] = v
        return self[k]

    def __repr__(self):
        return repr(self._d)

    def __copy__(self):
        return dict(self._d)

    def __deepcopy__(self, memo):
        return dict(self._d)


class _Element:
    def __init__(self, tag):
        self._tag = tag
        self._text = None       # None | str | SymStr
        self._reparsed = False  # text came from the parser: empty means absent
        self._tail = None
        self._attrs = {}
        self._kids = []
        self._parent = None

    # unmodelled lxml API must not look like an AttributeError of the code under test
    def __getattr__(self, name):
        if name.startswith('_') and not hasattr(real._Element, name):
            raise AttributeError(name)
        if hasattr(real._Element, name):
            raise Unsupported('lxml _Element.' + name)
        raise AttributeError("'lxml.etree._Element' object has no attribute %r" % name)

    @property
    def tag(self):
        return self._tag

    @tag.setter
    def tag(self, v):
        self._tag = v

    @property
    def text(self):
        t = self._text
        if t is None:
            return None
        if self._reparsed and not isinstance(t, str):
            if not str_len_nonzero(t):
                self._text = None
                return None
        elif self._reparsed and t == '':
            return None
        return t

    @text.setter
    def text(self, v):
        self._text = None       # lxml has removed the old text by the time it looks at the new one
        self._reparsed = False
        self._text = check_text(v)

    @property
    def tail(self):
        return self._tail

    @tail.setter
    def tail(self, v):
        self._tail = None
        self._tail = check_text(v)

    @property
    def attrib(self):
        return _Attrib(self)

    def get(self, k, d=None):
        return self.attrib.get(k, d)

    def set(self, k, v):
        self.attrib[k] = v

    def keys(self):
        return list(self._attrs)

    def values(self):
        return list(self._attrs.values())

    def items(self):
        return list(self._attrs.items())

    # ---- structure
    def _check_child(self, c):
        if not isinstance(c, _Element):
            raise TypeError("Argument 'element' has incorrect type (expected lxml.etree._Element, got %s)" % type(c).__name__)
        a = self
        while a is not None:
            if a is c:
                raise ValueError('cannot append parent to itself')
            a = a._parent

    def _detach(self):
        p = self._parent
        if p is not None:
            p._kids.pop(next(i for i, k in enumerate(p._kids) if k is self))
            self._parent = None

    def append(self, c):
        self._check_child(c)
        c._detach()
        self._kids.append(c)
        c._parent = self

    def extend(self, cs):
        for c in list(cs):
            self.append(c)

    def insert(self, i, c):
        if not isinstance(c, _Element):
            raise TypeError("Argument 'element' has incorrect type")
        if is_sym(i):
            i = i.__index__()
        n = len(self._kids)
        if i < 0:
            i += n
            if i < 0:
                i = 0 if not self._kids else 0
        if i >= n:
            self.append(c)
            return
        ref = self._kids[i]
        if ref is c:
            return
        self._check_child(c)
        c._detach()
        j = next(k for k, x in enumerate(self._kids) if x is ref)
        self._kids.insert(j, c)
        c._parent = self

    def remove(self, c):
        if not isinstance(c, _Element):
            raise TypeError("Argument 'element' has incorrect type (expected lxml.etree._Element, got %s)" % type(c).__name__)
        if c._parent is not self:
            raise ValueError('Element is not a child of this node.')
        c._detach()

    def replace(self, old, new):
        if old._parent is not self:
            raise ValueError('Element is not a child of this node.')
        if new is old:
            return
        self._check_child(new)
        new._detach()
        i = next(k for k, x in enumerate(self._kids) if x is old)
        self._kids[i] = new
        new._parent = self
        old._parent = None

    def clear(self, keep_tail=False):
        for k in list(self._kids):
            k._detach()
        self._text = None
        self._attrs.clear()
        if not keep_tail:
            self._tail = None

    def addnext(self, e):
        if self._parent is None:
            raise TypeError('Only processing instructions and comments can be siblings of the root element')
        self._parent._check_child(e)
        if e is self:
            return
        e._detach()
        p = self._parent
        i = next(k for k, x in enumerate(p._kids) if x is self)
        p._kids.insert(i + 1, e)
        e._parent = p

    def addprevious(self, e):
        if self._parent is None:
            raise TypeError('Only processing instructions and comments can be siblings of the root element')
        self._parent._check_child(e)
        if e is self:
            return
        e._detach()
        p = self._parent
        i = next(k for k, x in enumerate(p._kids) if x is self)
        p._kids.insert(i, e)
        e._parent = p

    def getparent(self):
        return self._parent

    def getchildren(self):
        return list(self._kids)

    def getnext(self):
        p = self._parent
        if p is None:
            return None
        i = next(k for k, x in enumerate(p._kids) if x is self)
        return p._kids[i + 1] if i + 1 < len(p._kids) else None

    def getprevious(self):
        p = self._parent
        if p is None:
            return None
        i = next(k for k, x in enumerate(p._kids) if x is self)
        return p._kids[i - 1] if i > 0 else None

    def index(self, c, start=None, stop=None):
        for i, k in enumerate(self._kids):
            if k is c:
                if (start is not None and i < start) or (stop is not None and i >= stop):
                    break
                return i
        raise ValueError('Element is not a child of this node.')

    def __len__(self):
        return len(self._kids)

    def __bool__(self):
        return bool(self._kids)

    def __iter__(self):
        return iter(list(self._kids))

    def __reversed__(self):
        return reversed(list(self._kids))

    def __getitem__(self, i):
        if is_sym(i):
            i = i.__index__()
        return self._kids[i]

    def __setitem__(self, i, c):
        if is_sym(i):
            i = i.__index__()
        if isinstance(i, slice):
            old = self._kids[i]
            new = list(c)
            for o in old:
                o._parent = None
            for k in new:
                if k._parent is not None:
                    k._detach()
                k._parent = self
            self._kids[i] = new
            return
        self.replace(self._kids[i], c)

    def __delitem__(self, i):
        if is_sym(i):
            i = i.__index__()
        if isinstance(i, slice):
            for k in self._kids[i]:
                k._detach()
            return
        self._kids[i]._detach()

    def __contains__(self, e):
        return any(k is e for k in self._kids)

    __hash__ = object.__hash__

    def __eq__(self, o):
        return self is o

    def __ne__(self, o):
        return self is not o

    # ---- iteration
    def _walk(self):
        yield self
        for k in list(self._kids):
            yield from k._walk()

    @staticmethod
    def _tags(tag, tags):
        ts = [t for t in ((tag,) if tag is not None else ()) + tuple(tags) if t is not None]
        out = []
        for t in ts:
            out += list(t) if isinstance(t, (list, tuple, set)) else [t]
        return out

    def iter(self, tag=None, *tags):
        ts = self._tags(tag, tags)
        for e in list(self._walk()):
            if not ts or '*' in ts or e._tag in ts:
                yield e

    def iterdescendants(self, tag=None, *tags):
        for e in self.iter(tag, *tags):
            if e is not self:
                yield e

    def iterchildren(self, tag=None, *tags, reversed=False):
        ts = self._tags(tag, tags)
        ks = list(self._kids)
        if reversed:
            ks.reverse()
        for e in ks:
            if not ts or '*' in ts or e._tag in ts:
                yield e

    def iterancestors(self, tag=None, *tags):
        ts = self._tags(tag, tags)
        p = self._parent
        while p is not None:
            if not ts or '*' in ts or p._tag in ts:
                yield p
            p = p._parent

    def itersiblings(self, tag=None, *tags, preceding=False):
        ts = self._tags(tag, tags)
        e = self.getprevious() if preceding else self.getnext()
        while e is not None:
            if not ts or '*' in ts or e._tag in ts:
                yield e
            e = e.getprevious() if preceding else e.getnext()

    def itertext(self, tag=None, *tags, with_tail=True):
        def go(e):
            if e.text is not None:
                yield e.text
            for k in e._kids:
                yield from go(k)
                if k._tail is not None:
                    yield k._tail
        yield from list(go(self))

    # ---- ElementPath
    def iterfind(self, path, namespaces=None):
        return iter(self.findall(path, namespaces))

    def findall(self, path, namespaces=None):
        if is_sym(path):
            path = realise(path, 'ElementPath')
        if '[' in path:
            # predicates of ElementPath: [tag] [tag='text'] [@a] [@a='v'] [n]
            return _elementpath_pred(self, path)
        return _elementpath(self, path)

    def find(self, path, namespaces=None):
        r = self.findall(path)
        return r[0] if r else None

    def findtext(self, path, default=None, namespaces=None):
        e = self.find(path)
        if e is None:
            return default
        return e.text if e.text is not None else ''

    def xpath(self, q, namespaces=None, extensions=None, smart_strings=True, **vars):
        from .mxpath import evaluate
        return evaluate(q, self, vars, root_of(self))

    def getroottree(self):
        r = self
        while r._parent is not None:
            r = r._parent
        return _ElementTree(r)

    def makeelement(self, tag, attrib=None, nsmap=None, **extra):
        return Element(tag, attrib, **extra)

    @property
    def nsmap(self):
        return {}

    @property
    def prefix(self):
        return None

    @property
    def sourceline(self):
        return None

    def __copy__(self):
        return self.__deepcopy__({})

    def __deepcopy__(self, memo):
        n = _Element(self._tag)
        n._text, n._reparsed, n._tail = self._text, self._reparsed, self._tail
        n._attrs = dict(self._attrs)
        for k in self._kids:
            c = k.__deepcopy__(memo)
            c._parent = n
            n._kids.append(c)
        return n

    def __repr__(self):
        return '<Element %s at 0x%x>' % (self._tag, 0)


def root_of(e):
    while e._parent is not None:
        e = e._parent
    return e


def _elementpath(ctx, path):
    if path.startswith('/'):
        raise SyntaxError('cannot use absolute path on element')
    cur_ = [ctx]
    toks = re.findall(r'//|/|[^/]+', path)
    desc = False
    for t in toks:
        if t == '//':
            desc = True
            continue
        if t == '/':
            continue
        nxt = []
        for e in cur_:
            if t == '.':
                nxt.append(e)
            elif t == '..':
                if e._parent is not None:
                    nxt.append(e._parent)
            elif desc:
                nxt += [x for x in e.iterdescendants() if t == '*' or x._tag == t]
            else:
                nxt += [x for x in e._kids if t == '*' or x._tag == t]
        desc = False
        cur_ = nxt
    if desc:
        raise SyntaxError('invalid path')
    return cur_


def _elementpath_pred(ctx, path):
    from .mxpath import evaluate
    # translate to XPath: [tag='text'] compares the full text content
    q = re.sub(r"\[([A-Za-z_][\w]*)\s*=\s*('[^']*'|\"[^\"]*\")\]", r'[\1=\2]', path)
    if not q.startswith('.'):
        q = './' + q
    return evaluate(q, ctx, {}, root_of(ctx))


class _ElementTree:
    def __init__(self, root=None):
        self._root = root

    def __getattr__(self, name):
        if hasattr(real._ElementTree, name):
            raise Unsupported('lxml _ElementTree.' + name)
        raise AttributeError("'lxml.etree._ElementTree' object has no attribute %r" % name)

    def getroot(self):
        return self._root

    def _setroot(self, r):
        self._root = r

    def xpath(self, q, namespaces=None, extensions=None, smart_strings=True, **vars):
        from .mxpath import evaluate
        return evaluate(q, self._root, vars, self._root, doc=True)

    def getpath(self, e):
        # positional path, as libxml2 prints it
        parts = []
        while e is not None:
            p = e._parent
            if p is not None:
                same = [k for k in p._kids if k._tag == e._tag]
                parts.append('%s[%d]' % (e._tag, [i for i, k in enumerate(same) if k is e][0] + 1) if len(same) > 1 else e._tag)
            else:
                parts.append(e._tag)
            e = p
        return '/' + '/'.join(reversed(parts))

    getelementpath = getpath

    def iter(self, tag=None, *tags):
        return self._root.iter(tag, *tags)

    def _strip(self, path):
        if path.startswith('/'):
            path = '.' + path
        return path

    def find(self, path, namespaces=None):
        return self._root.find(self._strip(path))

    def findall(self, path, namespaces=None):
        return self._root.findall(self._strip(path))

    def iterfind(self, path, namespaces=None):
        return iter(self.findall(path))

    def findtext(self, path, default=None, namespaces=None):
        return self._root.findtext(self._strip(path), default)

    def write(self, f, **kw):
        data = tostring(self, **kw)
        if hasattr(f, 'write'):
            f.write(data)
        else:
            raise Unsupported('ElementTree.write to path')

    def __deepcopy__(self, memo):
        return _ElementTree(_copy.deepcopy(self._root))

    def __copy__(self):
        return _ElementTree(_copy.deepcopy(self._root))

    def getroottree(self):
        return self


def Element(tag, attrib=None, nsmap=None, **extra):
    if is_sym(tag):
        tag = realise(tag, 'tag name')
    real.Element(tag)        # validates the tag name like lxml
    e = _Element(tag)
    for k, v in dict(attrib or {}, **extra).items():
        e.attrib[k] = v
    return e


def SubElement(parent, tag, attrib=None, nsmap=None, **extra):
    e = Element(tag, attrib, **extra)
    parent.append(e)
    return e


def ElementTree(element=None, file=None, parser=None):
    return _ElementTree(element)


def iselement(x):
    return isinstance(x, _Element)


class XMLParser:
    OPTS = ('remove_blank_text', 'huge_tree', 'recover', 'resolve_entities', 'remove_comments', 'remove_pis', 'strip_cdata', 'encoding',
            'no_network', 'ns_clean', 'load_dtd', 'dtd_validation', 'compact', 'collect_ids', 'attribute_defaults', 'schema', 'target')

    def __init__(self, **kw):
        real.XMLParser(**{k: v for k, v in kw.items()})
        self.kw = kw

    def make(self):
        return real.XMLParser(**self.kw)


class ElementMaker:
    def __init__(self, **kw):
        if kw:
            raise Unsupported('ElementMaker options')

    def __call__(self, tag, *children, **attrib):
        e = Element(tag)
        for k, v in attrib.items():
            if not isinstance(v, (str, SymStr, bytes, SymBytes)):
                raise KeyError(type(v))
            e.attrib[k] = v
        for item in children:
            if callable(item) and not isinstance(item, Sym):
                item = item()
            if isinstance(item, (str, SymStr)):
                if e._kids:
                    l = e._kids[-1]
                    l.tail = (l.tail or '') + item
                else:
                    t = e._text
                    e.text = (t if t is not None else '') + item
            elif isinstance(item, _Element):
                e.append(item)
            elif isinstance(item, dict):
                for k, v in item.items():
                    e.attrib[k] = v
            elif isinstance(item, CDATA):
                e.text = item.text
            else:
                raise TypeError('bad argument type: %s(%r)' % (type(item).__name__, None))
        return e

    def __getattr__(self, tag):
        if tag.startswith('__'):
            raise AttributeError(tag)
        return partial(self, tag)


E = ElementMaker()


# ------------------------------------------------------------------ serialise / parse
def tree_sym(e):
    for x in e._walk():
        if is_sym(x._text) or is_sym(x._tail) or any(is_sym(v) for v in x._attrs.values()):
            return True
    return False


def to_real(e, m=None, first=True):
    r = real.Element(e._tag)
    f = (lambda v: conc(v, m)) if m is not None else (lambda v: v)
    t = f(e._text)
    if t is not None and not (e._reparsed and t == ''):
        r.text = t
    for k, v in e._attrs.items():
        r.set(k, f(v))
    for k in e._kids:
        r.append(to_real(k, m, False))
    if e._tail is not None:
        r.tail = f(e._tail)
    return r


def from_real(r, reparsed=True):
    if not isinstance(r.tag, str):
        return None
    e = _Element(r.tag)
    e._text = r.text
    e._tail = r.tail
    e._reparsed = reparsed
    e._attrs = dict(r.attrib)
    for k in r:
        c = from_real(k, reparsed)
        if c is None:
            continue
        c._parent = e
        e._kids.append(c)
    return e


def tostring(x, **kw):
    root = x._root if isinstance(x, _ElementTree) else x
    if not isinstance(root, _Element):
        raise TypeError("Type '%s' cannot be serialized." % type(x).__name__)
    if not tree_sym(root):
        r = to_real(root)
        return real.tostring(r.getroottree() if isinstance(x, _ElementTree) else r, **kw)
    enc = kw.get('encoding')
    if kw.get('method', 'xml') not in ('xml', 'c14n') or enc is str or enc == 'unicode':
        r = to_real(realise_tree(root))
        return real.tostring(r, **kw)
    snap = _copy.deepcopy(root)
    eng = cur()
    n = z3.Int(eng.fresh('xmllen'))
    eng.add(z3.And(n >= 20, n <= eng.reg.get('xml_max', 2 ** 20 - 4096)))
    syms = []

    def one(v):
        if is_sym(v):
            syms.append(v)
            return 'Q'
        return v
    c = _copy.deepcopy(root)
    for e in c._walk():
        e._text, e._tail = one(e._text), one(e._tail)
        for k in list(e._attrs):
            e._attrs[k] = one(e._attrs[k])
    r = to_real(c)
    const = len(real.tostring(r.getroottree() if isinstance(x, _ElementTree) else r, **kw)) - len(syms)
    total, exact = const, True
    for v in syms:
        for q in v.segs:
            if isinstance(q, str) and q.isalnum() and q.isascii():
                total = total + len(q)
            elif isinstance(q, Opq) and q.kind == 'b64':
                k = blen(q.v)
                total = total + (k + 2) // 3 * 4
            elif not isinstance(q, str):
                exact = False
    tz = z3.IntVal(total) if isinstance(total, int) else total.e
    eng.add(n == tz if exact else n >= tz)
    return blob('xml', (snap, bool(kw.get('pretty_print'))), SymInt(n))


def realise_tree(root):
    c = _copy.deepcopy(root)
    for x in c._walk():
        x._text = realise(x._text, 'serialise')
        x._tail = realise(x._tail, 'serialise')
        for k in list(x._attrs):
            x._attrs[k] = realise(x._attrs[k], 'serialise')
    return c


def trees_equal(a, b):
    if a is b:
        return True
    if a._tag != b._tag or len(a._kids) != len(b._kids) or set(a._attrs) != set(b._attrs):
        return False
    cs = []

    def te(x, y):
        if x is None or y is None:
            if x is None and y is None:
                return True
            o = y if x is None else x
            return not_(str_len_nonzero(o)) if is_sym(o) else o == ''
        return str_eq(x, y)
    cs.append(te(a._text, b._text))
    for k in a._attrs:
        cs.append(str_eq(a._attrs[k], b._attrs[k]))
    for x, y in zip(a._kids, b._kids):
        c = trees_equal(x, y)
        if c is False:
            return False
        cs.append(c)
    return False if any(c is False for c in cs) else and_(*cs)


def _parse_bytes(data, parser, base=None):
    """-> root element"""
    p = parser.kw if parser is not None else {}
    if isinstance(data, (bytes, bytearray, str)):
        rp = parser.make() if parser is not None else None
        return from_real(real.fromstring(data if isinstance(data, str) else bytes(data), rp))
    segs = data.segs if isinstance(data, SymBytes) else None
    if segs and len(segs) == 1 and isinstance(segs[0], Sl) and segs[0].full and segs[0].b.kind == 'xml':
        snap, pretty = segs[0].b.args
        root = _copy.deepcopy(snap)
        if not p.get('huge_tree'):
            limits(root)
        for x in root._walk():
            x._reparsed = True
            if x._text is not None and x._kids and p.get('remove_blank_text') and isinstance(x._text, str) and not x._text.strip():
                x._text = None
            if pretty and not p.get('remove_blank_text') and x._kids and x._text is None:
                x._text = '\n' + '  '
        return root
    eng = cur()
    if segs and any(isinstance(s, Sl) and s.b.kind in ('garbage', 'in', 'dec', 'stream', 'enc') for s in segs):
        eng.stats.note('ideal: bytes that are not a serialised document do not parse as XML')
        raise XMLSyntaxError("Start tag expected, '<' not found", 4, 1, 1)
    if isinstance(data, SymBytes) and all(isinstance(s, (bytes, Vec)) for s in segs) and blen(data) > 0:
        # no document starts with any other byte, in any encoding
        from .vals import or_
        b = bindex(data, 0)
        if not or_(*[b == k for k in (0x3c, 9, 10, 13, 32, 0xef, 0xfe, 0xff, 0, 0x4c)]):
            raise XMLSyntaxError("Start tag expected, '<' not found", 4, 1, 1)
    conc_ = realise(data, 'xml parse')
    return from_real(real.fromstring(conc_, parser.make() if parser is not None else None))


def limits(root):
    """libxml2 refuses text nodes over 10,000,000 bytes and documents deeper than 256 levels unless huge_tree"""
    for x in root._walk():
        t = x._text
        if t is None:
            continue
        n = len(t.encode('utf-8', 'surrogatepass')) if isinstance(t, str) else None
        if n is None:
            n = blen(utf8_of(t))
        if isinstance(n, SymInt):
            big = cur().branch(n.e > TEXT_LIMIT)
        else:
            big = n > TEXT_LIMIT
        if big:
            raise XMLSyntaxError('xmlSAX2Characters: huge text node', 1, 1, 1)

    def depth(e):
        return 1 + max([depth(k) for k in e._kids], default=0)
    if depth(root) > DEPTH_LIMIT + 1:
        raise XMLSyntaxError('Excessive depth in document', 1, 1, 1)


def fromstring(text, parser=None, base_url=None):
    if isinstance(text, SymStr):
        text = utf8_of(text)
    return _parse_bytes(text, parser)


XML = fromstring


def parse(source, parser=None, base_url=None):
    if hasattr(source, 'read'):
        data = source.read()
    else:
        raise Unsupported('parse from path')
    return _ElementTree(_parse_bytes(data, parser))


def QName(*a):
    return real.QName(*a)


class XPath:
    def __init__(self, q, namespaces=None, **kw):
        self.q = q

    def __call__(self, ctx, **vars):
        return ctx.xpath(self.q, **vars)


def Comment(text=None):
    raise Unsupported('Comment')


def strip_tags(*a):
    raise Unsupported('strip_tags')


def indent(*a, **k):
    raise Unsupported('indent')


class ObjectifiedElement:
    pass
