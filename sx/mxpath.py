"""XPath 1.0 evaluation over the model tree with symbolic text."""
import re, math, z3
try:
    from re import _parser as sre_parse, _constants as sre_c
except ImportError:
    import sre_parse, sre_constants as sre_c
from .core import Unsupported, cur
from .vals import (Sym, SymBool, SymInt, SymStr, Atom, Opq, mkbool, mkint, mkstr, and_, or_, not_, realise, str_eq, str_len, str_len_nonzero,
                   str_contains, str_prefix, is_sym, _ALPH, zrange, zterm, has_opq, strval, MAXCHAR, segs_of)
from lxml import etree as real


class TextNode:
    def __init__(self, el, val, tail=False):
        self.el, self.val, self.tail = el, val, tail


class AttrNode:
    def __init__(self, el, name, val):
        self.el, self.name, self.val = el, name, val


class Doc:
    """document node"""
    def __init__(self, root):
        self.root = root


_NUM = re.compile(r'\d+(\.\d*)?|\.\d+')
_NAME = re.compile(r'[A-Za-z_][\w.\-]*(:[A-Za-z_][\w.\-]*)?')
OPS = ['::', '//', '..', '!=', '<=', '>=', '/', '.', '(', ')', '[', ']', '@', ',', '|', '+', '-', '=', '<', '>', '*', '$']


class Injected(Exception):
    pass


def lex(q):
    """query rope -> tokens (kind, value)"""
    segs = segs_of(q)
    toks = []
    si, i = 0, 0
    n = len(segs)
    while si < n:
        s = segs[si]
        if not isinstance(s, str):
            raise Injected()      # symbolic text outside a literal
        if i >= len(s):
            si += 1
            i = 0
            continue
        c = s[i]
        if c in ' \t\r\n':
            i += 1
            continue
        if c in '"\'':
            # literal: may span segments
            parts = []
            i += 1
            closed = False
            while si < n:
                s = segs[si]
                if isinstance(s, str):
                    j = s.find(c, i)
                    if j >= 0:
                        parts.append(s[i:j])
                        i = j + 1
                        closed = True
                        break
                    parts.append(s[i:])
                elif isinstance(s, Opq):
                    if s.kind in _ALPH and c not in _ALPH[s.kind]:
                        parts.append(s)
                    else:
                        raise Injected()
                else:
                    if cur().branch(z3.Contains(s.t, strval(c))):
                        raise Injected()
                    parts.append(s)
                si += 1
                i = 0
            if not closed:
                raise real.XPathEvalError('Invalid expression') if False else real.XPathEvalError('Unfinished literal')
            toks.append(('lit', mkstr(parts)))
            continue
        m = _NUM.match(s, i)
        if m and (c.isdigit() or (c == '.' and i + 1 < len(s) and s[i + 1].isdigit())):
            t = m.group(0)
            toks.append(('num', int(t) if t.isdigit() else float(t)))
            i = m.end()
            continue
        for op in OPS:
            if s.startswith(op, i):
                toks.append(('op', op))
                i += len(op)
                break
        else:
            m = _NAME.match(s, i)
            if not m:
                raise real.XPathEvalError('Invalid expression')
            toks.append(('name', m.group(0)))
            i = m.end()
    return toks


AXES = {'child', 'parent', 'self', 'descendant', 'descendant-or-self', 'ancestor', 'ancestor-or-self', 'attribute',
        'following-sibling', 'preceding-sibling', 'following', 'preceding', 'namespace'}


class P:
    def __init__(self, toks):
        self.t = toks
        self.i = 0

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else (None, None)

    def op(self, *vs):
        k, v = self.peek()
        return k == 'op' and v in vs

    def eat(self, v):
        if not self.op(v):
            self.err()
        self.i += 1

    def err(self):
        raise real.XPathEvalError('Invalid expression')

    def parse(self):
        e = self.or_()
        if self.i != len(self.t):
            self.err()
        return e

    def binl(self, sub, names, isop):
        l = sub()
        while True:
            k, v = self.peek()
            if (k == ('op' if isop else 'name')) and v in names:
                self.i += 1
                l = ('bin', v, l, sub())
            else:
                return l

    def or_(self):
        return self.binl(self.and_, ('or',), False)

    def and_(self):
        return self.binl(self.eq, ('and',), False)

    def eq(self):
        return self.binl(self.rel, ('=', '!='), True)

    def rel(self):
        return self.binl(self.add, ('<', '>', '<=', '>='), True)

    def add(self):
        return self.binl(self.mul, ('+', '-'), True)

    def mul(self):
        l = self.unary()
        while True:
            k, v = self.peek()
            if (k == 'op' and v == '*') or (k == 'name' and v in ('div', 'mod')):
                self.i += 1
                l = ('bin', v, l, self.unary())
            else:
                return l

    def unary(self):
        if self.op('-'):
            self.i += 1
            return ('neg', self.unary())
        return self.union()

    def union(self):
        return self.binl(self.path, ('|',), True)

    def path(self):
        k, v = self.peek()
        filt = False
        if k in ('lit', 'num') or (k == 'op' and v in ('(', '$')):
            filt = True
        elif k == 'name' and self.peek(1) == ('op', '(') and v not in ('text', 'node', 'comment', 'processing-instruction'):
            filt = True
        if filt:
            e = self.primary()
            preds = []
            while self.op('['):
                preds.append(self.pred())
            if preds:
                e = ('filter', e, preds)
            steps = []
            while self.op('/', '//'):
                if self.op('//'):
                    steps.append(('descendant-or-self', 'node()', []))
                self.i += 1
                steps.append(self.step())
            return ('path', e, steps) if steps else e
        steps = []
        if self.op('/'):
            self.i += 1
            k, v = self.peek()
            if k == 'name' or (k == 'op' and v in ('.', '..', '@', '*')):
                steps = self.relpath()
            return ('path', ('root',), steps)
        if self.op('//'):
            self.i += 1
            return ('path', ('root',), [('descendant-or-self', 'node()', [])] + self.relpath())
        return ('path', ('ctx',), self.relpath())

    def relpath(self):
        steps = [self.step()]
        while self.op('/', '//'):
            if self.op('//'):
                steps.append(('descendant-or-self', 'node()', []))
            self.i += 1
            steps.append(self.step())
        return steps

    def step(self):
        if self.op('.'):
            self.i += 1
            return ('self', 'node()', [])
        if self.op('..'):
            self.i += 1
            return ('parent', 'node()', [])
        axis = 'child'
        if self.op('@'):
            self.i += 1
            axis = 'attribute'
        k, v = self.peek()
        if k == 'name' and self.peek(1) == ('op', '::'):
            if v not in AXES:
                self.err()
            axis = v
            self.i += 2
            k, v = self.peek()
        if k == 'op' and v == '*':
            test = '*'
            self.i += 1
        elif k == 'name':
            self.i += 1
            test = v
            if self.op('('):
                if v not in ('text', 'node', 'comment'):
                    self.err()
                self.i += 1
                self.eat(')')
                test = v + '()'
        else:
            self.err()
        preds = []
        while self.op('['):
            preds.append(self.pred())
        return (axis, test, preds)

    def pred(self):
        self.eat('[')
        e = self.or_()
        self.eat(']')
        return e

    def primary(self):
        k, v = self.peek()
        if k == 'lit':
            self.i += 1
            return ('lit', v)
        if k == 'num':
            self.i += 1
            return ('num', v)
        if k == 'op' and v == '(':
            self.i += 1
            e = self.or_()
            self.eat(')')
            return e if e[0] != 'path' else ('group', e)
        if k == 'op' and v == '$':
            self.i += 1
            k, v = self.peek()
            if k != 'name':
                self.err()
            self.i += 1
            return ('var', v)
        if k == 'name':
            self.i += 2
            args = []
            if not self.op(')'):
                args.append(self.or_())
                while self.op(','):
                    self.i += 1
                    args.append(self.or_())
            self.eat(')')
            return ('call', v, args)
        self.err()


_cache = {}


def evaluate(q, ctx, vars, root, doc=False):
    eng = cur()
    if eng is not None:
        eng.step()
    if isinstance(q, bytes):
        q = q.decode()
    if not isinstance(q, (str, SymStr)):
        raise TypeError('Argument must be bytes or unicode')
    ast = _cache.get(q) if isinstance(q, str) else None
    if ast is None:
        try:
            ast = P(lex(q)).parse()
        except Injected:
            q = realise(q, 'xpath injection')
            ast = P(lex(q)).parse()
        if isinstance(q, str):
            _cache[q] = ast
    x = X(vars, root)
    r = x.ev(ast, Doc(root) if doc else ctx, 1, 1)
    if isinstance(r, list):
        out = []
        for n in r:
            if isinstance(n, TextNode) or isinstance(n, AttrNode):
                out.append(n.val)
            elif isinstance(n, Doc):
                continue
            else:
                out.append(n)
        return out
    if isinstance(r, SymBool):
        return bool(r)
    if isinstance(r, int) and not isinstance(r, bool):
        return float(r)
    return r


def kids(n):
    if isinstance(n, Doc):
        return [n.root]
    if isinstance(n, (TextNode, AttrNode)):
        return []
    out = []
    t = n.text
    if t is not None:
        # lxml keeps an explicitly set empty text node until reparse
        out.append(TextNode(n, t))
    for k in n._kids:
        out.append(k)
        if k._tail is not None:
            out.append(TextNode(k, k._tail, True))
    return out


class X:
    def __init__(self, vars, root):
        self.vars = vars
        self.root = root

    def ev(self, e, n, pos, size):
        k = e[0]
        if k == 'lit' or k == 'num':
            return e[1]
        if k == 'var':
            if e[1] not in self.vars:
                raise real.XPathEvalError('Undefined variable')
            v = self.vars[e[1]]
            if isinstance(v, bool) or isinstance(v, (str, SymStr, SymBool, SymInt, int, float)):
                return v
            if v is None:
                raise real.XPathResultError('Unknown return type: NoneType')
            if isinstance(v, list):
                return v
            raise real.XPathResultError('Unknown return type: %s' % type(v).__name__)
        if k == 'group':
            return self.ev(e[1], n, pos, size)
        if k == 'neg':
            v = self.num(self.ev(e[1], n, pos, size))
            return -v
        if k == 'bin':
            return self.bin(e[1], e[2], e[3], n, pos, size)
        if k == 'call':
            return self.call(e[1], e[2], n, pos, size)
        if k == 'filter':
            v = self.ev(e[1], n, pos, size)
            if not isinstance(v, list):
                raise real.XPathEvalError('Invalid type')
            for p in e[2]:
                v = self.filt(v, p)
            return v
        if k == 'path':
            if e[1] == ('root',):
                # libxml2: absolute paths start at the document of the context node
                base = [Doc(self.docroot(n))]
            elif e[1] == ('ctx',):
                base = [n]
            else:
                base = self.ev(e[1], n, pos, size)
                if not isinstance(base, list):
                    raise real.XPathEvalError('Invalid type')
            for st in e[2]:
                base = self.step(base, st)
            return base
        raise Unsupported('xpath node ' + k)

    def docroot(self, n):
        return self.root

    def step(self, nodes, st):
        axis, test, preds = st
        out, seen = [], set()
        for n in nodes:
            c = [x for x in self.axis(n, axis) if self.test(x, axis, test)]
            for p in preds:
                c = self.filt(c, p)
            if axis in ('ancestor', 'ancestor-or-self', 'preceding', 'preceding-sibling'):
                c = list(reversed(c))
            for x in c:
                key = self.key(x)
                if key not in seen:
                    seen.add(key)
                    out.append(x)
        if len(nodes) > 1 and len(out) > 1:
            out = self.docorder(out)
        return out

    @staticmethod
    def key(x):
        if isinstance(x, TextNode):
            return ('t', id(x.el), x.tail)
        if isinstance(x, AttrNode):
            return ('a', id(x.el), x.name)
        if isinstance(x, Doc):
            return ('d',)
        return ('e', id(x))

    def docorder(self, ns):
        order = {}
        i = 0
        stack = [Doc(self.root)]
        roots = []
        for x in ns:
            if not isinstance(x, (TextNode, AttrNode, Doc)):
                r = x
                while r._parent is not None:
                    r = r._parent
                if r is not self.root and r not in roots:
                    roots.append(r)
        idx = {}

        def walk(e):
            nonlocal i
            idx[('e', id(e))] = i
            i += 1
            for a in e._attrs:
                idx[('a', id(e), a)] = i
                i += 1
            idx[('t', id(e), False)] = i
            i += 1
            for k in e._kids:
                walk(k)
                idx[('t', id(k), True)] = i
                i += 1
        idx[('d',)] = -1
        walk(self.root)
        for r in roots:
            walk(r)
        return sorted(ns, key=lambda x: idx.get(self.key(x), 1 << 30))

    def axis(self, n, axis):
        if axis == 'child':
            return kids(n)
        if axis == 'self':
            return [n]
        if axis == 'parent':
            p = self.parent(n)
            return [p] if p is not None else []
        if axis == 'attribute':
            if isinstance(n, (Doc, TextNode, AttrNode)):
                return []
            return [AttrNode(n, k, v) for k, v in n._attrs.items()]
        if axis in ('descendant', 'descendant-or-self'):
            out = [n] if axis.endswith('self') else []

            def go(x):
                for k in kids(x):
                    out.append(k)
                    go(k)
            go(n)
            return out
        if axis in ('ancestor', 'ancestor-or-self'):
            out = [n] if axis.endswith('self') else []
            p = self.parent(n)
            while p is not None:
                out.append(p)
                p = self.parent(p)
            return out
        if axis in ('following-sibling', 'preceding-sibling'):
            p = self.parent(n)
            if p is None or isinstance(n, AttrNode):
                return []
            ks = kids(p)
            i = next(j for j, x in enumerate(ks) if self.key(x) == self.key(n))
            return ks[i + 1:] if axis[0] == 'f' else list(reversed(ks[:i]))
        raise Unsupported('axis ' + axis)

    def parent(self, n):
        if isinstance(n, Doc):
            return None
        if isinstance(n, AttrNode):
            return n.el
        if isinstance(n, TextNode):
            return n.el._parent if n.tail else n.el
        if n._parent is None:
            return Doc(n)
        return n._parent

    def test(self, x, axis, test):
        if test == 'node()':
            return True
        if test == 'text()':
            return isinstance(x, TextNode)
        if test == 'comment()':
            return False
        if axis == 'attribute':
            return isinstance(x, AttrNode) and (test == '*' or x.name == test)
        if isinstance(x, (TextNode, AttrNode, Doc)):
            return False
        return test == '*' or x._tag == test

    def filt(self, ns, p):
        out = []
        size = len(ns)
        for i, x in enumerate(ns):
            v = self.ev(p, x, i + 1, size)
            if isinstance(v, (int, float, SymInt)) and not isinstance(v, bool):
                ok = v == i + 1
            else:
                ok = self.boolean(v)
            if ok:
                out.append(x)
        return out

    # ---- conversions
    def sv(self, n):
        """string-value of a node"""
        if isinstance(n, (TextNode, AttrNode)):
            return n.val
        r = n.root if isinstance(n, Doc) else n
        out = []

        def go(e):
            if e.text is not None:
                out.append(e.text)
            for k in e._kids:
                go(k)
                if k._tail is not None:
                    out.append(k._tail)
        go(r)
        segs = []
        for t in out:
            segs += segs_of(t)
        return mkstr(list(segs))

    def boolean(self, v):
        if isinstance(v, (bool, SymBool)):
            return v
        if isinstance(v, list):
            return bool(v)
        if isinstance(v, (str, SymStr)):
            return str_len_nonzero(v) if is_sym(v) else bool(v)
        if isinstance(v, SymInt):
            return v != 0
        return not (v == 0 or v != v)

    def string(self, v):
        if isinstance(v, list):
            return self.sv(v[0]) if v else ''
        if isinstance(v, (str, SymStr)):
            return v
        if isinstance(v, (bool, SymBool)):
            return 'true' if v else 'false'
        if isinstance(v, SymInt):
            return mkstr([Opq('dec', v)])
        if isinstance(v, float):
            if v != v:
                return 'NaN'
            if v == int(v):
                return str(int(v))
            return repr(v)
        return str(v)

    def num(self, v):
        if isinstance(v, list):
            v = self.string(v)
        if isinstance(v, SymStr):
            if len(v.segs) == 1 and isinstance(v.segs[0], Opq):
                if v.segs[0].kind == 'dec':
                    return v.segs[0].v
                return float('nan') if v.segs[0].kind in ('b64', 'iso') else self.num(realise(v, 'xpath number'))
            v = realise(v, 'xpath number')
        if isinstance(v, str):
            m = re.fullmatch(r'[ \t\r\n]*(-?(\d+(\.\d*)?|\.\d+))[ \t\r\n]*', v)
            if not m:
                return float('nan')
            return int(m.group(1)) if re.fullmatch(r'-?\d+', m.group(1)) else float(m.group(1))
        if isinstance(v, (bool, SymBool)):
            return 1 if v else 0
        return v

    # ---- operators
    def bin(self, op, a, b, n, pos, size):
        if op == 'or':
            l = self.boolean(self.ev(a, n, pos, size))
            if l is True:
                return True
            return or_(l, self.boolean(self.ev(b, n, pos, size)))
        if op == 'and':
            l = self.boolean(self.ev(a, n, pos, size))
            if l is False:
                return False
            return and_(l, self.boolean(self.ev(b, n, pos, size)))
        x, y = self.ev(a, n, pos, size), self.ev(b, n, pos, size)
        if op == '|':
            seen, out = set(), []
            for z in x + y:
                if self.key(z) not in seen:
                    seen.add(self.key(z))
                    out.append(z)
            return self.docorder(out)
        if op in ('=', '!=', '<', '>', '<=', '>='):
            return self.compare(op, x, y)
        p, q = self.num(x), self.num(y)
        if op == '+':
            return p + q
        if op == '-':
            return p - q
        if op == '*':
            return p * q
        if op == 'mod':
            return math.fmod(p, q) if not is_sym(p) and not is_sym(q) else p % q
        if op == 'div':
            return realise(p) / realise(q)
        raise Unsupported('xpath op ' + op)

    def compare(self, op, x, y):
        if isinstance(x, list) and isinstance(y, list):
            return or_(*[self.cmp2(op, self.sv(p), self.sv(q)) for p in x for q in y])
        if isinstance(x, list):
            if isinstance(y, (bool, SymBool)):
                return self.cmp2(op, self.boolean(x), y)
            return or_(*[self.cmp2(op, self.sv(p), y) for p in x])
        if isinstance(y, list):
            if isinstance(x, (bool, SymBool)):
                return self.cmp2(op, x, self.boolean(y))
            return or_(*[self.cmp2(op, x, self.sv(p)) for p in y])
        return self.cmp2(op, x, y)

    def cmp2(self, op, x, y):
        if op in ('=', '!='):
            if isinstance(x, (bool, SymBool)) or isinstance(y, (bool, SymBool)):
                r = mkbool(z3.BoolVal(bool(self.boolean(x))) == z3.BoolVal(bool(self.boolean(y))))
            elif isinstance(x, (int, float, SymInt)) or isinstance(y, (int, float, SymInt)):
                r = self.num(x) == self.num(y)
            else:
                r = str_eq(x, y) if (is_sym(x) or is_sym(y)) else x == y
            return r if op == '=' else not_(r)
        p, q = self.num(x), self.num(y)
        if isinstance(p, float) and p != p or isinstance(q, float) and q != q:
            return False
        return {'<': lambda: p < q, '>': lambda: p > q, '<=': lambda: p <= q, '>=': lambda: p >= q}[op]()

    # ---- functions
    def call(self, f, args, n, pos, size):
        if f == 'last':
            return size
        if f == 'position':
            return pos
        A = [self.ev(a, n, pos, size) for a in args]
        if f == 'not':
            return not_(self.boolean(A[0]))
        if f == 'true':
            return True
        if f == 'false':
            return False
        if f == 'boolean':
            return self.boolean(A[0])
        if f == 'count':
            return len(A[0])
        if f == 'string':
            return self.string(A[0] if A else [n])
        if f == 'number':
            return self.num(A[0] if A else [n])
        if f == 'contains':
            return str_contains(self.string(A[0]), self.string(A[1]))
        if f == 'starts-with':
            return str_prefix(self.string(A[0]), self.string(A[1]), False)
        if f == 'concat':
            segs = []
            for a in A:
                segs += segs_of(self.string(a))
            return mkstr(list(segs))
        if f == 'string-length':
            s = self.string(A[0] if A else [n])
            return str_len(s) if is_sym(s) else len(s)
        if f == 'normalize-space':
            s = self.string(A[0] if A else [n])
            if is_sym(s):
                if not or_(*[str_contains(s, c) for c in ' \t\r\n']):
                    return s
                s = realise(s, 'normalize-space')
            return ' '.join(re.split('[ \t\r\n]+', s.strip(' \t\r\n')))
        if f in ('name', 'local-name'):
            x = A[0][0] if A and A[0] else n
            return x._tag if hasattr(x, '_tag') else getattr(x, 'name', '')
        if f == 'sum':
            t = 0
            for x in A[0]:
                t = t + self.num(self.sv(x))
            return t
        if f in ('floor', 'ceiling', 'round'):
            v = self.num(A[0])
            return v if isinstance(v, (int, SymInt)) else {'floor': math.floor, 'ceiling': math.ceil, 'round': round}[f](v)
        if f in ('re:test', 're:match'):
            s = A[0]
            s = (self.sv(s[0]) if s else '') if isinstance(s, list) else self.string(s)
            pat = self.string(A[1])
            flags = self.string(A[2]) if len(A) > 2 else ''
            if f == 're:match':
                raise Unsupported('re:match')
            if is_sym(flags):
                flags = realise(flags, 'regex flags')
            return regex_test(s, pat, 'i' in flags)
        if f in ('substring-before', 'substring-after', 'substring', 'translate'):
            B = [realise(self.string(a), f) if not isinstance(a, (int, float)) else a for a in A]
            if f == 'substring-before':
                return B[0].split(B[1], 1)[0] if B[1] in B[0] else ''
            if f == 'substring-after':
                return B[0].split(B[1], 1)[1] if B[1] in B[0] else ''
            if f == 'translate':
                tab = {ord(c): (B[2][i] if i < len(B[2]) else None) for i, c in reversed(list(enumerate(B[1])))}
                return B[0].translate(tab)
        raise real.XPathEvalError('Unregistered function')


# ------------------------------------------------------------------ regular expressions over symbolic text
def regex_test(s, pat, icase=False):
    if isinstance(s, str) and isinstance(pat, str):
        return re.compile(pat, re.UNICODE | (re.IGNORECASE if icase else 0)).search(s) is not None
    if isinstance(pat, SymStr):
        # a symbolic pattern without metacharacters is a literal substring search
        if not icase and all(isinstance(q, (str, Atom)) for q in pat.segs):
            meta = or_(*[str_contains(pat, c) for c in '.^$*+?{}[]\\|()'])
            if not meta:
                return str_contains(s, pat)
        pat = realise(pat, 'regex pattern')
        return regex_test(s, pat, icase)
    re.compile(pat)
    if has_opq(s):
        if len(s.segs) == 1 and universal(pat):
            return True
        return regex_test(realise(s, 'regex on opaque text'), pat, icase)
    if universal(pat):
        return True
    r = search_lang(pat, icase)
    if r is None:
        return regex_test(realise(s, 'regex'), pat, icase)
    return mkbool(z3.InRe(zterm(s), r))


def universal(pat):
    return pat in ('.*', '', '.*?', '(.*)')


ANYC = z3.Union(zrange(0, 0xD7FF), zrange(0xE000, MAXCHAR))
DOT = z3.Union(zrange(0, 9), zrange(11, 0xD7FF), zrange(0xE000, MAXCHAR))
ALL = z3.Star(ANYC)


def search_lang(pat, icase=False, kind='search'):
    """z3 regex of all strings in which `pat` is found, or None if not expressible"""
    try:
        tree = list(sre_parse.parse(pat))
    except re.error:
        return None
    try:
        pre, post = ALL if kind == 'search' else None, ALL if kind != 'fullmatch' else None
        if tree and tree[0] == (sre_c.AT, sre_c.AT_BEGINNING):
            pre = None
            tree = tree[1:]
        if tree and tree[-1] == (sre_c.AT, sre_c.AT_END):
            if kind == 'fullmatch':
                return None
            post = z3.Option(z3.Re('\n'))
            tree = tree[:-1]
        core = cat([to_z3(x, icase) for x in tree])
        parts = [x for x in (pre, core, post) if x is not None]
        return cat(parts)
    except KeyError:
        return None
    except NotImplementedError:
        return None


def cat(xs):
    xs = [x for x in xs if x is not None]
    if not xs:
        return z3.Re('')
    return xs[0] if len(xs) == 1 else z3.Concat(*xs)


def ch(c, icase):
    r = zrange(c, c)
    if icase:
        o = {ord(x) for x in (chr(c).lower() + chr(c).upper()) if len(chr(c).lower()) == 1 and len(chr(c).upper()) == 1}
        o.add(c)
        if len(o) > 1:
            return z3.Union(*[zrange(x, x) for x in sorted(o)])
    return r


def cls_ranges(items):
    out = []
    for op, av in items:
        if op is sre_c.LITERAL:
            out.append((av, av))
        elif op is sre_c.RANGE:
            out.append(av)
        elif op is sre_c.CATEGORY:
            from .hooks import cat_ranges
            out += cat_ranges((op, av))
        else:
            raise NotImplementedError
    return out


def complement(rs):
    rs = sorted(rs)
    out, nxt = [], 0
    for a, b in rs:
        if a > nxt:
            out.append((nxt, a - 1))
        nxt = max(nxt, b + 1)
    if nxt <= MAXCHAR:
        out.append((nxt, MAXCHAR))
    return out


def ranges_re(rs):
    rs = [(a, min(b, MAXCHAR)) for a, b in rs if a <= MAXCHAR]
    if not rs:
        raise NotImplementedError
    zs = [zrange(a, b) for a, b in rs]
    return zs[0] if len(zs) == 1 else z3.Union(*zs)


def to_z3(node, icase):
    op, av = node
    if op is sre_c.LITERAL:
        return ch(av, icase)
    if op is sre_c.NOT_LITERAL:
        return ranges_re(complement([(av, av)]))
    if op is sre_c.ANY:
        return DOT
    if op is sre_c.IN:
        neg = av and av[0][0] is sre_c.NEGATE
        rs = cls_ranges(av[1:] if neg else av)
        if icase:
            raise NotImplementedError
        return ranges_re(complement(rs) if neg else rs)
    if op in (sre_c.MAX_REPEAT, sre_c.MIN_REPEAT):
        lo, hi, sub = av
        r = cat([to_z3(x, icase) for x in sub])
        if hi == sre_c.MAXREPEAT:
            return z3.Star(r) if lo == 0 else (z3.Plus(r) if lo == 1 else z3.Concat(z3.Loop(r, lo, lo), z3.Star(r)))
        if lo == 0 and hi == 1:
            return z3.Option(r)
        return z3.Loop(r, lo, hi)
    if op is sre_c.SUBPATTERN:
        return cat([to_z3(x, icase) for x in av[-1]])
    if op is sre_c.BRANCH:
        alts = [cat([to_z3(x, icase) for x in b]) for b in av[1]]
        return alts[0] if len(alts) == 1 else z3.Union(*alts)
    raise NotImplementedError
