"""Fixed-width word arithmetic of ciphers (tables, additions, rotations, XOR).

In words mode (cx.words()) results of table lookups, additions and merged conditionals are named; the definitions are kept
here.  An assertion is decided in three steps:
 1. every named value gets a normal form (XOR sums over input bits, table outputs and carries);
 2. values with the same normal form are candidates for equality; z3 proves each such pair, from the inputs upwards, with the
    pairs below already replaced by common variables, and finally the assertion itself (as in combinational equivalence checking);
 3. whatever is left is searched for a counterexample: by simulation, then by z3 with all definitions.
"""
import random
import z3
from .core import Unsupported, cur


class Def:
    __slots__ = ('kind', 'var', 'a', 'tab')

    def __init__(self, kind, var, a, tab=None):
        self.kind, self.var, self.a, self.tab = kind, var, a, tab


class Words:
    def __init__(self, eng):
        self.eng = eng
        self.defs = {}          # id of variable -> Def
        self.order = []
        self.memo = {}
        self.keep = []
        self.leaf = {}          # leaf key -> number of its bit in forms (bit 0 is the constant)
        self.leafkey = [None]
        self.bits_memo = {}
        self.bool_memo = {}
        self.basis = {}
        self.sums = {}
        self.names_memo = {}
        self.blast_memo = {}
        self.within = {}
        self.bitrep = {}
        self.rep, self.subst, self.done = {}, {}, set()

    # ------------------------------------------------------------ naming
    def name(self, kind, a, w, tab=None):
        key = (kind, a.get_id(), tab[0] if tab else None)
        v = self.memo.get(key)
        if v is None:
            v = z3.BitVec('%s!%d' % (kind, len(self.order)), w)
            d = Def(kind, v, a, tab)
            self.defs[v.get_id()] = d
            self.order.append(d)
            self.memo[key] = v
            self.keep.append((a, v))
        return v

    def table(self, vals, idx, w):
        """vals[idx]; idx is a bit-vector of width w, len(vals) == 2**w"""
        vw = max(1, max(v.bit_length() for v in vals))
        bits = [z3.simplify(z3.Extract(i, i, idx)) for i in range(w)]
        free = [i for i in range(w) if not z3.is_bv_value(bits[i])]
        if len(free) < w:
            fix = sum(bits[i].as_long() << i for i in range(w) if i not in free)
            vals = tuple(vals[fix | sum(((k >> j) & 1) << i for j, i in enumerate(free))] for k in range(1 << len(free)))
            if not free:
                return z3.BitVecVal(vals[0], vw)
            idx = z3.simplify(z3.Concat(*[bits[i] for i in reversed(free)])) if len(free) > 1 else bits[free[0]]
            w = len(free)
        if len(set(vals)) == 1:
            return z3.BitVecVal(vals[0], vw)
        if all(v == i for i, v in enumerate(vals)):
            return idx
        const, parts = xparts(idx)
        if len(parts) == 1:
            # table of a table
            (i, x), = parts.items()
            d = self.defs.get(i)
            if d is not None and d.kind == 'tab' and x.size() == w and d.tab[1] <= 8:
                return self.table(tuple(vals[v ^ const] for v in d.tab[0]), d.a, d.tab[1])
        return self.name('tab', idx, vw, (tuple(vals), w))

    def select(self, vals, idx, w):
        """vals[idx] where vals are terms: a common shape with differing constants is looked up by constant"""
        key = ('sel',) + tuple(v if isinstance(v, int) else -1 - v.get_id() for v in vals)
        f = self.memo.get(key)
        if f is None:
            terms = [z3.BitVecVal(v, 64) if isinstance(v, int) else v for v in vals]
            W = max(t.size() for t in terms if not z3.is_bv_value(t))
            W = max([W] + [max(1, t.as_long().bit_length()) for t in terms if z3.is_bv_value(t)])
            terms = [z3.BitVecVal(t.as_long(), W) if z3.is_bv_value(t) else wide(t, W) for t in terms]
            f = self.unify(terms, w, 0)
            self.memo[key] = f or False
            self.keep.append(terms)
        if not f:
            raise Unsupported('table of unlike terms')
        return f(idx)

    def unify(self, terms, w, depth):
        """-> function from an index to the term, or None"""
        t0 = terms[0]
        if all(t.eq(t0) for t in terms):
            return lambda idx: t0
        if depth > 60:
            return None
        W = t0.size()
        if any(t.size() != W for t in terms):
            return None
        parts = [xparts(t) for t in terms]
        consts = [c for c, _ in parts]
        common = None
        for _, s in parts:
            ids = set(s)
            common = ids if common is None else common & ids
        rest = [[x for i, x in s.items() if i not in common] for _, s in parts]
        fs = [(lambda idx, x=x: x) for i, x in parts[0][1].items() if i in common]
        if len(set(consts)) == 1:
            if consts[0]:
                fs.append(lambda idx: z3.BitVecVal(consts[0], W))
        else:
            fs.append(lambda idx: wide(self.table(tuple(consts), idx, w), W))
        if any(rest):
            if any(len(r) != 1 for r in rest):
                return None
            r = [x[0] for x in rest]
            d = [self.defs.get(x.get_id()) for x in r]
            if all(x is not None for x in d):
                if len(set((x.kind, x.tab) for x in d)) != 1:
                    return None
                u = self.unify([x.a for x in d], w, depth + 1)
                if u is None:
                    return None
                kind, tab = d[0].kind, d[0].tab
                if kind == 'tab':
                    fs.append(lambda idx: wide(self.table(tab[0], z3.simplify(u(idx)), tab[1]), W))
                else:
                    fs.append(lambda idx: self.name(kind, z3.simplify(u(idx)), W))
            elif all(x is None for x in d):
                k = r[0].decl()
                if any(not (x.decl() == k and x.num_args() == r[0].num_args() and x.num_args()) for x in r):
                    return None
                args = []
                for j in range(r[0].num_args()):
                    a = [x.arg(j) for x in r]
                    if not all(z3.is_bv(x) for x in a):
                        return None
                    u = self.unify(a, w, depth + 1)
                    if u is None:
                        return None
                    args.append(u)
                fs.append(lambda idx: k(*[u(idx) for u in args]))
            else:
                return None

        def build(idx):
            r = fs[0](idx) if fs else z3.BitVecVal(0, W)
            for f in fs[1:]:
                r = r ^ f(idx)
            return r
        return build

    # ------------------------------------------------------------ normal forms
    def newleaf(self, key):
        n = self.leaf.get(key)
        if n is None:
            n = self.leaf[key] = len(self.leafkey)
            self.leafkey.append(key)
        return 1 << n

    def bits(self, t):
        """forms of the bits, lowest first"""
        i = t.get_id()
        r = self.bits_memo.get(i)
        if r is None:
            r = self.bits_memo[i] = self._bits(t)
            self.keep.append(t)
        return r

    def _bits(self, t):
        w = t.size()
        if z3.is_bv_value(t):
            v = t.as_long()
            return tuple((v >> i) & 1 for i in range(w))
        d = self.defs.get(t.get_id())
        if d is not None:
            if d.kind == 'tab':
                return self.tabbits(d.tab[0], self.bits(d.a), w)
            r = self.bits(d.a)
            return (r + (0,) * (w - len(r)))[:w]
        k = t.decl().kind()
        ch = t.children()
        if k == z3.Z3_OP_UNINTERPRETED:
            if ch:
                raise Unsupported('words: function')
            r = tuple(self.newleaf(('var', t.decl().name(), i)) for i in range(w))
            for i, f in enumerate(r):
                self.bitrep[f] = (t, i)
            return r
        if k == z3.Z3_OP_BXOR:
            r = list(self.bits(ch[0]))
            for c in ch[1:]:
                for i, b in enumerate(self.bits(c)):
                    r[i] ^= b
            return tuple(r)
        if k == z3.Z3_OP_BNOT:
            return tuple(b ^ 1 for b in self.bits(ch[0]))
        if k == z3.Z3_OP_EXTRACT:
            hi, lo = t.params()
            return self.bits(ch[0])[lo:hi + 1]
        if k == z3.Z3_OP_CONCAT:
            r = ()
            for c in reversed(ch):
                r += self.bits(c)
            return r
        if k == z3.Z3_OP_ZERO_EXT:
            return self.bits(ch[0]) + (0,) * (w - ch[0].size())
        if k == z3.Z3_OP_ROTATE_LEFT or k == z3.Z3_OP_ROTATE_RIGHT:
            n = t.params()[0] % w
            b = self.bits(ch[0])
            n = n if k == z3.Z3_OP_ROTATE_RIGHT else (w - n) % w
            return b[n:] + b[:n]
        if k in (z3.Z3_OP_BSHL, z3.Z3_OP_BLSHR) and z3.is_bv_value(ch[1]):
            n = min(w, ch[1].as_long())
            b = self.bits(ch[0])
            return (0,) * n + b[:w - n] if k == z3.Z3_OP_BSHL else b[n:] + (0,) * n
        if k == z3.Z3_OP_BAND:
            r = self.bits(ch[0])
            for c in ch[1:]:
                r = tuple(self.conj(a, b) for a, b in zip(r, self.bits(c)))
            return r
        if k == z3.Z3_OP_BOR:
            r = self.bits(ch[0])
            for c in ch[1:]:
                r = tuple(a ^ b ^ self.conj(a, b) for a, b in zip(r, self.bits(c)))
            return r
        if k == z3.Z3_OP_ITE:
            c = self.truth(ch[0])
            return tuple(b ^ self.conj(c, a ^ b) for a, b in zip(self.bits(ch[1]), self.bits(ch[2])))
        if k in (z3.Z3_OP_BADD, z3.Z3_OP_BSUB, z3.Z3_OP_BMUL, z3.Z3_OP_BNEG):
            return self.sumbits(self.sum(t), w)
        raise Unsupported('words: %s' % t.decl().name())

    def conj(self, a, b):
        if a == 0 or b == 0 or a == b ^ 1:
            return 0
        if a == 1 or a == b:
            return b
        if b == 1:
            return a
        if a > b:
            a, b = b, a
        return self.newleaf(('and', a, b))

    def truth(self, e):
        i = e.get_id()
        r = self.bool_memo.get(i)
        if r is None:
            r = self.bool_memo[i] = self._truth(e)
            self.keep.append(e)
        return r

    def _truth(self, e):
        if z3.is_true(e):
            return 1
        if z3.is_false(e):
            return 0
        k, ch = e.decl().kind(), e.children()
        if k == z3.Z3_OP_NOT:
            return self.truth(ch[0]) ^ 1
        if k == z3.Z3_OP_AND:
            r = 1
            for c in ch:
                r = self.conj(r, self.truth(c))
            return r
        if k == z3.Z3_OP_OR:
            r = 1
            for c in ch:
                r = self.conj(r, self.truth(c) ^ 1)
            return r ^ 1
        if k in (z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT) and len(ch) == 2:
            n = k == z3.Z3_OP_DISTINCT
            if z3.is_bool(ch[0]):
                return self.truth(ch[0]) ^ self.truth(ch[1]) ^ 1 ^ n
            if z3.is_bv(ch[0]):
                r = 1
                for a, b in zip(self.bits(ch[0]), self.bits(ch[1])):
                    if a ^ b == 1:
                        return int(n)
                    r = self.conj(r, a ^ b ^ 1)
                return r ^ n
        if k == z3.Z3_OP_ITE:
            c, a, b = map(self.truth, ch)
            return b ^ self.conj(c, a ^ b)
        if k == z3.Z3_OP_UNINTERPRETED and not ch:
            return self.newleaf(('bool', e.decl().name()))
        return self.newleaf(('other', self.hold(e)))

    def hold(self, e):
        self.keep.append(e)
        return e.get_id()

    def tabbits(self, vals, idx, w):
        """output bits of a table; per index, a basis of the functions seen so far"""
        n = len(idx)
        flip = sum((f & 1) << i for i, f in enumerate(idx))
        forms = tuple(f & ~1 for f in idx)
        # constant or repeated index bits
        live, src = [], []
        for i, f in enumerate(forms):
            if f == 0:
                src.append(None)
            elif f in live:
                src.append(live.index(f))
            else:
                live.append(f)
                src.append(len(live) - 1)
        order = sorted(range(len(live)), key=lambda j: live[j])
        pos = {j: p for p, j in enumerate(order)}
        live = tuple(live[j] for j in order)
        m = len(live)
        N = 1 << m
        where = []
        for k in range(N):
            x = flip
            for i in range(n):
                if src[i] is not None and (k >> pos[src[i]]) & 1:
                    x ^= 1 << i
            where.append(x)
        out = []
        b = self.basis.get(live)
        if b is None:
            b = self.basis[live] = {}
            # constant and the index bits themselves
            self.reduce(b, (1 << N) - 1, 1)
            for j in range(m):
                self.reduce(b, sum(1 << k for k in range(N) if (k >> j) & 1), live[j])
        for i in range(w):
            tt = sum(((vals[where[k]] >> i) & 1) << k for k in range(N))
            out.append(self.reduce(b, tt, None, live))
        return tuple(out)

    def reduce(self, basis, tt, form, live=None):
        """express the function tt by the basis; a new independent one becomes `form` (or a new leaf)"""
        t, f = tt, 0
        while t:
            h = t.bit_length()
            e = basis.get(h)
            if e is None:
                if form is None:
                    form = self.newleaf(('fun', live, t))
                    basis[h] = (t, form)
                    return f ^ form
                basis[h] = (t, form ^ f)
                return form
            t ^= e[0]
            f ^= e[1]
        return f

    # sums: list of (coefficient, bits) modulo 2^w
    def sum(self, t):
        k, ch, w = t.decl().kind(), t.children(), t.size()
        M = (1 << w) - 1
        if z3.is_bv_value(t):
            return {(): t.as_long() & M}
        if self.defs.get(t.get_id()) is None:
            if k == z3.Z3_OP_BADD:
                acc = {}
                for c in ch:
                    for b, n in self.sum(c).items():
                        acc[b] = (acc.get(b, 0) + n) & M
                return acc
            if k == z3.Z3_OP_BSUB:
                acc = dict(self.sum(ch[0]))
                for b, n in self.sum(ch[1]).items():
                    acc[b] = (acc.get(b, 0) - n) & M
                return acc
            if k == z3.Z3_OP_BNEG:
                return {b: -n & M for b, n in self.sum(ch[0]).items()}
            if k == z3.Z3_OP_BMUL and len(ch) == 2 and z3.is_bv_value(ch[0]):
                return {b: n * ch[0].as_long() & M for b, n in self.sum(ch[1]).items()}
            if k == z3.Z3_OP_BMUL:
                raise Unsupported('words: product')
        return {self.bits(t): 1}

    def sumbits(self, s, w):
        out = ()
        for i in range(w):
            f, acc = self.sumbit(s, i)
            out += (f,)
            if acc is not None:
                self.sums.setdefault(out, acc)
        return out

    def sumbit(self, s, i):
        """bit i of a sum depends on the operands modulo 2^(i+1)"""
        m = i + 1
        M = (1 << m) - 1
        acc, const = {}, 0
        todo = list(s.items())
        while todo:
            b, n = todo.pop()
            if b == ():
                const += n
                continue
            b = b[:m]
            z = 0
            while z < len(b) and b[z] == 0:
                z += 1
            n = (n << z) & M
            if not n or z == len(b):
                continue
            low = (n & -n).bit_length() - 1
            b = b[z:][:m - low]
            if all(x in (0, 1) for x in b):
                const += n * sum(x << j for j, x in enumerate(b))
                continue
            inner = self.sums.get(b) if len(b) == m - low else None
            if inner is not None:
                todo += [(x, n * c) for x, c in inner.items()]
                continue
            while b[-1] == 0:
                b = b[:-1]
            acc[b] = (acc.get(b, 0) + n) & M
        const &= M
        acc = {b: n for b, n in acc.items() if n}
        if not acc:
            return (const >> i) & 1, None
        if len(acc) == 1 and not const:
            (b, n), = acc.items()
            if len(b) == 1:
                return (b[0] if (n >> i) & 1 else 0), None
            if n & (n - 1) == 0:
                j = i - (n.bit_length() - 1)
                return (b[j] if 0 <= j < len(b) else 0), None
        f = self.newleaf(('sum', i, frozenset(acc.items()), const))
        if const:
            acc[()] = const
        return f, acc

    # ------------------------------------------------------------ decision
    def norm(self, e):
        """True/False if the normal form of e is constant, else None"""
        try:
            f = self.truth(e)
        except (Unsupported, RecursionError):
            return None
        return None if f > 1 else bool(f)

    def prove(self, e):
        """z3 confirms e through the equalities of named values that the normal forms suggest"""
        st = self.eng.stats
        need = self.cone(e)
        s = z3.Solver()
        s.set('timeout', 4000)

        def ask(claim):
            s.push()
            s.add(z3.Not(claim))
            st.queries += 1
            q = s.check()
            s.pop()
            if q == z3.unsat:
                st.unsat += 1
            elif q == z3.sat:
                st.sat += 1
            else:
                st.unknown += 1
            return q
        for d in self.order:
            i = d.var.get_id()
            if i not in need or i in self.done or d.kind == 'ite':
                continue
            self.done.add(i)
            b = self.bits(d.var)
            while b and b[-1] == 0:
                b = b[:-1]
            r = self.rep.get(b)
            if r is not None:
                # same normal form as an earlier value: let z3 confirm it
                x, y = self.low(d.a), self.low(r.a)
                if d.tab != r.tab:
                    x, y = (ite_table(z.tab[0], u, z.tab[1], z.var.size()) if z.tab else u for z, u in ((d, x), (r, y)))
                y0 = r.var
            elif d.kind == 'xor' and b and all(f < 2 or f in self.bitrep for f in b):
                # its bits are those of earlier values
                y0 = z3.simplify(cat([z3.BitVecVal(f, 1) if f < 2 else z3.Extract(self.bitrep[f][1], self.bitrep[f][1], self.bitrep[f][0]) for f in b]))
                x, y = self.low(d.a), y0
            else:
                self.rep[b] = d
                for j, f in enumerate(b):
                    self.bitrep.setdefault(f, (d.var, j))
                continue
            w = max(x.size(), y.size())
            q = ask(wide(x, w) == wide(y, w))
            if q != z3.unsat:
                x, y = self.blast(x), self.blast(y)
                if x is not None and y is not None:
                    x, y = ([e ^ z3.BitVecVal(c, 1) for e, c in z] + [z3.BitVecVal(0, 1)] * (w - len(z)) for z in (x, y))
                    q = ask(z3.And(*[a == b for a, b in zip(x, y)]))
            if q == z3.unsat:
                st.note('words: lemma proved by z3')
                self.subst[i] = self.fit(y0, d.var.size())
            else:
                st.note('words: lemma not proved by z3 (%s)' % q)
        return ask(self.low(e)) == z3.unsat

    def fit(self, v, w):
        if v.size() < w:
            return z3.ZeroExt(w - v.size(), v)
        return z3.Extract(w - 1, 0, v) if v.size() > w else v

    def low(self, t, deep=0):
        """t with merged conditionals written out, proved-equal values identified and `deep` layers of XOR names written out"""
        while True:
            ps = []
            names = self.names(t)
            for i, v in names.items():
                if i in self.subst:
                    ps.append((v, self.subst[i]))
                elif self.defs[i].kind == 'ite':
                    ps.append((v, self.fit(self.defs[i].a, v.size())))
            if not ps and deep:
                deep -= 1
                for i, v in names.items():
                    if self.defs[i].kind == 'xor':
                        ps.append((v, self.fit(self.defs[i].a, v.size())))
            if not ps:
                return t
            t = z3.substitute(t, *ps)

    def blast(self, t):
        """t as single bits, XOR names written out (z3's simplifier orders and cancels the sums)"""
        i = t.get_id()
        if i not in self.blast_memo:
            self.blast_memo[i] = self._blast(t)
            self.keep.append(t)
        return self.blast_memo[i]

    def _blast(self, t):
        """[(term without negation, constant)]"""
        w = t.size()
        Z = z3.BitVecVal(0, 1)
        zero = lambda n: [(Z, 0)] * n
        lone = lambda e: z3.is_bv_value(e) and e.as_long() == 0

        def xor(a, b):
            if lone(a[0]) or lone(b[0]):
                return (b[0] if lone(a[0]) else a[0]), a[1] ^ b[1]
            return z3.simplify(a[0] ^ b[0]), a[1] ^ b[1]

        def both(a, b):
            if lone(a[0]):
                return b if a[1] else (Z, 0)
            if lone(b[0]):
                return a if b[1] else (Z, 0)
            u, v = (x[0] if not x[1] else ~x[0] for x in (a, b))
            return z3.simplify(u & v), 0
        if z3.is_bv_value(t):
            return [(Z, (t.as_long() >> i) & 1) for i in range(w)]
        i = t.get_id()
        if i in self.subst:
            return self.blast(self.subst[i])
        d = self.defs.get(i)
        if d is not None and d.kind in ('ite', 'xor'):
            r = self.blast(d.a)
            return r and (r + zero(w - len(r)))[:w]
        k, ch = t.decl().kind(), t.children()
        if d is not None or k == z3.Z3_OP_UNINTERPRETED:
            return [(z3.Extract(j, j, t), 0) for j in range(w)] if w > 1 else [(t, 0)]
        if k == z3.Z3_OP_ITE:
            c = z3.simplify(ch[0])
            neg = z3.is_not(c)
            c = c.arg(0) if neg else c
            if not (z3.is_eq(c) and z3.is_bv(c.arg(0)) and c.arg(0).size() == 1):
                return None
            u, v = self.blast(c.arg(0)), self.blast(c.arg(1))
            a, b = self.blast(ch[1]), self.blast(ch[2])
            if not (u and v and a and b):
                return None
            c = xor(xor(u[0], v[0]), (Z, 0 if neg else 1))
            return [xor(y, both(c, xor(x, y))) for x, y in zip(a, b)]
        args = [None if z3.is_bv_value(c) and k == z3.Z3_OP_BMUL else self.blast(c) for c in ch]
        if k == z3.Z3_OP_BMUL and len(ch) == 2 and args[0] is None and args[1]:
            live = [j for j, b in enumerate(args[1]) if not (lone(b[0]) and not b[1])]
            if live == [0]:
                return [args[1][0] if (ch[0].as_long() >> j) & 1 else (Z, 0) for j in range(w)]
            return None
        if any(a is None for a in args):
            return None
        if k == z3.Z3_OP_BXOR:
            r = args[0]
            for a in args[1:]:
                r = [xor(x, y) for x, y in zip(r, a)]
            return r
        if k == z3.Z3_OP_BNOT:
            return [(e, c ^ 1) for e, c in args[0]]
        if k == z3.Z3_OP_EXTRACT:
            hi, lo = t.params()
            return args[0][lo:hi + 1]
        if k == z3.Z3_OP_CONCAT:
            return [b for a in reversed(args) for b in a]
        if k == z3.Z3_OP_ZERO_EXT:
            return args[0] + zero(w - len(args[0]))
        return None

    def names(self, t):
        """named values that occur in t"""
        i = t.get_id()
        r = self.names_memo.get(i)
        if r is None:
            r, seen, st = {}, set(), [t]
            while st:
                x = st.pop()
                j = x.get_id()
                if j in seen:
                    continue
                seen.add(j)
                if j in self.defs:
                    r[j] = x
                else:
                    st.extend(x.children())
            self.names_memo[i] = r
            self.keep.append(t)
        return r

    def cone(self, e):
        seen, need, st = set(), set(), [e]
        while st:
            t = st.pop()
            i = t.get_id()
            if i in seen:
                continue
            seen.add(i)
            d = self.defs.get(i)
            if d is not None:
                need.add(i)
                st.append(d.a)
            st.extend(t.children())
        return need

    # ------------------------------------------------------------ counterexamples
    def program(self, roots):
        """a function from inputs {name: value} (default 0) to the concrete values of the roots"""
        slot, code, keep = {}, [], []
        st = list(roots)
        while st:
            x = st[-1]
            i = x.get_id()
            if i in slot:
                st.pop()
                continue
            d = self.defs.get(i)
            ch = [d.a] if d is not None else x.children()
            todo = [c for c in ch if c.get_id() not in slot]
            if todo:
                st.extend(todo)
                continue
            st.pop()
            keep.append(x)
            slot[i] = len(code)
            code.append(self.instr(x, d, [slot[c.get_id()] for c in ch], ch))
        out = [slot[r.get_id()] for r in roots]

        def run(env):
            v = []
            for f in code:
                v.append(f(v, env))
            return [v[o] for o in out]
        run.keep = keep
        return run

    def instr(self, x, d, a, ch):
        if d is not None:
            i, = a
            if d.kind == 'tab':
                tab = d.tab[0]
                return lambda v, env: tab[v[i]]
            M = (1 << d.var.size()) - 1
            return lambda v, env: v[i] & M
        if z3.is_bv_value(x):
            n = x.as_long()
            return lambda v, env: n
        if z3.is_true(x) or z3.is_false(x):
            n = z3.is_true(x)
            return lambda v, env: n
        if not ch:
            name = x.decl().name()
            return lambda v, env: env.get(name, 0)
        k = x.decl().kind()
        if k == z3.Z3_OP_EQ:
            i, j = a
            return lambda v, env: v[i] == v[j]
        if k == z3.Z3_OP_NOT:
            i, = a
            return lambda v, env: not v[i]
        if k == z3.Z3_OP_AND:
            return lambda v, env: all(v[i] for i in a)
        if k == z3.Z3_OP_OR:
            return lambda v, env: any(v[i] for i in a)
        if k == z3.Z3_OP_ITE:
            c, i, j = a
            return lambda v, env: v[i] if v[c] else v[j]
        if z3.is_bv(x):
            M = (1 << x.size()) - 1
            if k == z3.Z3_OP_BXOR:
                if len(a) == 2:
                    i, j = a
                    return lambda v, env: v[i] ^ v[j]

                def xor(v, env):
                    r = 0
                    for i in a:
                        r ^= v[i]
                    return r
                return xor
            if k == z3.Z3_OP_BADD:
                return lambda v, env: sum([v[i] for i in a]) & M
            if k == z3.Z3_OP_EXTRACT:
                i, = a
                hi, lo = x.params()
                m = (1 << (hi - lo + 1)) - 1
                return lambda v, env: (v[i] >> lo) & m
            if k == z3.Z3_OP_CONCAT:
                sh, n = [], 0
                for i, c in zip(reversed(a), reversed(ch)):
                    sh.append((i, n))
                    n += c.size()
                return lambda v, env: sum([v[i] << n for i, n in sh])
            if k == z3.Z3_OP_ZERO_EXT:
                i, = a
                return lambda v, env: v[i]
            if k == z3.Z3_OP_BNOT:
                i, = a
                return lambda v, env: v[i] ^ M
            if k == z3.Z3_OP_BMUL and len(a) == 2:
                i, j = a
                return lambda v, env: v[i] * v[j] & M
            if k in (z3.Z3_OP_BAND, z3.Z3_OP_BOR):
                land = k == z3.Z3_OP_BAND

                def bits(v, env):
                    r = M if land else 0
                    for i in a:
                        r = r & v[i] if land else r | v[i]
                    return r
                return bits
        decl, kinds = x.decl(), [c.size() if z3.is_bv(c) else None for c in ch]

        def other(v, env):
            r = z3.simplify(decl(*[z3.BitVecVal(v[i], w) if w else z3.BoolVal(bool(v[i])) for i, w in zip(a, kinds)]))
            if z3.is_bv_value(r):
                return r.as_long()
            if z3.is_true(r) or z3.is_false(r):
                return z3.is_true(r)
            raise Unsupported('words: value of %s' % decl.name())
        return other

    def inputs(self, e):
        out, seen, st = {}, set(), [e] + list(self.eng.pc)
        while st:
            t = st.pop()
            i = t.get_id()
            if i in seen:
                continue
            seen.add(i)
            d = self.defs.get(i)
            if d is not None:
                st.append(d.a)
            elif not t.children() and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and z3.is_bv(t):
                out[t.decl().name()] = t
            st.extend(t.children())
        return out

    def counterexample(self, e, tries=100):
        """-> extra constraints that fix inputs for which e is false, or None"""
        ins = self.inputs(e)
        rnd = random.Random(20260101)
        whole = z3.And(*self.eng.pc, True) if self.eng.pc else z3.BoolVal(True)
        envs = [{n: 0 for n in ins}, {n: (1 << t.size()) - 1 for n, t in ins.items()}]
        envs += [{n: rnd.getrandbits(t.size()) for n, t in ins.items()} for _ in range(tries)]
        if self.eng.pc:
            # inputs on this path: models of the path condition with random preferences
            for k in range(6):
                s = z3.Solver()
                s.set('timeout', 2000)
                s.add(*self.eng.pc)
                pref = [(t, rnd.getrandbits(t.size())) for t in ins.values()]
                rnd.shuffle(pref)
                if s.check() != z3.sat:
                    break
                for t, v in pref:
                    s.push()
                    s.add(t == v)
                    if s.check() != z3.sat:
                        s.pop()
                if s.check() == z3.sat:
                    m = s.model()
                    envs.insert(0, {n: m.eval(t, model_completion=True).as_long() for n, t in ins.items()})
        conds = self.conditions(e)
        seen = {c.get_id(): set() for c in conds}

        run = self.program([whole, e] + conds)

        def refuted(env):
            pc, ok, *cs = run(env)
            if not pc:
                return False
            if not ok:
                return True
            for c, v in zip(conds, cs):
                seen[c.get_id()].add(bool(v))
            return False
        for env in envs:
            if refuted(env):
                return [t == env[n] for n, t in ins.items()]
        # conditions that always went the same way so far: inputs for the other way
        for c in [c for c in conds if len(seen[c.get_id()]) == 1][:60]:
            if len(seen[c.get_id()]) != 1:
                continue
            want = c if seen[c.get_id()] == {False} else z3.Not(c)
            whole_c = self.within[c.get_id()]
            # ... where that decides the conditional
            matters = z3.substitute(whole_c, (c, z3.BoolVal(True))) != z3.substitute(whole_c, (c, z3.BoolVal(False)))
            s = self.defined([want, matters] + list(self.eng.pc), 3000)
            s.add(want, matters, *self.eng.pc)
            self.eng.stats.queries += 1
            if s.check() != z3.sat:
                continue
            m = s.model()
            for k in range(3):
                env = {n: rnd.getrandbits(t.size()) for n, t in ins.items()} if k else {n: 0 for n in ins}
                for n, t in ins.items():
                    v = m.eval(t)
                    if z3.is_bv_value(v):
                        env[n] = v.as_long()
                if refuted(env):
                    return [t == env[n] for n, t in ins.items()]
        # the solver, with everything defined
        s = self.defined([e] + list(self.eng.pc), max(20000, 4 * self.eng.query_ms))
        s.add(z3.Not(e), *self.eng.pc)
        self.eng.stats.queries += 1
        r = s.check()
        if r == z3.unsat:
            self.eng.stats.unsat += 1
            return 'unsat'
        if r == z3.sat:
            self.eng.stats.sat += 1
            m = s.model()
            return [t == m.eval(t, model_completion=True) for t in ins.values()]
        self.eng.stats.unknown += 1
        return None


    def conditions(self, e):
        """conditions of conditionals below e"""
        out, conds, seen, st = [], set(), set(), [e]
        while st:
            t = st.pop()
            i = t.get_id()
            if i in seen:
                continue
            seen.add(i)
            if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
                todo = [t.arg(0)]
                while todo:
                    c = todo.pop()
                    if c.decl().kind() in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT):
                        todo.extend(c.children())
                    elif c.get_id() not in conds:
                        conds.add(c.get_id())
                        out.append(c)
                        self.within[c.get_id()] = t.arg(0)
            d = self.defs.get(i)
            if d is not None:
                st.append(d.a)
            st.extend(t.children())
        return out

    def defined(self, es, ms):
        """solver with the definitions below es"""
        s = z3.Solver()
        s.set('timeout', ms)
        need = set()
        for e in es:
            need |= self.cone(e)
        for d in self.order:
            if d.var.get_id() in need:
                if d.kind == 'tab':
                    s.add(d.var == ite_table(d.tab[0], d.a, d.tab[1], d.var.size()))
                else:
                    s.add(d.var == self.fit(d.a, d.var.size()))
        return s


def ite_table(vals, idx, w, vw):
    def build(lo, n, k):
        if n == 1:
            return z3.BitVecVal(vals[lo], vw)
        if len(set(vals[lo:lo + n])) == 1:
            return z3.BitVecVal(vals[lo], vw)
        h = n // 2
        return z3.If(z3.Extract(k, k, idx) == 1, build(lo + h, h, k - 1), build(lo, h, k - 1))
    return build(0, len(vals), w - 1)


def xparts(t):
    """constant and the other members of a XOR sum {id: term}"""
    const, acc, st = 0, {}, [t]
    W = t.size()
    while st:
        x = st.pop()
        if z3.is_bv_value(x):
            const ^= x.as_long()
        elif z3.is_app(x) and x.decl().kind() == z3.Z3_OP_BXOR:
            st.extend(x.children())
        elif z3.is_app(x) and x.decl().kind() == z3.Z3_OP_BNOT:
            const ^= (1 << W) - 1
            st.append(x.arg(0))
        else:
            i = x.get_id()
            if i in acc:
                del acc[i]
            else:
                acc[i] = x
    return const, acc


def cat(bits):
    return z3.Concat(*reversed(bits)) if len(bits) > 1 else bits[0]


def wide(t, W):
    return z3.ZeroExt(W - t.size(), t) if t.size() < W else t


def words():
    e = cur()
    return e.reg.get('words') if e is not None else None
