"""Structural edits move or remove exactly what was asked."""
from sx.api import scenario, V3, V4
from props.lib import txt, canon, reopen
from pykeepass import PyKeePass
import copy

BOUNDS = ('every sequence of 2 operations (thorough: 3) out of adding, moving, deleting and emptying, with every choice of operands in a database of 5 groups on 4 levels and '
          '5 entries with history, attachment and a symbolic title and name; also where items share one UUID; one scenario with 24 entries in 2 groups')


def own(el):
    """what an item says, without the items in it"""
    el = copy.deepcopy(el)
    for c in list(el):
        if c.tag in ('Entry', 'Group'):
            el.remove(c)
    return el


class Item:
    def __init__(self, h):
        self.h, self.kids, self.parent = h, [], None
        self.group = h._element.tag == 'Group'
        self.uuid = h._element.find('UUID').text
        self.own = own(h._element)


class Model:
    """the oracle: a tree of items"""

    def __init__(self, cx, kp):
        self.cx, self.kp, self.items = cx, kp, []
        self.root = self.new(kp.root_group, None)

    def new(self, h, parent):
        i = Item(h)
        self.items.append(i)
        if parent is not None:
            self.put(i, parent)
        return i

    def put(self, i, parent):
        if i.parent is not None:
            i.parent.kids.remove(i)
        i.parent = parent
        parent.kids.append(i)

    def drop(self, i):
        for k in list(i.kids):
            self.drop(k)
        i.parent.kids.remove(i)
        self.items.remove(i)

    def inside(self, i, g):
        while g is not None:
            if g is i:
                return True
            g = g.parent
        return False

    def check(self):
        cx = self.cx
        c = self.kp.tree.getroot().find('Root')
        roots = [x for x in c if x.tag == 'Group']
        cx.check(len(roots) == 1 and len([x for x in c if x.tag == 'Entry']) == 0, 'one root group')
        self.same(self.root, roots[0])
        for i in self.items:
            p = i.h.parentgroup
            if i.parent is None:
                cx.check(p is None, 'group of the root')
            else:
                cx.check(p is not None and p._element.find('UUID').text == i.parent.uuid, 'group of an item')
                p = i.h.group
                cx.check(p is not None and p._element.find('UUID').text == i.parent.uuid, 'group of an item')
            if i.group:
                cx.check([x._element.find('UUID').text for x in i.h.entries] == [k.uuid for k in i.kids if not k.group], 'entries of a group')
                cx.check([x._element.find('UUID').text for x in i.h.subgroups] == [k.uuid for k in i.kids if k.group], 'subgroups of a group')
        cx.check(len(self.kp.entries) == len([i for i in self.items if not i.group]), 'number of entries')
        cx.check(len(self.kp.groups) == len([i for i in self.items if i.group]), 'number of groups')

    def same(self, i, el):
        cx = self.cx
        cx.check(el.tag == ('Group' if i.group else 'Entry') and el.find('UUID').text == i.uuid, 'item is in its place')
        cx.check(cx.tree_eq(own(el), i.own), 'content of an item is unchanged')
        ks = [c for c in el if c.tag in ('Entry', 'Group')]
        cx.check(len(ks) == len(i.kids), 'number of items in a group')
        # entries and groups each keep their order
        for tag, isg in (('Entry', False), ('Group', True)):
            a, b = [c for c in ks if c.tag == tag], [k for k in i.kids if k.group == isg]
            cx.check(len(a) == len(b), 'number of items in a group')
            for x, y in zip(b, a):
                self.same(x, y)


def start(cx, base, twins=False):
    """root: e0, a(e1, b(e2, c), e3), d(e4)"""
    kp = cx.db(base)
    r = kp.root_group
    m = Model(cx, kp)
    e0 = kp.add_entry(r, cx.str('t'), 'u', 'p')
    a = kp.add_group(r, cx.str('n', lo=1))
    e1 = kp.add_entry(a, 't1', 'u', 'p', notes='n', tags=['x'])
    e1.save_history()
    e1.password = 'new'
    b = kp.add_group(a, 'b')
    e2 = kp.add_entry(b, 't2', 'u', 'p')
    c = kp.add_group(b, 'c')
    e3 = kp.add_entry(a, 't3', 'u', 'p')
    e3.add_attachment(kp.add_binary(b'x'), 'f')
    d = kp.add_group(r, 'd')
    e4 = kp.add_entry(d, 't4', 'u', 'p')
    if twins:
        i, j = cx.uuid('twin'), cx.uuid('twin group')
        for x in (e1, e2, e3, e4)[:4] if cx.flip('all') else (e3, e4):
            x.uuid = i
        for x in (b, d) if cx.flip('b and d') else (a, c):
            x.uuid = j
    I = {}
    for n, h, p in (('e0', e0, m.root), ('a', a, m.root), ('e1', e1, 'a'), ('b', b, 'a'), ('e2', e2, 'b'), ('c', c, 'b'), ('e3', e3, 'a'), ('d', d, m.root), ('e4', e4, 'd')):
        I[n] = m.new(h, I[p] if isinstance(p, str) else p)
    I['root'] = m.root
    m.check()
    return kp, m


OPS = ['add entry', 'add group', 'move entry', 'move group', 'delete entry', 'delete group', 'empty group', 'append']


def step(cx, kp, m, n, ops=OPS):
    op = cx.choice('op%d' % n, ops)
    es, gs = [i for i in m.items if not i.group], [i for i in m.items if i.group]
    E = lambda: es[cx.choice('e%d' % n, list(range(len(es))))]
    G = lambda: gs[cx.choice('g%d' % n, list(range(len(gs))))]
    D = lambda: gs[cx.choice('d%d' % n, list(range(len(gs))))]
    via = lambda: cx.flip('direct%d' % n)
    if op == 'add entry':
        d = D()
        h = kp.add_entry(d.h, 'new%d' % n, 'new user', 'p')
        m.new(h, d)
    elif op == 'add group':
        d = D()
        h = kp.add_group(d.h, 'new%d' % n)
        m.new(h, d)
    elif op == 'move entry':
        if not es:
            cx.assume(False)
        e, d = E(), D()
        kp.move_entry(e.h, d.h)
        m.put(e, d)
    elif op == 'move group':
        g, d = G(), D()
        if m.inside(g, d):
            try:
                kp.move_group(g.h, d.h)
            except Exception:
                pass
            else:
                cx.check(False, 'a group cannot be moved into itself')
        else:
            kp.move_group(g.h, d.h)
            m.put(g, d)
    elif op == 'delete entry':
        if not es:
            cx.assume(False)
        e = E()
        if via():
            e.h.delete()
        else:
            kp.delete_entry(e.h)
        m.drop(e)
    elif op == 'delete group':
        g = G()
        if g is m.root:
            cx.assume(False)
        if via():
            g.h.delete()
        else:
            kp.delete_group(g.h)
        m.drop(g)
    elif op == 'empty group':
        g = G()
        kp.empty_group(g.h)
        for k in list(g.kids):
            m.drop(k)
    elif op == 'append':
        if not es:
            cx.assume(False)
        d = D()
        k = cx.choice('k%d' % n, [1, 2])
        pick = [es[(cx.choice('e%d' % n, list(range(len(es)))) + j) % len(es)] for j in range(1)]
        if k == 2 and len(es) > 1:
            pick.append(es[(es.index(pick[0]) + 1) % len(es)])
            d.h.append([p.h for p in pick])
        else:
            d.h.append(pick[0].h)
        for p in pick:
            m.put(p, d)


@scenario(base=[V3, V4], op=OPS)
def one(cx, base, op):
    """every single operation with every choice of operands"""
    kp, m = start(cx, base)
    step(cx, kp, m, 0, [op])
    m.check()


@scenario(base=[V3, V4], op=OPS)
def twins(cx, base, op):
    """items with equal UUIDs: only the one given is concerned"""
    kp, m = start(cx, base, True)
    step(cx, kp, m, 0, [op])
    m.check()


@scenario(base=[V4], first=['move entry', 'move group', 'delete entry', 'delete group', 'empty group', 'append'],
          second=['move entry', 'move group', 'delete group', 'empty group', 'add entry'], quick=lambda base, first, second: first in ('move group', 'move entry'))
def two(cx, base, first, second):
    """two operations: every pair of operands"""
    kp, m = start(cx, base)
    step(cx, kp, m, 0, [first])
    step(cx, kp, m, 1, [second])
    m.check()


@scenario(base=[V3, V4], quick=False)
def three(cx, base):
    kp, m = start(cx, base)
    for n in range(3):
        step(cx, kp, m, n)
    m.check()


@scenario(base=[V3, V4])
def kept(cx, base):
    """the structure after one operation survives saving"""
    kp, m = start(cx, base)
    cx.unlimit(2 ** 19)
    op = cx.choice('which', ['move', 'delete', 'empty'])
    g = {i.h.name if i.group and i is not m.root else i.uuid: i for i in m.items}
    b, d = [i for i in m.items if i.group and i.own.find('Name').text == 'b'][0], [i for i in m.items if i.group and i.own.find('Name').text == 'd'][0]
    if op == 'move':
        kp.move_group(b.h, d.h)
        m.put(b, d)
    elif op == 'delete':
        kp.delete_group(b.h)
        m.drop(b)
    else:
        kp.empty_group(d.h)
        for k in list(d.kids):
            m.drop(k)
    m.kp = reopen(cx, kp)
    m.items = []
    for i in [m.root]:
        m.same(i, m.kp.tree.getroot().find('Root').find('Group'))


@scenario(base=[V3, V4])
def clash(cx, base):
    """an entry with the title and user name of another in the group is added only if forced; elsewhere always"""
    kp, m = start(cx, base)
    t, u = cx.str('ct', lo=1), cx.str('cu', lo=1)
    g = [i for i in m.items if i.group and i.own.find('Name').text == 'd'][0]
    m.new(kp.add_entry(g.h, 'other', u, 'p', force_creation=True), g)
    where = cx.choice('where', ['d', 'root'])
    d = g if where == 'd' else m.root
    exists = cx.truth(cx.either(*[cx.both(k.h.title == t, k.h.username == u) for k in d.kids if not k.group]))
    force = cx.flip('force')
    try:
        h = kp.add_entry(d.h, t, u, 'p2', force_creation=force)
    except Exception:
        cx.check(exists and not force, 'refused only if there is one already')
    else:
        cx.check(force or not exists, 'refused if there is one already')
        m.new(h, d)
    m.check()


@scenario(base=[V3, V4], what=['empty', 'move', 'delete', 'append'])
def plenty(cx, base, what):
    """many items"""
    kp = cx.db(base)
    m = Model(cx, kp)
    g = m.new(kp.add_group(kp.root_group, cx.str('n', lo=1)), m.root)
    d = m.new(kp.add_group(kp.root_group, 'd'), m.root)
    for i in range(24):
        m.new(kp.add_entry(g.h, 't%d' % i, 'u%d' % i, cx.str('p', lo=1) if i == 11 else 'p'), g)
        if i % 2:
            m.new(kp.add_group(g.h, 's%d' % i), g)
    es = [k for k in g.kids if not k.group]
    if what == 'empty':
        kp.empty_group(g.h)
        for k in list(g.kids):
            m.drop(k)
    elif what == 'move':
        i = cx.choice('i', [0, 10, 11, 12, 23])
        kp.move_entry(es[i].h, d.h)
        m.put(es[i], d)
        kp.move_group(g.h, d.h)
        m.put(g, d)
    elif what == 'delete':
        i = cx.choice('i', [0, 10, 11, 12, 23])
        kp.delete_entry(es[i].h)
        m.drop(es[i])
        s = [k for k in g.kids if k.group][cx.choice('j', [0, 10, 11])]
        kp.delete_group(s.h)
        m.drop(s)
    else:
        d.h.append([k.h for k in es])
        for k in es:
            m.put(k, d)
    m.check()
