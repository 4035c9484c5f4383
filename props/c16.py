"""The recycle bin keeps trashed items and is made at most once."""
from sx.api import scenario, V3, V4, V41
from props.lib import txt, canon, unchanged, reopen
from props.c15 import start, Model
from pykeepass import PyKeePass
from pykeepass.exceptions import UnableToSendToRecycleBin
import base64, uuid

BOUNDS = ('every sequence of 2 operations (thorough: 3) out of trashing, moving, deleting, emptying and renaming, with every choice of operands in a database of 5 groups on 4 levels, '
          '5 entries and a recycle bin: none, at any place, with a symbolic name and UUID, or deleted; saved and reopened between; one scenario with 27 trashed items')


def meta(kp):
    return canon(kp.tree.getroot().find('Meta'))


class Bin:
    """what the recycle bin should be"""

    def __init__(self, cx, kp, m):
        self.cx, self.kp, self.m, self.item = cx, kp, m, None
        self.meta = meta(kp)

    def ensure(self):
        """after a successful trash: the bin exists, new at the end of the root if there was none"""
        cx, kp, m = self.cx, self.kp, self.m
        g = kp.recyclebin_group
        cx.check(g is not None, 'there is a recycle bin')
        if self.item is None:
            self.item = m.new(g, m.root)
            cx.check(g._element.find('UUID').text not in [i.uuid for i in m.items if i is not self.item], 'new recycle bin is a new group')
        cx.check(g._element.find('UUID').text == self.item.uuid, 'recycle bin is the group that the database names')
        cx.check(kp.tree.getroot().find('Meta').find('RecycleBinUUID').text == self.item.uuid, 'database names the recycle bin')
        unchanged(cx, self.meta, meta(kp), ['Meta/RecycleBinUUID[0]'], 'settings')

    def sync(self):
        if self.item is not None and self.item not in self.m.items:
            self.item = None


def trash(cx, kp, m, b, i):
    before = canon(kp.tree)
    refused = i is m.root or i is b.item or (b.item is not None and m.inside(i, b.item))
    try:
        if i.group:
            kp.trash_group(i.h)
        else:
            kp.trash_entry(i.h)
    except Exception as e:
        cx.check(refused, 'refused only the root, the bin and what contains it')
        if i is m.root or i is b.item:
            cx.check(isinstance(e, UnableToSendToRecycleBin), 'error of a refused item')
        unchanged(cx, before, canon(kp.tree), [], 'refused: everything')
    else:
        cx.check(not refused, 'root, bin and what contains it are refused')
        b.ensure()
        m.put(i, b.item)


OPS = ['trash entry', 'trash group', 'move entry', 'move group', 'delete group', 'empty group', 'rename']


def step(cx, kp, m, b, n, ops):
    op = cx.choice('op%d' % n, ops)
    es, gs = [i for i in m.items if not i.group], [i for i in m.items if i.group]
    E = lambda: es[cx.choice('e%d' % n, list(range(len(es))))] if es else cx.assume(False)
    G = lambda: gs[cx.choice('g%d' % n, list(range(len(gs))))]
    if op == 'trash entry':
        trash(cx, kp, m, b, E())
    elif op == 'trash group':
        trash(cx, kp, m, b, G())
    elif op == 'move entry':
        e, g = E(), G()
        kp.move_entry(e.h, g.h)
        m.put(e, g)
    elif op == 'move group':
        g, d = G(), gs[cx.choice('d%d' % n, list(range(len(gs))))]
        if m.inside(g, d):
            cx.assume(False)
        kp.move_group(g.h, d.h)
        m.put(g, d)
    elif op == 'delete group':
        g = G()
        if g is m.root:
            cx.assume(False)
        kp.delete_group(g.h)
        m.drop(g)
    elif op == 'empty group':
        g = G()
        kp.empty_group(g.h)
        for k in list(g.kids):
            m.drop(k)
    elif op == 'rename':
        g = G()
        g.h.name = cx.str('name%d' % n, lo=1)
        from props.c15 import own
        g.own = own(g.h._element)
    b.sync()
    m.check()


def begin(cx, base, kind):
    kp, m = start(cx, base)
    b = Bin(cx, kp, m)
    if kind == 'other name':
        # a group that has the name but is not the bin
        m.new(kp.add_group(kp.root_group, 'Recycle Bin'), m.root)
    elif kind in ('empty', 'unnamed'):
        # as other programs write it if there is none
        x = kp.tree.getroot().find('Meta').find('RecycleBinUUID')
        if kind == 'empty':
            x.text = None
        else:
            x.getparent().remove(x)
        b.meta = meta(kp)
        cx.check(kp.recyclebin_group is None, 'no recycle bin')
    elif kind != 'none':
        gs = [i for i in m.items if i.group and i is not m.root]
        at = m.root if kind == 'top' else gs[cx.choice('at', [0, 1, 2, 3])] if kind == 'nested' else gs[2]
        g = kp.add_group(at.h, cx.str('bin', lo=1))
        if kind == 'top':
            u = cx.uuid('u')
            cx.assume(u != kp.root_group.uuid)
            g.uuid = u
        b.item = m.new(g, at)
        kp.tree.getroot().find('Meta').find('RecycleBinUUID').text = g._element.find('UUID').text
        b.meta = meta(kp)
        if kind == 'used':
            e = [i for i in m.items if not i.group][-1]
            kp.move_entry(e.h, g)
            m.put(e, b.item)
    return kp, m, b


@scenario(base=[V3, V4, V41], kind=['none', 'empty', 'unnamed', 'other name', 'top', 'nested', 'used'], op=['trash entry', 'trash group'])
def one(cx, base, kind, op):
    kp, m, b = begin(cx, base, kind)
    step(cx, kp, m, b, 0, [op])


@scenario(base=[V4], kind=['none', 'used'], first=['trash entry', 'trash group', 'delete group', 'empty group', 'rename', 'move group'],
          quick=lambda base, kind, first: first in ('trash entry', 'trash group', 'delete group') or kind == 'used' and first in ('rename', 'empty group'))
def two(cx, base, kind, first):
    """another operation, then trashing"""
    kp, m, b = begin(cx, base, kind)
    step(cx, kp, m, b, 0, [first])
    step(cx, kp, m, b, 1, ['trash entry', 'trash group'])


@scenario(base=[V3, V4], kind=['none', 'used', 'top'], quick=False)
def three(cx, base, kind):
    kp, m, b = begin(cx, base, kind)
    for n in range(2):
        step(cx, kp, m, b, n, OPS)
    step(cx, kp, m, b, 2, ['trash entry', 'trash group'])


@scenario(base=[V3, V4])
def then(cx, base):
    """what is in the bin can be moved out again and trashed again, and the bin can be emptied"""
    kp, m, b = begin(cx, base, 'none')
    es = [i for i in m.items if not i.group]
    e = es[cx.choice('e', [0, 1, 2])]
    trash(cx, kp, m, b, e)
    m.check()
    what = cx.choice('what', ['back', 'delete bin', 'empty', 'again'])
    if what == 'back':
        kp.move_entry(e.h, kp.root_group)
        m.put(e, m.root)
    elif what == 'delete bin':
        kp.delete_group(kp.recyclebin_group)
        m.drop(b.item)
        b.sync()
        cx.check(kp.recyclebin_group is None, 'no recycle bin')
    elif what == 'empty':
        kp.empty_group(kp.recyclebin_group)
        m.drop(e)
    m.check()
    f = [i for i in m.items if not i.group][0] if what != 'again' else e
    trash(cx, kp, m, b, f)
    m.check()


@scenario(base=[V3, V4])
def reopened(cx, base):
    """the bin is the same after saving"""
    kp = cx.db(base)
    cx.unlimit(2 ** 19)
    e = kp.add_entry(kp.root_group, cx.str('t', lo=1), 'u', 'p')
    f = kp.add_entry(kp.root_group, cx.str('t2', lo=1), 'v', 'p')
    g = kp.add_group(kp.root_group, cx.str('n', lo=1))
    kp.trash_entry(e)
    u = kp.recyclebin_group.uuid
    kp = reopen(cx, kp)
    cx.check(kp.recyclebin_group is not None and kp.recyclebin_group.uuid == u, 'recycle bin after reopening')
    cx.check(len(kp.recyclebin_group.entries) == 1, 'content after reopening')
    kp.trash_entry(kp.find_entries(username='v', first=True))
    kp.trash_group(kp.root_group.subgroups[0])
    cx.check(len(kp.groups) == 3, 'no second recycle bin')
    cx.check([x.username for x in kp.recyclebin_group.entries] == ['u', 'v'], 'both in the bin')
    cx.check(len(kp.recyclebin_group.subgroups) == 1 and len(kp.root_group.entries) == 0, 'group in the bin')


@scenario(base=[V3, V4], kind=['none', 'used'])
def refused(cx, base, kind):
    kp, m, b = begin(cx, base, kind)
    for i in (m.root,) + ((b.item,) if b.item else ()):
        before = canon(kp.tree)
        try:
            kp.trash_group(i.h)
        except UnableToSendToRecycleBin:
            cx.check(True, 'refused')
        else:
            cx.check(False, 'refused')
        unchanged(cx, before, canon(kp.tree), [], 'refused: everything')
    m.check()


@scenario(base=[V3, V4])
def plenty(cx, base):
    """many items"""
    kp = cx.db(base)
    m = Model(cx, kp)
    b = Bin(cx, kp, m)
    g = m.new(kp.add_group(kp.root_group, cx.str('n', lo=1)), m.root)
    es = [m.new(kp.add_entry(g.h, 't%d' % i, 'u', cx.str('p', lo=1) if i == 3 else 'p'), g) for i in range(14)]
    gs = [m.new(kp.add_group(g.h, 'g'), g) for i in range(13)]
    for x in es + gs:
        trash(cx, kp, m, b, x)
    m.check()
    # what is in the bin stays in it
    trash(cx, kp, m, b, (es + gs)[cx.choice('again', [0, 12, 13, 20])])
    m.check()
