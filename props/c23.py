"""Reindexing moves an entry to the given position only."""
from sx.api import scenario, V3, V4
from props.lib import txt, canon, unchanged, reopen, where
from pykeepass import PyKeePass

BOUNDS = ('up to 5 entries (thorough: 6) and 3 subgroups, interleaved in every way with up to 2 subgroups; every entry, every index from 0 to 10,000; '
          'sequences of 2 reindexings (thorough: 3); titles of any text; other elements before, between and behind; also the root group and after reopening; one scenario with 17 entries')


def build(cx, kp, shape, g=None):
    """a group whose children come in the given order: e entry, g subgroup; -> group, entries"""
    g = kp.add_group(kp.root_group, 'grp') if g is None else g
    es = []
    for n, c in enumerate(shape):
        if c == 'e':
            e = kp.add_entry(g, 't%d' % n, 'u', 'p')
            es.append(e)
        elif c == 'g':
            kp.add_entry(kp.add_group(g, 'sub%d' % n), 'inner', 'u', 'p')
    es[0].title = cx.str('title', lo=1)
    return g, es


def children(g):
    return list(g._element)


def move(l, e, i):
    """the definition"""
    l = [x for x in l if x is not e]
    l.insert(i, e)
    return l


def check(cx, kp, g, es, order, before, what=''):
    """order of entries as wanted, and everything else as before"""
    now = [c for c in children(g) if c.tag == 'Entry']
    cx.check(len(now) == len(order), what + 'number of entries')
    cx.check([x is y._element for x, y in zip(now, order)] == [True] * len(order), what + 'order of entries')
    rest = [c for c in children(g) if c.tag != 'Entry']
    cx.check([x is y for x, y in zip(rest, before)] == [True] * len(before) and len(rest) == len(before), what + 'everything else in the group, in order')
    for i, e in enumerate(order):
        cx.check(e.index == i, what + 'index')
    cx.check([x._element is y._element for x, y in zip(g.entries, order)] == [True] * len(order), what + 'entries of the group')


SHAPES = ['e', 'ee', 'eee', 'eeeee', 'eg', 'ge', 'eeg', 'ege', 'gee', 'eege', 'egee', 'geee', 'eggee', 'gegee', 'egege', 'eegge', 'geg', 'geeg', 'gegeg']


@scenario(base=[V3, V4], shape=SHAPES + ['eeeeee', 'egegegee', 'geeggeeg'], quick=lambda base, shape: shape in SHAPES and (base == V4 or len(shape) < 4))
def one(cx, base, shape):
    kp = cx.db(base)
    g, es = build(cx, kp, shape)
    outside = kp.add_entry(kp.root_group, 'outside', 'u', 'p')
    rest = [c for c in children(g) if c.tag != 'Entry']
    check(cx, kp, g, es, es, rest, 'before: ')
    says = [canon(e._element) for e in es]
    sub = [canon(c) for c in rest]
    e = es[cx.choice('which', list(range(len(es))))]
    i = cx.int('i', 0, 10000)
    e.reindex(i)
    order = None
    for k in range(len(es)):
        if i == k:
            order = move(es, e, k)
            break
    else:
        order = move(es, e, len(es))
    check(cx, kp, g, es, order, rest)
    for x, y in zip(es, says):
        unchanged(cx, y, canon(x._element), [], 'entry')
    for x, y in zip(rest, sub):
        unchanged(cx, y, canon(x), [], 'subgroup')
    cx.check([c.tag for c in children(kp.root_group)].count('Entry') == 1, 'entries of other groups')


@scenario(base=[V4], shape=['eee', 'eege', 'gege', 'eeg'])
def sequence(cx, base, shape):
    kp = cx.db(base)
    g, es = build(cx, kp, shape)
    rest = [c for c in children(g) if c.tag != 'Entry']
    order = list(es)
    for n in range(2):
        e = es[cx.choice('which%d' % n, list(range(len(es))))]
        i = cx.choice('i%d' % n, list(range(len(es) + 1)))
        e.reindex(i)
        order = move(order, e, i)
        check(cx, kp, g, es, order, rest)


@scenario(base=[V3, V4], shape=['eeee', 'egeeg'], quick=False)
def long_sequence(cx, base, shape):
    kp = cx.db(base)
    g, es = build(cx, kp, shape)
    rest = [c for c in children(g) if c.tag != 'Entry']
    order = list(es)
    for n in range(3):
        e = es[cx.choice('which%d' % n, list(range(len(es))))]
        i = cx.choice('i%d' % n, list(range(len(es) + 1)))
        e.reindex(i)
        order = move(order, e, i)
        check(cx, kp, g, es, order, rest)


@scenario(base=[V3, V4], shape=['ee', 'egee', 'gee'])
def root(cx, base, shape):
    """in the root group, with a recorded state and an attachment"""
    kp = cx.db(base)
    g, es = build(cx, kp, shape, kp.root_group)
    es[0].save_history()
    es[0].add_attachment(kp.add_binary(b'x'), 'f')
    rest = [c for c in children(g) if c.tag != 'Entry']
    e = es[cx.choice('which', list(range(len(es))))]
    i = cx.choice('i', list(range(len(es) + 1)))
    says = [canon(x._element) for x in es]
    e.reindex(i)
    check(cx, kp, g, es, move(es, e, i), rest)
    for x, y in zip(es, says):
        unchanged(cx, y, canon(x._element), [], 'entry')
    cx.check(es[0].history[0].group == kp.root_group, 'group of the recorded state')


@scenario(base=[V3, V4], shape=['eee', 'gee', 'ege'])
def trailing(cx, base, shape):
    """with other elements behind and between the entries"""
    kp = cx.db(base)
    g, es = build(cx, kp, shape)
    g.notes = cx.str('notes')
    g.icon = '5'
    from lxml.builder import E
    g._element.append(E.CustomData())
    kp.move_entry(es[0], g)
    es = es[1:] + es[:1]
    rest = [c for c in children(g) if c.tag != 'Entry']
    e = es[cx.choice('which', list(range(len(es))))]
    i = cx.choice('i', list(range(len(es) + 1)))
    e.reindex(i)
    check(cx, kp, g, es, move(es, e, i), rest)


@scenario(base=[V3, V4])
def stored(cx, base):
    """the order survives saving"""
    kp = cx.db(base)
    g, es = build(cx, kp, 'egee')
    es[1].notes = cx.str('n1', lo=1)
    es[2].notes = cx.str('n2', lo=1)
    order = list(es)
    e = es[cx.choice('which', [0, 1, 2])]
    i = cx.choice('i', [0, 1, 2, 3])
    e.reindex(i)
    order = move(order, e, i)
    want = [(x.title, x.notes) for x in order]
    kp2 = reopen(cx, kp)
    g2 = kp2.groups[1]
    for n, (x, y) in enumerate(zip(g2.entries, want)):
        cx.check(x.title == y[0], 'title after reopening')
        cx.check(txt(x.notes) == txt(y[1]), 'notes after reopening')
        cx.check(x.index == n, 'index after reopening')


@scenario(base=[V3, V4])
def plenty(cx, base):
    """many entries"""
    kp = cx.db(base)
    g, es = build(cx, kp, 'eegeeeeeegeeeeeeeege')
    rest = [c for c in children(g) if c.tag != 'Entry']
    e = es[cx.choice('which', [0, 9, 11, len(es) - 1])]
    i = cx.choice('i', [0, 5, 9, 10, 11, 12, len(es) - 2, len(es) - 1, len(es)])
    e.reindex(i)
    check(cx, kp, g, es, move(es, e, i), rest)
