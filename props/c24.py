"""Equality and hashing identify items by UUID."""
from datetime import datetime, timedelta, timezone
from sx.api import scenario, V3, V4, V41
from props.lib import reopen
from pykeepass import PyKeePass

BOUNDS = ('every pair of UUIDs (all 128 bits), every pair of modification times from year 1 to 9999 to the second, every content of the other fields; entries, groups and history items, '
          'in one database and in two; other operands: None, numbers, text, UUID, lists, attachments, database')
ASSUMES = ['hash() of a UUID is its number modulo 2^61-1, of other values injective']


def make(cx, kp, kind, p):
    if kind == 'entry':
        return kp.add_entry(kp.root_group, 't' + p, 'u', 'p')
    return kp.add_group(kp.root_group, 'n' + p)


def vary(cx, x, kind, p):
    """content that must not matter"""
    if kind == 'entry':
        x.title, x.notes = cx.str('title' + p), cx.str('notes' + p)
        x.set_custom_property('k', cx.str('custom' + p))
    else:
        x.name, x.notes = cx.str('name' + p), cx.str('notes' + p)
    x.icon = cx.str('icon' + p, lo=1)
    x.mtime, x.ctime, x.atime, x.expiry_time = (cx.datetime(n + p) for n in ('m', 'c', 'a', 'x'))


def laws(cx, a, b, want, what):
    cx.check((a == b) == want, what + ': equal exactly if identified alike')
    cx.check((b == a) == want, what + ': symmetric')
    cx.check((a != b) == cx.neg(want), what + ': unequal is the opposite')
    if want:
        cx.check(hash(a) == hash(b), what + ': equal items have equal hashes')
        cx.check(a in [b], what + ': found in a list')
        cx.check(len(set([a, b])) == 1, what + ': one member of a set')
    else:
        cx.check(a not in [b], what + ': not found in a list')
        cx.check(len(set([a, b])) == 2, what + ': two members of a set')


@scenario(base=[V3, V4, V41], kind=['entry', 'group'], two=[True, False])
def pair(cx, base, kind, two):
    """two items of any content and UUID"""
    kp = cx.db(base)
    kp2 = cx.db(V3) if two else kp
    a, b = make(cx, kp, kind, '1'), make(cx, kp2, kind, '2')
    vary(cx, a, kind, '1')
    vary(cx, b, kind, '2')
    u, v = cx.uuid('u'), cx.uuid('v')
    a.uuid, b.uuid = u, v
    laws(cx, a, b, u == v, kind)


@scenario(base=[V3, V4], kind=['entry', 'group'])
def handles(cx, base, kind):
    """two objects for the same item, before and after changes and moves"""
    kp = cx.db(base)
    g = kp.add_group(kp.root_group, 'g')
    a = make(cx, kp, kind, '1')
    a.uuid = cx.uuid('u')
    cx.assume(a.uuid != kp.root_group.uuid)
    b = (kp.find_entries if kind == 'entry' else kp.find_groups)(uuid=a.uuid, first=True)
    cx.check(a == b, 'the same item')
    cx.check(hash(a) == hash(b), 'the same hash')
    h = hash(a)
    vary(cx, a, kind, '1')
    (kp.move_entry if kind == 'entry' else kp.move_group)(a, g)
    cx.check(a == b, 'the same after changes')
    cx.check(hash(b) == h, 'the same hash after changes')
    kp2 = reopen(cx, kp)
    c = (kp2.find_entries if kind == 'entry' else kp2.find_groups)(uuid=a.uuid, first=True)
    cx.check(a == c, 'the same after reopening')
    cx.check(hash(a) == hash(c), 'the same hash after reopening')


@scenario(base=[V3, V4, V41])
def recorded(cx, base):
    """history items of one or two entries"""
    kp = cx.db(base)
    e, f = make(cx, kp, 'entry', '1'), make(cx, kp, 'entry', '2')
    u, v = cx.uuid('u'), cx.uuid('v')
    e.uuid, f.uuid = u, v
    t = [cx.datetime('t%d' % i, step=1000000) for i in range(3)]
    for i, x in enumerate((e, e, f)):
        x.mtime = t[i]
        x.notes = cx.str('n%d' % i)
        x.save_history()
    a, b = e.history
    c, = f.history
    laws(cx, a, b, t[0] == t[1], 'states of one entry')
    laws(cx, a, c, cx.both(u == v, t[0] == t[2]), 'states of two entries')
    cx.check(cx.neg(a == e), 'a state is not its entry')
    cx.check(cx.neg(e == a), 'an entry is not its state')
    cx.check(a != e, 'a state is not its entry')
    cx.check(e.history[0] == a, 'two objects for one state')
    cx.check(hash(e.history[0]) == hash(a), 'the same hash')


@scenario(base=[V3, V4], step=[1, 59, 60, 3600, 86400, 31536000])
def near(cx, base, step):
    """states of one entry that were modified one after the other"""
    kp = cx.db(base)
    e = make(cx, kp, 'entry', '1')
    e.uuid = cx.uuid('u')
    t = cx.datetime('t', step=1000000)
    cx.assume(t < datetime(9990, 1, 1, tzinfo=timezone.utc))
    for d in (0, step, 0):
        e.mtime = t + timedelta(seconds=d)
        e.save_history()
    a, b, c = e.history
    laws(cx, a, b, False, 'states of different times')
    laws(cx, b, c, False, 'states of different times')
    laws(cx, a, c, True, 'states of the same time')


@scenario(base=[V3, V4], kind=['entry', 'group', 'history'])
def foreign(cx, base, kind):
    """comparison with anything else is false and no error"""
    kp = cx.db(base)
    e = make(cx, kp, 'entry', '1')
    e.uuid = cx.uuid('u')
    g = make(cx, kp, 'group', '2')
    g.uuid = cx.uuid('v')
    e.save_history()
    x = {'entry': e, 'group': g, 'history': e.history[0]}[kind]
    att = e.add_attachment(kp.add_binary(b'd'), 'f')
    for o in (None, 0, '', 'text', x.uuid, str(x.uuid), x.uuid.bytes, (x.uuid,), [], [x.uuid], att, kp, x._element, object()):
        cx.check((x == o) is False, 'equal to something else')
        cx.check((o == x) is False, 'equal to something else, other way round')
        cx.check((x != o) is True, 'unequal to something else')
    cx.check(x == x, 'equal to itself')


@scenario(base=[V3, V4])
def lookup(cx, base):
    """sets of items"""
    kp = cx.db(base)
    es = [make(cx, kp, 'entry', str(i)) for i in range(3)]
    us = [cx.uuid('u%d' % i) for i in range(3)]
    for e, u in zip(es, us):
        e.uuid = u
    d = set(es)
    n = 1 + (0 if us[1] == us[0] else 1) + (0 if us[2] == us[0] or us[2] == us[1] else 1)
    cx.check(len(d) == n, 'as many members as UUIDs')
    cx.check(es[2] in d, 'found again')
    cx.check(kp.entries[2] in d, 'found through another object')
