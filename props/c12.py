"""Custom properties behave as a map."""
from sx.api import scenario, V3, V4
from props.lib import txt, canon, unchanged, where, sample, reopen
from pykeepass import PyKeePass
import copy

BOUNDS = ('every non-empty key and every value; sequences of up to 3 operations (thorough: 4) on up to 3 symbolic keys, equal or not, among 4 fixed ones, on an entry '
          'with history; before and after saving and reopening; one scenario with 25 properties')
RESERVED = ['Title', 'UserName', 'Password', 'URL', 'Tags', 'IconID', 'Times', 'History', 'Notes', 'otp']


def key(cx, name):
    k = cx.str(name, lo=1)
    for r in RESERVED:
        cx.assume(k != r)
    return k


class Map:
    """the oracle: an association list"""

    def __init__(self, cx):
        self.cx, self.items = cx, []

    def find(self, k):
        for i, x in enumerate(self.items):
            if self.cx.truth(x[0] == k):
                return i
        return None

    def set(self, k, v, p):
        i = self.find(k)
        if i is not None:
            del self.items[i]
        self.items.append((k, v, p))

    def delete(self, k):
        i = self.find(k)
        if i is None:
            return False
        del self.items[i]
        return True


def same(cx, e, m):
    """the entry shows exactly the map"""
    for k, v, p in m.items:
        cx.check(txt(e.get_custom_property(k)) == v, 'value')
        cx.check(e.is_custom_property_protected(k) == p, 'protection mark')
    d = e.custom_properties
    cx.check(len(d) == len(m.items), 'number of properties listed')
    for k, v in d.items():
        i = m.find(k)
        cx.check(i is not None, 'listed key was set')
        cx.check(txt(v) == m.items[i][1], 'listed value')


def others(cx, kp, e, before):
    """nothing else changed"""
    a = copy.deepcopy(kp.tree)
    x = a.xpath('//Entry[not(ancestor::History)]')[[y._element is e._element for y in kp.entries].index(True)]
    for s in x.findall('String'):
        k = s.find('Key').text
        if not any(cx.truth(k == r) for r in RESERVED):
            x.remove(s)
    unchanged(cx, before, canon(a))


FIXED = [('title', 'lower case key', False), ('Title ', 'key with a space', True), ('URL2', 'Title', False), ('String', 'Notes', False)]


def start(cx, base):
    kp = cx.db(base)
    e, g, f = sample(cx, kp)
    m = Map(cx)
    for k, v, p in FIXED:
        m.set(k, v, p)
    a = copy.deepcopy(kp.tree)
    x = a.xpath('//Entry[not(ancestor::History)]')[[y._element is e._element for y in kp.entries].index(True)]
    for s in x.findall('String'):
        if s.find('Key').text not in RESERVED:
            x.remove(s)
    return kp, e, m, canon(a)


def apply(cx, e, m, i, k):
    op = cx.choice('op%d' % i, ['set', 'set protected', 'delete'])
    if op == 'delete':
        there = m.delete(k)
        try:
            e.delete_custom_property(k)
        except AttributeError:
            cx.check(not there, 'deleting an unknown key is the only error')
        else:
            cx.check(there, 'deleting an unknown key is an error')
    else:
        v = cx.str('v%d' % i)
        p = op == 'set protected'
        if p:
            e.set_custom_property(k, v, protect=True)
        else:
            e.set_custom_property(k, v)
        m.set(k, v, p)


@scenario(base=[V3, V4])
def one_key(cx, base):
    """two operations on one key"""
    kp, e, m, before = start(cx, base)
    k = key(cx, 'k')
    for i in range(2):
        apply(cx, e, m, i, k)
        same(cx, e, m)
    if m.find(k) is None:
        cx.check(e.get_custom_property(k) is None, 'unknown key gives None')
        cx.check(e.is_custom_property_protected(k) is False, 'unknown key is not protected')
    others(cx, kp, e, before)


@scenario(base=[V3, V4])
def two_keys(cx, base):
    kp, e, m, before = start(cx, base)
    a, b = key(cx, 'a'), key(cx, 'b')
    for i in range(2):
        apply(cx, e, m, i, [a, b][i])
    same(cx, e, m)
    for k in (a, b):
        if m.find(k) is None:
            cx.check(e.get_custom_property(k) is None, 'unknown key gives None')
    others(cx, kp, e, before)


@scenario(base=[V4])
def three_ops(cx, base):
    kp, e, m, before = start(cx, base)
    a, b = key(cx, 'a'), key(cx, 'b')
    for k, v, p in FIXED:
        cx.assume(a != k)
        cx.assume(b != k)
    for i, k in enumerate([a, b, a]):
        apply(cx, e, m, i, k)
    same(cx, e, m)
    others(cx, kp, e, before)


@scenario(base=[V3, V4], quick=False)
def four_ops(cx, base):
    kp, e, m, before = start(cx, base)
    a, b, c = key(cx, 'a'), key(cx, 'b'), key(cx, 'c')
    for i, k in enumerate([a, b, c, a]):
        apply(cx, e, m, i, k)
    same(cx, e, m)
    others(cx, kp, e, before)


@scenario(base=[V3, V4])
def stored(cx, base):
    """the map survives saving, and is still a map afterwards"""
    kp, e, m, before = start(cx, base)
    cx.unlimit(2 ** 19)
    a = key(cx, 'a')
    for k, v, p in FIXED:
        cx.assume(a != k)
    v = cx.str('v')
    p = cx.flip('p')
    e.set_custom_property(a, v, protect=p)
    m.set(a, v, p)
    kp = reopen(cx, kp)
    e = kp.groups[1].entries[0]
    same(cx, e, m)
    apply(cx, e, m, 0, a)
    same(cx, e, m)


@scenario(base=[V3, V4], r=RESERVED)
def reserved(cx, base, r):
    """reserved names are refused without any change"""
    kp, e, m, _ = start(cx, base)
    before = canon(kp.tree)
    v = cx.str('v')
    for f, ok in ((lambda: e.set_custom_property(r, v), AssertionError), (lambda: e.set_custom_property(r, v, protect=True), AssertionError),
                  (lambda: e.get_custom_property(r), AssertionError), (lambda: e.is_custom_property_protected(r), AssertionError),
                  (lambda: e.delete_custom_property(r), AttributeError)):
        try:
            f()
        except Exception:
            cx.check(True, 'reserved name is refused')
        else:
            cx.check(False, 'reserved name is refused')
        unchanged(cx, before, canon(kp.tree))
    same(cx, e, m)


@scenario(base=[V3, V4])
def history(cx, base):
    """properties of an entry and of its recorded states are separate"""
    kp, e, m, _ = start(cx, base)
    k = key(cx, 'k')
    for f, v, p in FIXED:
        cx.assume(k != f)
    h = Map(cx)
    for x in FIXED:
        h.set(*x)
    v, w = cx.str('v'), cx.str('w')
    e.set_custom_property(k, v)
    m.set(k, v, False)
    e.save_history()
    i = cx.choice('i', [0, 1])
    e.history[i].set_custom_property(k, w, protect=True)
    h.set(k, w, True)
    same(cx, e, m)
    same(cx, e.history[i], h)
    same(cx, e.history[2], m)
    e.delete_custom_property(k)
    m.delete(k)
    same(cx, e, m)
    same(cx, e.history[i], h)
    cx.check(txt(e.history[2].get_custom_property(k)) == v, 'recorded value stays')


@scenario(base=[V3, V4])
def plenty(cx, base):
    """many properties"""
    kp = cx.db(base)
    e = kp.add_entry(kp.root_group, 't', 'u', 'p')
    m = Map(cx)
    k = key(cx, 'k')
    for i in range(25):
        n = k if i == 13 else 'key %d' % i
        if i != 13:
            cx.assume(k != n)
        v, p = cx.str('v%d' % i, lo=1) if i % 8 == 5 else 'v%d' % i, i % 3 == 0
        e.set_custom_property(n, v, protect=p)
        m.set(n, v, p)
    same(cx, e, m)
    n = [k, 'key 0', 'key 11', 'key 24'][cx.choice('which', [0, 1, 2, 3])]
    if cx.flip('delete'):
        e.delete_custom_property(n)
        m.delete(n)
        cx.check(e.get_custom_property(n) is None, 'deleted')
    else:
        e.set_custom_property(n, 'new')
        m.set(n, 'new', False)
    same(cx, e, m)
