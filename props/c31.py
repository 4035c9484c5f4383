"""Every item can be printed and located, wherever it is."""
from sx.api import scenario, V3, V4
from props.lib import txt, canon, sample, reopen, unchanged
from pykeepass import PyKeePass
from pykeepass.entry import Entry
from pykeepass.group import Group

BOUNDS = ('every title, user name, group name and file name, or none; items in the database, deleted from it, below a deleted group, or never put into it; 3, 8 and 40 levels of groups; '
          'before and after saving and reopening; 1 operation of 17 on a small database')


def build(cx, base):
    """root: g(h(e)); names of all kinds"""
    kp = cx.db(base)
    n = {}
    n['g'], n['h'], n['title'], n['user'] = 'outer', 'inner', 'a title', 'a user'
    for k in cx.choice('names', [('g', 'title'), ('h', 'user'), ('title', 'user'), ('g', 'h')]):
        n[k] = cx.str(k, lo=1, hi=1000)
    g = kp.add_group(kp.root_group, n['g'])
    h = kp.add_group(g, n['h'])
    e = kp.add_entry(h, n['title'], n['user'], 'p')
    return kp, g, h, e, n


def same(cx, got, want, what):
    """two lists of texts"""
    cx.check(len(got) == len(want), what + ': length')
    for x, y in zip(got, want):
        cx.check(txt(x) == txt(y), what + ': element')


def shown(cx, x, parts, what):
    """str and repr agree and show the parts"""
    s = str(x)
    cx.check(repr(x) == s, what + ': repr is str')
    cx.check(s == parts, what)


@scenario(base=[V3, V4])
def inside(cx, base):
    kp, g, h, e, n = build(cx, base)
    e.save_history()
    a = e.add_attachment(kp.add_binary(b'x'), n['user'])
    before = canon(kp.tree)
    if cx.flip('reopened'):
        cx.unlimit(2 ** 19)
        kp = reopen(cx, kp)
        g = kp.root_group.subgroups[0]
        h = g.subgroups[0]
        e = h.entries[0]
        a = e.attachments[0]
    path = '%s/%s' % (n['g'], n['h'])
    shown(cx, kp.root_group, 'Group: ""', 'root group')
    shown(cx, g, 'Group: "%s"' % n['g'], 'group')
    shown(cx, h, 'Group: "%s"' % path, 'inner group')
    text = 'Entry: "%s/%s (%s)"' % (path, n['title'], n['user'])
    shown(cx, e, text, 'entry')
    shown(cx, e.history[0], 'HistoryEntry: ' + text, 'history item')
    shown(cx, a, "Attachment: '%s' -> 0" % n['user'], 'attachment')
    same(cx, h.path, [n['g'], n['h']], 'path of the group')
    same(cx, e.path, [n['g'], n['h'], n['title']], 'path of the entry')
    unchanged(cx, before, canon(kp.tree), what='the database')


@scenario(base=[V3, V4], n=[8, 40])
def deep(cx, base, n):
    """many levels of groups"""
    kp = cx.db(base)
    g, names = kp.root_group, []
    for i in range(n):
        names.append(cx.str('name%d' % i, lo=1) if i in (0, n // 2, n - 1) else 'g%d' % i)
        g = kp.add_group(g, names[-1])
    e = kp.add_entry(g, 'title', 'user', 'p')
    e.save_history()
    if cx.flip('reopened'):
        cx.unlimit(2 ** 19)
        kp = reopen(cx, kp)
        e = kp.entries[0]
        g = e.group
    path = '/'.join(['%s'] * n) % tuple(names)
    shown(cx, g, 'Group: "%s"' % path, 'group')
    text = 'Entry: "%s/title (user)"' % path
    shown(cx, e, text, 'entry')
    shown(cx, e.history[0], 'HistoryEntry: ' + text, 'history item')
    same(cx, g.path, names, 'path of the group')
    same(cx, e.path, names + ['title'], 'path of the entry')


@scenario(base=[V3, V4], what=['entry', 'inner', 'outer', 'history', 'attachment', 'moved'])
def removed(cx, base, what):
    """items taken out of the database can still be looked at"""
    kp, g, h, e, n = build(cx, base)
    e.save_history()
    s, a = e.history[0], e.add_attachment(kp.add_binary(b'x'), n['title'])
    name = 'Entry: "%s (%s)"'
    full = '%s/%s/%s' % (n['g'], n['h'], n['title'])
    if what == 'entry':
        kp.delete_entry(e)
        shown(cx, e, name % (n['title'], n['user']), 'deleted entry')
        shown(cx, s, 'HistoryEntry: ' + name % (n['title'], n['user']), 'history of a deleted entry')
        cx.check(e.path is None, 'no path')
        cx.check(e.group is None, 'no group')
        cx.check(h.entries == [], 'gone from its group')
    elif what == 'inner':
        kp.delete_group(h)
        cx.check(h.path == [], 'no path')
        cx.check(h.group is None, 'no group')
        cx.check(h.is_root_group is False, 'not the root group')
        cx.check(isinstance(str(h), str), 'can be printed')
        shown(cx, e, name % ('%s/%s' % (n['h'], n['title']), n['user']), 'entry of a deleted group')
        cx.check(e.group == h, 'its entry is still in it')
    elif what == 'outer':
        kp.delete_group(g)
        cx.check(g.is_root_group is False, 'not the root group')
        cx.check(h.is_root_group is False, 'not the root group')
        shown(cx, h, 'Group: "%s/%s"' % (n['g'], n['h']), 'group of a deleted group')
        shown(cx, e, name % (full, n['user']), 'entry below a deleted group')
        shown(cx, s, 'HistoryEntry: ' + name % (full, n['user']), 'history item below a deleted group')
        same(cx, e.path, [n['g'], n['h'], n['title']], 'path of the entry')
    elif what == 'history':
        e.delete_history(s)
        shown(cx, s, 'HistoryEntry: ' + name % (n['title'], n['user']), 'deleted history item')
        shown(cx, e, name % (full, n['user']), 'its entry')
    elif what == 'attachment':
        a.delete()
        cx.check(repr(a) == "Attachment: '%s' -> 0" % n['title'], 'deleted attachment')
        shown(cx, e, name % (full, n['user']), 'its entry')
    else:
        kp.delete_group(g)
        kp.move_group(h, kp.root_group)
        shown(cx, h, 'Group: "%s"' % n['h'], 'group moved out of a deleted one')
        shown(cx, e, name % ('%s/%s' % (n['h'], n['title']), n['user']), 'its entry')
    for f in ('title', 'username', 'password'):
        cx.check(txt(getattr(e, f)) == {'title': n['title'], 'username': n['user'], 'password': 'p'}[f], 'fields can still be read')


@scenario(base=[V3, V4])
def new(cx, base):
    """items that are not in the database yet"""
    kp = cx.db(base)
    t, u = cx.str('t', lo=1), cx.str('u', lo=1)
    e, g = Entry(t, u, 'p', kp=kp), Group(t, kp=kp)
    shown(cx, e, 'Entry: "%s (%s)"' % (t, u), 'new entry')
    cx.check(e.path is None and e.group is None, 'no place')
    cx.check(isinstance(str(g), str), 'new group can be printed')
    cx.check(g.path == [] and g.group is None and g.is_root_group is False, 'no place')
    cx.check(e.is_a_history_entry is False, 'not a history item')
    g.append(e)
    shown(cx, e, 'Entry: "%s/%s (%s)"' % (t, t, u), 'entry in a new group')
    kp.root_group.append(g)
    shown(cx, g, 'Group: "%s"' % t, 'group put into the database')
    shown(cx, e, 'Entry: "%s/%s (%s)"' % (t, t, u), 'entry put into the database')


@scenario(base=[V3, V4])
def nameless(cx, base):
    """other programs leave fields out, and a field can be empty"""
    kp = cx.db(base)
    v = cx.str('v', lo=1)
    g = kp.add_group(kp.root_group, 'g')
    e = kp.add_entry(g, 'title', 'user', 'p')
    how = cx.choice('how', ['no title', 'empty title', 'no user', 'empty user', 'no name', 'empty name'])
    field = {'t': 'Title', 'u': 'UserName', 'n': None}[how.split()[1][0]]
    if field:
        el = [s for s in e._element.findall('String') if s.find('Key').text == field][0]
        other = [s for s in e._element.findall('String') if s.find('Key').text == {'Title': 'UserName', 'UserName': 'Title'}[field]][0]
        other.find('Value').text = v
        if how.startswith('no'):
            e._element.remove(el)
        else:
            el.find('Value').text = None
    else:
        e.title = v
        if how.startswith('no'):
            g._element.remove(g._element.find('Name'))
        else:
            g._element.find('Name').text = None
    e.save_history()
    for x in (e, e.history[0], g, kp.root_group):
        cx.check(isinstance(str(x), str), 'can be printed')
        cx.check(repr(x) == str(x), 'repr is str')
    cx.check(v in str(e), 'shows what there is')
    cx.check(v in str(e.history[0]), 'history item shows what there is')
    cx.check(len(e.path) == (1 if how.endswith('name') else 2), 'path')
    kp.delete_entry(e)
    cx.check(v in str(e), 'deleted: shows what there is')


@scenario(base=[V3, V4])
def histories(cx, base):
    from props.c01 import start, ops
    kp = start(cx, base)
    held = kp.entries + kp.groups + [x for e in kp.entries for x in e.attachments]
    ops(cx, kp, 0, 1)
    before = canon(kp.tree)
    for x in held + kp.entries + kp.groups + [x for e in kp.entries for x in e.history + e.attachments]:
        cx.check(isinstance(str(x), str), 'can be printed')
        cx.check(repr(x) == str(x), 'repr is str')
    unchanged(cx, before, canon(kp.tree), what='the database')
