"""Path lookup finds exactly the item at the path."""
from sx.api import scenario, V3, V4
from props.lib import txt, reopen
from pykeepass import PyKeePass

BOUNDS = ('every non-empty name, including quotes and slashes; trees of up to 4 groups on 3 levels, chains of 5 and of 40 groups, and 4 entries with symbolic names, equal or not; paths of up to 4 elements; '
          'entries with history; before and after saving and reopening')


def name(el):
    x = el.find('Name')
    return txt(x.text) if x is not None else ''


def title(el):
    for s in el.findall('String'):
        if s.find('Key').text == 'Title':
            return txt(s.find('Value').text)
    return ''


def follow(cx, kp, path, entry):
    """all items at the path, in document order"""
    here = [kp.tree.getroot().find('Root').find('Group')]
    for i, p in enumerate(path):
        last = i == len(path) - 1 and entry
        here = [c for g in here for c in g if c.tag == ('Entry' if last else 'Group') and cx.truth((title(c) if last else name(c)) == p)]
    return here


def look(cx, kp, path, entry):
    want = follow(cx, kp, path, entry)
    r = (kp.find_entries if entry else kp.find_groups)(path=path)
    if want:
        cx.check(r is not None, 'item at the path is found')
        cx.check(r._element is want[0], 'the item at the path is found')
    else:
        cx.check(r is None, 'nothing is found where there is nothing')


def lead_back(cx, kp, x, entry):
    """the path an item reports leads to it, unless another item is there too"""
    p = x.path
    want = follow(cx, kp, p, entry)
    cx.check(len(want) > 0 and any(w is x._element for w in want), 'reported path leads to the item')
    if len(want) == 1:
        r = (kp.find_entries if entry else kp.find_groups)(path=p)
        cx.check(r is not None and r._element is x._element, 'looking up the reported path')
        cx.check(r == x, 'looking up the reported path')


def tree(cx, base):
    """root: e0, a(e1, b(e2), e3), c"""
    kp = cx.db(base)
    r = kp.root_group
    t = lambda n: cx.str(n, lo=1)
    e0 = kp.add_entry(r, t('e0'), 'u0', 'p')
    a = kp.add_group(r, t('a'))
    e1 = kp.add_entry(a, t('e1'), 'u1', 'p')
    b = kp.add_group(a, t('b'))
    e2 = kp.add_entry(b, t('e2'), 'u2', 'p')
    c = kp.add_group(r, t('c'))
    return kp, (e0, e1, e2), (a, b, c)


@scenario(base=[V3, V4])
def entry(cx, base):
    kp, es, gs = tree(cx, base)
    n = cx.choice('n', [1, 2, 3])
    look(cx, kp, [cx.str('p%d' % i, lo=1) for i in range(n)], True)


@scenario(base=[V3, V4])
def group(cx, base):
    kp, es, gs = tree(cx, base)
    n = cx.choice('n', [0, 1, 2, 3])
    path = [cx.str('p%d' % i, lo=1) for i in range(n)]
    look(cx, kp, path, False)
    if n == 0:
        cx.check(kp.find_groups(path='', first=True)._element is kp.root_group._element, 'empty path is the root')
        cx.check(kp.root_group.path == [], 'path of the root')


@scenario(base=[V3, V4])
def duplicates(cx, base):
    """two groups, or two entries, with one name: the first that the whole path fits"""
    kp = cx.db(base)
    r = kp.root_group
    n = cx.str('n', lo=1)
    a, b = kp.add_group(r, n), kp.add_group(r, n)
    x, y = cx.str('x', lo=1), cx.str('y', lo=1)
    kp.add_entry(a, x, 'u', 'p')
    kp.add_entry(b, y, 'u', 'p')
    kp.add_entry(b, cx.str('z', lo=1), 'v', 'p')
    kp.add_group(a, x)
    kp.add_group(b, y)
    q = cx.str('q', lo=1)
    look(cx, kp, [n, q], True)
    look(cx, kp, [n, q], False)
    look(cx, kp, [n], False)
    look(cx, kp, [n], True)


@scenario(base=[V3, V4])
def reported(cx, base):
    kp, es, gs = tree(cx, base)
    cx.check(len(es[2].path) == 3 and len(gs[1].path) == 2 and len(es[0].path) == 1, 'length of the path')
    for i, n in enumerate(('a', 'b', 'e2')):
        cx.check(es[2].path[i] == [gs[0].name, gs[1].name, es[2].title][i], 'path of an entry')
    for i in range(2):
        cx.check(gs[1].path[i] == gs[i].name, 'path of a group')
    for e in es:
        lead_back(cx, kp, e, True)
    for g in gs:
        lead_back(cx, kp, g, False)


@scenario(base=[V3, V4])
def chain(cx, base):
    """a long path, whose names may be equal"""
    kp = cx.db(base)
    gs, g = [], kp.root_group
    for i in range(5):
        g = kp.add_group(g, cx.str('n%d' % i, lo=1))
        gs.append(g)
    e = kp.add_entry(g, cx.str('t', lo=1), 'u', 'p')
    o = kp.add_entry(gs[cx.choice('where', [0, 2, 3])], cx.str('o', lo=1), 'v', 'p')
    names = [x.name for x in gs]
    for x in (e, o):
        cx.check(len(x.path) == (6 if x is e else len(x.group.path) + 1), 'length of the path')
        lead_back(cx, kp, x, True)
    for i, x in enumerate(gs):
        cx.check(x.path == names[:i + 1], 'path of a group')
        lead_back(cx, kp, x, False)
    # one name left out, or one too many
    i = cx.choice('i', [0, 1, 2, 3, 4])
    look(cx, kp, names[:i] + names[i + 1:] + [e.title], True)
    look(cx, kp, names[:i] + names[i + 1:], False)
    look(cx, kp, names[:i + 1] + names[i:], False)


@scenario(base=[V3, V4])
def deep(cx, base):
    """a path of 40 groups"""
    kp = cx.db(base)
    gs, g = [], kp.root_group
    for i in range(40):
        g = kp.add_group(g, cx.str('n%d' % i, lo=1) if i in (0, 20, 39) else 'g%d' % i)
        gs.append(g)
    e = kp.add_entry(g, cx.str('t', lo=1), 'u', 'p')
    names = [x.name for x in gs]
    for n in (1, 19, 20, 21, 39, 40):
        cx.check(gs[n - 1].path == names[:n], 'path of a group')
        cx.check(kp.find_groups(path=names[:n]) == gs[n - 1], 'group at the path')
        cx.check(kp.find_entries(path=names[:n] + [e.title]) == (e if n == 40 else None), 'entry at the path')
    cx.check(e.path == names + [e.title], 'path of the entry')
    other = cx.str('other', lo=1)
    i = cx.choice('i', [0, 20, 39])
    got = kp.find_groups(path=names[:i] + [other] + names[i + 1:])
    cx.check(got == gs[-1] if other == names[i] else got is None, 'another name')


@scenario(base=[V3, V4])
def siblings(cx, base):
    """an entry beside others with any titles"""
    kp = cx.db(base)
    g = kp.add_group(kp.root_group, cx.str('g', lo=1))
    es = [kp.add_entry(g, cx.str('t%d' % i, lo=1), 'u', 'p', force_creation=True) for i in range(3)]
    for e in es:
        lead_back(cx, kp, e, True)
    look(cx, kp, [g.name, cx.str('q', lo=1)], True)


@scenario(base=[V3, V4])
def history(cx, base):
    """recorded states are not at the path, though they report it"""
    kp = cx.db(base)
    g = kp.add_group(kp.root_group, cx.str('g', lo=1))
    e = kp.add_entry(g, cx.str('old', lo=1), 'u', 'p')
    e.save_history()
    e.title = cx.str('new', lo=1)
    look(cx, kp, [g.name, cx.str('q', lo=1)], True)
    p = e.history[0].path
    cx.check(len(p) == 2, 'path of a recorded state')
    cx.check(p[0] == g.name, 'path of a recorded state')
    cx.check(p[1] == e.history[0].title, 'path of a recorded state')


@scenario(base=[V3, V4])
def slashes(cx, base):
    """a slash in a name does not divide it"""
    kp = cx.db(base)
    a, b = cx.str('a', lo=1), cx.str('b', lo=1)
    g = kp.add_group(kp.root_group, a)
    e = kp.add_entry(g, b, 'u', 'p')
    f = kp.add_entry(kp.root_group, a + '/' + b, 'u', 'p')
    h = kp.add_group(kp.root_group, a + '/' + b)
    cx.check(kp.find_entries(path=[a, b])._element is e._element, 'entry in a group')
    cx.check(kp.find_entries(path=[a + '/' + b])._element is f._element, 'entry with a slash')
    cx.check(kp.find_groups(path=[a + '/' + b])._element is h._element, 'group with a slash')
    cx.check(kp.find_groups(path=[a, b]) is None, 'no such group')


@scenario(base=[V3, V4])
def moved(cx, base):
    """paths follow moves and renames"""
    kp, es, gs = tree(cx, base)
    what = cx.choice('what', ['entry', 'group', 'rename'])
    if what == 'entry':
        kp.move_entry(es[0], gs[1])
    elif what == 'group':
        kp.move_group(gs[1], gs[2])
    else:
        gs[0].name = cx.str('new', lo=1)
        es[1].title = cx.str('newt', lo=1)
    for e in es:
        lead_back(cx, kp, e, True)
    for g in gs:
        lead_back(cx, kp, g, False)


@scenario(base=[V3, V4])
def reopened(cx, base):
    kp = cx.db(base)
    cx.unlimit(2 ** 19)
    a, b, t = cx.str('a', lo=1), cx.str('b', lo=1), cx.str('t', lo=1)
    e = kp.add_entry(kp.add_group(kp.add_group(kp.root_group, a), b), t, 'u', 'p')
    kp = reopen(cx, kp)
    e = kp.find_entries(path=[a, b, t])
    cx.check(e is not None and e.username == 'u', 'found after reopening')
    g = kp.find_groups(path=[a, b])
    cx.check(g is not None and g._element is e.group._element, 'found after reopening')


@scenario(base=[V4])
def others_ignored(cx, base):
    """with a path, first is implied"""
    kp, es, gs = tree(cx, base)
    p = [es[0].title]
    for kw in ({}, {'first': True}, {'first': False}, {'recursive': False}):
        r = kp.find_entries(path=p, **kw)
        cx.check(r is not None and r._element is es[0]._element, 'entry at the path')
    r = kp.find_groups_by_path([gs[0].name])
    cx.check(r._element is follow(cx, kp, [gs[0].name], False)[0], 'older name')
    r = kp.find_entries_by_path([es[0].title])
    cx.check(r._element is es[0]._element, 'older name')


@scenario(base=[V4], pat=['.*', 'a', '^x', 'x.y'])
def regex(cx, base, pat):
    """path elements as regular expressions"""
    import re
    kp, es, gs = tree(cx, base)
    n = cx.choice('n', [1, 2, 3])
    entry = cx.flip('entry')
    path = ['.*'] * (n - 1) + [pat]
    here = [kp.tree.getroot().find('Root').find('Group')]
    for i, p in enumerate(path):
        last = i == len(path) - 1 and entry
        here = [c for g in here for c in g if c.tag == ('Entry' if last else 'Group') and cx.truth(re.search(p, title(c) if last else name(c)) is not None)]
    r = (kp.find_entries if entry else kp.find_groups)(path=path, regex=True)
    if here:
        cx.check(r is not None and r._element is here[0], 'item at a path of patterns')
    else:
        cx.check(r is None, 'no item at a path of patterns')
