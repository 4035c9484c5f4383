"""Searches return exactly the matching items."""
from sx.api import scenario, V3, V4
from props.lib import txt
from pykeepass import PyKeePass
import base64
import re

BOUNDS = ('every non-empty search value against every content of the field searched, in up to 4 entries, 4 groups, 4 attachments on 3 levels, and 2 history states; '
          'one or two criteria; with and without group, recursion, history, first; regular expressions: 9 patterns, with and without case, on every text')
STR = {'title': 'Title', 'username': 'UserName', 'password': 'Password', 'url': 'URL', 'notes': 'Notes', 'otp': 'otp'}


def field(el, key):
    """value of a string field, independently of the library"""
    for s in el.findall('String'):
        if s.find('Key').text == key:
            return txt(s.find('Value').text)
    return None


def put(e, key, value):
    for s in e._element.findall('String'):
        if s.find('Key').text == key:
            s.find('Value').text = value
            return
    e._set_string_field(key, value)


def tree(cx, base):
    """root: e0, g(e1, h(e2), e3); e1 has a recorded state"""
    kp = cx.db(base)
    r = kp.root_group
    e0 = kp.add_entry(r, 'a', 'a', 'a')
    g = kp.add_group(r, 'g')
    e1 = kp.add_entry(g, 'a', 'b', 'a')
    h = kp.add_group(g, 'h')
    e2 = kp.add_entry(h, 'a', 'a', 'a')
    e3 = kp.add_entry(g, 'b', 'a', 'a')
    e1.save_history()
    return kp, [e0, e1, e2, e3], g, h


def items(root, tag, history, recursive=True):
    out = []

    def walk(x):
        for c in x:
            if c.tag == tag:
                out.append(c)
            if not recursive or (c.tag == 'History' and not history):
                continue
            walk(c)
    walk(root)
    return out


def same(cx, res, want, what='search'):
    cx.check(len(res) == len(want), what + ': number of results')
    for x, y in zip(res, want):
        cx.check(x._element is y, what + ': results in order')


def ask(cx, find, want, kw, what='search'):
    """all, and the first only"""
    same(cx, find(**kw), want, what)
    f = find(first=True, **kw)
    if want:
        cx.check(f is not None and f._element is want[0], what + ': first')
    else:
        cx.check(f is None, what + ': none')


def scope(cx, kp, g, h, tag):
    """where to search: everywhere, below a group, directly in a group"""
    where = cx.choice('where', ['all', 'g', 'g direct', 'h'])
    hist = cx.flip('history')
    kw = {}
    if hist:
        kw['history'] = True
    root, rec = kp.tree.getroot(), True
    if where != 'all':
        kw['group'] = h if where == 'h' else g
        root = kw['group']._element
        rec = where != 'g direct'
        if not rec:
            kw['recursive'] = False
    return kw, items(root, tag, hist, rec)


@scenario(base=[V3, V4], name=list(STR), quick=lambda base, name: base == V4 or name in ('title', 'notes'))
def by_field(cx, base, name):
    kp, es, g, h = tree(cx, base)
    for i, e in enumerate(es):
        put(e, STR[name], cx.str('v%d' % i))
    hist = es[1].history[0]
    put(hist, STR[name], cx.str('old'))
    v = cx.str('v', lo=1)
    kw, pool = scope(cx, kp, g, h, 'Entry')
    want = [x for x in pool if cx.truth(field(x, STR[name]) == v)]
    kw[name] = v
    ask(cx, kp.find_entries, want, kw)


@scenario(base=[V3, V4])
def nothing_given(cx, base):
    """None, and no tags or strings at all, mean no restriction"""
    kp, es, g, h = tree(cx, base)
    put(es[0], 'Title', cx.str('t'))
    kw, pool = scope(cx, kp, g, h, 'Entry')
    v = cx.str('v', lo=1)
    if cx.flip('and another'):
        kw['title'] = v
        pool = [x for x in pool if cx.truth(field(x, 'Title') == v)]
    empty = {'tags': [], 'string': {}}
    name = cx.choice('name', ['title', 'username', 'password', 'url', 'notes', 'otp', 'uuid', 'string', 'tags', 'autotype_enabled', 'autotype_sequence', 'autotype_window'])
    if name not in kw:
        kw[name] = empty[name] if name in empty and cx.flip('empty') else None
    ask(cx, kp.find_entries, pool, kw)


@scenario(base=[V4], name=list(STR))
def absent(cx, base, name):
    """entries without the field, and other fields with the value, do not match"""
    kp, es, g, h = tree(cx, base)
    v = cx.str('v', lo=1)
    for n in STR:
        if n != name:
            put(es[0], STR[n], v)
    es[0].set_custom_property('k', v)
    es[0].set_custom_property('title', v)
    cx.assume(v != 'a')
    cx.assume(v != 'b')
    put(es[2], STR[name], v)
    ask(cx, kp.find_entries, [es[2]._element], {name: v})


@scenario(base=[V4], a=list(STR), quick=lambda base, a: a in ('title', 'password', 'otp'))
def two_criteria(cx, base, a):
    kp, es, g, h = tree(cx, base)
    b = cx.choice('b', [x for x in STR if x != a])
    for i, e in enumerate(es[:3]):
        put(e, STR[a], cx.str('v%d' % i))
        put(e, STR[b], cx.str('w%d' % i))
    v, w = cx.str('v', lo=1), cx.str('w', lo=1)
    kp.delete_entry(es[3])
    want = [e._element for e in es[:3] if cx.truth(cx.both(field(e._element, STR[a]) == v, field(e._element, STR[b]) == w))]
    ask(cx, kp.find_entries, want, {a: v, b: w})


@scenario(base=[V3, V4])
def by_string(cx, base):
    """custom fields: the value counts only with its key"""
    kp, es, g, h = tree(cx, base)
    k = cx.str('k', lo=1)
    keys = []
    for i, e in enumerate(es[:3]):
        x = cx.str('k%d' % i, lo=1)
        for r in ('Title', 'UserName', 'Password', 'otp', 'URL', 'Notes', 'Tags', 'IconID', 'Times', 'History', 'one'):
            cx.assume(x != r)
        e.set_custom_property(x, cx.str('v%d' % i), protect=bool(i))
        e.set_custom_property('one', 'two')
        keys.append(x)
    for r in ('Title', 'UserName', 'Password', 'otp', 'one'):
        cx.assume(k != r)
    v = cx.str('v', lo=1)
    want = [e._element for e, x, i in zip(es, keys, (0, 1, 2)) if cx.truth(cx.both(x == k, txt(e.get_custom_property(x)) == v))]
    ask(cx, kp.find_entries, want, {'string': {k: v}})
    ask(cx, kp.find_entries, want, {'string': {k: v, 'one': 'two'}}, 'two fields')
    ask(cx, kp.find_entries, [], {'string': {k: v, 'one': 'three'}}, 'two fields, one different')


@scenario(base=[V3, V4], what=['entry', 'group'])
def by_uuid(cx, base, what):
    kp, es, g, h = tree(cx, base)
    xs = [es[0], es[2], es[3]] if what == 'entry' else [g, h]
    us = [cx.uuid('u%d' % i) for i in range(len(xs))]
    for x, u in zip(xs, us):
        x.uuid = u
    u = cx.uuid('u')
    cx.assume(u != kp.root_group.uuid)
    es[2].save_history()
    kw, order = scope(cx, kp, g, h, 'Entry' if what == 'entry' else 'Group')
    key = base64.b64encode(u.bytes).decode()
    want = [x for x in order if cx.truth(x.find('UUID').text == key)]
    ask(cx, kp.find_entries if what == 'entry' else kp.find_groups, want, dict(kw, uuid=u))


@scenario(base=[V3, V4], name=['autotype_sequence', 'autotype_window'])
def by_autotype(cx, base, name):
    kp, es, g, h = tree(cx, base)
    vs = [cx.str('v%d' % i) for i in range(4)]
    for e, x in zip(es, vs):
        setattr(e, name, x)
    v = cx.str('v', lo=1)
    hist = cx.flip('history')
    if name == 'autotype_sequence':
        get = lambda x: txt(x.find('AutoType').find('DefaultSequence').text)
    else:
        get = lambda x: txt(x.find('AutoType').find('Association').find('Window').text)
    want = [x for x in items(kp.tree.getroot(), 'Entry', hist) if cx.truth(get(x) == v)]
    ask(cx, kp.find_entries, want, {name: v, 'history': hist})


@scenario(base=[V3, V4])
def by_autotype_enabled(cx, base):
    kp, es, g, h = tree(cx, base)
    for i, e in enumerate(es):
        e.autotype_enabled = cx.choice('v%d' % i, [True, False, None])
    gone = cx.choice('gone', ['nothing', 'Enabled', 'AutoType'])
    if gone != 'nothing':
        # other programs may leave it out: the entry has no state
        x = es[2]._element.find('AutoType')
        if gone == 'Enabled':
            x.remove(x.find('Enabled'))
        else:
            es[2]._element.remove(x)
    v = cx.flip('v')
    want = [e._element for e in (es[0], es[1], es[3], es[2]) if e.autotype_enabled is v]
    want = [x for x in items(kp.tree.getroot(), 'Entry', False) if any(x is y for y in want)]
    ask(cx, kp.find_entries, want, {'autotype_enabled': v})


@scenario(base=[V3, V4], two=[False, True], quick=lambda base, two: base == V4 or not two)
def by_tags(cx, base, two):
    """entries with all the tags are found, entries whose tags do not even contain the text are not"""
    kp, es, g, h = tree(cx, base)
    t = [cx.str('t%d' % i, lo=1, hi=6) for i in range(3)]
    for x in t:
        cx.assume(';' not in x)
        cx.assume(',' not in x)
    a = [t[0]] if not two or cx.flip('single') else [t[0], 'z']
    es[2].tags = a
    es[3].tags = [t[1]]
    q = [t[2]] if not two else [t[2], 'z']
    res = kp.find_entries(tags=q)
    order = items(kp.tree.getroot(), 'Entry', False)
    pos = [[x is r._element for x in order].index(True) for r in res]
    cx.check(pos == sorted(pos), 'results in order')
    for e, ts in ((es[0], []), (es[1], []), (es[2], a), (es[3], [t[1]])):
        found = any(r._element is e._element for r in res)
        if found:
            for x in q:
                cx.check(cx.either(False, *[x in y for y in ts]), 'entry without the tag is not found')
        else:
            cx.check(cx.neg(cx.both(*[cx.either(False, *[y == x for y in ts]) for x in q])), 'entry with the tags is found')
    f = kp.find_entries(tags=q, first=True)
    cx.check((f is None) == (len(res) == 0), 'first')
    if f is not None:
        cx.check(f._element is res[0]._element, 'first')


@scenario(base=[V3, V4], name=['name', 'notes'])
def groups(cx, base, name):
    kp, es, g, h = tree(cx, base)
    k = kp.add_group(kp.root_group, 'k')
    for i, x in enumerate((g, h, k)):
        setattr(x, name, cx.str('v%d' % i))
    v = cx.str('v', lo=1)
    where = cx.choice('where', ['all', 'root', 'root direct', 'g'])
    tag = {'name': 'Name', 'notes': 'Notes'}[name]
    kw, root, rec = {name: v}, kp.tree.getroot(), True
    if where != 'all':
        kw['group'] = g if where == 'g' else kp.root_group
        root = kw['group']._element
        rec = where != 'root direct'
        if not rec:
            kw['recursive'] = False
    want = [x for x in items(root, 'Group', False, rec) if x.find(tag) is not None and cx.truth(txt(x.find(tag).text) == v)]
    ask(cx, kp.find_groups, want, kw)


@scenario(base=[V3, V4])
def groups_both(cx, base):
    kp, es, g, h = tree(cx, base)
    k = kp.add_group(kp.root_group, 'k')
    xs = (g, h, k)
    for i, x in enumerate(xs):
        x.name, x.notes = cx.str('v%d' % i), cx.str('w%d' % i)
    v, w = cx.str('v', lo=1), cx.str('w', lo=1)
    cx.assume(v != 'Root')
    want = [x._element for x in xs if cx.truth(cx.both(txt(x._element.find('Name').text) == v, txt(x._element.find('Notes').text) == w))]
    ask(cx, kp.find_groups, want, {'name': v, 'notes': w})


@scenario(base=[V3, V4])
def listings(cx, base):
    """groups, entries, attachments, entries and subgroups of a group"""
    kp, es, g, h = tree(cx, base)
    n = cx.choice('n', [0, 1, 2])
    for i in range(n):
        x = kp.add_group([kp.root_group, g, h][cx.choice('at%d' % i, [0, 1, 2])], cx.str('n%d' % i, lo=1))
        kp.add_entry([x, h][cx.choice('in%d' % i, [0, 1])], cx.str('t%d' % i), 'u', 'p', force_creation=True)
        es[i].add_attachment(kp.add_binary(b'x'), cx.str('f%d' % i, lo=1))
    root = kp.tree.getroot()
    same(cx, kp.groups, items(root, 'Group', False), 'groups')
    same(cx, kp.entries, items(root, 'Entry', False), 'entries')
    same(cx, kp.find_entries(history=True), items(root, 'Entry', True), 'entries with history')
    same(cx, kp.attachments, [x for x in items(root, 'Binary', False) if x.getparent().tag == 'Entry'], 'attachments')
    for x in (kp.root_group, g, h):
        same(cx, x.entries, [c for c in x._element if c.tag == 'Entry'], 'entries of a group')
        same(cx, x.subgroups, [c for c in x._element if c.tag == 'Group'], 'subgroups')
        same(cx, kp.find_entries(group=x), items(x._element, 'Entry', False), 'entries below a group')
        same(cx, kp.find_groups(group=x), items(x._element, 'Group', False), 'groups below a group')
    for e in es:
        same(cx, e.attachments, [c for c in e._element if c.tag == 'Binary'], 'attachments of an entry')
        cx.check(e.group._element is e._element.getparent(), 'group of an entry')
        cx.check(e.parentgroup._element is e._element.getparent(), 'group of an entry')
    cx.check(h.parentgroup._element is g._element, 'group of a group')
    cx.check(es[1].history[0].parentgroup._element is g._element, 'group of a recorded state')
    cx.check(kp.root_group._element is kp.tree.getroot().find('Root').find('Group'), 'root group')
    cx.check(kp.root_group.parentgroup is None, 'root group has no group')
    cx.check(kp.root_group.is_root_group and not g.is_root_group and not h.is_root_group, 'root group')
    cx.check(not es[1].is_a_history_entry and es[1].history[0].is_a_history_entry, 'recorded state')


@scenario(base=[V3, V4])
def attachments(cx, base):
    kp, es, g, h = tree(cx, base)
    names, els, ids = [], [], []
    how = cx.choice('how', ['name', 'id', 'both', 'entry', 'group', 'history', 'own', 'state', 'flat'])
    for i in range(3 if how != 'id' else 12):
        kp.add_binary(b'x%d' % i)
    some = [0, 1, 2] if how != 'id' else [1, 10, 11]
    for i, e in enumerate((es[0], es[1], es[2])):
        nm = cx.str('f%d' % i, lo=1) if how != 'id' else 'f%d' % i
        k = cx.choice('i%d' % i, some) if how in ('id', 'both') else i
        a = e.add_attachment(k, nm)
        names.append(nm), els.append(a._element), ids.append(k)
    es[1].save_history()
    order = [c for c in items(kp.tree.getroot(), 'Binary', False) if c.getparent().tag == 'Entry']
    n = cx.str('n', lo=1) if how != 'id' else ''
    i = cx.choice('i', some) if how in ('id', 'both') else 0
    byname = [x for x in order if cx.truth(names[[x is y for y in els].index(True)] == n)]
    byid = [x for x in order if ids[[x is y for y in els].index(True)] == i]
    if how == 'name':
        ask(cx, kp.find_attachments, byname, {'filename': n})
    elif how == 'id':
        ask(cx, kp.find_attachments, byid, {'id': i})
    elif how == 'both':
        ask(cx, kp.find_attachments, [x for x in byname if any(x is y for y in byid)], {'filename': n, 'id': i})
    elif how == 'entry':
        ask(cx, kp.find_attachments, [x for x in byname if x is els[1]], {'filename': n, 'element': es[1], 'recursive': False})
    elif how == 'group':
        ask(cx, kp.find_attachments, [x for x in byname if x is not els[0]], {'filename': n, 'element': g})
    elif how == 'own':
        # without those of its history, though history is asked for
        ask(cx, kp.find_attachments, [x for x in byname if x is els[1]], {'filename': n, 'element': es[1], 'recursive': False, 'history': True})
    elif how == 'state':
        hs = es[1].history[-1]
        ask(cx, kp.find_attachments, [hs._element.find('Binary')] if cx.truth(names[1] == n) else [], {'filename': n, 'element': hs, 'recursive': False, 'history': True})
    elif how == 'flat':
        # groups have none themselves
        ask(cx, kp.find_attachments, [], {'filename': n, 'element': g, 'recursive': False, 'history': cx.flip('history')})
    else:
        hs = es[1].history[-1]._element.find('Binary')
        want = []
        for x in byname:
            want.append(x)
            if x is els[1]:
                want.append(hs)
        allb = [c for c in items(kp.tree.getroot(), 'Binary', True) if c.getparent().tag == 'Entry']
        want = [x for x in allb if any(x is y for y in want)]
        ask(cx, kp.find_attachments, want, {'filename': n, 'history': True})


PATTERNS = ['.*', 'a', '^a', 'b$', '^(a|bc)d+$', 'x.y', '[0-9]{2}', '(a|b)c?', '\\.']


@scenario(base=[V4], pat=PATTERNS, name=['title', 'password', 'string', 'url'])
def regex(cx, base, pat, name):
    kp, es, g, h = tree(cx, base)
    flags = cx.choice('flags', [None, 'i']) if '[' not in pat else None
    key = STR.get(name, 'custom')
    for i, e in enumerate(es[:3]):
        put(e, key, cx.str('v%d' % i, lo=1))
    want = [x for x in items(kp.tree.getroot(), 'Entry', False) if field(x, key) is not None and
            cx.truth(re.search(pat, field(x, key), re.I if flags else 0) is not None)]
    kw = {'regex': True, ('string' if name == 'string' else name): {key: pat} if name == 'string' else pat}
    if flags:
        kw['flags'] = flags
    ask(cx, kp.find_entries, want, kw)


@scenario(base=[V4], pat=['^a', 'Bc$', 'x.y'], name=['title', 'string', 'notes'])
def regex_history(cx, base, pat, name):
    """regular expressions with flags, among recorded states too"""
    kp, es, g, h = tree(cx, base)
    flags = cx.choice('flags', [None, 'i'])
    key = STR.get(name, 'custom')
    put(es[0], key, cx.str('v0', lo=1))
    es[0].save_history()
    put(es[0], key, cx.str('v1', lo=1))
    hist = cx.flip('history')
    want = [x for x in items(kp.tree.getroot(), 'Entry', hist) if field(x, key) is not None and
            cx.truth(re.search(pat, field(x, key), re.I if flags else 0) is not None)]
    kw = {'regex': True, 'history': hist, ('string' if name == 'string' else name): {key: pat} if name == 'string' else pat}
    if flags:
        kw['flags'] = flags
    ask(cx, kp.find_entries, want, kw)


@scenario(base=[V4], pat=['.*', 'a', '^a', 'x.y'])
def regex_more(cx, base, pat):
    """regular expressions for groups and attachments; quotes in patterns"""
    kp, es, g, h = tree(cx, base)
    g.name, h.name = cx.str('g', lo=1), cx.str('h', lo=1)
    want = [x for x in items(kp.tree.getroot(), 'Group', False) if cx.truth(re.search(pat, x.find('Name').text) is not None)]
    ask(cx, kp.find_groups, want, {'name': pat, 'regex': True}, 'groups')
    n = cx.str('n', lo=1)
    a = es[2].add_attachment(0, n)
    ask(cx, kp.find_attachments, [a._element] if cx.truth(re.search(pat, n) is not None) else [], {'filename': pat, 'regex': True}, 'attachments')
    t = cx.str('t', lo=1)
    q = 'x"' + "y'"
    put(es[0], 'Title', t)
    ask(cx, kp.find_entries, [es[0]._element] if cx.truth(re.search(q, t) is not None) else [], {'title': q, 'regex': True}, 'quotes')


@scenario(base=[V4], name=['title', 'username', 'password', 'url', 'notes'])
def deprecated(cx, base, name):
    """the older names give the same"""
    kp, es, g, h = tree(cx, base)
    for i, e in enumerate(es[:3]):
        put(e, STR[name], cx.str('v%d' % i))
    v = cx.str('v', lo=1)
    hist = cx.flip('history')
    want = kp.find_entries(**{name: v, 'history': hist})
    same(cx, getattr(kp, 'find_entries_by_' + name)(v, history=hist), [x._element for x in want])
    f = getattr(kp, 'find_entries_by_' + name)(v, history=hist, first=True)
    cx.check(f is None if not want else f._element is want[0]._element, 'first')
    same(cx, kp.find_entries_by_string({STR[name]: v}, history=hist), [x._element for x in want])


@scenario(base=[V4])
def deprecated_more(cx, base):
    kp, es, g, h = tree(cx, base)
    v = cx.str('v', lo=1)
    g.name, h.notes = cx.str('n', lo=1), cx.str('o', lo=1)
    same(cx, kp.find_groups_by_name(v), [x._element for x in kp.find_groups(name=v)])
    same(cx, kp.find_groups_by_notes(v), [x._element for x in kp.find_groups(notes=v)])
    same(cx, kp.find_groups_by_uuid(g.uuid), [g._element])
    same(cx, kp.find_entries_by_uuid(es[2].uuid), [es[2]._element])


@scenario(base=[V4])
def unknown(cx, base):
    """a criterion that does not exist is an error"""
    kp, es, g, h = tree(cx, base)
    for f, k in ((kp.find_entries, 'name'), (kp.find_groups, 'title'), (kp.find_attachments, 'title'), (kp.find_entries, 'Title'), (kp.find_entries, 'filename')):
        try:
            f(**{k: cx.str(f.__name__ + k, lo=1)})
        except TypeError:
            cx.check(True, 'unknown criterion')
        else:
            cx.check(False, 'unknown criterion')
