"""One database has one state, whoever looks at it."""
from sx.api import scenario, V3, V4
from props.lib import txt, canon, unchanged, save, same_db, sample
from pykeepass import PyKeePass
from pykeepass.entry import reserved_keys

BOUNDS = ('every text, time and UUID (of up to 4096 characters where it is saved); one or two changes through one of up to 7 ways to reach the same item; two databases opened from the same file, with one change each; every list and map that is handed out; one item taken away and another put in its place')


def ways(kp, e):
    """every way to reach an entry"""
    u = e.uuid
    out = {'given': e, 'uuid': kp.find_entries(uuid=u, first=True), 'path': kp.find_entries(path=e.path), 'all': [x for x in kp.entries if x == e][0],
           'group': [x for x in e.group.entries if x == e][0], 'title': kp.find_entries(title=e.title, username=e.username, group=e.group, first=True)}
    if e.attachments:
        out['attachment'] = e.attachments[0].entry
    return out


WAYS = ['given', 'uuid', 'path', 'all', 'group', 'title', 'attachment']
FIELDS = ['title', 'username', 'password', 'url', 'notes', 'otp', 'icon', 'autotype_sequence', 'autotype_window']


@scenario(base=[V3, V4], way=WAYS)
def entry(cx, base, way):
    kp = cx.db(base)
    e, g, f = sample(cx, kp)
    w = ways(kp, e)
    field = FIELDS[cx.choice('field', list(range(len(FIELDS))))]
    for n in w:
        cx.check(w[n] is not None, 'found')
        getattr(w[n], field)
    v = cx.str('v', lo=1)
    setattr(w[way], field, v)
    w[way].set_custom_property('k', v)
    w[way].expires = True
    d = cx.datetime('d', step=1000000)
    w[way].expiry_time = d
    for n in w:
        cx.check(txt(getattr(w[n], field)) == v, 'the same value in every way')
        cx.check(w[n].get_custom_property('k') == v, 'the same property in every way')
        cx.check(w[n].custom_properties['k'] == v, 'the same properties in every way')
        cx.check(w[n].expires is True, 'the same state in every way')
        cx.check(w[n].expiry_time == d, 'the same time in every way')
        cx.check(w[n] == e, 'the same item')
    # a new look
    cx.check(txt(getattr(kp.find_entries(uuid=e.uuid, first=True), field)) == v, 'the same value when found again')


@scenario(base=[V3, V4], act=['history', 'attachment', 'move', 'delete', 'rename group'])
def acts(cx, base, act):
    kp = cx.db(base)
    e, g, f = sample(cx, kp)
    w = ways(kp, e)
    way = WAYS[cx.choice('way', list(range(len(WAYS))))]
    x = w[way]
    # looked at before
    n = len(kp.entries)
    for y in w.values():
        y.history, y.attachments, y.path, y.group
    kp.groups, kp.attachments, kp.binaries, kp.root_group, kp.recyclebin_group
    t = cx.str('t', lo=1)
    if act == 'history':
        k = len(e.history)
        x.save_history()
        for y in w.values():
            cx.check(len(y.history) == k + 1, 'the same history in every way')
    elif act == 'attachment':
        k, m = len(e.attachments), len(kp.attachments)
        b = cx.blob('b', lo=1, hi=4096)
        a = x.add_attachment(kp.add_binary(b), t)
        for y in w.values():
            cx.check(len(y.attachments) == k + 1, 'the same attachments in every way')
            cx.check(y.attachments[-1].filename == t, 'the same file name in every way')
            cx.check(y.attachments[-1].data == b, 'the same data in every way')
        cx.check(len(kp.attachments) == m + 1, 'in all attachments')
        cx.check(kp.binaries[-1] == b, 'in all binaries')
        a.filename = 'other'
        cx.check(e.attachments[-1].filename == 'other', 'renamed in every way')
        a.delete()
        for y in w.values():
            cx.check(len(y.attachments) == k, 'gone in every way')
    elif act == 'move':
        g2 = kp.find_groups(name='g2', first=True)
        below = [kp.root_group, g, g2][cx.choice('below', [0, 1, 2])]
        to = kp.add_group(below, t)
        home = below.path + [t]
        kp.move_entry(x, to)
        for y in w.values():
            cx.check(y.group == to and y.parentgroup == to, 'the same group in every way')
            cx.check(y.path == home + ['title'], 'the same path in every way')
        cx.check(to.entries == [e], 'in its new group')
        cx.check(e not in g.entries, 'not in its old group')
        cx.check(len(kp.entries) == n, 'as many entries')
        # then the group itself is moved, with what is in it
        to2 = [kp.root_group, g, g2][cx.choice('then', [0, 1, 2])]
        to.path, to.parentgroup, kp.groups
        kp.move_group(to, to2)
        for y in [to, e.group, kp.find_groups(uuid=to.uuid, first=True)]:
            cx.check(y.path == to2.path + [t], 'the same path of the group in every way')
            cx.check(y.parentgroup == to2, 'the same parent in every way')
        for y in w.values():
            cx.check(y.group == to, 'still in its group')
            cx.check(y.path == to2.path + [t, 'title'], 'the same new path in every way')
        # up one level
        kp.move_entry(x, to2)
        for y in w.values():
            cx.check(y.group == to2, 'the same group after the second move')
            cx.check(y.path == to2.path + ['title'], 'the same path after the second move')
    elif act == 'delete':
        u = e.uuid
        kp.delete_entry(x)
        cx.check(len(kp.entries) == n - 1, 'one less')
        cx.check(kp.find_entries(uuid=u) == [], 'not found')
        cx.check(e not in g.entries, 'not in its group')
        cx.check(e not in kp.entries, 'not in all entries')
        cx.check(kp.attachments == [], 'attachments are gone')
    else:
        h = [kp.find_groups(uuid=g.uuid, first=True), x.group, kp.root_group.subgroups[-1], kp.find_groups(name='g1', first=True), g]
        h[cx.choice('handle', [0, 1, 2, 3, 4])].name = t
        for y in h:
            cx.check(y.name == t, 'the same name in every way')
            cx.check(y.path == [t], 'the same path in every way')
        for y in w.values():
            cx.check(y.path == [t, 'title'], 'the same path of the entry')
            cx.check(y.group.name == t, 'the same name from the entry')


@scenario(base=[V3, V4])
def handed_out(cx, base):
    """lists and maps that are handed out are the caller's"""
    kp = cx.db(base)
    e, g, f = sample(cx, kp)
    before = canon(kp.tree)
    n, m, k, a, h, b = len(kp.entries), len(kp.groups), len(g.entries), len(e.attachments), len(e.history), len(kp.binaries)
    t = cx.str('t', lo=1)
    for l in (kp.entries, kp.groups, kp.attachments, kp.binaries, g.entries, g.subgroups, e.history, e.attachments, e.tags, e.path, g.path, kp.find_entries(title='title')):
        l.append(t)
        l.reverse()
        del l[:]
    d = e.custom_properties
    d[t] = t
    d.clear()
    unchanged(cx, before, canon(kp.tree), [], 'the database')
    cx.check((len(kp.entries), len(kp.groups), len(g.entries), len(e.attachments), len(e.history), len(kp.binaries)) == (n, m, k, a, h, b), 'everything is still listed')
    cx.check(e.tags == ['t1', 't2'], 'tags')
    cx.check(e.path == ['g1', 'title'], 'path')
    cx.check(len(e.custom_properties) == 4, 'properties')


@scenario(base=[V3, V4], change=['field', 'entry', 'group', 'delete', 'binary', 'password', 'name', 'trash', 'history'])
def two(cx, base, change):
    """two databases opened from the same file"""
    kp = cx.db(base)
    sample(cx, kp)
    data = save(cx, kp).getvalue()
    same = cx.flip('same stream')
    if same:
        s = cx.bio(data)
        a = PyKeePass(s, password='pw')
        s.seek(0)
        b = PyKeePass(s, password='pw')
    else:
        a, b = PyKeePass(cx.bio(data), password='pw'), PyKeePass(cx.bio(data), password='pw')
    v = cx.str('v', lo=1, hi=4096)

    def edit(k, v):
        e = k.find_entries(title='first', first=True)
        if change == 'field':
            e.password = v
        elif change == 'entry':
            k.add_entry(k.root_group, v, v, v, force_creation=True)
        elif change == 'group':
            k.add_group(k.find_groups(name='g1', first=True), v)
        elif change == 'delete':
            e.delete()
        elif change == 'binary':
            e.add_attachment(k.add_binary(v.encode('utf-8')), 'f')
        elif change == 'password':
            k.password = v
        elif change == 'name':
            k.database_name = v
        elif change == 'trash':
            k.trash_entry(e)
        else:
            e.save_history()
    before = canon(b.tree)
    bins = list(b.binaries)
    edit(a, v)
    unchanged(cx, before, canon(b.tree), [], 'the other database')
    cx.check(b.binaries == bins, 'binaries of the other database')
    cx.check(b.password == 'pw', 'password of the other database')
    mine = canon(a.tree)
    out = save(cx, a).getvalue()
    unchanged(cx, before, canon(b.tree), [], 'the other database after saving')
    w = cx.str('w', lo=1, hi=4096)
    edit(b, w)
    unchanged(cx, mine, canon(a.tree), [], 'the first database')
    k = PyKeePass(cx.bio(save(cx, b).getvalue()), password=b.password)
    same_db(cx, b, k, 'second: ')
    k = PyKeePass(cx.bio(out), password=a.password)
    same_db(cx, a, k, 'first: ')


@scenario(base=[V3, V4], kind=['entries', 'subgroups', 'history', 'attachments', 'binaries', 'properties', 'exchange'])
def turn(cx, base, kind):
    """what was looked at, then one thing taken away and another put in its place through another handle"""
    kp = cx.db(base)
    e, g, f = sample(cx, kp)
    g2 = kp.find_groups(uuid=g.uuid, first=True)
    e2 = kp.find_entries(uuid=e.uuid, first=True)
    t, u = cx.str('t', lo=1), cx.str('u', lo=1)
    one, two = (g, g2) if cx.flip('other group handle') else (g2, g)
    x, y = (e, e2) if cx.flip('other handle') else (e2, e)
    first = cx.flip('add first')
    between = cx.flip('look between')

    def exchange(look, away, put):
        look()
        n = len(look())
        if first:
            new = put()
            if between:
                look()
            away()
        else:
            away()
            if between:
                look()
            new = put()
        cx.check(len(look()) == n, 'as many as before')
        return new
    if kind == 'entries':
        def look():
            one.entries, kp.find_entries(title=t), kp.find_entries(group=one, title='.*', regex=True, recursive=False)
            cx.check([i.uuid for i in one.entries] == [i.uuid for i in two.entries], 'same list')
            cx.check(len([i for i in kp.entries if i.group == g]) == len(one.entries), 'same in all')
            return one.entries
        new = exchange(look, lambda: kp.delete_entry(x), lambda: kp.add_entry(two, t, u, 'p', force_creation=True))
        cx.check(one.entries[-1].title == t, 'the new one is listed')
        cx.check(new in kp.find_entries(title=t), 'the new one is found')
        cx.check(new in kp.find_entries(group=one, title=t, recursive=False), 'the new one is found in its group')
        cx.check(x not in one.entries, 'the old one is not listed')
        cx.check(new in kp.entries, 'the new one is among all')
        cx.check(x not in kp.entries, 'the old one is not among all')
    elif kind == 'subgroups':
        old = kp.add_group(g, 'old')
        look = lambda: (kp.groups, kp.find_groups(name=t), one.subgroups)[2]
        new = exchange(look, lambda: kp.delete_group(old), lambda: kp.add_group(two, t))
        cx.check(one.subgroups[-1].name == t, 'the new one is listed')
        cx.check(new in kp.find_groups(name=t), 'the new one is found')
        cx.check(new in kp.groups, 'the new one is among all')
        cx.check(old not in one.subgroups, 'the old one is not listed')
        cx.check(old not in kp.groups, 'the old one is not among all')
        cx.check(new.path == ['g1', t], 'its path')
    elif kind == 'history':
        e.password = 'old'
        e.save_history()
        old = e.history[0]
        e.password = t
        exchange(lambda: x.history, lambda: y.delete_history(y.history[0]), lambda: y.save_history())
        cx.check(x.history[-1].password == t, 'the new one is listed')
        cx.check(len(x.history) == len(y.history), 'the same history')
        cx.check([h.password for h in x.history] == [h.password for h in y.history], 'the same history')
    elif kind == 'attachments':
        b = cx.blob('b', lo=1, hi=4096)
        i = kp.add_binary(b)
        exchange(lambda: (kp.attachments, x.attachments)[1], lambda: y.delete_attachment(y.attachments[0]), lambda: y.add_attachment(i, t))
        cx.check(x.attachments[-1].filename == t, 'the new one is listed')
        cx.check(x.attachments[-1].data == b, 'with its data')
        cx.check(kp.find_attachments(id=i, first=True).filename == t, 'the new one is found')
        cx.check([a.filename for a in kp.attachments if a.entry == e] == [a.filename for a in y.attachments], 'the same in all')
    elif kind == 'binaries':
        b = cx.blob('b', lo=1, hi=4096)
        c = cx.blob('c', lo=1, hi=4096)
        kp.add_binary(b)
        n = len(kp.binaries)
        first = False
        exchange(lambda: kp.binaries, lambda: kp.delete_binary(n - 1), lambda: kp.add_binary(c))
        cx.check(kp.binaries[n - 1] == c, 'the new one')
    elif kind == 'properties':
        x.set_custom_property('old', 'v')
        cx.assume(t != 'old')
        for k in list(x.custom_properties) + reserved_keys:
            cx.assume(t != k)
        exchange(lambda: (x.get_custom_property(t), x.is_custom_property_protected(t), x.custom_properties)[2], lambda: y.delete_custom_property('old'), lambda: y.set_custom_property(t, u))
        cx.check(x.get_custom_property(t) == u, 'the new one')
        cx.check(x.custom_properties[t] == u, 'the new one is listed')
        cx.check('old' not in x.custom_properties, 'the old one is not')
    else:
        # two entries change places
        h = kp.add_group(kp.root_group, 'h')
        o = kp.add_entry(h, t, u, 'p', force_creation=True)
        look = lambda: (one.entries, h.entries, x.group, x.path, o.group, o.path)
        look()
        kp.move_entry(y, h)
        if first:
            look()
        kp.move_entry(kp.find_entries(uuid=o.uuid, first=True), two)
        cx.check(one.entries[-1] == o, 'in the first group')
        cx.check(x not in one.entries, 'gone from the first group')
        cx.check(h.entries == [e], 'in the second group')
        cx.check(x.group == h, 'its group')
        cx.check(x.path == ['h', 'title'], 'its path')
        cx.check(o.group == g, 'its group')
        cx.check(o.path == ['g1', t], 'its path')


@scenario(base=[V3, V4], kind=['entry', 'group', 'history'])
def identity(cx, base, kind):
    """what identifies an item, its times, tags and state"""
    kp = cx.db(base)
    e, g, f = sample(cx, kp)
    if kind == 'entry':
        w = list(ways(kp, e).values())
    elif kind == 'group':
        w = [g, kp.find_groups(uuid=g.uuid, first=True), kp.find_groups(path=g.path), [x for x in kp.groups if x == g][0],
             [x for x in g.parentgroup.subgroups if x == g][0], e.group]
    else:
        e.save_history()
        w = [e.history[-1], e.history[-1], [x for x in kp.find_entries(history=True) if x._element is e.history[-1]._element][0]]
    names = ['uuid', 'ctime', 'mtime', 'atime', 'expiry_time', 'expires', 'icon', 'notes'] + (['name'] if kind == 'group' else ['tags', 'autotype_enabled'])
    for y in w:
        for n in names:
            getattr(y, n)
        hash(y), y == w[0]
    n = names[cx.choice('n', list(range(len(names))))]
    i = cx.choice('i', list(range(len(w))))
    if n == 'uuid':
        v = cx.uuid('u')
    elif n in ('expires', 'autotype_enabled'):
        v = not getattr(w[0], n)
    elif n == 'tags':
        v = [cx.str('v', lo=1, lacks=';,'), 'b']
    elif n in ('icon', 'notes', 'name'):
        v = cx.str('v', lo=1)
    else:
        v = cx.datetime('d', step=1000000)
    setattr(w[i], n, v)
    for y in w:
        cx.check(getattr(y, n) == v, 'the same in every way')
        if kind != 'history':
            cx.check(y == w[0], 'the same item')
    if n == 'uuid' and kind != 'history':
        find = kp.find_entries if kind == 'entry' else kp.find_groups
        got = [x for x in find(uuid=v) if x._element is w[0]._element]
        cx.check(len(got) == 1, 'found by its new identity')
