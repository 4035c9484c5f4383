"""Saving and reopening preserves all data."""
from sx.api import scenario, V3, V4, V41
from props.lib import ALL, txt, save, reopen, same_db
from pykeepass import PyKeePass
from pykeepass.entry import Entry
import copy

BOUNDS = ('strings of any length and content that XML can carry; serialised document below 1 MiB (C04 covers longer payloads); '
          'single values above 10 million bytes and groups 260 levels deep; up to 2 operations (thorough: 3) from 17 per history; every cipher, KDF and compression setting of the base databases')


@scenario(base=[V3, V4, V41])
def strings(cx, base):
    kp = cx.db(base)
    t, u, p = cx.str('title'), cx.str('user'), cx.str('pw')
    kp.add_entry(kp.root_group, t, u, p)
    kp2 = reopen(cx, kp)
    es = kp2.entries
    cx.check(len(es) == 1, 'one entry')
    f = es[0]
    cx.check(txt(f.title) == t, 'title')
    cx.check(txt(f.username) == u, 'username')
    cx.check(txt(f.password) == p, 'password')
    cx.observe('title', txt(f.title))
    cx.observe('pw', txt(f.password))
    same_db(cx, kp, kp2)


@scenario(base=[V3, V4])
def more_strings(cx, base):
    kp = cx.db(base)
    u, n, o = cx.str('url'), cx.str('notes'), cx.str('otp')
    tag, icon = cx.str('tag'), cx.str('icon')
    kp.add_entry(kp.root_group, 't', 'u', 'p', url=u, notes=n, otp=o, tags=[tag, 'x'], icon=icon)
    kp2 = reopen(cx, kp)
    f = kp2.entries[0]
    cx.check(txt(f.url) == u, 'url')
    cx.check(txt(f.notes) == n, 'notes')
    cx.check(txt(f.otp) == o, 'otp')
    cx.check(txt(f.icon) == icon, 'icon')
    cx.observe('otp', txt(f.otp))
    same_db(cx, kp, kp2)


@scenario(base=[V3, V4])
def custom(cx, base):
    kp = cx.db(base)
    e = kp.add_entry(kp.root_group, 't', 'u', 'p')
    k, v, w = cx.str('key', lo=1), cx.str('value'), cx.str('value2')
    prot = cx.flip('protect')
    from pykeepass.entry import reserved_keys
    for r in reserved_keys:
        cx.assume(k != r)
    cx.assume(k != 'second')
    e.set_custom_property(k, v, protect=prot)
    e.set_custom_property('second', w, protect=not prot)
    kp2 = reopen(cx, kp)
    f = kp2.entries[0]
    cx.check(txt(f.get_custom_property(k)) == v, 'custom property')
    cx.check(txt(f.get_custom_property('second')) == w, 'second custom property')
    cx.check(f.is_custom_property_protected(k) == prot, 'protection flag')
    cx.check(f.is_custom_property_protected('second') == (not prot), 'second protection flag')
    cx.observe('v', txt(f.get_custom_property(k)))
    same_db(cx, kp, kp2)


@scenario(base=[V3, V4])
def groups(cx, base):
    kp = cx.db(base)
    n1, n2, notes = cx.str('name1'), cx.str('name2'), cx.str('notes')
    g = kp.add_group(kp.root_group, n1, notes=notes, icon='7')
    h = kp.add_group(g, n2)
    kp.add_entry(h, 'inner', 'u', 'p1')
    kp.add_entry(g, 'outer', 'u', 'p2')
    kp2 = reopen(cx, kp)
    g2 = kp2.root_group.subgroups[0]
    cx.check(txt(g2.name) == n1, 'group name')
    cx.check(txt(g2.notes) == notes, 'group notes')
    cx.check(g2.icon == '7', 'group icon')
    cx.check(txt(g2.subgroups[0].name) == n2, 'subgroup name')
    cx.check(g2.subgroups[0].entries[0].password == 'p1', 'entry of subgroup')
    cx.check(g2.entries[0].password == 'p2', 'entry of group')
    cx.check(g2.uuid == g.uuid, 'group uuid')
    same_db(cx, kp, kp2)


@scenario(base=[V3, V4])
def meta(cx, base):
    kp = cx.db(base)
    a, b, c = cx.str('name'), cx.str('description'), cx.str('user')
    d = cx.int('days', -1, 100000)
    kp.database_name, kp.database_description, kp.default_username = a, b, c
    kp.credchange_required_days = d
    kp2 = reopen(cx, kp)
    cx.check(txt(kp2.database_name) == a, 'database name')
    cx.check(txt(kp2.database_description) == b, 'description')
    cx.check(txt(kp2.default_username) == c, 'default user')
    cx.check(kp2.credchange_required_days == d, 'days')
    cx.check(kp2.version == kp.version, 'version')
    cx.check(kp2.encryption_algorithm == kp.encryption_algorithm, 'cipher')
    cx.check(kp2.kdf_algorithm == kp.kdf_algorithm, 'kdf')
    same_db(cx, kp, kp2)


@scenario(base=[V3, V4])
def times(cx, base):
    kp = cx.db(base)
    e = kp.add_entry(kp.root_group, 't', 'u', 'p')
    g = kp.add_group(kp.root_group, 'g')
    d1, d2 = cx.datetime('d1', step=1000000), cx.datetime('d2', step=1000000)
    x = cx.flip('expires')
    e.expiry_time, e.mtime, g.ctime, e.expires = d1, d2, d2, x
    kp2 = reopen(cx, kp)
    f, h = kp2.entries[0], kp2.root_group.subgroups[0]
    cx.check(f.expiry_time == d1, 'expiry time')
    cx.check(f.mtime == d2, 'mtime')
    cx.check(h.ctime == d2, 'ctime')
    cx.check(f.expires == x, 'expires')
    cx.check(f.atime == e.atime, 'atime')
    same_db(cx, kp, kp2)


@scenario(base=[V3, V4])
def history(cx, base):
    kp = cx.db(base)
    t, p1, p2, p3 = cx.str('t'), cx.str('p1'), cx.str('p2'), cx.str('p3')
    e = kp.add_entry(kp.root_group, t, 'u', p1)
    e.save_history()
    e.password = p2
    e.save_history()
    e.password = p3
    kp2 = reopen(cx, kp)
    cx.check(len(kp2.entries) == 1, 'one entry')
    f = kp2.entries[0]
    h = f.history
    cx.check(len(h) == 2, 'two history entries')
    cx.check(txt(h[0].password) == p1, 'oldest password')
    cx.check(txt(h[1].password) == p2, 'second password')
    cx.check(txt(f.password) == p3, 'password')
    cx.check(txt(h[0].title) == t, 'title in history')
    same_db(cx, kp, kp2)


@scenario(base=[V3, V4])
def attachments(cx, base):
    kp = cx.db(base)
    e = kp.add_entry(kp.root_group, 't', 'u', 'p')
    a, b = cx.blob('a', hi=2 ** 18), cx.blob('b', hi=2 ** 18)
    name = cx.str('name')
    fl = cx.flip('flag')
    i = kp.add_binary(a, compressed=fl, protected=not fl)
    j = kp.add_binary(b, compressed=not fl, protected=fl)
    e.add_attachment(j, name)
    e.add_attachment(i, 'first')
    kp2 = reopen(cx, kp)
    x = kp2.entries[0].attachments
    if len(x) == 2:
        cx.check(x[0].data == b, 'attachment content')
        cx.check(txt(x[0].filename) == name, 'attachment name')
        cx.check(x[1].data == a, 'second attachment content')
    else:
        # entries list an attachment by its name: a nameless one has none
        cx.check(name == '', 'named attachments are listed')
    same_db(cx, kp, kp2)
    if kp.version >= (4, 0):
        for m, (x, f) in enumerate([(a, not fl), (b, fl)]):
            cx.check(kp2.payload.inner_header.binary[m].data == kp.payload.inner_header.binary[m].data, 'binary with its flag')
            cx.check(kp2.payload.inner_header.binary[m].data == (b'\x01' if f else b'\x00') + x, 'binary with the flag asked for')


@scenario(base=[V3, V4])
def twice(cx, base):
    """save, reopen, edit, save again, reopen"""
    kp = cx.db(base)
    t, p, q = cx.str('t'), cx.str('p'), cx.str('q')
    kp.add_entry(kp.root_group, t, 'u', p)
    kp.add_entry(kp.root_group, 'other', 'v', 'w')
    s = save(cx, kp)
    kp2 = PyKeePass(s, password='pw')
    same_db(cx, kp, kp2, 'first: ')
    kp2.entries[1].password = q
    kp2.entries[0].url = q
    kp3 = reopen(cx, kp2)
    cx.check(txt(kp3.entries[0].title) == t, 'title')
    cx.check(txt(kp3.entries[0].password) == p, 'untouched password')
    cx.check(txt(kp3.entries[1].password) == q, 'new password')
    cx.check(txt(kp3.entries[0].url) == q, 'new url')
    same_db(cx, kp2, kp3, 'second: ')
    kp4 = reopen(cx, kp)
    same_db(cx, kp, kp4, 'saved twice: ')


@scenario(base=ALL)
def formats(cx, base):
    """every cipher, key derivation and compression"""
    kp = cx.db(base)
    t, p = cx.str('t', lo=1), cx.str('p', lo=1)
    e = kp.add_entry(kp.root_group, t, 'u', p)
    i = kp.add_binary(b'content')
    e.add_attachment(i, 'f')
    kp2 = reopen(cx, kp)
    cx.check(kp2.entries[0].title == t, 'title')
    cx.check(kp2.entries[0].password == p, 'password')
    cx.check(kp2.encryption_algorithm == kp.encryption_algorithm, 'cipher')
    cx.check(kp2.kdf_algorithm == kp.kdf_algorithm, 'kdf')
    cx.check(kp2.version == kp.version, 'version')
    same_db(cx, kp, kp2)


@scenario(base=[V3, V4], how=['path', 'pathlib', 'default', 'reload', 'tkey', 'keyfile'])
def targets(cx, base, how):
    kp = cx.db(base)
    t, p = cx.str('t', lo=1), cx.str('p', lo=1)
    kp.add_entry(kp.root_group, t, 'u', p)
    fn = cx.path('x.kdbx')
    if how == 'path':
        kp.save(fn)
        kp2 = PyKeePass(fn, password='pw')
        cx.check(kp.filename != fn, 'filename unchanged')
    elif how == 'pathlib':
        from pathlib import Path
        kp.save(Path(fn))
        kp2 = PyKeePass(fn, password='pw')
    elif how == 'default':
        kp.filename = fn
        kp.save()
        kp2 = PyKeePass(fn, password='pw')
    elif how == 'reload':
        kp.filename = fn
        kp.save()
        old = copy.deepcopy(kp.tree)
        kp.add_entry(kp.root_group, 'unsaved', 'u', 'p', force_creation=True)
        kp.reload()
        cx.check(cx.tree_eq(old, kp.tree), 'reload brings back what was saved')
        kp2 = kp
    elif how == 'tkey':
        tk = kp.transformed_key
        kp.save(fn, transformed_key=tk)
        kp2 = PyKeePass(fn, transformed_key=tk)
        if kp.version < (4, 0):
            # the KDBX3 writer keeps the seed, so the password opens it too
            PyKeePass(fn, password='pw')
    else:
        cx.put('k', b'some key file')
        kp.keyfile = cx.path('k')
        kp.save(fn)
        kp2 = PyKeePass(fn, password='pw', keyfile=cx.path('k'))
    cx.check(len(kp2.entries) == 1, 'one entry')
    cx.check(kp2.entries[0].title == t, 'title')
    cx.check(kp2.entries[0].password == p, 'password')
    if how != 'reload':
        same_db(cx, kp, kp2)


def ops(cx, kp, k, i):
    """one operation out of many, on a database that has an entry and a group"""
    n = '%d' % i
    es, gs = kp.entries, [g for g in kp.groups if not g.is_root_group]
    e, g = (es[-1] if es else None), (gs[-1] if gs else None)
    op = cx.choice('op' + n, ['add', 'addg', 'set', 'custom', 'prot', 'del', 'delg', 'move', 'moveg', 'trash', 'hist', 'att', 'delbin', 'tags', 'uuid', 'index', 'delprop'])
    if op == 'add':
        kp.add_entry(g or kp.root_group, cx.str('t' + n, lo=1), 'u', cx.str('p' + n, lo=1), force_creation=True)
    elif op == 'addg':
        kp.add_group(g or kp.root_group, cx.str('t' + n))
    elif g is None and op in ('delg', 'moveg') or e is None and op not in ('delbin', 'delg', 'moveg'):
        cx.assume(False)
    elif op == 'set':
        e.password = cx.str('p' + n, lo=1)
    elif op == 'custom':
        e.set_custom_property('k', cx.str('p' + n, lo=1), protect=True)
    elif op == 'prot':
        e._set_string_field('Notes', cx.str('p' + n, lo=1), True)
    elif op == 'del':
        kp.delete_entry(e)
    elif op == 'delg':
        kp.delete_group(g)
    elif op == 'move':
        kp.move_entry(e, kp.root_group)
    elif op == 'moveg':
        kp.move_group(g, kp.root_group)
    elif op == 'trash':
        b = kp.recyclebin_group
        if b is not None and e.group == b:
            cx.assume(False)
        kp.trash_entry(e)
    elif op == 'hist':
        e.save_history()
        e.title = cx.str('t' + n, lo=1)
    elif op == 'att':
        b = kp.add_binary(cx.blob('b' + n, hi=2 ** 16))
        e.add_attachment(b, cx.str('t' + n, lo=1))
    elif op == 'delbin':
        if not kp.binaries:
            cx.assume(False)
        kp.delete_binary(0)
    elif op == 'tags':
        e.tags = [cx.str('t' + n, lo=1), 'x']
    elif op == 'uuid':
        u = cx.uuid('u' + n)
        for x in kp.groups + kp.entries:
            cx.assume(u != x.uuid)
        e.uuid = u
    elif op == 'index':
        e.reindex(0)
    elif op == 'delprop':
        if 'c' not in e.custom_properties:
            cx.assume(False)
        e.delete_custom_property('c')


def start(cx, base):
    kp = cx.db(base)
    g = kp.add_group(kp.root_group, 'g')
    e = kp.add_entry(kp.root_group, 'first', 'u', 'p')
    f = kp.add_entry(g, 'second', 'u', 'q', notes='n')
    f.set_custom_property('c', 'cv', protect=True)
    f.add_attachment(kp.add_binary(b'one'), 'a1')
    e.add_attachment(kp.add_binary(b'two'), 'a2')
    return kp


@scenario(base=[V3, V4])
def histories(cx, base):
    kp = start(cx, base)
    ops(cx, kp, 0, 1)
    ops(cx, kp, 0, 2)
    kp2 = reopen(cx, kp)
    same_db(cx, kp, kp2)
    a, b = kp.entries, kp2.entries
    cx.check(len(a) == len(b), 'number of entries')
    for x, y in zip(a, b):
        cx.check(x.uuid == y.uuid, 'entry uuid')
        cx.check(txt(x.password) == txt(y.password), 'entry password')
        cx.check(txt(x.title) == txt(y.title), 'entry title')


@scenario(base=[V3, V4], quick=False)
def histories3(cx, base):
    kp = start(cx, base)
    ops(cx, kp, 0, 1)
    ops(cx, kp, 0, 2)
    kp = reopen(cx, kp)
    ops(cx, kp, 0, 3)
    kp2 = reopen(cx, kp)
    same_db(cx, kp, kp2)


@scenario()
def blank(cx):
    """the database new databases are made from"""
    from pykeepass import create_database
    t, p = cx.str('t', lo=1), cx.str('p', lo=1)
    kp = create_database(cx.path('new.kdbx'), password='x')
    kp.add_entry(kp.root_group, t, 'u', p)
    kp.save()
    kp2 = PyKeePass(cx.path('new.kdbx'), password='x')
    cx.check(kp2.entries[0].title == t, 'title')
    cx.check(kp2.entries[0].password == p, 'password')
    same_db(cx, kp, kp2)


@scenario(base=['v3_aes256_raw', 'v4_chacha20_argon2_raw'], what=['notes', 'protected', 'attachment'])
def huge(cx, base, what):
    """a single value of more than 10 million bytes"""
    cx.unlimit(2 ** 30 if what == 'attachment' else (11 if what == 'notes' else 14) * 2 ** 20)
    kp = cx.db(base)
    e = kp.add_entry(kp.root_group, 't', 'u', 'p')
    if what == 'attachment':
        v = cx.blob('v', lo=10_000_000, hi=10_500_000)
        e.add_attachment(kp.add_binary(v, compressed=False), 'a')
    else:
        v = 'v' * 10_000_001
        e.title = cx.str('t', lo=1, hi=1)
        e.set_custom_property('k', v, protect=what == 'protected')
    kp2 = reopen(cx, kp)
    if what == 'attachment':
        cx.check(kp2.entries[0].attachments[0].data == v, 'attachment')
    else:
        cx.check(kp2.entries[0].get_custom_property('k') == v, 'value')
    same_db(cx, kp, kp2)


@scenario(base=[V3, V4], depth=[100, 260])
def deep(cx, base, depth):
    """groups in groups in groups"""
    kp = cx.db(base)
    g = kp.root_group
    for i in range(depth):
        g = kp.add_group(g, 'g')
    t = cx.str('t', lo=1, hi=200)
    kp.add_entry(g, t, 'u', 'p')
    kp2 = reopen(cx, kp)
    cx.check(len(kp2.entries) == 1, 'the entry is there')
    cx.check(kp2.entries[0].title == t, 'title')
    cx.check(len(kp2.entries[0].path) == depth + 1, 'where it was')
    same_db(cx, kp, kp2)


EDGES = ['\U000f0000', '\U0010fffd', '\U0010ffff', '\U00030000', '\U0002ffff', '\U00010000', '\ufffd', '\ue000', '\ud7ff', '\x85', '\u2028', '\x7f', '\t', '\n', '\r', ' ', '\xa0', '\u0301',
         '\ufeff', ']]>', '<!--', '&amp;', '%00']


@scenario(base=[V3, V4], i=list(range(len(EDGES))))
def edges(cx, base, i):
    """characters at the edges of what XML can carry (also those beyond the range of the solver's characters)"""
    kp = cx.db(base)
    c = EDGES[i]
    a = cx.str('a')
    for v in (c, c + a, a + c):
        kp.add_entry(kp.root_group, v, 'u' + v, v, notes=v, force_creation=True).set_custom_property('k', v, protect=True)
    kp.add_group(kp.root_group, c, notes=c)
    kp2 = reopen(cx, kp)
    for e, v in zip(kp2.entries, (c, c + a, a + c)):
        for n in ('title', 'password', 'notes'):
            cx.check(txt(getattr(e, n)) == v, n)
        cx.check(e.username == 'u' + v, 'username')
        cx.check(e.get_custom_property('k') == v, 'custom property')
    cx.check(kp2.groups[-1].name == c and kp2.groups[-1].notes == c, 'group')
    same_db(cx, kp, kp2)
