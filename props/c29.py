"""Saving and reloading use the right file."""
import pathlib
from sx.api import scenario, V3, V4
from props.lib import txt, canon, unchanged, sample, save
from pykeepass import PyKeePass
from pykeepass.exceptions import CredentialsError

BOUNDS = ('every text as content and as password; paths as text and as pathlib.Path, streams; symbolic links; up to 3 saves and reloads to up to 3 places')
NAMES = ['db.kdbx', 'db', 'a b.kdbx', 'd.tmp', 'x.kdbx.bak']


def place(cx, name, lib):
    return pathlib.Path(cx.path(name)) if lib else cx.path(name)


def opened(cx, base, name='db.kdbx'):
    cx.unlimit(2 ** 19)
    cx.put(name, cx.data_bytes(base + '.kdbx'))
    lib = cx.flip('pathlib')
    p = place(cx, name, lib)
    kp = PyKeePass(p, password='pw')
    cx.check(kp.filename == p, 'file name')
    return kp, p, lib


def holds(cx, src, kp, what, **cred):
    """a file holds what the database says"""
    k = PyKeePass(src, **(cred or {'password': kp.password}))
    unchanged(cx, canon(kp.tree), canon(k.tree), [], what)
    cx.check(k.binaries == kp.binaries, what + ' (binaries)')


@scenario(base=[V3, V4], name=NAMES)
def own(cx, base, name):
    """save() writes the file that was opened, and no other"""
    kp, p, lib = opened(cx, base, name)
    cx.put('other', b'other')
    kp.add_entry(kp.root_group, cx.str('t', lo=1), 'u', cx.str('v', lo=1))
    kp.save()
    cx.check(kp.filename == p, 'file name is kept')
    cx.check(sorted(cx.files()) == sorted([name, 'other']), 'no other file')
    cx.check(cx.get('other') == b'other', 'other file is unchanged')
    holds(cx, p, kp, 'saved')


@scenario(base=[V3, V4], name=['copy.kdbx', 'db', 'db.kdbx.kdbx', 'there', 'link'], how=['path', 'stream'])
def elsewhere(cx, base, name, how):
    """save(other) writes there only, and the next save() goes to the own file again"""
    kp, p, lib = opened(cx, base)
    if name == 'there':
        cx.put(name, b'something')
    elif name == 'link':
        cx.put('linked', b'something')
        cx.link(name, 'linked')
    old = cx.get('db.kdbx')
    e = kp.add_entry(kp.root_group, cx.str('t', lo=1), 'u', cx.str('v', lo=1))
    q = place(cx, name, not lib) if how == 'path' else cx.bio()
    kp.save(q)
    cx.check(kp.filename == p, 'file name is kept')
    cx.check(cx.get('db.kdbx') == old, 'own file is unchanged')
    if how == 'stream':
        q.seek(0)
    holds(cx, q, kp, 'saved elsewhere')
    there = cx.get(name) if how == 'path' else q.getvalue()
    e.password = cx.str('w', lo=1)
    kp.save()
    holds(cx, p, kp, 'saved')
    cx.check((cx.get(name) if how == 'path' else q.getvalue()) == there, 'the other place is unchanged')
    also = [name] if how == 'path' or name in ('there', 'link') else []
    cx.check(sorted(cx.files()) == sorted(['db.kdbx'] + also + (['linked'] if name == 'link' else [])), 'no other file')


@scenario(base=[V3, V4], own=[True, False])
def link(cx, base, own):
    """a database opened by a symbolic link"""
    cx.unlimit(2 ** 19)
    cx.put('real.kdbx', cx.data_bytes(base + '.kdbx'))
    cx.link('l.kdbx', 'real.kdbx')
    kp = PyKeePass(cx.path('l.kdbx'), password='pw')
    cx.check(kp.filename == cx.path('l.kdbx'), 'file name')
    cx.put('other', b'other')
    kp.add_entry(kp.root_group, cx.str('t', lo=1), 'u', cx.str('v', lo=1))
    if own:
        kp.save()
        holds(cx, cx.path('l.kdbx'), kp, 'saved')
    else:
        kp.save(cx.path('real.kdbx'))
        holds(cx, cx.path('real.kdbx'), kp, 'saved to the linked file')
    cx.check(kp.filename == cx.path('l.kdbx'), 'file name is kept')
    kp.reload()
    cx.check(cx.get('other') == b'other', 'other file is unchanged')
    cx.check(sorted(cx.files()) == ['l.kdbx', 'other', 'real.kdbx'], 'no other file')


def live(cx, kp, p, what):
    """the groups of the database belong to what was read last: what is added to them is there and is saved"""
    g = kp.add_group(kp.root_group, 'live group')
    e = kp.add_entry(g, 'live', 'live', 'live')
    cx.check(kp.find_groups(name='live group') == [g], what + ': added group is found')
    cx.check(g in kp.groups and e in kp.entries, what + ': what is added is listed')
    kp.trash_entry(e)
    cx.check(kp.recyclebin_group in kp.groups, what + ': the bin is in the database')
    cx.check(e in kp.find_entries(title='live', group=kp.recyclebin_group), what + ': trashed entry is in the bin')
    b = kp.add_binary(b'live')
    e.add_attachment(b, 'live')
    cx.check(kp.binaries[b] == b'live', what + ': added binary')
    kp.save()
    k = PyKeePass(p, password=kp.password)
    f = k.find_entries(title='live', group=k.recyclebin_group)
    cx.check(len(f) == 1 and f[0].uuid == e.uuid, what + ': what is added is saved')
    cx.check(f[0].attachments[0].data == b'live', what + ': attachment is saved')
    holds(cx, p, kp, what + ', saved again')


@scenario(base=[V3, V4])
def reload(cx, base):
    """reload shows what was saved last and forgets the rest"""
    kp, p, lib = opened(cx, base)
    e = kp.add_entry(kp.root_group, 't', 'u', cx.str('v', lo=1))
    kp.trash_entry(kp.add_entry(kp.root_group, 'junk', 'u', 'p'))
    kp.save()
    want = canon(kp.tree)
    bins = list(kp.binaries)
    what = cx.choice('what', ['field', 'entry', 'group', 'delete', 'binary', 'name', 'nothing'])
    w = cx.str('w', lo=1)
    if what == 'field':
        e.password = w
    elif what == 'entry':
        kp.add_entry(kp.root_group, w, w, w, force_creation=True)
    elif what == 'group':
        kp.add_group(kp.root_group, w)
    elif what == 'delete':
        e.delete()
    elif what == 'binary':
        kp.add_binary(w.encode('utf-8'))
    elif what == 'name':
        kp.database_name = w
    kp.reload()
    unchanged(cx, want, canon(kp.tree), [], 'reloaded')
    cx.check(kp.binaries == bins, 'reloaded binaries')
    cx.check(kp.filename == p, 'file name is kept')
    cx.check(kp.password == 'pw', 'password is kept')
    cx.check(kp.keyfile is None, 'key file is kept')
    cx.check(sorted(cx.files()) == ['db.kdbx'], 'no other file')
    # and can be changed and saved
    kp.find_entries(title='t', username='u', first=True).password = w
    kp.save()
    holds(cx, p, kp, 'saved again')
    live(cx, kp, p, 'reloaded')


@scenario(base=[V3, V4], cred=['password', 'keyfile', 'both', 'no password'])
def credentials(cx, base, cred):
    """after saving with new credentials, reload and further saves use them"""
    kp, p, lib = opened(cx, base)
    kf = None
    if cred in ('keyfile', 'both', 'no password'):
        k = cx.blob('k', lo=1)
        cx.assume(len(k) != 32)
        cx.assume(len(k) != 64)
        cx.put('key', k)
        kf = cx.path('key')
        kp.keyfile = kf
    pw = 'pw'
    if cred in ('password', 'both'):
        pw = cx.str('pw', valid=False)
        kp.password = pw
    elif cred == 'no password':
        pw = None
        kp.password = None
    kp.save()
    want = canon(kp.tree)
    kp.database_name = 'unsaved'
    kp.reload()
    unchanged(cx, want, canon(kp.tree), [], 'reloaded')
    cx.check(kp.password == pw if pw is not None else kp.password is None, 'password')
    cx.check(kp.keyfile == kf if kf is not None else kp.keyfile is None, 'key file')
    kp.database_name = cx.str('n', lo=1)
    kp.save()
    holds(cx, p, kp, 'saved again', password=pw, keyfile=kf)


@scenario(base=[V3, V4])
def outside(cx, base):
    """reload shows what another program saved meanwhile"""
    kp, p, lib = opened(cx, base)
    kp.add_binary(b'first')
    kp.database_name = 'first'
    kp.trash_entry(kp.add_entry(kp.root_group, 'junk', 'u', 'p'))
    kp.save()
    kp.add_entry(kp.root_group, 'mine', 'u', 'p')
    kp.binaries, kp.entries, kp.groups, kp.attachments, kp.root_group, kp.recyclebin_group, kp.database_name, kp.credchange_date
    o = PyKeePass(p, password='pw')
    o.delete_binary(0)
    o.add_binary(cx.bytes('f', 5))
    o.database_name = cx.str('n', lo=1)
    o.delete_group(o.recyclebin_group)
    o.add_entry(o.root_group, 'theirs', 'u', cx.str('v', lo=1))
    b = cx.blob('b', hi=4096)
    o.add_binary(b)
    o.save()
    cx.check(kp.find_entries(title='theirs') == [], 'not before')
    kp.reload()
    unchanged(cx, canon(o.tree), canon(kp.tree), [], 'reloaded')
    cx.check(kp.binaries == o.binaries, 'reloaded binaries')
    cx.check(kp.find_entries(title='mine') == [], 'own unsaved change is gone')
    cx.check(kp.recyclebin_group is None, 'reloaded bin')
    cx.check(kp.database_name == o.database_name, 'reloaded name')
    cx.check(len(kp.entries) == len(o.entries) and len(kp.groups) == len(o.groups), 'reloaded items')


@scenario(base=[V3, V4])
def switch(cx, base):
    """read(other) turns to another file"""
    kp, p, lib = opened(cx, base)
    kp.add_entry(kp.root_group, 'mine', 'u', 'p')
    kp.trash_entry(kp.add_entry(kp.root_group, 'junk', 'u', 'p'))
    kp.save()
    old = cx.get('db.kdbx')
    o = cx.db(V3 if base == V4 else V4)
    o.password = cx.str('pw', valid=False)
    o.add_entry(o.root_group, 'theirs', 'u', cx.str('v', lo=1))
    o.save(cx.path('second'))
    kp.read(cx.path('second'), password=o.password)
    unchanged(cx, canon(o.tree), canon(kp.tree), [], 'read')
    cx.check(kp.filename == cx.path('second'), 'file name')
    cx.check(kp.version == o.version, 'version')
    kp.find_entries(title='theirs', first=True).url = cx.str('w', lo=1)
    kp.save()
    holds(cx, cx.path('second'), kp, 'saved')
    live(cx, kp, cx.path('second'), 'read')
    cx.check(cx.get('db.kdbx') == old, 'the first file is unchanged')


@scenario(base=[V3, V4], first=['password', 'keyfile', 'both', 'transformed'], second=['password', 'keyfile', 'both', 'transformed', 'none'],
          quick=lambda base, first, second: base == V4 or first in ('both', 'transformed'))
def switch_credentials(cx, base, first, second):
    """read(other, ...) uses the given credentials for it and for the saves and reloads to come, and none of the earlier ones"""
    cx.unlimit(2 ** 19)
    cx.put('k1', b'first key')
    cx.put('k2', b'second key')

    def made(name, base, how, key):
        k = cx.db(base)
        k.password = cx.str('pw of ' + name) if how != 'keyfile' and how != 'none' else None
        k.keyfile = cx.path(key) if how in ('keyfile', 'both') else None
        k.add_entry(k.root_group, name, 'u', 'p')
        k.save(cx.path(name))
        if how == 'transformed':
            return k, {'transformed_key': PyKeePass(cx.path(name), password=k.password).transformed_key}
        return k, {'password': k.password, 'keyfile': k.keyfile}
    a, cred = made('one', base, first, 'k1')
    b, also = made('two', V3 if base == V4 else V4, second, 'k2')
    old = cx.get('one')
    kp = PyKeePass(cx.path('one'), **cred)
    kp.read(cx.path('two'), **also)
    unchanged(cx, canon(b.tree), canon(kp.tree), [], 'read')
    if second != 'transformed':
        cx.check(kp.password is None if b.password is None else kp.password == b.password, 'password')
    cx.check(kp.keyfile is None if b.keyfile is None else kp.keyfile == b.keyfile, 'key file')
    kp.add_entry(kp.root_group, 'three', 'u', 'p')
    kp.save()
    holds(cx, cx.path('two'), kp, 'saved', **also)
    kp.reload()
    holds(cx, cx.path('two'), kp, 'reloaded', **also)
    if second == 'transformed':
        holds(cx, cx.path('two'), kp, 'saved', password=b.password)
    cx.check(cx.get('one') == old, 'the first file is unchanged')


@scenario(base=[V3, V4])
def stream(cx, base):
    """a database opened from a stream is saved to a given place"""
    kp = cx.db(base)
    kp.add_entry(kp.root_group, cx.str('t', lo=1), 'u', 'p')
    data = save(cx, kp).getvalue()
    src = cx.bio(data)
    k = PyKeePass(src, password='pw')
    cx.check(k.filename is src, 'stream is kept')
    k.database_name = cx.str('n', lo=1)
    k.save(cx.path('f'))
    holds(cx, cx.path('f'), k, 'saved')
    cx.check(src.getvalue() == data, 'the stream is unchanged')
    k.filename = cx.path('g')
    k.save()
    holds(cx, cx.path('g'), k, 'saved to the new file name')
    cx.check(sorted(cx.files()) == ['f', 'g'], 'no other file')


@scenario(base=[V3, V4], then=['save', 'elsewhere', 'stream', 'reload', 'password', 'keyfile'])
def transformed(cx, base, then):
    """a database opened with a transformed key stays locked with the same credentials"""
    cx.unlimit(2 ** 19)
    kp = cx.db(base)
    pw = cx.str('pw', valid=False)
    kp.password = pw
    kp.save(cx.path('db.kdbx'))
    tk = PyKeePass(cx.path('db.kdbx'), password=pw).transformed_key
    k = PyKeePass(cx.path('db.kdbx'), transformed_key=tk)
    want = canon(k.tree)
    k.database_name = cx.str('n', lo=1)
    src = cx.path('db.kdbx')
    if then == 'reload':
        k.reload()
        unchanged(cx, want, canon(k.tree), [], 'reloaded')
        return
    if then in ('elsewhere', 'stream'):
        src = cx.path('f') if then == 'elsewhere' else cx.bio()
        k.save(src)
    elif then == 'password':
        new = cx.str('new', valid=False)
        k.password = new
        k.save()
        holds(cx, src, k, 'saved with a new password', password=new)
        return
    elif then == 'keyfile':
        cx.put('key', b'key')
        k.keyfile = cx.path('key')
        k.save()
        holds(cx, src, k, 'saved with a key file', keyfile=cx.path('key'))
        return
    else:
        k.save()
    for cred in ({'password': pw}, {'transformed_key': tk}, {}):
        if then == 'stream':
            src.seek(0)
        if cred:
            holds(cx, src, k, 'saved with the same credentials', **cred)
        else:
            try:
                PyKeePass(src)
            except CredentialsError:
                continue
            cx.check(False, 'does not open without credentials')


@scenario(base=[V3, V4], fail=['credentials', 'missing', 'damaged', 'reload'])
def failed(cx, base, fail):
    """a failed read leaves everything as it was"""
    kp, p, lib = opened(cx, base)
    kp.add_entry(kp.root_group, 'mine', 'u', cx.str('v', lo=1))
    o = cx.db(V3 if base == V4 else V4)
    pw, q = cx.str('pw', valid=False), cx.str('q', valid=False)
    cx.assume(pw != q)
    o.password = pw
    want, bins = canon(kp.tree), list(kp.binaries)
    keep = None
    if fail == 'missing':
        to = cx.path('nowhere')
    elif fail == 'reload':
        to = p
        o.save(p)
        q = None
    else:
        to = cx.path('second')
        o.save(to)
        if fail == 'damaged':
            q = pw
            cx.put('second', b'\x03\xd9' + cx.get('second')[3:])
        keep = cx.get('second')
    try:
        if fail == 'reload':
            kp.reload()
        else:
            kp.read(to, password=q)
    except Exception:
        pass
    else:
        cx.assume(False)
    cx.check(kp.filename == p, 'file name is kept')
    cx.check(kp.password == 'pw', 'password is kept')
    unchanged(cx, want, canon(kp.tree), [], 'content')
    cx.check(kp.binaries == bins, 'binaries')
    kp.save()
    holds(cx, p, kp, 'saved', password='pw')
    if keep is not None:
        cx.check(cx.get('second') == keep, 'the other file is unchanged')
    cx.check(sorted(cx.files()) == (['db.kdbx'] if keep is None else ['db.kdbx', 'second']), 'no other file')


@scenario(base=[V3, V4], how=['path', 'stream'])
def keyfile_changed(cx, base, how):
    """the key file has other content by the time of saving: what is saved opens with what it has then"""
    kp, p, lib = opened(cx, base)
    a, b = cx.blob('a', lo=1, hi=4096), cx.blob('b', lo=1, hi=4096)
    for x in (a, b):
        cx.assume(len(x) != 32)
        cx.assume(len(x) != 64)
    cx.assume(a != b)
    cx.put('k', a)
    k = cx.path('k')
    kp.keyfile = k
    kp.save()
    kp = PyKeePass(p, password='pw', keyfile=k)
    cx.put('k', b)
    kp.add_entry(kp.root_group, 't', 'u', cx.str('v', lo=1))
    if how == 'path':
        kp.save()
        src = p
    else:
        src = cx.bio()
        kp.save(src)
        src.seek(0)
    holds(cx, src, kp, 'saved', password='pw', keyfile=k)
    if how == 'path':
        # brings back what was saved
        kp.reload()
        cx.check(len(kp.find_entries(title='t', username='u')) == 1, 'reloaded')
    cx.put('k', a)
    if how == 'stream':
        src.seek(0)
    try:
        PyKeePass(src, password='pw', keyfile=k)
        old = True
    except CredentialsError:
        old = False
    cx.check(not old, 'the old key file no longer opens it')
