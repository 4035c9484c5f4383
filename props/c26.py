"""A new database has the given credentials, is empty and is independent."""
import pathlib
from sx.api import scenario
from props.lib import same_db, save
import pykeepass
from pykeepass import PyKeePass, create_database
from pykeepass.exceptions import CredentialsError

BOUNDS = ('passwords of any text Python can encode, key files of any content up to 16 MiB other than 32 or 64 bytes (C05 covers those), transformed keys of any 32 bytes, each present or not; '
          'target: path, pathlib.Path, stream, existing file; up to 3 databases with changes in between')
ASSUMES = ['SHA-256, SHA-512, HMAC, Argon2 and the ciphers are ideal: distinct inputs give unrelated outputs']
TARGET = ['path', 'pathlib', 'stream', 'existing']


def target(cx, how, name='new.kdbx'):
    if how == 'stream':
        return cx.bio()
    if how == 'existing':
        cx.put(name, b'something older')
    return pathlib.Path(cx.path(name)) if how == 'pathlib' else cx.path(name)


def source(fn):
    if hasattr(fn, 'seek'):
        fn.seek(0)
    return fn


def empty(cx, kp, what):
    cx.check(len(kp.entries) == 0, what + ': no entries')
    cx.check(len(kp.groups) == 1, what + ': no groups but the root')
    cx.check(kp.groups[0].is_root_group, what + ': the root group')
    cx.check(len(kp.attachments) == 0, what + ': no attachments')
    cx.check(len(kp.binaries) == 0, what + ': no binaries')
    cx.check(kp.recyclebin_group is None, what + ': no recycle bin')


def refused(cx, fn, what, **cred):
    try:
        PyKeePass(source(fn), **cred)
        cx.check(False, what)
    except CredentialsError:
        cx.check(True, what)


def whole(cx, fn, kp, what, **cred):
    k = PyKeePass(source(fn), **cred)
    empty(cx, k, what)
    same_db(cx, kp, k, what + ': ')
    return k


@scenario(how=TARGET, pw=[True, False], kf=['none', 'path', 'stream'])
def created(cx, how, pw, kf):
    p = cx.str('p', valid=False) if pw else None
    k = None
    if kf != 'none':
        a = cx.blob('a', lo=1)
        cx.assume(len(a) != 32)
        cx.assume(len(a) != 64)
        cx.put('k', a)
        k = cx.path('k') if kf == 'path' else cx.bio(a)
    fn = target(cx, how)
    kp = create_database(fn, password=p, keyfile=k)
    empty(cx, kp, 'new')
    cx.check(kp.filename == fn if how != 'stream' else kp.filename is fn, 'file name')
    cx.check(kp.password is None if p is None else kp.password == p, 'password')
    cx.check(kp.keyfile is k or kp.keyfile == k, 'key file')
    whole(cx, fn, kp, 'opened', password=p, keyfile=k)
    if how != 'stream':
        kp.reload()
        empty(cx, kp, 'reloaded')
        files = sorted(cx.files())
        cx.check(files == (['k', 'new.kdbx'] if kf != 'none' else ['new.kdbx']), 'nothing else is written')
    # every other combination is refused
    q = cx.str('q', valid=False)
    if p is not None:
        if q != p:
            refused(cx, fn, 'another password', password=q, keyfile=k)
        refused(cx, fn, 'no password', keyfile=k)
    else:
        refused(cx, fn, 'additional password', password=q, keyfile=k)
    if k is not None:
        refused(cx, fn, 'no key file', password=p)
        b = cx.blob('b', lo=1)
        cx.assume(len(b) != 32)
        cx.assume(len(b) != 64)
        cx.assume(b != a)
        refused(cx, fn, 'another key file', password=p, keyfile=cx.bio(b))
    else:
        cx.put('other', b'other key file')
        refused(cx, fn, 'additional key file', password=p, keyfile=cx.path('other'))


@scenario(how=TARGET, pw=[True, False])
def transformed(cx, how, pw):
    t, u = cx.bytes('t', 32), cx.bytes('u', 32)
    fn = target(cx, how)
    p = cx.str('p', valid=False) if pw else None
    kp = create_database(fn, password=p, transformed_key=t)
    empty(cx, kp, 'new')
    whole(cx, fn, kp, 'opened', transformed_key=t)
    if t != u:
        refused(cx, fn, 'another transformed key', transformed_key=u)
    if not pw and how != 'stream':
        kp.database_name = 'changed'
        kp.save()
        cx.check(PyKeePass(fn, transformed_key=t).database_name == 'changed', 'saved again with the same key')
        free = cx.bio()
        create_database(free)
        free.seek(0)
        cx.assume(t != PyKeePass(free).transformed_key)
        refused(cx, fn, 'no credentials', password=None)
    if how != 'stream':
        cx.check(sorted(cx.files()) == ['new.kdbx'], 'nothing else is written')


@scenario(how=TARGET)
def positional(cx, how):
    """arguments in their documented order"""
    p = cx.str('p', valid=False)
    cx.put('k', b'the key file')
    fn = target(cx, how)
    kp = create_database(fn, p, cx.path('k'))
    whole(cx, fn, kp, 'opened', password=p, keyfile=cx.path('k'))


def fill(cx, kp, n):
    g = kp.add_group(kp.root_group, cx.str('g' + n, lo=1), notes=cx.str('gn' + n))
    e = kp.add_entry(g, cx.str('t' + n, lo=1), cx.str('u' + n, lo=1), cx.str('pw' + n))
    e.set_custom_property('k', cx.str('c' + n), protect=True)
    e.add_attachment(kp.add_binary(cx.blob('d' + n)), 'file')
    e.save_history()
    kp.trash_entry(kp.add_entry(kp.root_group, 'old', 'u', 'p'))
    kp.database_name = cx.str('name' + n)
    kp.root_group.name = cx.str('root' + n)
    return e


@scenario(order=['between', 'before', 'after'], target2=['path', 'stream', 'same'])
def independent(cx, order, target2):
    """changing and saving one leaves the others alone, and new ones are empty"""
    p, q = cx.str('p', valid=False), cx.str('q', valid=False)
    a = create_database(cx.path('a.kdbx'), password=p)
    default = a.root_group.name, a.database_name
    if order == 'before':
        fill(cx, a, '1')
        a.save()
    fn = cx.bio() if target2 == 'stream' else cx.path('a.kdbx' if target2 == 'same' else 'b.kdbx')
    b = create_database(fn, password=q)
    if order == 'between':
        fill(cx, a, '1')
        if target2 != 'same':
            a.save()
    empty(cx, b, 'second')
    cx.check(b.root_group.name == default[0], 'name of the root group')
    cx.check(b.database_name == default[1], 'name of the database')
    whole(cx, fn, b, 'second opened', password=q)
    if order == 'after':
        fill(cx, b, '2')
        if target2 == 'stream':
            fn.seek(0)
            fn.truncate()
        b.save()
        empty(cx, a, 'first')
        if target2 != 'same':
            whole(cx, cx.path('a.kdbx'), a, 'first opened', password=p)
    elif target2 != 'same':
        k = PyKeePass(cx.path('a.kdbx'), password=p)
        cx.check(len(k.entries) == 2, 'first has what was put into it')
        same_db(cx, a, k, 'first: ')
    c = create_database(cx.path('c.kdbx'), password='third')
    empty(cx, c, 'third')
    cx.check(c.root_group.name == default[0], 'name of the root group of the third')
    whole(cx, cx.path('c.kdbx'), c, 'third opened', password='third')


@scenario(how=['path', 'stream'])
def used(cx, how):
    """a new database takes and keeps content, and further changes of credentials"""
    p, q = cx.str('p', valid=False), cx.str('q', valid=False)
    fn = target(cx, how)
    kp = create_database(fn, password=p)
    fill(cx, kp, '1')
    kp.password = q
    if how == 'stream':
        fn.seek(0)
        fn.truncate()
    kp.save()
    k = PyKeePass(source(fn), password=q)
    same_db(cx, kp, k)
    if p != q:
        refused(cx, fn, 'the old password', password=p)
    if how != 'stream':
        x = create_database(cx.path('x.kdbx'), password=p)
        empty(cx, x, 'next')
