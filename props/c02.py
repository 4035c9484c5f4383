"""Wrong credentials never open a database; the right ones always do."""
from sx.api import scenario, V3, V4, V41
from props.lib import ALL, txt, save
from pykeepass import PyKeePass
from pykeepass.exceptions import CredentialsError

BOUNDS = ('passwords of any length and content Python can encode; key files of any content and length up to 16 MiB other than 32 or 64 '
          'bytes (C05 covers those); one save and one open; hash functions and KDFs are ideal (no collisions)')
ASSUMES = ['SHA-256, SHA-512, HMAC, Argon2 and the ciphers are ideal: distinct inputs give unrelated outputs']


def opens(cx, src, label, **cred):
    try:
        kp = PyKeePass(src, **cred)
    except CredentialsError:
        return None
    return kp


def must_fail(cx, src, label, **cred):
    kp = opens(cx, src, label, **cred)
    cx.check(kp is None, label)


def must_open(cx, src, label, **cred):
    kp = opens(cx, src, label, **cred)
    cx.check(kp is not None, label)
    cx.check(kp.entries[0].password == 'secret', label + ': content')


def made(cx, base):
    kp = cx.db(base)
    kp.add_entry(kp.root_group, 't', 'u', 'secret')
    return kp


@scenario(base=ALL)
def password(cx, base):
    kp = made(cx, base)
    p, q = cx.str('p', valid=False), cx.str('q', valid=False)
    kp.password = p
    s = save(cx, kp)
    cx.observe('same', p == q)
    if p == q:
        must_open(cx, s, 'right password opens', password=q)
    else:
        must_fail(cx, s, 'wrong password rejected', password=q)


@scenario(base=ALL)
def stored(cx, base):
    """a file as it lies on disk"""
    q = cx.str('q', valid=False)
    cx.db(base)
    src = cx.bio(cx.data_bytes(base + '.kdbx'))
    kp = opens(cx, src, '', password=q)
    if q == 'pw':
        cx.check(kp is not None, 'right password opens')
    else:
        cx.check(kp is None, 'wrong password rejected')


@scenario(base=[V3, V4, V41])
def none(cx, base):
    kp = made(cx, base)
    q = cx.str('q', valid=False)
    way = cx.flip('set')
    cx.put('k', b'the key file')
    if way:
        kp.password = q
        other = None
    else:
        kp.password = None
        kp.keyfile = cx.path('k')
        other = q
    s = save(cx, kp)
    if way:
        must_fail(cx, s, 'no password rejected', password=None)
    else:
        must_fail(cx, s, 'password in addition rejected', password=q, keyfile=cx.path('k'))
        s.seek(0)
        must_open(cx, s, 'key file alone opens', keyfile=cx.path('k'))


@scenario(base=[V3, V4, V41], how=['path', 'stream'])
def keyfile(cx, base, how):
    kp = made(cx, base)
    a, b = cx.blob('a', lo=1), cx.blob('b', lo=1)
    for x in (a, b):
        cx.assume(len(x) != 32)
        cx.assume(len(x) != 64)
    p = cx.str('p', valid=False)
    if how == 'path':
        cx.put('a', a)
        cx.put('b', b)
        ka, kb = cx.path('a'), cx.path('b')
    else:
        ka, kb = cx.bio(a), cx.bio(b)
    kp.password, kp.keyfile = p, ka
    s = save(cx, kp)
    must_fail(cx, s, 'missing key file rejected', password=p)
    s.seek(0)
    must_open(cx, s, 'right key file opens', password=p, keyfile=ka)
    s.seek(0)
    if a != b:
        must_fail(cx, s, 'wrong key file rejected', password=p, keyfile=kb)
    else:
        must_open(cx, s, 'copy of the key file opens', password=p, keyfile=kb)


@scenario(base=[V3, V4, V41])
def both(cx, base):
    """password and key file: each must be right"""
    kp = made(cx, base)
    p, q = cx.str('p', valid=False), cx.str('q', valid=False)
    cx.put('a', b'first key file')
    cx.put('b', b'second key file')
    kp.password, kp.keyfile = p, cx.path('a')
    s = save(cx, kp)
    which = cx.choice('which', ['a', 'b', None])
    kf = cx.path(which) if which else None
    pw = q if cx.flip('with password') else None
    if which == 'a' and pw is not None and pw == p:
        must_open(cx, s, 'right pair opens', password=pw, keyfile=kf)
    else:
        must_fail(cx, s, 'wrong pair rejected', password=pw, keyfile=kf)


@scenario(base=[V3, V4, V41])
def changed(cx, base):
    """after a change of password the old one no longer opens the saved file"""
    kp = made(cx, base)
    p, q = cx.str('p', valid=False), cx.str('q', valid=False)
    fn = cx.path('x.kdbx')
    kp.password = p
    kp.save(fn)
    kp2 = PyKeePass(fn, password=p)
    kp2.password = q
    kp2.save()
    if p == q:
        must_open(cx, fn, 'same password opens', password=p)
    else:
        must_fail(cx, fn, 'old password rejected', password=p)
        must_open(cx, fn, 'new password opens', password=q)
    # the object itself reloads with what it was saved with
    kp2.reload()
    cx.check(kp2.entries[0].password == 'secret', 'reload with the new password')


@scenario(base=[V3, V4])
def removed(cx, base):
    """key file added or taken away"""
    kp = made(cx, base)
    p = cx.str('p', valid=False)
    cx.put('k', b'the key file')
    kp.password = p
    add = cx.flip('add')
    kp.keyfile = None if add else cx.path('k')
    s = save(cx, kp)
    kp2 = PyKeePass(s, password=p, keyfile=kp.keyfile)
    kp2.keyfile = cx.path('k') if add else None
    s = save(cx, kp2)
    if add:
        must_fail(cx, s, 'password alone rejected', password=p)
        s.seek(0)
        must_open(cx, s, 'both open', password=p, keyfile=cx.path('k'))
    else:
        must_fail(cx, s, 'key file in addition rejected', password=p, keyfile=cx.path('k'))
        s.seek(0)
        must_open(cx, s, 'password alone opens', password=p)


@scenario(base=[V3, V4, V41])
def transformed(cx, base):
    kp = made(cx, base)
    p = cx.str('p', valid=False)
    kp.password = p
    s = save(cx, kp)
    tk = PyKeePass(s, password=p).transformed_key
    s.seek(0)
    must_open(cx, s, 'transformed key opens', transformed_key=tk)
    w = cx.blob('w', lo=32, hi=32)
    s.seek(0)
    if w == tk:
        must_open(cx, s, 'equal transformed key opens', transformed_key=w)
    else:
        must_fail(cx, s, 'other transformed key rejected', transformed_key=w)


@scenario(base=[V3, V4, V41], how=['path', 'stream'])
def saved_transformed(cx, base, how):
    """save(transformed_key=...) locks with exactly this key"""
    kp = made(cx, base)
    tk = cx.blob('tk', lo=32, hi=32)
    w = cx.blob('w', lo=32, hi=32)
    s = cx.path('f') if how == 'path' else cx.bio()

    def src():
        if how == 'stream':
            s.seek(0)
        return s
    kp.save(s, transformed_key=tk)
    must_open(cx, src(), 'transformed key opens', transformed_key=tk)
    must_fail(cx, src(), 'password rejected', password='pw')
    must_fail(cx, src(), 'nothing rejected')
    cx.assume(w != tk)
    must_fail(cx, src(), 'other transformed key rejected', transformed_key=w)


@scenario(base=[V3, V4])
def undecrypted(cx, base):
    """decrypt=False shows the header to anyone and the contents to nobody"""
    kp = made(cx, base)
    p, q = cx.str('p', valid=False), cx.str('q', valid=False)
    kp.password = p
    s = save(cx, kp)
    k = PyKeePass(s, password=q, decrypt=False)
    cx.check(k.encryption_algorithm == kp.encryption_algorithm, 'header readable')
    try:
        k.payload
        shown = True
    except ValueError:
        shown = False
    cx.check(not shown, 'payload not available')


@scenario(base=[V3, V4, V41])
def unencodable(cx, base):
    """what is not text (a lone surrogate) is no other spelling of a password"""
    kp = made(cx, base)
    kp.password = p = cx.choice('saved', ['?', '', '\ufffd', 'a?', 'a'])
    s = save(cx, kp)
    q = cx.choice('given', ['\udc80', 'a\ud800', '\udcff'])
    got = None
    try:
        got = PyKeePass(s, password=q)
    except (UnicodeEncodeError, CredentialsError):
        pass
    cx.check(got is None, 'wrong password rejected')


ALIKE = [('\xe9', 'e\u0301'), ('\ufb01', 'fi'), ('\uff21', 'A'), ('A', 'a'), ('\xdf', 'ss'), ('\u0130', 'i\u0307'), ('a ', 'a'), (' a', 'a'), ('a\n', 'a'), ('a\x00', 'a'), ('a\x00b', 'a'), ('\ufeffa', 'a'),
         ('a\xad', 'a'), ('a\u200b', 'a'), ('\xa0', ' '), ('\u2019', "'"), ('\u212a', 'K'), ('\u2126', '\u03a9'), ('a\r\n', 'a\n'), ('1', '\u0661'), ('\U000f0000', '\U00100000'), ('\\n', '\n'), ('%41', 'A'), ('&lt;', '<')]


@scenario(base=[V3, V4], i=list(range(len(ALIKE))))
def alike(cx, base, i):
    """passwords that only look alike are different"""
    kp = made(cx, base)
    p, q = ALIKE[i]
    if cx.flip('exchanged'):
        p, q = q, p
    kp.password = p
    s = save(cx, kp)
    must_fail(cx, s, 'wrong password rejected', password=q)
    s.seek(0)
    must_open(cx, s, 'right password opens', password=p)


@scenario(base=[V3, V4], n=[8, 16, 32, 56, 64, 72, 127, 255, 1024, 4096, 65536])
def long(cx, base, n):
    """passwords that differ late only"""
    kp = made(cx, base)
    a, b = cx.str('a', valid=False), cx.str('b', valid=False)
    cx.assume(a != b)
    kp.password = 'x' * n + a
    s = save(cx, kp)
    must_fail(cx, s, 'wrong password rejected', password='x' * n + b)
    s.seek(0)
    must_fail(cx, s, 'wrong password rejected', password='y' + 'x' * (n - 1) + a)
    s.seek(0)
    must_open(cx, s, 'right password opens', password='x' * n + a)
