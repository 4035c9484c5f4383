"""Damage and wrong credentials are told apart."""
from sx.api import scenario, V3, V4, V41
from props.lib import save, canon, unchanged
from props.c03 import header_end, place
from pykeepass import PyKeePass
from pykeepass.exceptions import CredentialsError, HeaderChecksumError, PayloadChecksumError
import struct

BOUNDS = ('one byte at every position of the part in question replaced by every other value, or the whole part by anything; every password; every signature; '
          'all ciphers (KDBX3 payload: the stream cipher, where a byte of the file is a byte of the payload)')
ASSUMES = ['hashes, HMAC and ciphers are ideal: a changed input gives an unrelated output']
V4S, V4T = 'v4_aes256_argon2_gz', 'v4_twofish_aeskdf_raw'
V3S, V3R = 'v3_chacha20_gz', 'v3_chacha20_raw'


def kind(cx, src, want, what, **cred):
    cred = cred or {'password': 'pw'}
    try:
        PyKeePass(src, **cred)
    except Exception as e:
        cx.check(type(e) is want, what)
        return
    cx.check(False, what)


def right(cx, base):
    """the right credentials, in both forms"""
    if cx.flip('transformed'):
        return {'transformed_key': cx.db(base).transformed_key}
    return {'password': 'pw'}


def changed(cx, data, i):
    b = cx.bytes('b', 1)
    cx.assume(b[0] != data[i])
    return data[:i] + b + data[i + 1:]


def items(data):
    """outer header: (type, offset of the data, length)"""
    i, three = 12, data[10] == 3
    out = []
    while True:
        t = data[i]
        n = struct.unpack('<H' if three else '<I', data[i + 1:i + (3 if three else 5)])[0]
        i += 3 if three else 5
        out.append((t, i, n))
        i += n
        if t == 0:
            return out


@scenario(base=[V4, V4S, V4T, V41], quick=lambda base: base != V41)
def payload4(cx, base):
    """a byte of a block or of its HMAC"""
    data = cx.data_bytes(base + '.kdbx')
    h = header_end(data)
    n = struct.unpack('<I', data[h + 96:h + 100])[0]
    part = cx.choice('part', ['hmac', 'data', 'last hmac'])
    lo, hi = {'hmac': (h + 64, h + 96), 'data': (h + 100, h + 100 + n), 'last hmac': (h + 100 + n, h + 132 + n)}[part]
    i = place(cx, lo, hi)
    kind(cx, cx.bio(changed(cx, data, i)), PayloadChecksumError, 'damaged payload', **right(cx, base))


@scenario(base=[V4, V4S, V4T, V41])
def replaced4(cx, base):
    """a block, its HMAC or the header hash replaced by anything"""
    data = cx.data_bytes(base + '.kdbx')
    h = header_end(data)
    n = struct.unpack('<I', data[h + 96:h + 100])[0]
    part = cx.choice('part', ['header hash', 'hmac', 'data', 'last hmac'])
    lo, hi = {'header hash': (h, h + 32), 'hmac': (h + 64, h + 96), 'data': (h + 100, h + 100 + n), 'last hmac': (h + 100 + n, h + 132 + n)}[part]
    x = cx.blob('x', lo=hi - lo, hi=hi - lo)
    cx.assume(x != data[lo:hi])
    kind(cx, cx.bio(data[:lo] + x + data[hi:]), HeaderChecksumError if part == 'header hash' else PayloadChecksumError, 'damaged ' + part, **right(cx, base))


@scenario(base=[V4, V4S, V4T, V41])
def header4(cx, base):
    """a byte of seed, IV or salt, or of the header hash"""
    data = cx.data_bytes(base + '.kdbx')
    h = header_end(data)
    part = cx.choice('part', ['seed', 'iv', 'salt', 'hash'])
    if part == 'hash':
        lo, n = h, 32
    elif part == 'salt':
        salt = cx.db(base).database_salt
        lo, n = data.index(salt), len(salt)
    else:
        lo, n = [(o, k) for t, o, k in items(data) if t == {'seed': 4, 'iv': 7}[part]][0]
    i = place(cx, lo, lo + n)
    c = cx.choice('credentials', ['right', 'none', 'wrong', 'transformed', 'wrong transformed', 'keyfile', 'both'])
    cred = {'right': dict(password='pw'), 'none': dict(password=None), 'wrong': dict(password='no'), 'wrong transformed': dict(transformed_key=b'\0' * 32)}.get(c)
    if c == 'transformed':
        cred = dict(transformed_key=cx.db(base).transformed_key)
    elif cred is None:
        cx.put('key', b'some key')
        cred = dict(password='pw' if c == 'both' else None, keyfile=cx.path('key'))
    kind(cx, cx.bio(changed(cx, data, i)), HeaderChecksumError, 'damaged header', **cred)


@scenario(base=[V3S, V3R])
def payload3(cx, base):
    """a byte of a block or of its hash"""
    data = cx.data_bytes(base + '.kdbx')
    h = header_end(data) + 32
    i = place(cx, h + 4, len(data) - 40)
    if h + 36 <= i < h + 40:
        cx.assume(False)
    kind(cx, cx.bio(changed(cx, data, i)), PayloadChecksumError, 'damaged payload', **right(cx, base))


@scenario(base=[V3, V4, V41], decrypt=[True, False])
def foreign(cx, base, decrypt):
    """another signature"""
    data = cx.data_bytes(base + '.kdbx')
    s = cx.bytes('s', 8)
    cx.assume(s != data[:8])
    kind(cx, cx.bio(s + data[8:]), HeaderChecksumError, 'not a database', password='pw', decrypt=decrypt)


@scenario(base=[V3, V3S, V3R, 'v3_aes256_raw', 'v3_twofish_gz', 'v3_twofish_raw', V4, V4S, V4T, V41])
def credentials(cx, base):
    """wrong credentials, with an intact file and (KDBX4) with a damaged payload"""
    data = cx.data_bytes(base + '.kdbx')
    q = cx.str('q', valid=False)
    cx.assume(q != 'pw')
    if base.startswith('v4') and cx.flip('damaged'):
        h = header_end(data)
        x = cx.blob('x', hi=4096)
        data = data[:h + 64] + x
    kind(cx, cx.bio(data), CredentialsError, 'wrong password', password=q)
    kind(cx, cx.bio(data), CredentialsError, 'no credentials', password=None)
    t = cx.bytes('t', 32)
    cx.assume(t != cx.db(base).transformed_key)
    kind(cx, cx.bio(data), CredentialsError, 'wrong transformed key', transformed_key=t)


@scenario(base=[V3, V4])
def missing(cx, base):
    """a file that is not there"""
    data = cx.data_bytes(base + '.kdbx')
    cx.put('db', data)
    n = cx.choice('name', ['no', 'db.kdbx', 'd/db', 'DB'])
    kind(cx, cx.path(n), FileNotFoundError, 'missing database', password='pw')
    kind(cx, cx.path('db'), FileNotFoundError, 'missing key file', password='pw', keyfile=cx.path(n))
    kind(cx, cx.bio(data), FileNotFoundError, 'missing key file', password='pw', keyfile=cx.path(n))
    cx.check(sorted(cx.files()) == ['db'], 'no file is made')


@scenario(base=[V3, 'v3_twofish_gz', V4, V4T])
def saved(cx, base):
    """the same for a file that was just saved"""
    kp = cx.db(base)
    kp.add_entry(kp.root_group, cx.str('t', lo=1), 'u', cx.str('p', lo=1))
    pw = cx.str('pw', valid=False) if cx.flip('with password') else None
    kp.password = pw
    data = save(cx, kp).getvalue()
    q = cx.str('q', valid=False)
    if q != pw:
        kind(cx, cx.bio(data), CredentialsError, 'wrong password', password=q)
    else:
        k = PyKeePass(cx.bio(data), password=q)
        cx.check(cx.tree_eq(k.tree, kp.tree), 'opens')
    if base[1] != '3':
        h = header_end(cx.data_bytes(base + '.kdbx'))
        x = cx.blob('x', lo=32, hi=32)
        cx.assume(x != data[h + 64:h + 96])
        kind(cx, cx.bio(data[:h + 64] + x + data[h + 96:]), PayloadChecksumError, 'damaged payload', password=pw)


@scenario(base=[V3S, V3R, V4, V4T], how=['reload', 'read', 'other'])
def again(cx, base, how):
    """an open database: reading its file again, or another one, tells the same, and the database goes on as it was"""
    data = cx.data_bytes(base + '.kdbx')
    p = cx.path('db.kdbx')
    cx.put('db.kdbx', data)
    kp = PyKeePass(p, password='pw')
    kp.add_entry(kp.root_group, 't', 'u', cx.str('v', lo=1))
    before, names = canon(kp.tree), (kp.filename, kp.password, kp.keyfile)
    h = header_end(data)
    what = cx.choice('what', ['signature', 'password', 'payload'] + (['header hash', 'hmac'] if base[1] == '4' else []))
    lo, hi, want = {'signature': (0, 8, HeaderChecksumError), 'password': (0, 0, CredentialsError), 'header hash': (h, h + 32, HeaderChecksumError),
                    'hmac': (h + 32, h + 64, CredentialsError), 'payload': (h + 64, h + 96, PayloadChecksumError)}[what]
    pw = 'pw'
    if what == 'password':
        pw = cx.str('q', valid=False)
        cx.assume(pw != 'pw')
        bad = data
    elif what == 'payload' and base[1] == '3':
        # a byte of the hash of the first block
        bad = changed(cx, data, h + 50)
    else:
        x = cx.blob('x', lo=hi - lo, hi=hi - lo)
        cx.assume(x != data[lo:hi])
        bad = data[:lo] + x + data[hi:]
    if how == 'other':
        cx.put('other.kdbx', bad)
    else:
        cx.put('db.kdbx', bad)
    if how == 'reload':
        kp.password = pw
        before, names = canon(kp.tree), (kp.filename, kp.password, kp.keyfile)
    err = None
    try:
        if how == 'reload':
            kp.reload()
        elif how == 'read':
            kp.read(password=pw)
        else:
            kp.read(cx.path('other.kdbx'), password=pw)
    except Exception as e:
        err = type(e)
    cx.check(err is want, 'damaged ' + what)
    cx.check((kp.filename, kp.password, kp.keyfile) == names, 'bound as before')
    unchanged(cx, before, canon(kp.tree), [], 'a failed attempt')
