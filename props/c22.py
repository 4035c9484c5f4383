"""Header accessors report what the file says."""
from sx.api import scenario, V3, V4
from props.lib import save, reopen, ALL
from props import fmt
from pykeepass import PyKeePass
from pykeepass.exceptions import HeaderChecksumError
import struct

BOUNDS = ('every version number, every cipher id and key derivation id (16 bytes), every salt up to 64 bytes, seed and IV, a symbolic comment and public custom data up to 4 KiB; '
          '6 orders of header items (thorough: all rotations and their reversals); Argon2 of both versions with 1 to 3 passes; every position of truncation; with and without decrypting')
ASSUMES = ['SHA-2, HMAC, AES, ChaCha20 and Argon2 are ideal functions, the same ones on both sides']
ORDER4 = [(2, 3, 4, 7, 11), (11, 7, 4, 3, 2), (7, 11, 2, 4, 3), (4, 3, 11, 2, 7)]
ORDER3 = [(2, 3, 4, 5, 6, 7, 8, 9, 10), (10, 9, 8, 7, 6, 5, 4, 3, 2), (6, 10, 4, 2, 9, 3, 8, 7, 5)]


def rot(o):
    return [o[i:] + o[:i] for i in range(len(o))] + [(o[i:] + o[:i])[::-1] for i in range(len(o))]


def params(cx, name):
    """key derivation parameters in one of several orders; -> stored form, salt"""
    k = cx.choice('params', [0, 1, 2])
    if name == 'aeskdf':
        salt = cx.blob('salt', lo=32, hi=32)
        items = [fmt.vitem(0x42, b'$UUID', fmt.KDFS[name]), fmt.vitem(5, b'R', struct.pack('<Q', 2)), fmt.vitem(0x42, b'S', salt)]
    else:
        salt = cx.blob('salt', lo=8, hi=64)
        items = [fmt.vitem(0x42, b'$UUID', fmt.KDFS[name]), fmt.vitem(4, b'V', fmt.u32(0x10 if k == 1 else 0x13)), fmt.vitem(0x42, b'S', salt),
                 fmt.vitem(5, b'I', struct.pack('<Q', cx.int('passes', 1, 3))), fmt.vitem(5, b'M', struct.pack('<Q', 2 ** 16)), fmt.vitem(4, b'P', fmt.u32(1))]
    items = [items, items[::-1], items[2:] + items[:2]][k]
    return fmt.variant(items), salt


def four(cx, cipher, name, orders=ORDER4):
    p, salt = params(cx, name)
    iv = cx.blob('iv', lo=12, hi=12) if cipher == 'chacha20' else cx.blob('iv', lo=16, hi=16)
    extra = b''
    if cx.flip('comment'):
        extra = fmt.field4(1, cx.blob('comment data', lo=0, hi=4096)) + fmt.field4(12, cx.blob('public', lo=0, hi=4096))
    h = fmt.header4(cipher, cx.flip('compressed'), cx.blob('seed', lo=32, hi=32), iv, p, order=orders[cx.choice('order', list(range(len(orders))))], extra=extra)
    minor = cx.int('minor', 0, 65535)
    return h[:8] + struct.pack('<H', minor) + h[10:], minor, salt


def three(cx, cipher, orders=ORDER3):
    tseed = cx.blob('salt', lo=32, hi=32)
    iv = cx.blob('iv', lo=12, hi=12) if cipher == 'chacha20' else cx.blob('iv', lo=16, hi=16)
    h = fmt.header3(cipher, cx.flip('compressed'), cx.blob('seed', lo=32, hi=32), tseed, 2, iv, cx.blob('key', lo=32, hi=32), cx.blob('start', lo=32, hi=32),
                    order=orders[cx.choice('order', list(range(len(orders))))], extra=fmt.field3(1, cx.blob('comment', lo=0, hi=4096)) if cx.flip('with comment') else b'')
    minor = cx.int('minor', 0, 65535)
    return h[:8] + struct.pack('<H', minor) + h[10:], minor, tseed


def closed(cx, kp):
    try:
        kp.payload
    except ValueError:
        cx.check(True, 'no content without decrypting')
    else:
        cx.check(False, 'no content without decrypting')


@scenario(cipher=['aes256', 'chacha20', 'twofish'], kdf=['argon2', 'argon2id', 'aeskdf'])
def outer4(cx, cipher, kdf):
    """read without decrypting"""
    h, minor, salt = four(cx, cipher, kdf)
    kp = PyKeePass(cx.bio(h + cx.sha256(h)), decrypt=False)
    cx.check(kp.version == (4, minor), 'version')
    cx.check(kp.encryption_algorithm == cipher, 'cipher')
    cx.check(kp.kdf_algorithm == kdf, 'key derivation')
    cx.check(kp.database_salt == salt, 'salt')
    closed(cx, kp)


@scenario(cipher=['aes256', 'chacha20', 'twofish'], kdf=['argon2', 'argon2id', 'aeskdf'], quick=False)
def outer4_orders(cx, cipher, kdf):
    h, minor, salt = four(cx, cipher, kdf, rot(ORDER4[0]) + rot(ORDER4[2]))
    kp = PyKeePass(cx.bio(h + cx.sha256(h)), decrypt=False)
    cx.check(kp.version == (4, minor), 'version')
    cx.check(kp.encryption_algorithm == cipher, 'cipher')
    cx.check(kp.kdf_algorithm == kdf, 'key derivation')
    cx.check(kp.database_salt == salt, 'salt')


@scenario(cipher=['aes256', 'chacha20', 'twofish'])
def outer3(cx, cipher):
    h, minor, salt = three(cx, cipher)
    kp = PyKeePass(cx.bio(h), decrypt=False)
    cx.check(kp.version == (3, minor), 'version')
    cx.check(kp.encryption_algorithm == cipher, 'cipher')
    cx.check(kp.kdf_algorithm == 'aeskdf', 'key derivation')
    cx.check(kp.database_salt == salt, 'salt')
    closed(cx, kp)


@scenario(cipher=['aes256', 'chacha20', 'twofish'], quick=False)
def outer3_orders(cx, cipher):
    h, minor, salt = three(cx, cipher, rot(ORDER3[0]) + rot(ORDER3[2]))
    kp = PyKeePass(cx.bio(h), decrypt=False)
    cx.check(kp.version == (3, minor), 'version')
    cx.check(kp.encryption_algorithm == cipher, 'cipher')
    cx.check(kp.database_salt == salt, 'salt')


@scenario(base=ALL)
def opened(cx, base):
    """the same with decrypting, and after changing and saving the database"""
    want = {'v3_aes256': 'aes256', 'v3_chacha20': 'chacha20', 'v3_twofish': 'twofish'}
    parts = base.split('_')
    kp = cx.db(base)
    cipher, kdf = parts[1], parts[2] if parts[0] != 'v3' else 'aeskdf'
    version = {'v3': (3, 1), 'v4': (4, 0), 'v41': (4, 1)}[parts[0]]
    salt = kp.database_salt
    kp.add_entry(kp.root_group, 't', 'u', cx.str('p'))
    kp.password = cx.str('pw', lo=1)
    s = save(cx, kp)
    outer = PyKeePass(cx.bio(s.read()), decrypt=False)
    for k, what in ((kp, 'opened'), (outer, 'saved, outer'), (reopen(cx, kp), 'saved')):
        cx.check(k.version == version, what + ': version')
        cx.check(k.encryption_algorithm == cipher, what + ': cipher')
        cx.check(k.kdf_algorithm == kdf, what + ': key derivation')
        cx.check(k.database_salt == salt, what + ': salt')


def refuse(cx, data, what, kinds=Exception, **k):
    try:
        kp = PyKeePass(cx.bio(data), **k)
    except kinds:
        cx.check(True, what)
    else:
        cx.check(False, what)


@scenario(base=[V3, V4], decrypt=[True, False])
def foreign(cx, base, decrypt):
    """other signatures"""
    data = cx.data_bytes(base + '.kdbx')
    sig = cx.bytes('sig', 8)
    cx.assume(sig != fmt.MAGIC)
    refuse(cx, sig + data[8:], 'not a database', HeaderChecksumError, password='pw', decrypt=decrypt)


@scenario(base=[V3, V4], decrypt=[True, False])
def unsupported(cx, base, decrypt):
    """other major versions"""
    data = cx.data_bytes(base + '.kdbx')
    major = cx.int('major', 0, 65535)
    cx.assume(cx.both(major != 3, major != 4))
    refuse(cx, data[:10] + struct.pack('<H', major) + data[12:], 'unsupported version', password='pw', decrypt=decrypt)


@scenario(version=[3, 4])
def unknown_cipher(cx, version):
    c = cx.bytes('cipher', 16)
    for x in fmt.CIPHERS.values():
        cx.assume(c != x)
    h = four(cx, 'aes256', 'argon2', ORDER4[:1])[0] if version == 4 else three(cx, 'aes256', ORDER3[:1])[0]
    n = 5 if version == 4 else 3
    h = h[:12 + n] + c + h[28 + n:]
    refuse(cx, h + cx.sha256(h), 'unknown cipher', decrypt=False)


@scenario()
def unknown_kdf(cx):
    k = cx.bytes('kdf', 16)
    for x in fmt.KDFS.values():
        cx.assume(k != x)
    p = fmt.variant([fmt.vitem(0x42, b'$UUID', k), fmt.vitem(5, b'R', struct.pack('<Q', 2)), fmt.vitem(0x42, b'S', b's' * 32)])
    h = fmt.header4('aes256', True, b'm' * 32, b'i' * 16, p)
    refuse(cx, h + cx.sha256(h), 'unknown key derivation', decrypt=False)


@scenario(base=[V3, V4])
def truncated(cx, base):
    """a file that ends within the header"""
    data = cx.data_bytes(base + '.kdbx')
    n = 12
    while data[n]:
        n += 3 + int.from_bytes(data[n + 1:n + 3], 'little') if base == V3 else 5 + int.from_bytes(data[n + 1:n + 5], 'little')
    n += 7 if base == V3 else 9
    k = cx.choice('k', list(range(n)))
    refuse(cx, data[:k], 'ends within the header', decrypt=False)


@scenario(base=[V4])
def changed_header(cx, base):
    """a header that does not match its hash"""
    h, minor, salt = four(cx, 'aes256', 'argon2', ORDER4[:1])
    g = cx.blob('hash', lo=32, hi=32)
    cx.assume(g != cx.sha256(h))
    refuse(cx, h + g, 'header checksum', HeaderChecksumError, decrypt=False)
