"""Composite key: how password and key file combine."""
from sx.api import scenario, V3, V4
from props.lib import save
from pykeepass import PyKeePass
from pykeepass.kdbx_parsing.common import compute_key_composite
import base64
import pathlib
from lxml import etree
from lxml.builder import E

BOUNDS = ('passwords of any length; key files: any bytes of any length up to 16 MiB, every 32-byte and every 64-byte file, XML key files of '
          'versions 1.0 and 2.0 with every key of up to 64 bytes, checksums of up to 8 bytes')


class Pipe:
    """a stream that can only be read"""
    def __init__(self, s):
        self.s = s

    def read(self, n=-1):
        return self.s.read(n)

    def seekable(self):
        return False

    def seek(self, *a):
        raise OSError('not seekable')


class Reader:
    """an object with nothing but read()"""
    def __init__(self, s):
        self.read = s.read


def source(cx, data, how):
    if how == 'path':
        cx.put('k', data)
        return cx.path('k')
    if how == 'pathlib':
        from pathlib import Path
        cx.put('k', data)
        return Path(cx.path('k'))
    s = cx.bio(data)
    if how == 'used stream':
        s.read(5)
    elif how == 'pipe':
        return Pipe(s)
    elif how == 'reader':
        return Reader(s)
    return s


HOWS = ['path', 'stream', 'used stream', 'pathlib', 'pipe', 'reader']


def expect(cx, p, key):
    return cx.sha256((cx.sha256(p.encode('utf-8')) if p is not None else b'') + key)


@scenario()
def password_only(cx):
    p = cx.str('p', valid=False)
    cx.check(compute_key_composite(password=p) == cx.sha256(cx.sha256(p.encode('utf-8'))), 'password')
    cx.check(compute_key_composite(p, None) == cx.sha256(cx.sha256(p.encode('utf-8'))), 'password, key file None')
    cx.check(compute_key_composite(None, None) == cx.sha256(b''), 'neither')
    cx.check(compute_key_composite() == cx.sha256(b''), 'nothing given')


@scenario(how=HOWS)
def raw(cx, how):
    """any other file is hashed"""
    p = cx.str('p', valid=False) if cx.flip('with password') else None
    k = cx.blob('k')
    cx.assume(len(k) != 32)
    cx.assume(len(k) != 64)
    kf = source(cx, k, how)
    cx.check(compute_key_composite(p, kf) == expect(cx, p, cx.sha256(k)), 'hashed key file')


@scenario(how=HOWS)
def raw32(cx, how):
    """32 bytes are the key"""
    p = cx.str('p', valid=False) if cx.flip('with password') else None
    k = cx.bytes('k', 32)
    kf = source(cx, k, how)
    cx.check(compute_key_composite(p, kf) == expect(cx, p, k), '32-byte key')


def isx(cx, b):
    return cx.either(cx.both(b >= 48, b <= 57), cx.both(b >= 65, b <= 70), cx.both(b >= 97, b <= 102))


def value(cx, b):
    return cx.ite(b <= 57, b & 15, (b & 15) + 9)


@scenario(how=['path', 'stream'])
def hex64(cx, how):
    """64 hexadecimal digits are the key in text form, in either case"""
    p = 'pass' if cx.flip('with password') else None
    text = cx.bytes('text', 64)
    for i in range(64):
        cx.assume(isx(cx, text[i]))
    key = b''.join([(((value(cx, text[2 * i]) & 15) << 4) | (value(cx, text[2 * i + 1]) & 15)).to_bytes(1, 'little') for i in range(32)])
    kf = source(cx, text, how)
    cx.check(compute_key_composite(p, kf) == expect(cx, p, key), 'hexadecimal key')


@scenario(pos=[0, 1, 2, 31, 32, 33, 62, 63])
def hex64_not(cx, pos):
    """64 bytes with one that is no hexadecimal digit: hashed"""
    b = cx.bytes('b', 1)
    cx.assume(cx.neg(isx(cx, b[0])))
    data = b'5' * pos + b + b'a' * (63 - pos)
    cx.check(compute_key_composite(None, cx.bio(data)) == cx.sha256(cx.sha256(data)), 'not hexadecimal: hashed')


@scenario()
def hex64_digit(cx):
    b = cx.bytes('b', 1)
    cx.assume(isx(cx, b[0]))
    data = b'0' * 20 + b + b'F' * 43
    v = cx.ite(b[0] <= 57, b[0] - 48, cx.ite(b[0] <= 70, b[0] - 55, b[0] - 87))
    key = b'\0' * 10 + (v * 16 + 15).to_bytes(1, 'little') + b'\xff' * 21
    cx.check(compute_key_composite(None, cx.bio(data)) == cx.sha256(key), 'hexadecimal digit')


X1 = b'<?xml version="1.0" encoding="utf-8"?>\n<KeyFile><Meta><Version>1.00</Version></Meta><Key><Data>%s</Data></Key></KeyFile>'
X2 = b'<?xml version="1.0" encoding="utf-8"?>\n<KeyFile>\n<Meta>\n<Version>2.0</Version>\n</Meta>\n<Key>\n<Data Hash="%s">\n%s\n</Data>\n</Key>\n</KeyFile>\n'


@scenario(n=[2, 30, 34, 62, 63, 65, 66, 72, 128])
def hex_other(cx, n):
    """any other number of hexadecimal digits is a file like any other: hashed"""
    p = cx.str('p')
    text = b'0123456789abcdefABCDEF' * 6
    a = cx.choice('a', [0, 9, 15])
    text = text[a:a + n]
    k = source(cx, text, cx.choice('how', ['path', 'stream']))
    cx.check(compute_key_composite(password=p, keyfile=k) == expect(cx, p, cx.sha256(text)), 'composite key')


@scenario()
def again(cx):
    """each time the key file is read as it is then"""
    p = cx.str('p')
    a, b = cx.blob('a', lo=1), cx.blob('b', lo=1)
    for x in (a, b):
        cx.assume(len(x) != 32)
        cx.assume(len(x) != 64)
    lib = cx.flip('pathlib')
    for x in (a, b, a):
        cx.put('kf', x)
        k = pathlib.Path(cx.path('kf')) if lib else cx.path('kf')
        cx.check(compute_key_composite(p, k) == expect(cx, p, cx.sha256(x)), 'hashed key file')
    cx.check(compute_key_composite(p) == cx.sha256(cx.sha256(p.encode('utf-8'))), 'password alone')


@scenario(how=HOWS)
def xml1(cx, how):
    p = 'pass' if cx.flip('with password') else None
    v = cx.choice('v', [0, 1, 2, 3])
    key = [bytes(range(32)), b'\xff' * 32, b'\0' * 32, bytes(range(200, 232))][v]
    kf = source(cx, X1 % base64.b64encode(key), how)
    cx.check(compute_key_composite(p, kf) == expect(cx, p, key), 'version 1 key file')


@scenario(how=HOWS)
def xml2(cx, how):
    p = 'pass' if cx.flip('with password') else None
    v = cx.choice('v', [0, 1, 2, 3])
    key = [bytes(range(32)), b'\xff' * 32, b'\0' * 32, bytes(range(200, 232))][v]
    h = key.hex().upper()
    form = cx.choice('form', ['plain', 'groups', 'lower'])
    if form == 'groups':
        h = '\n'.join(' '.join(h[i + j:i + j + 8] for j in range(0, 32, 8)) for i in (0, 32))
    elif form == 'lower':
        h = h.lower()
    kf = source(cx, X2 % (cx.sha256(key)[:4].hex().upper().encode(), h.encode()), how)
    cx.check(compute_key_composite(p, kf) == expect(cx, p, key), 'version 2 key file')


@scenario(how=['path', 'stream', 'used stream'], version=['1.00', '1.0'])
def xml1_any(cx, how, version):
    """version 1, every key of every length"""
    p = cx.str('p', valid=False) if cx.flip('with password') else None
    key = cx.blob('key', lo=1, hi=64)
    doc = etree.tostring(E.KeyFile(E.Meta(E.Version(version)), E.Key(E.Data(base64.b64encode(key).decode()))))
    cx.check(compute_key_composite(p, source(cx, doc, how)) == expect(cx, p, key), 'version 1 key file, any key')


@scenario(how=['path', 'stream'], version=['2.0', '2.00'])
def xml2_any(cx, how, version):
    """version 2, every key, with the right checksum and with any other"""
    p = cx.str('p', valid=False) if cx.flip('with password') else None
    key = cx.blob('key', lo=1, hi=64)
    right = cx.flip('right')
    h = cx.sha256(key)[:4]
    if not right:
        w = cx.blob('w', lo=0, hi=8)
        cx.assume(w != h)
        h = w
    doc = etree.tostring(E.KeyFile(E.Meta(E.Version(version)), E.Key(E.Data(key.hex(), Hash=h.hex()))))
    try:
        c = compute_key_composite(p, source(cx, doc, how))
    except Exception:
        cx.check(not right, 'version 2 key file refused only for its checksum')
        return
    cx.check(right, 'version 2 key file with a wrong checksum refused')
    cx.check(c == expect(cx, p, key), 'version 2 key file, any key')


@scenario()
def xml2_bad_hash(cx):
    """a version 2 key file whose checksum does not match is refused"""
    key = bytes(range(32))
    h = cx.sha256(key)[:4].hex().upper()
    i = cx.choice('i', list(range(8)))
    d = cx.choice('d', list('0123456789ABCDEF'))
    if d == h[i]:
        cx.assume(False)
    h = h[:i] + d + h[i + 1:]
    try:
        compute_key_composite(None, cx.bio(X2 % (h.encode(), key.hex().upper().encode())))
    except Exception:
        cx.check(True, 'checksum of a version 2 key file')
        return
    cx.check(False, 'checksum of a version 2 key file')


@scenario(base=[V3, V4])
def used(cx, base):
    """the database key comes from this composite key"""
    p = cx.str('p', valid=False)
    k = cx.bytes('k', 32)
    cx.put('k', k)
    kp = cx.db(base)
    kp.password, kp.keyfile = p, cx.path('k')
    s = save(cx, kp)
    # the same key, written as hexadecimal text
    cx.put('k2', k.hex().encode())
    kp2 = PyKeePass(s, password=p, keyfile=cx.path('k2'))
    cx.check(cx.tree_eq(kp.tree, kp2.tree), 'equivalent key file opens')
