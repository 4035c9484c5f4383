"""The KDBX format, written from its publication (keepass.info/help/kb/kdbx.html), not from the code under test."""
import struct, zlib
from Cryptodome.Cipher import AES, ChaCha20

CIPHERS = {'aes256': bytes.fromhex('31c1f2e6bf714350be5805216afc5aff'), 'chacha20': bytes.fromhex('d6038a2b8b6f4cb5a524339a31dbb59a'),
           'twofish': bytes.fromhex('ad68f29f576f4bb9a36ad47af965346c')}
KDFS = {'argon2': bytes.fromhex('ef636ddf8c29444b91f7a9a403e30a0c'), 'argon2id': bytes.fromhex('9e298b1956db4773b23dfc3ec6f0a1e6'),
        'aeskdf': bytes.fromhex('c9d9f39a628a4460bf740d08c18a4fea')}
MAGIC = bytes.fromhex('03d9a29a67fb4bb5')
END = b'\r\n\r\n'


def u32(n):
    return struct.pack('<I', n)


def vitem(t, key, value):
    return bytes([t]) + u32(len(key)) + key + u32(len(value)) + value


def variant(items):
    return b'\x00\x01' + b''.join(items) + b'\0'


def field4(t, data):
    return bytes([t]) + u32(len(data)) + data


def field3(t, data):
    return bytes([t]) + struct.pack('<H', len(data)) + data


def header4(cipher, comp, seed, iv, kdf, minor=0, order=(2, 3, 4, 7, 11), extra=b''):
    f = {2: CIPHERS[cipher], 3: u32(1 if comp else 0), 4: seed, 7: iv, 11: kdf}
    return MAGIC + struct.pack('<HH', minor, 4) + b''.join([field4(t, f[t]) for t in order]) + extra + field4(0, END)


def header3(cipher, comp, seed, tseed, rounds, iv, pkey, start, stream=2, order=(2, 3, 4, 5, 6, 7, 8, 9, 10), extra=b''):
    f = {2: CIPHERS[cipher], 3: u32(1 if comp else 0), 4: seed, 5: tseed, 6: struct.pack('<Q', rounds), 7: iv, 8: pkey, 9: start, 10: u32(stream)}
    return MAGIC + struct.pack('<HH', 1, 3) + b''.join([field3(t, f[t]) for t in order]) + extra + field3(0, END)


def pad(data):
    n = 16 - len(data) % 16
    return data + bytes([n]) * n if isinstance(n, int) else data + n.to_bytes(1, 'little') * n


def encrypt(cipher, key, iv, data):
    if cipher == 'chacha20':
        return ChaCha20.new(key=key, nonce=iv).encrypt(data)
    from Cryptodome.Util import Padding
    data = Padding.pad(data, 16)
    if cipher == 'aes256':
        return AES.new(key, AES.MODE_CBC, iv).encrypt(data)
    from pykeepass.kdbx_parsing.twofish import Twofish
    return Twofish.new(key, mode=Twofish.MODE_CBC, IV=iv).encrypt(data)


def decrypt(cipher, key, iv, data):
    if cipher == 'chacha20':
        return ChaCha20.new(key=key, nonce=iv).decrypt(data)
    from Cryptodome.Util import Padding
    if cipher == 'aes256':
        return Padding.unpad(AES.new(key, AES.MODE_CBC, iv).decrypt(data), 16)
    from pykeepass.kdbx_parsing.twofish import Twofish
    return Padding.unpad(Twofish.new(key, mode=Twofish.MODE_CBC, IV=iv).decrypt(data), 16)


def gz(data):
    c = zlib.compressobj(6, zlib.DEFLATED, 31)
    return c.compress(data) + c.flush()


def ungz(data):
    return zlib.decompress(data, 31)


def aes_kdf(cx, seed, rounds, composite):
    k = composite
    c = AES.new(seed, AES.MODE_ECB)
    for i in range(rounds):
        k = c.encrypt(k)
    return cx.sha256(k)


def composite(cx, password):
    return cx.sha256(cx.sha256(password.encode('utf-8')))


def hkey(cx, seed, tk, index):
    return cx.sha512(index + cx.sha512(seed + tk + b'\x01'))


def body4(cx, header, seed, tk, payload):
    """hashes and one payload block, then the empty one"""
    out = cx.sha256(header) + cx.hmac256(hkey(cx, seed, tk, b'\xff' * 8), header)
    for i, part in enumerate([payload, b'']):
        n = struct.pack('<Q', i)
        out = out + cx.hmac256(hkey(cx, seed, tk, n), n + u32(len(part)) + part) + u32(len(part)) + part
    return out


def inner4(stream, key, binaries=()):
    return field4(1, u32(stream)) + field4(2, key) + b''.join([field4(3, b) for b in binaries]) + field4(0, b'')


def blocks3(cx, data):
    return u32(0) + cx.sha256(data) + u32(len(data)) + data + u32(1) + b'\0' * 36
