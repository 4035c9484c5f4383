"""Block chaining and padding are exact and reversible."""
import struct
from sx.api import scenario
from props.tf import Spec
from props import fmt
from props.lib import save
from Cryptodome.Cipher import AES
from pykeepass import PyKeePass
from pykeepass.kdbx_parsing.twofish import Twofish

BOUNDS = ('every key of 128, 192 and 256 bits, every IV and every data of up to 3 blocks at once; under one key every data of up to 12 blocks (thorough: 80), and up to 2 blocks (thorough: 3) in every split into '
          '2 pieces and in splits into 3; padding of every payload with an attachment of 0 to 64 KiB')
ASSUMES = ['Twofish blocks as specified (decided by C07; here the code and the specification are both executed again)',
           'AES is an ideal cipher in the padding scenarios']
QUERY_MS = 5000
KEY = bytes(range(7, 7 + 32))


def cbc(s, iv, data, de=False):
    """the definition: C[i] = E(P[i] xor C[i-1])"""
    out = []
    prev = [iv[j] for j in range(16)]
    for i in range(len(data) // 16):
        p = [data[16 * i + j] for j in range(16)]
        if de:
            b = s.decrypt(p)
            out += [b[j] ^ prev[j] for j in range(16)]
            prev = p
        else:
            prev = s.encrypt([p[j] ^ prev[j] for j in range(16)])
            out += prev
    return out


def same(cx, got, want, what):
    cx.check(len(got) == len(want), what + ': length')
    cx.check(cx.both(True, *[got[i] == want[i] for i in range(len(want))]), what)


@scenario(size=[32, 24, 16], n=[1, 2, 3], de=[False, True], quick=lambda size, n, de: size == 32 and n == 2 or n == 1)
def chained(cx, size, n, de):
    cx.words()
    key, iv, data = cx.bytes('key', size), cx.bytes('iv', 16), cx.bytes('data', 16 * n)
    c = Twofish.new(key, mode=Twofish.MODE_CBC, IV=iv)
    same(cx, c.decrypt(data) if de else c.encrypt(data), cbc(Spec(key), iv, data, de), 'chaining as defined')


@scenario(size=[32, 24, 16], n=[1, 2, 3], quick=lambda size, n: size == 32 and n == 2)
def inverse(cx, size, n):
    cx.words()
    key, iv, data = cx.bytes('key', size), cx.bytes('iv', 16), cx.bytes('data', 16 * n)
    enc = Twofish.new(key, mode=Twofish.MODE_CBC, IV=iv).encrypt(data)
    same(cx, Twofish.new(key, mode=Twofish.MODE_CBC, IV=iv).decrypt(enc), data, 'decryption inverts encryption')


@scenario(n=[12, 80], de=[False, True], quick=lambda n, de: n == 12)
def long(cx, n, de):
    cx.words()
    iv, data = cx.bytes('iv', 16), cx.bytes('data', 16 * n)
    c = Twofish.new(KEY, mode=Twofish.MODE_CBC, IV=iv)
    same(cx, c.decrypt(data) if de else c.encrypt(data), cbc(Spec(KEY), iv, data, de), 'chaining as defined')


@scenario(n=[2, 3], de=[False, True], quick=lambda n, de: n == 2)
def pieces(cx, n, de):
    """data in two pieces gives what it gives at once"""
    cx.words()
    iv, data = cx.bytes('iv', 16), cx.bytes('data', 16 * n)
    cut = cx.choice('cut', range(16 * n + 1))
    c = Twofish.new(KEY, mode=Twofish.MODE_CBC, IV=iv)
    f = c.decrypt if de else c.encrypt
    same(cx, f(data[:cut]) + f(data[cut:]), cbc(Spec(KEY), iv, data, de), 'two pieces')


@scenario(de=[False, True])
def three_pieces(cx, de):
    cx.words()
    iv, data = cx.bytes('iv', 16), cx.bytes('data', 48)
    a = cx.choice('a', [0, 1, 15, 16, 17, 31])
    b = cx.choice('b', [1, 15, 16, 17])
    c = Twofish.new(KEY, mode=Twofish.MODE_CBC, IV=iv)
    f = c.decrypt if de else c.encrypt
    same(cx, f(data[:a]) + f(data[a:a + b]) + f(data[a + b:]), cbc(Spec(KEY), iv, data, de), 'three pieces')


@scenario(de=[False, True])
def partial(cx, de):
    """only whole blocks come out; the rest waits"""
    cx.words()
    iv, data = cx.bytes('iv', 16), cx.bytes('data', 40)
    n = cx.choice('n', range(41))
    c = Twofish.new(KEY, mode=Twofish.MODE_CBC, IV=iv)
    same(cx, (c.decrypt if de else c.encrypt)(data[:n]), cbc(Spec(KEY), iv, data[:n - n % 16], de), 'whole blocks')


def raw(cipher, key, iv, data):
    if cipher == 'aes256':
        return AES.new(key, AES.MODE_CBC, iv).decrypt(data)
    return Twofish.new(key, mode=Twofish.MODE_CBC, IV=iv).decrypt(data)


def padded(cx, data):
    """PKCS #7 -> the content"""
    n = len(data)
    cx.check(n % 16 == 0, 'whole blocks')
    p = data[n - 1]
    cx.check(cx.both(p >= 1, p <= 16), 'padding length')
    for k in range(1, 17):
        if p == k:
            cx.check(data[n - k:] == bytes([k]) * k, 'padding bytes')
            return data[:n - k]
    cx.assume(False)


@scenario(cipher=['aes256', 'twofish'])
def padding4(cx, cipher):
    kp = cx.db('v4_%s_argon2_raw' % cipher)
    cx.unlimit(2 ** 19)
    b = cx.blob('b', hi=2 ** 16)
    kp.add_binary(b)
    out = save(cx, kp).getvalue()
    hd = kp.kdbx.header.value.dynamic_header
    h = len(kp.kdbx.header.data)
    n = int.from_bytes(out[h + 96:h + 100], 'little')
    data = raw(cipher, cx.sha256(hd.master_seed.data + kp.transformed_key), hd.encryption_iv.data, out[h + 100:h + 100 + n])
    plain = padded(cx, data)
    cx.check(plain[len(plain) - 14:].rstrip() == b'</KeePassFile>'[-len(plain[len(plain) - 14:].rstrip()):], 'the document ends before the padding')
    again = PyKeePass(cx.bio(out), password='pw')
    cx.check(again.binaries[0] == b, 'content after reading')
    cx.check(cx.tree_eq(again.tree, kp.tree), 'document after reading')


@scenario(cipher=['aes256', 'twofish'])
def padding3(cx, cipher):
    kp = cx.db('v3_%s_raw' % cipher)
    cx.unlimit(2 ** 19)
    t = cx.str('t', lo=1)
    kp.add_group(kp.root_group, t)
    out = save(cx, kp).getvalue()
    hd = kp.kdbx.header.value.dynamic_header
    data = raw(cipher, cx.sha256(hd.master_seed.data + kp.transformed_key), hd.encryption_iv.data, out[len(kp.kdbx.header.data):])
    plain = padded(cx, data)
    n = int.from_bytes(plain[68:72], 'little')
    cx.check(len(plain) == 32 + 40 + n + 40, 'the last block ends before the padding')
    again = PyKeePass(cx.bio(out), password='pw')
    cx.check(cx.tree_eq(again.tree, kp.tree), 'document after reading')
