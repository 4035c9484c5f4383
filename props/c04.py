"""Payload framing: any length, any partition into blocks."""
from sx.api import scenario, V3, V4, V41
from props.lib import ALL, txt, save
from pykeepass import PyKeePass
import struct
from Cryptodome.Cipher import ChaCha20

BOUNDS = 'payloads of up to 3 blocks and of 18 blocks of 1 MiB (thorough: 5), every length; on reading, up to 4 blocks of any size, 20 and 300 blocks of 1 or 3 bytes'
ASSUMES = ['hashes, HMAC and ciphers are ideal', 'document and compressed stream are opaque strings of any length in the bound']
MB = 2 ** 20


def header_end(data):
    major = data[10]
    i = 12
    while True:
        t = data[i]
        if major == 3:
            n = struct.unpack('<H', data[i + 1:i + 3])[0]
            i += 3 + n
        else:
            n = struct.unpack('<I', data[i + 1:i + 5])[0]
            i += 5 + n
        if t == 0:
            return i


def le4(cx, b):
    """little endian number of four bytes"""
    return int.from_bytes(b, 'little')


def hmac_key(cx, seed, tk, index):
    return cx.sha512(index.to_bytes(8, 'little') + cx.sha512(seed + tk + b'\x01'))


def check4(cx, base, kp, out):
    """walk a KDBX4 file by the published format; -> encrypted payload, number of data blocks"""
    h = header_end(cx.data_bytes(base + '.kdbx'))
    head = out[:h]
    seed, tk = kp.kdbx.header.value.dynamic_header.master_seed.data, kp.transformed_key
    cx.check(out[h:h + 32] == cx.sha256(head), 'header hash')
    cx.check(out[h + 32:h + 64] == cx.hmac256(hmac_key(cx, seed, tk, 2 ** 64 - 1), head), 'header HMAC')
    p, i, parts = h + 64, 0, []
    while True:
        mac, ln = out[p:p + 32], out[p + 32:p + 36]
        cx.check(len(ln) == 4, 'block header complete')
        n = le4(cx, ln)
        data = out[p + 36:p + 36 + n]
        cx.check(len(data) == n, 'block data complete')
        cx.check(mac == cx.hmac256(hmac_key(cx, seed, tk, i), struct.pack('<Q', i) + ln + data), 'block HMAC')
        p = p + 36 + n
        if n == 0:
            break
        cx.check(n <= MB, 'block size')
        parts.append(data)
        i += 1
    cx.check(p == len(out), 'nothing after the last block')
    return parts


@scenario(base=['v4_chacha20_argon2_raw', 'v4_aes256_argon2_raw', V4], size=[1, 2, 3, 5, 18],
          quick=lambda base, size: size <= 3 or size == 18 and base == 'v4_chacha20_argon2_raw')
def write4(cx, base, size):
    kp = cx.db(base)
    cx.unlimit(size * MB if base.endswith('gz') else 2 ** 30)
    lo = (size - 1) * MB if size > 1 else 0
    a = cx.blob('a', lo=lo, hi=size * MB)
    kp.add_binary(a)
    out = save(cx, kp).getvalue()
    parts = check4(cx, base, kp, out)
    if kp.encryption_algorithm != 'chacha20':
        n = 0
        for x in parts:
            n = n + len(x)
        cx.check(n % 16 == 0, 'whole cipher blocks')
    kp2 = PyKeePass(cx.bio(out), password='pw')
    cx.check(cx.tree_eq(kp.tree, kp2.tree), 'document')
    cx.check(kp2.binaries[0] == a, 'attachment')


def cipher3(kp):
    h = kp.kdbx.header.value.dynamic_header
    return ChaCha20.new(key=kp.kdbx.body.master_key, nonce=h.encryption_iv.data)


def check3(cx, base, kp, out):
    """walk a KDBX3 file by the published format"""
    h = header_end(cx.data_bytes(base + '.kdbx'))
    plain = cipher3(kp).decrypt(out[h:])
    cx.check(plain[:32] == kp.kdbx.header.value.dynamic_header.stream_start_bytes.data, 'start bytes')
    p, i = 32, 0
    while True:
        cx.check(int.from_bytes(plain[p:p + 4], 'little') == i, 'block index')
        digest, n = plain[p + 4:p + 36], int.from_bytes(plain[p + 36:p + 40], 'little')
        data = plain[p + 40:p + 40 + n]
        cx.check(len(data) == n, 'block data complete')
        p = p + 40 + n
        i += 1
        if n == 0:
            cx.check(digest == b'\0' * 32, 'hash of the last block')
            break
        cx.check(n <= MB, 'block size')
        cx.check(digest == cx.sha256(data), 'block hash')
    cx.check(p == len(plain), 'nothing after the last block')


@scenario(base=['v3_chacha20_raw', 'v3_chacha20_gz'], n=[1, 2, 3, 4], quick=lambda base, n: n <= 3)
def read3(cx, base, n):
    """blocks of other sizes, as other programs write them"""
    kp = cx.db(base)
    p = cx.str('p', lo=1)
    kp.add_entry(kp.root_group, 't', 'u', p)
    out = save(cx, kp).getvalue()
    h = header_end(cx.data_bytes(base + '.kdbx'))
    plain = cipher3(kp).decrypt(out[h:])
    payload = plain[72:len(plain) - 40]
    new, at, L = plain[:32], 0, len(payload)
    for i in range(n):
        if i == n - 1:
            part = payload[at:]
            cx.assume(len(part) > 0)
        else:
            k = cx.int('k%d' % i, 1, 2 ** 20)
            cx.assume(at + k < L)
            part = payload[at:at + k]
            at = at + k
        new = new + struct.pack('<I', i) + cx.sha256(part) + struct.pack('<I', len(part)) + part
    new = new + struct.pack('<I', n) + b'\0' * 36
    kp2 = PyKeePass(cx.bio(out[:h] + cipher3(kp).encrypt(new)), password='pw')
    cx.check(cx.tree_eq(kp.tree, kp2.tree), 'document')


@scenario(base=['v4_chacha20_argon2_raw'], n=[20, 300])
def long4(cx, base, n):
    """many small blocks"""
    kp = cx.db(base)
    kp.add_entry(kp.root_group, 't', 'u', cx.str('p', lo=1, hi=64))
    out = save(cx, kp).getvalue()
    h = header_end(cx.data_bytes(base + '.kdbx'))
    payload = out[h + 64 + 36:len(out) - 36]
    seed, tk = kp.kdbx.header.value.dynamic_header.master_seed.data, kp.transformed_key
    new, at = out[:h + 64], 0
    k = cx.choice('k', [1, 3])
    for i in range(n):
        part = payload[at:] if i == n - 1 else payload[at:at + k]
        at += k
        ln = len(part).to_bytes(4, 'little')
        new = new + cx.hmac256(hmac_key(cx, seed, tk, i), struct.pack('<Q', i) + ln + part) + ln + part
    new = new + cx.hmac256(hmac_key(cx, seed, tk, n), struct.pack('<Q', n) + b'\0\0\0\0') + b'\0\0\0\0'
    kp2 = PyKeePass(cx.bio(new), password='pw')
    cx.check(cx.tree_eq(kp.tree, kp2.tree), 'document')


@scenario(base=['v3_chacha20_raw'], n=[20, 300])
def long3(cx, base, n):
    kp = cx.db(base)
    kp.add_entry(kp.root_group, 't', 'u', cx.str('p', lo=1, hi=64))
    out = save(cx, kp).getvalue()
    h = header_end(cx.data_bytes(base + '.kdbx'))
    plain = cipher3(kp).decrypt(out[h:])
    payload = plain[72:len(plain) - 40]
    new, at = plain[:32], 0
    k = cx.choice('k', [1, 3])
    for i in range(n):
        part = payload[at:] if i == n - 1 else payload[at:at + k]
        at += k
        new = new + struct.pack('<I', i) + cx.sha256(part) + struct.pack('<I', len(part)) + part
    new = new + struct.pack('<I', n) + b'\0' * 36
    kp2 = PyKeePass(cx.bio(out[:h] + cipher3(kp).encrypt(new)), password='pw')
    cx.check(cx.tree_eq(kp.tree, kp2.tree), 'document')


@scenario(base=['v3_chacha20_raw', 'v3_aes256_raw'], size=[1, 2, 3, 5, 18], quick=lambda base, size: size <= 3 or size == 18 and base == 'v3_chacha20_raw')
def write3(cx, base, size):
    kp = cx.db(base)
    cx.unlimit(size * MB if base.endswith('gz') else 2 ** 30)
    lo = (size - 1) * MB if size > 1 else 0
    a = cx.blob('a', lo=lo * 3 // 4, hi=size * MB * 3 // 4)
    kp.add_binary(a, compressed=False)
    s = save(cx, kp)
    if 'chacha20' in base:
        check3(cx, base, kp, s.getvalue())
    kp2 = PyKeePass(s, password='pw')
    cx.check(cx.tree_eq(kp.tree, kp2.tree), 'document')
    cx.check(kp2.binaries[0] == a, 'attachment')


@scenario(base=['v4_chacha20_argon2_raw', 'v4_aes256_argon2_raw'], n=[1, 2, 3, 4], quick=lambda base, n: n <= 3)
def read4(cx, base, n):
    """blocks of other sizes, as other programs write them"""
    kp = cx.db(base)
    p = cx.str('p', lo=1)
    kp.add_entry(kp.root_group, 't', 'u', p)
    out = save(cx, kp).getvalue()
    h = header_end(cx.data_bytes(base + '.kdbx'))
    payload = out[h + 64 + 36:len(out) - 36]
    seed, tk = kp.kdbx.header.value.dynamic_header.master_seed.data, kp.transformed_key
    L = len(payload)
    new, at = out[:h + 64], 0
    for i in range(n):
        if i == n - 1:
            part = payload[at:]
            cx.assume(len(part) > 0)
        else:
            k = cx.int('k%d' % i, 1, 2 ** 20)
            cx.assume(at + k < L)
            part = payload[at:at + k]
            at = at + k
        ln = len(part).to_bytes(4, 'little')
        new = new + cx.hmac256(hmac_key(cx, seed, tk, i), struct.pack('<Q', i) + ln + part) + ln + part
    new = new + cx.hmac256(hmac_key(cx, seed, tk, n), struct.pack('<Q', n) + b'\0\0\0\0') + b'\0\0\0\0'
    kp2 = PyKeePass(cx.bio(new), password='pw')
    cx.check(cx.tree_eq(kp.tree, kp2.tree), 'document')
