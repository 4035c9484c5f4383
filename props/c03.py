"""A changed file never opens with other content."""
from sx.api import scenario, V3, V4, V41
from props.lib import ALL, txt, save
from pykeepass import PyKeePass
import struct

BOUNDS = ('one byte at any position of the file replaced by any other value; any truncation; any suffix; any replacement of the payload; '
          'removal, repetition and exchange of payload blocks (up to 3 blocks); not the cost parameters of the key derivation, whose '
          'change only makes opening slow or fail, nor the KDBX3 header, which the format does not authenticate beyond the payload')
ASSUMES = ['hashes, HMAC and ciphers are ideal: a changed input gives an unrelated output']
QUICK_S = 100

V3S, V4S = 'v3_chacha20_gz', 'v4_aes256_argon2_gz'


def header_end(data):
    """offset of the first byte after the outer header"""
    major = data[10]
    i = 12
    while True:
        t = data[i]
        if major == 3:
            n = struct.unpack('<H', data[i + 1:i + 3])[0]
            i += 3 + n
        else:
            n = struct.unpack('<I', data[i + 1:i + 5])[0]
            i += 5 + n
        if t == 0:
            return i


def costly(data):
    """positions of key derivation parameters that set its cost, and of the lengths and names that would shift them"""
    i, out = 12, set()
    end = header_end(data)
    while i < end:
        t = data[i]
        n = struct.unpack('<I', data[i + 1:i + 5])[0]
        if t == 11:
            out = set(range(i, i + 5 + n))
        i += 5 + n
    return out


def other(cx, src, same, label):
    """whatever is shown after opening must be what was saved"""
    try:
        kp = PyKeePass(src, password='pw')
        tree, bins = kp.tree, kp.binaries
    except Exception as e:
        cx.check(True, label)
        return
    cx.check(cx.tree_eq(tree, same.tree), label)
    cx.check(bins == same.binaries, label + ' (binaries)')


def rejected(cx, src, label):
    try:
        kp = PyKeePass(src, password='pw')
        kp.tree
    except Exception as e:
        cx.check(True, label)
        return
    cx.check(False, label)


def place(cx, lo, hi):
    """every position of [lo, hi)"""
    n = (hi - lo + 31) // 32
    a = cx.choice('area', list(range(n)))
    b = cx.choice('at', list(range(32)))
    i = lo + a * 32 + b
    if i >= hi:
        cx.assume(False)
    return i


@scenario(base=[V4, V4S, V41, 'v4_twofish_aeskdf_gz'], quick=lambda base: base != V41)
def byte4(cx, base):
    """KDBX4: any one byte of header, hashes or payload"""
    same = cx.db(base)
    data = cx.data_bytes(base + '.kdbx')
    i = place(cx, 0, len(data))
    if i in costly(data):
        cx.assume(False)
    b = cx.bytes('b', 1)
    cx.assume(b[0] != data[i])
    src = cx.bio(data[:i] + b + data[i + 1:])
    if i >= 12:
        rejected(cx, src, 'changed byte noticed')
    else:
        other(cx, src, same, 'changed signature or version')


@scenario(base=[V4])
def kdf4(cx, base):
    """KDBX4: the key derivation parameters, except for their cost"""
    same = cx.db(base)
    data = cx.data_bytes(base + '.kdbx')
    salt = same.database_salt
    i = data.index(salt) + cx.choice('at', list(range(32)))
    b = cx.bytes('b', 1)
    cx.assume(b[0] != data[i])
    rejected(cx, cx.bio(data[:i] + b + data[i + 1:]), 'changed salt noticed')


@scenario(base=[V3, 'v3_twofish_gz'], quick=lambda base: base == V3)
def block3(cx, base):
    """KDBX3 with a block cipher: one byte in each block of the payload"""
    same = cx.db(base)
    data = cx.data_bytes(base + '.kdbx')
    h = header_end(data)
    k = cx.choice('block', list(range((len(data) - h) // 16)))
    i = h + 16 * k + (k * 7) % 16
    b = cx.bytes('b', 1)
    cx.assume(b[0] != data[i])
    other(cx, cx.bio(data[:i] + b + data[i + 1:]), same, 'changed payload byte never changes the content')


@scenario(base=[V3S, V3, 'v3_twofish_gz'], quick=lambda base: base == V3S)
def byte3(cx, base):
    """KDBX3: any one byte of the payload"""
    same = cx.db(base)
    data = cx.data_bytes(base + '.kdbx')
    i = place(cx, header_end(data), len(data))
    b = cx.bytes('b', 1)
    cx.assume(b[0] != data[i])
    src = cx.bio(data[:i] + b + data[i + 1:])
    other(cx, src, same, 'changed payload byte never changes the content')


@scenario(base=[V3, V4, V3S, V4S])
def cut(cx, base):
    """any truncation"""
    same = cx.db(base)
    data = cx.data_bytes(base + '.kdbx')
    n = place(cx, 0, len(data))
    if base.startswith('v4'):
        rejected(cx, cx.bio(data[:n]), 'truncation noticed')
    else:
        other(cx, cx.bio(data[:n]), same, 'truncated file never shows other content')


@scenario(base=[V3, V4, V3S, V4S])
def suffix(cx, base):
    same = cx.db(base)
    data = cx.data_bytes(base + '.kdbx')
    x = cx.blob('x', lo=1, hi=4096)
    other(cx, cx.bio(data + x), same, 'suffix changes nothing')


@scenario(base=[V4, V4S, 'v4_twofish_aeskdf_raw'])
def replaced(cx, base):
    """the part after the header replaced by anything"""
    same = cx.db(base)
    data = cx.data_bytes(base + '.kdbx')
    h = header_end(data)
    what = cx.choice('what', ['all', 'sha', 'hmac', 'first hmac', 'length', 'payload', 'block'])
    if what == 'all':
        src = data[:h] + cx.blob('x', hi=4096)
    elif what == 'sha':
        x = cx.blob('x', lo=32, hi=32)
        cx.assume(x != data[h:h + 32])
        src = data[:h] + x + data[h + 32:]
    elif what == 'hmac':
        x = cx.blob('x', lo=32, hi=32)
        cx.assume(x != data[h + 32:h + 64])
        src = data[:h + 32] + x + data[h + 64:]
    elif what == 'first hmac':
        x = cx.blob('x', lo=32, hi=32)
        cx.assume(x != data[h + 64:h + 96])
        src = data[:h + 64] + x + data[h + 96:]
    elif what == 'length':
        x = cx.bytes('l', 4)
        cx.assume(x != data[h + 96:h + 100])
        src = data[:h + 96] + x + data[h + 100:]
    elif what == 'payload':
        src = data[:h + 64] + cx.blob('x', hi=4096)
    else:
        n = struct.unpack('<I', data[h + 96:h + 100])[0]
        x = cx.blob('x', lo=n, hi=n)
        cx.assume(x != data[h + 100:h + 100 + n])
        src = data[:h + 100] + x + data[h + 100 + n:]
    rejected(cx, cx.bio(src), 'replaced part noticed')


def big(cx, base, nblocks):
    """a saved database whose payload has the given number of blocks"""
    kp = cx.db(base)
    cx.unlimit(2 ** 30)
    lo = (nblocks - 1) * 2 ** 20 if nblocks > 1 else 1
    kp.add_binary(cx.blob('a', lo=lo, hi=lo + 2 ** 19))
    return kp, save(cx, kp).getvalue()


@scenario(base=['v4_chacha20_argon2_raw'])
def blocks4(cx, base):
    """KDBX4: payload blocks removed, repeated or exchanged"""
    kp, data = big(cx, base, 2)
    h = header_end(cx.data_bytes(base + '.kdbx'))
    p = h + 64
    N = 36 + 2 ** 20
    first = data[p:p + N]
    last = data[p + N:len(data) - 36]
    end = data[len(data) - 36:]
    cx.assume(len(last) > 36)
    what = cx.choice('what', ['drop first', 'drop last', 'twice', 'swap', 'no end', 'end early'])
    if what == 'drop first':
        new = last + end
    elif what == 'drop last':
        new = first + end
    elif what == 'twice':
        new = first + first + last + end
    elif what == 'swap':
        new = last + first + end
    elif what == 'no end':
        new = first + last
    else:
        new = end + first + last
    rejected(cx, cx.bio(data[:p] + new), 'rearranged blocks noticed')


@scenario(base=['v4_chacha20_argon2_raw'])
def far4(cx, base):
    """many small blocks, two of them exchanged however far apart"""
    kp = cx.db(base)
    kp.add_binary(bytes(i % 251 for i in range(400)))
    out = save(cx, kp).getvalue()
    p = header_end(cx.data_bytes(base + '.kdbx')) + 64
    payload = out[p + 36:len(out) - 36]
    seed, tk = kp.kdbx.header.value.dynamic_header.master_seed.data, kp.transformed_key
    n, blocks = 300, []
    # the small blocks lie within the binary
    cuts = [0] + list(range(100, 100 + n - 1)) + [len(payload)]
    for i in range(n):
        part = payload[cuts[i]:cuts[i + 1]]
        q = struct.pack('<Q', i)
        ln = len(part).to_bytes(4, 'little')
        blocks.append(cx.hmac256(cx.sha512(q + cx.sha512(seed + tk + b'\x01')), q + ln + part) + ln + part)
    q = struct.pack('<Q', n)
    end = cx.hmac256(cx.sha512(q + cx.sha512(seed + tk + b'\x01')), q + b'\0\0\0\0') + b'\0\0\0\0'
    i, j = cx.choice('pair', [(1, 2), (1, 17), (2, 10), (5, 133), (2, 258), (40, 296)])
    blocks[i], blocks[j] = blocks[j], blocks[i]
    rejected(cx, cx.bio(out[:p] + b''.join(blocks) + end), 'exchanged blocks noticed')


@scenario(base=[V4, V3])
def mixed(cx, base):
    """parts of two saved states of the same database"""
    kp = cx.db(base)
    s1 = save(cx, kp).getvalue()
    p = cx.str('p', lo=1)
    kp.add_entry(kp.root_group, 't', 'u', p)
    s2 = save(cx, kp).getvalue()
    h = header_end(cx.data_bytes(base + '.kdbx'))
    if base.startswith('v4'):
        # header hash and HMAC of one with the payload of the other: same seeds, so it is the other state, whole
        k = PyKeePass(cx.bio(s1[:h + 64] + s2[h + 64:]), password='pw')
        cx.check(cx.tree_eq(k.tree, kp.tree), 'payload of one state is that state')
        rejected(cx, cx.bio(s1[:h + 96] + s2[h + 96:]), 'HMAC of another state noticed')
    else:
        k = PyKeePass(cx.bio(s1[:h] + s2[h:]), password='pw')
        cx.check(cx.tree_eq(k.tree, kp.tree), 'payload of one state is that state')
