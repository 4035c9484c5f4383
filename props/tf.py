"""Twofish from its specification (Schneier et al., 1998, section 4): nothing here is shared with the code under test."""

T0 = [[0x8, 0x1, 0x7, 0xD, 0x6, 0xF, 0x3, 0x2, 0x0, 0xB, 0x5, 0x9, 0xE, 0xC, 0xA, 0x4],
      [0xE, 0xC, 0xB, 0x8, 0x1, 0x2, 0x3, 0x5, 0xF, 0x4, 0xA, 0x6, 0x7, 0x0, 0x9, 0xD],
      [0xB, 0xA, 0x5, 0xE, 0x6, 0xD, 0x9, 0x0, 0xC, 0x8, 0xF, 0x3, 0x2, 0x4, 0x7, 0x1],
      [0xD, 0x7, 0xF, 0x4, 0x1, 0x2, 0x6, 0xE, 0x9, 0xB, 0x3, 0x0, 0x8, 0x5, 0xC, 0xA]]
T1 = [[0x2, 0x8, 0xB, 0xD, 0xF, 0x7, 0x6, 0xE, 0x3, 0x1, 0x9, 0x4, 0x0, 0xA, 0xC, 0x5],
      [0x1, 0xE, 0x2, 0xB, 0x4, 0xC, 0x3, 0x7, 0x6, 0xD, 0xA, 0x5, 0xF, 0x9, 0x0, 0x8],
      [0x4, 0xC, 0x7, 0x5, 0x1, 0x6, 0x9, 0xA, 0x0, 0xE, 0xD, 0x8, 0x2, 0xB, 0x3, 0xF],
      [0xB, 0x9, 0x5, 0x1, 0xC, 0x3, 0xD, 0xE, 0x6, 0x4, 0x7, 0xF, 0x2, 0x0, 0x8, 0xA]]
MDS = [[0x01, 0xEF, 0x5B, 0x5B], [0x5B, 0xEF, 0xEF, 0x01], [0xEF, 0x5B, 0x01, 0xEF], [0xEF, 0x01, 0xEF, 0x5B]]
RS = [[0x01, 0xA4, 0x55, 0x87, 0x5A, 0x58, 0xDB, 0x9E], [0xA4, 0x56, 0x82, 0xF3, 0x1E, 0xC6, 0x68, 0xE5],
      [0x02, 0xA1, 0xFC, 0xC1, 0x47, 0xAE, 0x3D, 0x19], [0xA4, 0x55, 0x87, 0x5A, 0x58, 0xDB, 0x9E, 0x03]]


def q(t, x):
    a, b = x >> 4, x & 15
    for i in (0, 2):
        a, b = a ^ b, a ^ ((b >> 1) | ((b & 1) << 3)) ^ ((8 * a) & 15)
        a, b = t[i][a], t[i + 1][b]
    return 16 * b + a


def gf(a, b, p):
    """product in GF(2^8)"""
    r = 0
    while b:
        if b & 1:
            r ^= a
        a <<= 1
        if a & 0x100:
            a ^= p
        b >>= 1
    return r


Q0, Q1 = [q(T0, x) for x in range(256)], [q(T1, x) for x in range(256)]
# which permutation is applied to byte i before the key words ..., 3, 2, 1, 0, and last (figure 2 of the specification)
BEFORE = {3: (Q1, Q0, Q0, Q1), 2: (Q1, Q1, Q0, Q0), 1: (Q0, Q1, Q0, Q1), 0: (Q0, Q0, Q1, Q1)}
LAST = (Q1, Q0, Q1, Q0)
# rows of the matrices applied to one byte: column i of MDS times y, as a word
MCOL = [[sum(gf(MDS[r][i], LAST[i][x], 0x169) << (8 * r) for r in range(4)) for x in range(256)] for i in range(4)]


def rs_word(key8):
    """four bytes of S from eight bytes of key, by linearity bit by bit"""
    w = 0
    for j in range(8):
        for k in range(8):
            col = sum(gf(RS[r][j], 1 << k, 0x14D) << (8 * r) for r in range(4))
            w = w ^ (((key8[j] >> k) & 1) * col)
    return w


def h(x, words):
    """x: list of four bytes; words: list of key words (lists of four bytes)"""
    y = list(x)
    for j in range(len(words) - 1, -1, -1):
        y = [BEFORE[j][i][y[i]] ^ words[j][i] for i in range(4)]
    return MCOL[0][y[0]] ^ MCOL[1][y[1]] ^ MCOL[2][y[2]] ^ MCOL[3][y[3]]


M32 = 0xFFFFFFFF


def rol(x, n):
    return ((x << n) & M32) | (x >> (32 - n))


def ror(x, n):
    return rol(x, 32 - n)


def split(w):
    return [(w >> (8 * i)) & 0xFF for i in range(4)]


class Spec:
    def __init__(self, key):
        b = list(key)
        k = len(b) // 8
        m = [b[4 * i:4 * i + 4] for i in range(2 * k)]
        me, mo = m[0::2], m[1::2]
        self.s = [split(rs_word(b[8 * i:8 * i + 8])) for i in range(k)][::-1]
        self.k = []
        for i in range(20):
            a = h([2 * i] * 4, me)
            c = rol(h([2 * i + 1] * 4, mo), 8)
            self.k += [(a + c) & M32, rol((a + 2 * c) & M32, 9)]

    def f(self, r0, r1, r):
        t0 = h(split(r0), self.s)
        t1 = h(split(rol(r1, 8)), self.s)
        return (t0 + t1 + self.k[2 * r + 8]) & M32, (t0 + 2 * t1 + self.k[2 * r + 9]) & M32

    def block(self, data):
        b = list(data)
        return [b[4 * i] | (b[4 * i + 1] << 8) | (b[4 * i + 2] << 16) | (b[4 * i + 3] << 24) for i in range(4)]

    def out(self, ws):
        return [(w >> (8 * i)) & 0xFF for w in ws for i in range(4)]

    def encrypt(self, data):
        """16 bytes -> list of 16 numbers"""
        p = self.block(data)
        r = [p[i] ^ self.k[i] for i in range(4)]
        for n in range(16):
            f0, f1 = self.f(r[0], r[1], n)
            r = [ror(r[2] ^ f0, 1), rol(r[3], 1) ^ f1, r[0], r[1]]
        return self.out([r[(i + 2) % 4] ^ self.k[i + 4] for i in range(4)])

    def decrypt(self, data):
        c = self.block(data)
        r = [0] * 4
        for i in range(4):
            r[(i + 2) % 4] = c[i] ^ self.k[i + 4]
        for n in range(15, -1, -1):
            f0, f1 = self.f(r[2], r[3], n)
            r = [r[2], r[3], rol(r[0], 1) ^ f0, ror(r[1] ^ f1, 1)]
        return self.out([r[i] ^ self.k[i] for i in range(4)])


VECTOR = bytes.fromhex('57ff739d4dc92c1bd7fc01700cc8216f')
assert bytes(Spec(bytes(32)).encrypt(bytes(16))) == VECTOR
assert bytes(Spec(bytes(32)).decrypt(VECTOR)) == bytes(16)
