"""Twofish computes the function of its specification and decryption inverts it."""
from sx.api import scenario
from props.tf import Spec
from pykeepass.kdbx_parsing.pytwofish import Twofish

BOUNDS = ('every key of 128, 192 and 256 bits and every block: all 16 rounds and the whole key schedule at once; '
          'histories of up to 2 keys, 2 objects and 3 calls')
ASSUMES = ['the specification is the 1998 Twofish paper (tables, matrices and figures transcribed independently in props/tf.py and checked against its test vector)']
QUERY_MS = 5000


def same(cx, got, want, what):
    cx.check(len(got) == len(want), what + ': length')
    cx.check(cx.both(*[got[i] == want[i] for i in range(len(want))]), what)


@scenario(size=[32, 24, 16])
def encrypts(cx, size):
    cx.words()
    key, block = cx.bytes('key', size), cx.bytes('block', 16)
    same(cx, Twofish(key).encrypt(block), Spec(key).encrypt(block), 'encryption as specified')


@scenario(size=[32, 24, 16])
def decrypts(cx, size):
    cx.words()
    key, block = cx.bytes('key', size), cx.bytes('block', 16)
    same(cx, Twofish(key).decrypt(block), Spec(key).decrypt(block), 'decryption as specified')


@scenario(size=[32, 24, 16], first=['encrypt', 'decrypt'])
def inverse(cx, size, first):
    cx.words()
    key, block = cx.bytes('key', size), cx.bytes('block', 16)
    t = Twofish(key)
    if first == 'encrypt':
        same(cx, t.decrypt(t.encrypt(block)), block, 'decryption inverts encryption')
    else:
        same(cx, t.encrypt(t.decrypt(block)), block, 'encryption inverts decryption')


@scenario(size=[32], other=[32, 16])
def two_objects(cx, size, other):
    """a second cipher object made in between does not disturb the first"""
    cx.words()
    k1, k2, block = cx.bytes('key', size), cx.bytes('key2', other), cx.bytes('block', 16)
    a = Twofish(k1)
    b = Twofish(k2)
    same(cx, a.encrypt(block), Spec(k1).encrypt(block), 'first object')
    same(cx, b.encrypt(block), Spec(k2).encrypt(block), 'second object')


@scenario(size=[32, 24], other=[16, 32])
def rekeyed(cx, size, other):
    """an object given another key uses that key alone"""
    cx.words()
    k1, k2, block = cx.bytes('key', size), cx.bytes('key2', other), cx.bytes('block', 16)
    a = Twofish(k1)
    a.encrypt(bytes(16))
    a.set_key(k2)
    same(cx, a.encrypt(block), Spec(k2).encrypt(block), 'after set_key')


@scenario(size=[32, 16], second=['encrypt', 'decrypt'])
def stateless(cx, size, second):
    """earlier blocks have no influence on later ones"""
    cx.words()
    key, x, y = cx.bytes('key', size), cx.bytes('first', 16), cx.bytes('block', 16)
    t, s = Twofish(key), Spec(key)
    t.encrypt(x)
    t.decrypt(x)
    same(cx, getattr(t, second)(y), getattr(s, second)(y), 'third call')
