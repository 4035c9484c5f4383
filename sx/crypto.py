"""Ideal models of the cryptographic primitives (real results when every argument is concrete)."""
import sys, hashlib as _hl, hmac as _hm, zlib as _z, struct as _struct, z3
from .core import Unsupported, PathCut, cur
from .vals import Sym, SymInt, SymBool, SymStr, is_sym, any_sym, realise, mkint, mkbool, intx, and_, or_, not_, mkstr
from .byt import (SymBytes, Blob, Sl, Vec, mkbytes, bvs, blob, blen, sha, hmac_, memo_blob, syn_eq, arg_eq, garbage, DIGESTS, same_int, bsub,
                  bytes_of, bindex, beq)

TRUST = False    # set while a base database is opened with its right credentials
R = {}          # real callables, filled by hooks.setup


def conc_all(*xs):
    return not any(is_sym(x) for x in xs)


def tobytes(x, what='data'):
    if isinstance(x, (bytes, SymBytes)):
        return x
    if isinstance(x, (bytearray, memoryview)):
        return bytes(x)
    raise TypeError("a bytes-like object is required, not '%s'" % ('str' if isinstance(x, SymStr) else type(x).__name__))


# ------------------------------------------------------------------ hashes
class Hash:
    def __init__(self, name, data=b''):
        self.name = name
        self.digest_size = {'sha256': 32, 'sha512': 64, 'sha1': 20, 'md5': 16, 'sha384': 48, 'sha224': 28}[name]
        self.block_size = 128 if name in ('sha512', 'sha384') else 64
        self._d = []
        self.update(data)

    def update(self, data):
        if isinstance(data, (str, SymStr)):
            raise TypeError('Strings must be encoded before hashing')
        self._d += bvs(tobytes(data))

    def copy(self):
        h = Hash(self.name)
        h._d = list(self._d)
        return h

    def digest(self):
        d = mkbytes(self._d)
        if self.name not in ('sha256', 'sha512'):
            if is_sym(d):
                raise Unsupported(self.name)
            return R['hash'][self.name](d).digest()
        return sha(self.name, d)

    def hexdigest(self):
        from .byt import hex_of
        return hex_of(self.digest())


def algo_name(digestmod):
    if isinstance(digestmod, str):
        return digestmod.lower()
    for n, f in R['hash'].items():
        if digestmod is f:
            return n
    if callable(digestmod):
        h = digestmod()
        return h.name
    raise TypeError('digestmod')


class HMAC:
    def __init__(self, key, msg=None, digestmod=''):
        if not isinstance(key, (bytes, bytearray, SymBytes)):
            raise TypeError('key: expected bytes or bytearray, but got %r' % type(key).__name__)
        self.key, self.algo = tobytes(key), algo_name(digestmod)
        self.digest_size = {'sha256': 32, 'sha512': 64}.get(self.algo)
        self._d = []
        if msg is not None:
            self.update(msg)

    def update(self, msg):
        self._d += bvs(tobytes(msg))

    def copy(self):
        h = HMAC(self.key, None, self.algo)
        h._d = list(self._d)
        return h

    def digest(self):
        d = mkbytes(self._d)
        if self.algo not in ('sha256', 'sha512'):
            return _hm.new(realise(self.key), realise(d), self.algo).digest()
        return hmac_(self.algo, self.key, d)

    def hexdigest(self):
        from .byt import hex_of
        return hex_of(self.digest())


def compare_digest(a, b):
    if isinstance(a, (bytes, SymBytes)) and isinstance(b, (bytes, SymBytes)):
        return beq(a, b)
    return a == b


# ------------------------------------------------------------------ AES
BLOCK = 16


class AES:
    block_size = 16

    def __init__(self, key, mode, *a, **kw):
        RA = R['AES']
        key = tobytes(key)
        n = blen(key)
        if not (isinstance(n, int) and n in (16, 24, 32)):
            if isinstance(n, int) or not or_(n == 16, n == 24, n == 32):
                raise ValueError('Incorrect AES key length (%d bytes)' % n if isinstance(n, int) else 'Incorrect AES key length')
        self.key, self.mode = key, mode
        if mode == RA.MODE_ECB:
            if a or kw:
                RA.new(b'\0' * 16, mode, *a, **kw)
            self.iv = None
        elif mode == RA.MODE_CBC:
            iv = kw.get('iv', kw.get('IV', a[0] if a else None))
            if iv is None:
                raise Unsupported('random iv')
            iv = tobytes(iv)
            l = blen(iv)
            if l != 16:
                raise ValueError('Incorrect IV length (it must be 16 bytes long)')
            self.iv = iv
        else:
            raise Unsupported('AES mode %r' % (mode,))
        self.real = None
        self.used = None
        self.iv0 = self.iv

    def _len(self, data, what):
        n = blen(data)
        if (n % 16) != 0:
            raise ValueError('Data must be aligned to block boundary in ECB mode' if self.iv is None else 'Data must be padded to 16 byte boundary in CBC mode')
        return n

    def _use(self, d):
        if self.used not in (None, d) and self.iv is not None:
            raise TypeError('%s() cannot be called after %s()' % (d, self.used))
        self.used = d

    def encrypt(self, data, output=None):
        self._use('encrypt')
        data = tobytes(data)
        n = self._len(data, 'encrypt')
        alg = 'ecb' if self.iv is None else 'enc'
        args = (self.key, data) if alg == 'ecb' else ('aes-cbc', self.key, self.iv, data)
        if conc_all(self.key, self.iv, data):
            if self.iv is None:
                out = R['AES'].new(self.key, R['AES'].MODE_ECB).encrypt(data)
            else:
                out = R['AES'].new(self.key, R['AES'].MODE_CBC, self.iv).encrypt(data)
            if len(out) >= 16:
                DIGESTS[(alg, out)] = args
                if alg == 'ecb':
                    for i in range(0, len(out), 16):
                        DIGESTS[('ecbblk', out[i:i + 16])] = (self.key, data[i:i + 16])
        else:
            out = memo_blob(alg, args, n)
        if self.iv is not None and blen(out) != 0:
            self.iv = bsub(out, blen(out) - 16, blen(out)) if isinstance(out, bytes) else '<chained>'
            if isinstance(self.iv, str):
                self.iv = memo_blob('lastblk', (out,), 16)
        return out

    def decrypt(self, data, output=None):
        self._use('decrypt')
        data = tobytes(data)
        n = self._len(data, 'decrypt')
        if conc_all(self.key, self.iv, data):
            if self.iv is None:
                return R['AES'].new(self.key, R['AES'].MODE_ECB).decrypt(data)
            out = R['AES'].new(self.key, R['AES'].MODE_CBC, self.iv).decrypt(data)
            if TRUST:
                DIGESTS[('enc', data)] = ('aes-cbc', self.key, self.iv, out)
            return out
        if self.iv is None:
            return ideal_dec('ecb', (self.key,), data, n)
        return ideal_dec('enc', ('aes-cbc', self.key, self.iv), data, n,
                         blk=lambda k, iv, d: R['AES'].new(k, R['AES'].MODE_CBC, iv).decrypt(d))


def ideal_dec(kind, params, data, n, blk=None):
    """decrypt `data` under `params` (ideal cipher)"""
    if isinstance(data, bytes):
        pre = DIGESTS.get((kind, data))
        if pre is not None:
            ok = and_(*[arg_eq(a, b) for a, b in zip(params, pre[:-1])])
            if ok:
                return pre[-1]
        return wrong(kind, params, data, n)
    if len(data.segs) == 1 and isinstance(data.segs[0], Sl) and data.segs[0].full and data.segs[0].b.kind == kind:
        b = data.segs[0].b
        if len(b.args) == len(params) + 1 and all(syn_eq(a, c) for a, c in zip(params, b.args)):
            return b.args[-1]
        if len(b.args) == len(params) + 1:
            ok = and_(*[arg_eq(a, c) for a, c in zip(params, b.args[:-1])])
            if ok:
                return b.args[-1]
            if kind == 'enc' and len(params) == 3:
                # same key, another IV: only the first block is garbled
                okk = and_(arg_eq(params[0], b.args[0]), arg_eq(params[1], b.args[1]))
                if okk:
                    p = b.args[-1]
                    return mkbytes(bvs(memo_blob('garbage', (kind, params, data, 0), 16)) + bvs(bsub(p, 16, blen(p))))
        return wrong(kind, params, data, n)
    # concrete key, partly symbolic data: blocks before the first symbolic byte decrypt exactly
    if blk is not None and conc_all(*params):
        head = b''
        for s in data.segs:
            if isinstance(s, bytes):
                head += s
                continue
            break
        k = len(head) // 16 * 16
        if k:
            plain = blk(params[1], params[2], head[:k])
            rest = bsub(data, k, blen(data))
            return mkbytes([plain] + bvs(wrong(kind, params, rest, blen(rest))))
    return wrong(kind, params, data, n)


def wrong(kind, params, data, n):
    cur().stats.note('ideal: decryption of unrelated ciphertext gives unrelated bytes')
    if isinstance(n, int) and n == 0:
        return b''
    return memo_blob('garbage', (kind, params, data), n)


# ------------------------------------------------------------------ Twofish (python code of the repository)
def opaque(x):
    return isinstance(x, SymBytes) and (not isinstance(blen(x), int) or any(not isinstance(s, (bytes, Vec)) for s in x.segs))


def pytwofish_post(mod, path):
    """concrete blocks go through the same source, uninstrumented; opaque keys are kept aside for the ideal cipher"""
    T = getattr(mod, 'Twofish', None)
    if T is None or not all(hasattr(T, n) for n in ('set_key', 'encrypt', 'decrypt')):
        return
    ns = {'__name__': 'plain_pytwofish'}
    try:
        exec(compile(open(path, encoding='utf-8').read(), path, 'exec'), ns)
        plain = ns['Twofish']
    except Exception:
        plain = None
    set_key, enc, dec = T.set_key, T.encrypt, T.decrypt

    def k(self, key, *a, **kw):
        self.__dict__['_sx_plain'] = None
        if opaque(key):
            if blen(key) not in (16, 24, 32):
                raise KeyError('key must be 16, 24 or 32 bytes')
            self.__dict__['_sx_opaque'] = key
            return
        if plain is not None and isinstance(key, bytes):
            p = plain.__new__(plain)
            p.set_key(key, *a, **kw)
            self.__dict__['_sx_plain'] = p
            self.__dict__['_sx_later'] = (key, a, kw)
            return
        return set_key(self, key, *a, **kw)

    def ready(self):
        if '_sx_opaque' in self.__dict__:
            raise Unsupported('Twofish block under an opaque key')
        l = self.__dict__.pop('_sx_later', None)
        if l is not None:
            set_key(self, l[0], *l[1], **l[2])

    def e(self, block, *a, **kw):
        if isinstance(block, bytes) and self.__dict__.get('_sx_plain') is not None:
            return self._sx_plain.encrypt(block, *a, **kw)
        ready(self)
        return enc(self, block, *a, **kw)

    def d(self, block, *a, **kw):
        if isinstance(block, bytes) and self.__dict__.get('_sx_plain') is not None:
            return self._sx_plain.decrypt(block, *a, **kw)
        ready(self)
        return dec(self, block, *a, **kw)
    T.set_key, T.encrypt, T.decrypt = k, e, d


def twofish_post(mod, path):
    """CBC over opaque data: the ideal cipher (C07 and C08 decide the code itself)"""
    B = getattr(mod, 'BlockCipher', None)
    if B is None or not hasattr(B, 'encrypt') or not hasattr(B, 'decrypt'):
        return
    oe, od = B.encrypt, B.decrypt

    def run(self, data, o, a, kw, de):
        if cur() is None and not TRUST:
            return o(self, data, *a, **kw)
        ch = getattr(self, 'chain', None)
        key, iv = getattr(self, 'key', None), getattr(ch, 'IV', None)
        cbc = getattr(self, 'mode', None) == getattr(mod, 'MODE_CBC', 2) and iv is not None and key is not None and getattr(ch, 'cache', None) == b''
        if not cbc or self.__dict__.get('_sx_used'):
            if self.__dict__.get('_sx_used'):
                raise Unsupported('Twofish cipher used again after opaque data')
            return o(self, data, *a, **kw)
        wordy = cur() is not None and cur().reg.get('words') is not None
        if wordy or not (opaque(data) or opaque(key) or opaque(iv) or is_sym(data) and blen(data) > 48):
            out = o(self, data, *a, **kw)
            if conc_all(key, iv, data) and isinstance(out, bytes) and len(out) == len(data) >= 16:
                if not de:
                    DIGESTS[('enc', out)] = ('twofish-cbc', key, iv, data)
                elif TRUST:
                    DIGESTS[('enc', data)] = ('twofish-cbc', key, iv, out)
            return out
        n = blen(data)
        if (n % 16) != 0:
            raise Unsupported('Twofish: opaque data that is not whole blocks')
        self.__dict__['_sx_used'] = True
        if de:
            T = sys.modules['pykeepass.kdbx_parsing.twofish']
            return ideal_dec('enc', ('twofish-cbc', key, iv), data, n,
                             blk=lambda k, i, d: T.Twofish.new(k, mode=T.MODE_CBC, IV=i).decrypt(d))
        return memo_blob('enc', ('twofish-cbc', key, iv, data), n)

    def encrypt(self, plaintext, *a, **kw):
        return run(self, plaintext, oe, a, kw, False)

    def decrypt(self, ciphertext, *a, **kw):
        return run(self, ciphertext, od, a, kw, True)
    B.encrypt, B.decrypt = encrypt, decrypt


POST = {'pykeepass.kdbx_parsing.twofish': twofish_post, 'pykeepass.kdbx_parsing.pytwofish': pytwofish_post}


# ------------------------------------------------------------------ stream ciphers
class Stream:
    def __init__(self, algo, key, nonce):
        self.algo, self.key, self.nonce, self.pos = algo, key, nonce, 0
        self.block_size = 1

    def _op(self, data, dec):
        data = tobytes(data)
        n = blen(data)
        pos = self.pos
        self.pos = pos + n
        if isinstance(n, int) and n == 0:
            return b''
        if conc_all(self.key, self.nonce, data, pos):
            out = self.keyxor(data, pos)
            if n >= 16 or True:
                DIGESTS.setdefault(('stream', out), (self.algo, self.key, self.nonce, pos, data))
                if TRUST and dec:
                    DIGESTS[('stream', data)] = (self.algo, self.key, self.nonce, pos, out)
            return out
        params = (self.algo, self.key, self.nonce, pos)
        # applying the keystream twice gives the data back
        if isinstance(data, SymBytes) and len(data.segs) == 1 and isinstance(data.segs[0], Sl) and data.segs[0].b.kind == 'stream' and data.segs[0].full:
            b = data.segs[0].b
            if all(syn_eq(a, c) for a, c in zip(params, b.args)):
                return b.args[-1]
            if and_(*[arg_eq(a, c) for a, c in zip(params, b.args[:-1])]):
                return b.args[-1]
            return memo_blob('garbage', ('stream', params, data), n)
        if isinstance(data, bytes):
            pre = DIGESTS.get(('stream', data))
            if pre is not None and len(data) >= 8:
                if and_(*[arg_eq(a, c) for a, c in zip(params, pre[:-1])]):
                    return pre[-1]
        if dec and not isinstance(data, bytes):
            # unknown ciphertext: symbolic xor where explicit
            if conc_all(self.key, self.nonce, pos) and all(isinstance(s, (bytes, Vec)) for s in data.segs) and isinstance(n, int):
                ks = self.keyxor(b'\0' * n, pos)
                return bytes_of([bindex(data, i) ^ ks[i] for i in range(n)])
            if conc_all(self.key, self.nonce, pos) and data.segs and isinstance(data.segs[0], (bytes, Vec)):
                # explicit bytes in front decrypt exactly, the rest is unrelated
                k = 0
                for s in data.segs:
                    if not isinstance(s, (bytes, Vec)):
                        break
                    k += blen(mkbytes([s]))
                ks = self.keyxor(b'\0' * k, pos)
                head = bytes_of([bindex(data, i) ^ ks[i] for i in range(k)])
                rest = bsub(data, k, n)
                return mkbytes(bvs(head) + bvs(memo_blob('garbage', ('stream', params[:3], pos + k, rest), blen(rest))))
        return memo_blob('stream', params + (data,), n)

    def keyxor(self, data, pos):
        c = R[self.algo].new(key=self.key, nonce=self.nonce)
        if pos:
            c.encrypt(b'\0' * pos)
        return c.encrypt(data)

    def encrypt(self, data, output=None):
        return self._op(data, False)

    def decrypt(self, data, output=None):
        return self._op(data, True)

    def seek(self, p):
        self.pos = p


def stream_new(algo, sizes, nonces):
    def new(*a, **kw):
        key = kw.get('key', a[0] if a else None)
        nonce = kw.get('nonce', None)
        if key is None:
            raise TypeError('Missing parameter key')
        if nonce is None:
            raise Unsupported('random nonce')
        key, nonce = tobytes(key), tobytes(nonce)
        if blen(key) not in sizes:
            raise ValueError('%s key must be %d bytes long' % (algo, sizes[-1]))
        nn = blen(nonce)
        if isinstance(nn, int):
            if nn not in nonces:
                raise ValueError('Nonce must be 8/12 bytes(ChaCha20) or 24 bytes (XChaCha20)')
        else:
            if not or_(*[nn == v for v in nonces]):
                raise ValueError('Nonce must be 8/12 bytes(ChaCha20) or 24 bytes (XChaCha20)')
        return Stream(algo, key, nonce)
    return new


# ------------------------------------------------------------------ argon2
def argon2_raw(secret, salt, time_cost, memory_cost, parallelism, hash_len, type, version=0x13):
    if conc_all(secret, salt, time_cost, memory_cost, parallelism, hash_len, version):
        key = ('argon2memo', secret, salt, time_cost, memory_cost, parallelism, hash_len, type, version)
        out = DIGESTS.get(key)
        if out is None:
            out = R['argon2'](secret=secret, salt=salt, time_cost=time_cost, memory_cost=memory_cost, parallelism=parallelism,
                              hash_len=hash_len, type=type, version=version)
            DIGESTS[key] = out
        DIGESTS[('argon2', out)] = (secret, salt, time_cost, memory_cost, parallelism, type, version)
        return out
    return memo_blob('argon2', (secret, salt, time_cost, memory_cost, parallelism, type, version), hash_len)


# ------------------------------------------------------------------ zlib
def _wb(w):
    """format family of a wbits value: what it writes / accepts"""
    if w < 0:
        return 'raw'
    if w >= 40:
        return 'auto'
    if w >= 24:
        return 'gzip'
    return 'zlib'


class Compressor:
    def __init__(self, level=-1, method=8, wbits=15, memLevel=8, strategy=0, zdict=None):
        self.args = (level, method, wbits, memLevel, strategy)
        R['compressobj'](*self.args)
        self.fam = _wb(wbits)
        self.d = []
        self.done = False

    def compress(self, data):
        self.d += bvs(tobytes(data))
        return b''

    def flush(self, mode=4):
        data = mkbytes(self.d)
        if not is_sym(data):
            c = R['compressobj'](*self.args)
            return c.compress(data) + c.flush()
        return gz(self.fam, data)


def gz(fam, data):
    eng = cur()
    k = ('gzlen', fam)
    tab = eng.reg.setdefault(k, [])
    for d, b in tab:
        if syn_eq(d, data):
            return mkbytes([Sl(b, 0, b.n)])
    n = z3.Int(eng.fresh('gzlen'))
    eng.add(n >= 8)
    eng.add(n <= eng.reg.get('xml_max', 2 ** 20 - 4096))
    b = Blob('gz', (data, fam), SymInt(n))
    tab.append((data, b))
    return mkbytes([Sl(b, 0, b.n)])


def compress(data, level=-1, wbits=15):
    data = tobytes(data)
    if not is_sym(data):
        return R['compress'](data, level, wbits)
    return gz(_wb(wbits), data)


def decompress(data, wbits=15, bufsize=16384):
    data = tobytes(data)
    if not is_sym(data):
        return R['decompress'](data, wbits, bufsize)
    want = _wb(wbits)
    if len(data.segs) == 1 and isinstance(data.segs[0], Sl) and data.segs[0].b.kind == 'gz':
        s = data.segs[0]
        if s.full:
            d, fam = s.b.args
            if want == fam or (want == 'auto' and fam in ('gzip', 'zlib')):
                return d
            raise _z.error('Error -3 while decompressing data: incorrect header check')
        if isinstance(s.s, int) and s.s == 0:
            raise _z.error('Error -5 while decompressing data: incomplete or truncated stream')
    if data.segs and isinstance(data.segs[0], Sl) and data.segs[0].b.kind == 'gz' and data.segs[0].full:
        d, fam = data.segs[0].b.args
        if want == fam or (want == 'auto' and fam in ('gzip', 'zlib')):
            cur().stats.note('model: trailing bytes after a compressed stream are ignored by zlib.decompress')
            return d
    cur().stats.note('ideal: unrelated bytes are not a compressed stream')
    raise _z.error('Error -3 while decompressing data: incorrect header check')


class Decompressor:
    def __init__(self, wbits=15, zdict=b''):
        self.w = wbits
        self.unused_data = b''
        self.unconsumed_tail = b''
        self.eof = False

    def decompress(self, data, max_length=0):
        r = decompress(data, self.w)
        self.eof = True
        return r

    def flush(self, *a):
        return b''


# ------------------------------------------------------------------ strxor
def strxor(a, b, output=None):
    if conc_all(a, b):
        return R['strxor'](a, b)
    n, m = blen(a), blen(b)
    if n != m:
        raise ValueError('Only byte strings of equal length can be xored')
    if not isinstance(n, int):
        n = n.__index__()
    return bytes_of([bindex(a, i) ^ bindex(b, i) for i in range(n)])
