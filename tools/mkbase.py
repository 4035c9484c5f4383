"""Generate the small base databases in /verif/data (run once with /opt/venv/bin/python; outputs are committed)."""
import os, sys, random, uuid, base64, datetime
from io import BytesIO
sys.path.insert(0, '/repo')
from pykeepass import PyKeePass
from pykeepass.kdbx_parsing import kdf_uuids
from construct import Container

OUT = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'data')
rnd = random.Random(1)


def rb(n):
    return bytes(rnd.randrange(256) for _ in range(n))


def clean(kp):
    root = kp.tree.getroot()
    g = root.find('Root/Group')
    for ch in list(g):
        if ch.tag in ('Group', 'Entry'):
            g.remove(ch)
    d = root.find('Root/DeletedObjects')
    if d is not None:
        for ch in list(d):
            d.remove(ch)
    g.find('UUID').text = base64.b64encode(rb(16)).decode()
    m = root.find('Meta')
    for t in ('HeaderHash', 'CustomIcons'):
        e = m.find(t)
        if e is not None:
            m.remove(e)
    b = m.find('Binaries')
    if b is not None:
        for ch in list(b):
            b.remove(ch)
    m.find('RecycleBinUUID').text = base64.b64encode(bytes(16)).decode()
    m.find('RecycleBinEnabled').text = 'True'
    m.find('DatabaseName').text = 'base'
    g.find('Name').text = 'Root'
    if kp.version >= (4, 0):
        ih = kp.kdbx.body.payload.inner_header
        ih.binary = type(ih.binary)() if ih.get('binary') is not None else ih.get('binary')


def v4(minor, cipher, kdf, comp):
    kp = PyKeePass('/repo/pykeepass/blank_database.kdbx', password='password')
    clean(kp)
    h = kp.kdbx.header.value
    h.minor_version = minor
    dh = h.dynamic_header
    dh.cipher_id.data = cipher
    dh.encryption_iv.data = rb({'aes256': 16, 'twofish': 16, 'chacha20': 12}[cipher])
    dh.master_seed.data = rb(32)
    dh.compression_flags.data.compression = comp
    d = dh.kdf_parameters.data.dict
    d['$UUID'].value = kdf_uuids[kdf]
    d['S'].value = rb(32)
    if kdf == 'aeskdf':
        for k in ('I', 'M', 'P', 'V'):
            v = d.pop(k)
        v = Container(type=5, key='R', value=3, next_byte=0)
        d['R'] = v
    else:
        d['I'].value, d['M'].value, d['P'].value = 1, 64 * 1024, 1
    return kp


def v3(cipher, comp):
    kp = PyKeePass('/repo/tests/test3.kdbx', password='password', keyfile='/repo/tests/test3.key')
    clean(kp)
    kp.keyfile = None
    dh = kp.kdbx.header.value.dynamic_header
    dh.cipher_id.data = cipher
    dh.encryption_iv.data = rb({'aes256': 16, 'twofish': 16, 'chacha20': 12}[cipher])
    dh.master_seed.data = rb(32)
    dh.transform_seed.data = rb(32)
    dh.transform_rounds.data = 3
    dh.compression_flags.data.compression = comp
    return kp


def put(kp, name):
    kp.password = 'pw'
    try:
        kp.kdbx.header.pop('data', None)
    except Exception:
        pass
    p = os.path.join(OUT, name + '.kdbx')
    kp.save(p)
    kp2 = PyKeePass(p, password='pw')
    print(name, os.path.getsize(p), kp2.version, kp2.encryption_algorithm, kp2.groups, kp2.entries)


os.makedirs(OUT, exist_ok=True)
for cipher in ('aes256', 'chacha20', 'twofish'):
    for comp in (True, False):
        put(v3(cipher, comp), 'v3_%s_%s' % (cipher, 'gz' if comp else 'raw'))
        for kdf in ('argon2', 'argon2id', 'aeskdf'):
            put(v4(0, cipher, kdf, comp), 'v4_%s_%s_%s' % (cipher, kdf, 'gz' if comp else 'raw'))
put(v4(1, 'aes256', 'argon2', True), 'v41_aes256_argon2_gz')
put(v4(1, 'chacha20', 'argon2id', False), 'v41_chacha20_argon2id_raw')
