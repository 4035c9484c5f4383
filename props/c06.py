"""Keys are derived from credentials and header as the format says."""
from sx.api import scenario, V3, V4
from props.lib import save, txt
from props import fmt
from pykeepass import PyKeePass
from lxml import etree
import argon2, struct

BOUNDS = ('every password; every salt, seed and IV; Argon2 d and id: 1 to 64 passes, 8 KiB to 16 MiB, 1 to 64 lanes, versions 0x10 and 0x13; '
          'AES-KDF: 0 to 6 rounds (thorough: 40); every cipher, compression on and off')
ASSUMES = ['SHA-2, HMAC, AES, ChaCha20 and Argon2 are ideal functions, the same ones on both sides']


def kdf(cx, name, rounds=(0, 1, 2, 3, 6)):
    """-> parameters as stored, function from composite key to transformed key"""
    if name == 'aeskdf':
        salt, r = cx.blob('salt', lo=32, hi=32), cx.choice('rounds', list(rounds))
        items = [fmt.vitem(0x42, b'$UUID', fmt.KDFS[name]), fmt.vitem(5, b'R', struct.pack('<Q', r)), fmt.vitem(0x42, b'S', salt)]
        f = lambda c: fmt.aes_kdf(cx, salt, r, c)
    else:
        salt = cx.blob('salt', lo=8, hi=64)
        i, m, p = cx.int('passes', 1, 64), cx.int('memory', 8 * 1024, 2 ** 24), cx.int('lanes', 1, 64)
        cx.assume(m >= 8192 * p)
        v = cx.choice('v', [0x10, 0x13])
        items = [fmt.vitem(0x42, b'$UUID', fmt.KDFS[name]), fmt.vitem(4, b'V', fmt.u32(v)), fmt.vitem(0x42, b'S', salt),
                 fmt.vitem(5, b'I', struct.pack('<Q', i)), fmt.vitem(5, b'M', struct.pack('<Q', m)), fmt.vitem(4, b'P', fmt.u32(p))]
        f = lambda c: argon2.low_level.hash_secret_raw(
            secret=c, salt=salt, time_cost=i, memory_cost=m // 1024, parallelism=p, hash_len=32,
            type=argon2.low_level.Type.ID if name == 'argon2id' else argon2.low_level.Type.D, version=v)
    if cx.flip('order'):
        items = items[:1] + items[:0:-1]
    return fmt.variant(items), f, salt


@scenario(name=['argon2', 'argon2id', 'aeskdf'])
def transformed4(cx, name):
    pw = cx.str('pw', valid=False)
    params, f, salt = kdf(cx, name, range(41) if False else (0, 1, 2, 3, 6))
    seed, iv = cx.blob('seed', lo=32, hi=32), cx.blob('iv', lo=16, hi=16)
    h = fmt.header4('aes256', True, seed, iv, params)
    kp = PyKeePass(cx.bio(h + cx.sha256(h)), password=pw, decrypt=False)
    cx.check(kp.transformed_key == f(fmt.composite(cx, pw)), 'transformed key')
    cx.check(kp.kdf_algorithm == name, 'name of the key derivation')
    cx.check(kp.database_salt == salt, 'salt')
    cx.check(kp.encryption_algorithm == 'aes256', 'name of the cipher')


@scenario(quick=False)
def rounds4(cx):
    pw = cx.str('pw', valid=False)
    params, f, salt = kdf(cx, 'aeskdf', range(7, 41))
    seed, iv = cx.blob('seed', lo=32, hi=32), cx.blob('iv', lo=16, hi=16)
    h = fmt.header4('aes256', True, seed, iv, params)
    kp = PyKeePass(cx.bio(h + cx.sha256(h)), password=pw, decrypt=False)
    cx.check(kp.transformed_key == f(fmt.composite(cx, pw)), 'transformed key')


@scenario()
def transformed3(cx):
    pw = cx.str('pw', valid=False)
    seed, tseed, iv = cx.blob('seed', lo=32, hi=32), cx.blob('tseed', lo=32, hi=32), cx.blob('iv', lo=16, hi=16)
    r = cx.choice('rounds', [0, 1, 2, 3, 6])
    h = fmt.header3('aes256', True, seed, tseed, r, iv, b'k' * 32, b's' * 32)
    kp = PyKeePass(cx.bio(h), password=pw, decrypt=False)
    cx.check(kp.transformed_key == fmt.aes_kdf(cx, tseed, r, fmt.composite(cx, pw)), 'transformed key')
    cx.check(kp.database_salt == tseed, 'salt')


def doc(cx):
    kp = cx.db(V4)
    t = cx.str('t', lo=1)
    kp.add_group(kp.root_group, t)
    return t, kp.tree, etree.tostring(kp.tree)


@scenario(cipher=['aes256', 'chacha20', 'twofish'], comp=[True, False], name=['argon2', 'aeskdf'],
          quick=lambda cipher, comp, name: name == 'argon2' or cipher == 'aes256')
def foreign4(cx, cipher, comp, name):
    """a KDBX4 file written by the format's definition opens and shows its content"""
    pw = cx.str('pw', valid=False)
    params, f, salt = kdf(cx, name, (2,))
    seed, iv = cx.blob('seed', lo=32, hi=32), cx.blob('iv', lo=12 if cipher == 'chacha20' else 16, hi=12 if cipher == 'chacha20' else 16)
    h = fmt.header4(cipher, comp, seed, iv, params)
    tk = f(fmt.composite(cx, pw))
    t, tree, xml = doc(cx)
    b = cx.blob('b', hi=4096)
    data = fmt.inner4(3, cx.blob('pkey', lo=64, hi=64), [b'\x01' + b, b'\x00second']) + xml
    if comp:
        data = fmt.gz(data)
    enc = fmt.encrypt(cipher, cx.sha256(seed + tk), iv, data)
    src = h + fmt.body4(cx, h, seed, tk, enc)
    if cx.flip('by key'):
        kp = PyKeePass(cx.bio(src), transformed_key=tk)
    else:
        kp = PyKeePass(cx.bio(src), password=pw)
    cx.check(cx.tree_eq(kp.tree, tree), 'content')
    cx.check(kp.groups[-1].name == t, 'group name')
    cx.check(kp.binaries[0] == b, 'attachment')
    cx.check(kp.binaries[1] == b'second', 'second attachment')
    cx.check(kp.transformed_key == tk, 'transformed key')


@scenario(cipher=['aes256', 'chacha20', 'twofish'], comp=[True, False])
def foreign3(cx, cipher, comp):
    pw = cx.str('pw', valid=False)
    seed, tseed = cx.blob('seed', lo=32, hi=32), cx.blob('tseed', lo=32, hi=32)
    iv = cx.blob('iv', lo=12 if cipher == 'chacha20' else 16, hi=12 if cipher == 'chacha20' else 16)
    start = cx.blob('start', lo=32, hi=32)
    r = cx.choice('rounds', [1, 3])
    h = fmt.header3(cipher, comp, seed, tseed, r, iv, cx.blob('pkey', lo=32, hi=32), start)
    tk = fmt.aes_kdf(cx, tseed, r, fmt.composite(cx, pw))
    t, tree, xml = doc(cx)
    data = start + fmt.blocks3(cx, fmt.gz(xml) if comp else xml)
    src = h + fmt.encrypt(cipher, cx.sha256(seed + tk), iv, data)
    if cx.flip('by key'):
        kp = PyKeePass(cx.bio(src), transformed_key=tk)
    else:
        kp = PyKeePass(cx.bio(src), password=pw)
    cx.check(cx.tree_eq(kp.tree, tree), 'content')
    cx.check(kp.groups[-1].name == t, 'group name')
    cx.check(kp.transformed_key == tk, 'transformed key')


@scenario(cipher=['aes256', 'chacha20', 'twofish'], comp=['gz', 'raw'])
def written4(cx, cipher, comp):
    """what save writes can be decrypted by the format's definition"""
    base = 'v4_%s_argon2_%s' % (cipher, comp)
    kp = cx.db(base)
    cx.unlimit(2 ** 19)
    pw, t = cx.str('pw', valid=False), cx.str('t', lo=1)
    kp.password = pw
    kp.add_group(kp.root_group, t)
    b = cx.blob('b', hi=4096)
    kp.add_binary(b)
    out = save(cx, kp).getvalue()
    hd = kp.kdbx.header.value.dynamic_header
    h = len(kp.kdbx.header.data)
    d = hd.kdf_parameters.data.dict
    tk = argon2.low_level.hash_secret_raw(
        secret=fmt.composite(cx, pw), salt=d['S'].value, time_cost=d['I'].value, memory_cost=d['M'].value // 1024,
        parallelism=d['P'].value, hash_len=32, type=argon2.low_level.Type.D, version=d['V'].value)
    seed, iv = hd.master_seed.data, hd.encryption_iv.data
    head = out[:h]
    cx.check(out[h:h + 32] == cx.sha256(head), 'header hash')
    cx.check(out[h + 32:h + 64] == cx.hmac256(fmt.hkey(cx, seed, tk, b'\xff' * 8), head), 'header HMAC')
    n = int.from_bytes(out[h + 96:h + 100], 'little')
    enc = out[h + 100:h + 100 + n]
    zero = struct.pack('<Q', 0)
    cx.check(out[h + 64:h + 96] == cx.hmac256(fmt.hkey(cx, seed, tk, zero), zero + fmt.u32(n) + enc), 'block HMAC')
    data = fmt.decrypt(cipher, cx.sha256(seed + tk), iv, enc)
    if comp == 'gz':
        data = fmt.ungz(data)
    # the items of the inner header, in any order up to the end marker
    at, got, bins = 0, {}, []
    while True:
        i, n = int.from_bytes(data[at:at + 1], 'little'), int.from_bytes(data[at + 1:at + 5], 'little')
        v = data[at + 5:at + 5 + n]
        at = at + 5 + n
        if i == 0:
            break
        if i == 3:
            bins.append(v)
        else:
            got[i] = v
    cx.check(got == {1: fmt.u32(3), 2: kp.payload.inner_header.protected_stream_key.data}, 'inner header')
    cx.check(len(bins) == 1, 'one attachment')
    cx.check(bins[0] == b'\x01' + b, 'attachment with its flag')
    cx.check(cx.tree_eq(etree.fromstring(data[at:], etree.XMLParser(huge_tree=True)), kp.tree), 'document')


@scenario(cipher=['aes256', 'chacha20', 'twofish'], comp=['gz', 'raw'])
def written3(cx, cipher, comp):
    base = 'v3_%s_%s' % (cipher, comp)
    kp = cx.db(base)
    cx.unlimit(2 ** 19)
    pw, t = cx.str('pw', valid=False), cx.str('t', lo=1)
    kp.password = pw
    kp.add_group(kp.root_group, t)
    out = save(cx, kp).getvalue()
    hd = kp.kdbx.header.value.dynamic_header
    tk = fmt.aes_kdf(cx, hd.transform_seed.data, hd.transform_rounds.data, fmt.composite(cx, pw))
    data = fmt.decrypt(cipher, cx.sha256(hd.master_seed.data + tk), hd.encryption_iv.data, out[len(kp.kdbx.header.data):])
    cx.check(data[:32] == hd.stream_start_bytes.data, 'start bytes')
    n = int.from_bytes(data[68:72], 'little')
    block = data[72:72 + n]
    cx.check(data[32:36] == b'\0\0\0\0', 'block index')
    cx.check(data[36:68] == cx.sha256(block), 'block hash')
    if comp == 'gz':
        block = fmt.ungz(block)
    cx.check(cx.tree_eq(etree.fromstring(block, etree.XMLParser(huge_tree=True)), kp.tree), 'document')
    cx.check(data[72 + n:] == b'\1\0\0\0' + b'\0' * 36, 'last block')


def items4(cx, head):
    """the fields of a KDBX4 header, by the format; -> dict of fields, dict of key derivation parameters"""
    at, got = 12, {}
    while True:
        i, n = int.from_bytes(head[at:at + 1], 'little'), int.from_bytes(head[at + 1:at + 5], 'little')
        got[i] = head[at + 5:at + 5 + n]
        at = at + 5 + n
        if i == 0:
            break
    p, at, d = got.pop(11), 2, {}
    while True:
        t = int.from_bytes(p[at:at + 1], 'little')
        if t == 0:
            break
        n = int.from_bytes(p[at + 1:at + 5], 'little')
        k = p[at + 5:at + 5 + n]
        at = at + 5 + n
        n = int.from_bytes(p[at:at + 4], 'little')
        d[bytes(k)] = (t, p[at + 4:at + 4 + n])
        at = at + 4 + n
    return got, d


@scenario(how=['in place', 'more'])
def kept4(cx, how):
    """what others put into the header is kept when the file is saved: parameters of every type, comment, public data"""
    extra = {b'u4': (4, 4), b'u8': (5, 8), b'flag': (8, 1), b'i4': (12, 4), b'i8': (13, 8), b'data': (0x42, None), b'text': (0x18, None)}
    salt, seed, iv = cx.blob('salt', lo=32, hi=32), cx.blob('seed', lo=32, hi=32), cx.blob('iv', lo=16, hi=16)
    vals = {b'$UUID': (0x42, fmt.KDFS['aeskdf']), b'R': (5, struct.pack('<Q', 2)), b'S': (0x42, salt)}
    for k, (t, n) in extra.items():
        if t == 0x18:
            v = cx.str('text', lo=1, hi=100).encode('utf-8')
        elif t == 8:
            v = bytes([cx.choice('flag', [0, 1])])
        else:
            v = cx.bytes(k.decode(), n) if n else cx.blob(k.decode(), lo=1, hi=64)
        vals[k] = (t, v)
    keys = list(vals)
    if cx.flip('order'):
        keys = keys[::-1]
    params = fmt.variant([fmt.vitem(vals[k][0], k, vals[k][1]) for k in keys])
    comment, public = cx.blob('comment', lo=0, hi=64), cx.blob('public', lo=1, hi=64)
    h = fmt.header4('aes256', False, seed, iv, params, extra=fmt.field4(1, comment) + fmt.field4(12, public))
    tk = fmt.aes_kdf(cx, salt, 2, fmt.composite(cx, 'pw'))
    xml = etree.tostring(cx.db(V4).tree)
    data = fmt.inner4(3, b'k' * 64, []) + xml
    src = h + fmt.body4(cx, h, seed, tk, fmt.encrypt('aes256', cx.sha256(seed + tk), iv, data))
    kp = PyKeePass(cx.bio(src), password='pw')
    if how == 'more':
        kp.add_group(kp.root_group, cx.str('t', lo=1, hi=100))
        kp.password = 'other'
    out = save(cx, kp).getvalue()
    got, d = items4(cx, out)
    cx.check(got[1] == comment, 'comment')
    cx.check(got[12] == public, 'public custom data')
    cx.check(got[2] == fmt.CIPHERS['aes256'], 'cipher')
    cx.check(got[3] == fmt.u32(0), 'compression')
    cx.check(set(d) == set(vals), 'names of the parameters')
    for k in vals:
        cx.check(d[k][0] == vals[k][0], 'type of parameter ' + k.decode())
        cx.check(d[k][1] == vals[k][1], 'value of parameter ' + k.decode())
    kp2 = PyKeePass(cx.bio(out), password=kp.password)
    cx.check(cx.tree_eq(kp2.tree, kp.tree), 'content')


BOOL = ('Expires', 'Enabled', 'RecycleBinEnabled', 'ProtectTitle', 'ProtectUserName', 'ProtectPassword', 'ProtectURL', 'ProtectNotes', 'IsExpanded')
TIME = ('CreationTime', 'LastModificationTime', 'LastAccessTime', 'ExpiryTime', 'LocationChanged', 'MasterKeyChanged', 'RecycleBinChanged',
        'DatabaseNameChanged', 'DatabaseDescriptionChanged', 'DefaultUserNameChanged', 'EntryTemplatesGroupChanged', 'SettingsChanged')
INT = ('UsageCount', 'MaintenanceHistoryDays', 'MasterKeyChangeRec', 'MasterKeyChangeForce', 'HistoryMaxItems', 'HistoryMaxSize', 'DataTransferObfuscation')
UUID = ('UUID', 'RecycleBinUUID')


def valid(cx, kp):
    """every element of a fixed type holds a value of that type, as the format writes it"""
    import base64, re
    n = 0
    for el in list(kp.tree.getroot().iter()):
        if el.tag in BOOL:
            cx.check(txt(el.text).lower() in ('true', 'false', 'null'), el.tag + ' is a boolean')
        elif el.tag in TIME:
            if kp.version >= (4, 0):
                cx.check(len(base64.b64decode(el.text)) == 8, el.tag + ' is a binary time')
            else:
                cx.check(kp._decode_time(el.text).tzinfo is not None, el.tag + ' is a time in text')
        elif el.tag in INT:
            cx.check(int(el.text) is not None, el.tag + ' is a number')
        elif el.tag in UUID:
            cx.check(len(base64.b64decode(el.text)) == 16, el.tag + ' has 16 bytes')
        elif 'Protected' in el.attrib:
            cx.check(el.get('Protected') in ('True', 'False'), 'protection mark is a boolean')
        elif el.tag == 'Value' and el.getparent().tag == 'Binary':
            cx.check(0 <= int(el.get('Ref')) < len(kp.binaries), 'attachment to an existing binary')
        else:
            continue
        n += 1
    cx.check(n > 20, 'there is something to look at')
    for e in list(kp.tree.getroot().iter('Entry')) + list(kp.tree.getroot().iter('Group')):
        for tag in ('UUID', 'Times') if e.tag == 'Entry' else ('UUID', 'Times', 'Name'):
            cx.check(len(e.findall(tag)) == 1, 'one %s in every %s' % (tag, e.tag))
        if e.tag == 'Entry':
            keys = [s.find('Key').text for s in e.findall('String')]
            for k in ('Title', 'UserName', 'Password'):
                cx.check(keys.count(k) == 1, 'one %s in every entry' % k)


@scenario(base=[V3, V4])
def document(cx, base):
    """what any operation leaves in the document is valid"""
    from props.c01 import start, ops
    kp = start(cx, base)
    ops(cx, kp, 0, 1)
    d = cx.datetime('d', step=1000000)
    x = cx.choice('also', ['times', 'touch', 'settings', 'credentials', 'new'])
    if x == 'times':
        x2 = cx.flip('expires')
        for e in kp.entries[:1] + kp.groups[1:2]:
            e.expiry_time, e.ctime, e.mtime, e.atime, e.expires = d, d, d, d, x2
    elif x == 'touch':
        for e in kp.entries[:1] + kp.groups[1:2]:
            e.touch(modify=True)
    elif x == 'settings':
        kp.database_name, kp.database_description, kp.default_username = 'a', 'b', 'c'
        kp.credchange_required_days, kp.credchange_recommended_days = cx.int('days', -1, 100), 5
        kp.credchange_date = d
    elif x == 'credentials':
        kp.password = 'other'
    else:
        from pykeepass.entry import Entry
        e = kp.add_entry(kp.root_group, 'n', 'u', 'p', expiry_time=d, tags=['a'], otp='o', icon='3', force_creation=True)
        e.autotype_enabled = cx.flip('autotype')
        kp.root_group.append(Entry('made', 'u', 'p', kp=kp))
    valid(cx, kp)


@scenario(base=[V3, V4], op=['open', 'save'])
def given_key(cx, base, op):
    """a transformed key given by the caller is used as it is, whatever other credentials are given with it"""
    kp = cx.db(base)
    a, b = cx.str('a', valid=False), cx.str('b', valid=False)
    kp.password = a
    data = save(cx, kp).getvalue()
    tk = PyKeePass(cx.bio(data), password=a).transformed_key
    cx.put('key', b'some key')
    other = {'password': b if cx.flip('with password') else None, 'keyfile': cx.path('key') if cx.flip('with keyfile') else None}
    if op == 'open':
        k = PyKeePass(cx.bio(data), transformed_key=tk, **other)
        cx.check(cx.tree_eq(k.tree, kp.tree), 'opens')
        cx.check(k.transformed_key == tk, 'transformed key')
    else:
        kp.password, kp.keyfile = other['password'], other['keyfile']
        s = cx.bio()
        kp.save(s, transformed_key=tk)
        s.seek(0)
        k = PyKeePass(s, password=a)
        cx.check(cx.tree_eq(k.tree, kp.tree), 'saved with this key')
        cx.check(k.transformed_key == tk, 'transformed key')
