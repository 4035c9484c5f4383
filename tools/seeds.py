SEEDS = [
 dict(id='S01', property='C04', edits=[('kdbx_parsing/common.py', '        while i < len(payload_data):\n', '        while i + 1 < len(payload_data):\n')],
      needs='a stream-cipher payload whose length is 1 modulo 2^20', breaks='the last byte of the payload is dropped and the file cannot be read again',
      demo='''
kp = PyKeePass('tests/test4_chacha20_uncompressed.kdbx', password='password')
def payload():
    s = io.BytesIO(); kp.save(s); s.seek(0)
    n = len(s.getvalue()); return s, n
i = kp.add_binary(b'')
def size(n):
    kp.payload.inner_header.binary[i].data = b'\\x01' + b'x' * n
    return payload()
# find the payload length from the number of bytes before the last block
def total(s):
    d = s.getvalue(); import struct
    p = len(kp.kdbx.header.data) + 64; t = 0
    while True:
        k = struct.unpack('<I', d[p + 32:p + 36])[0]
        t += k; p += 36 + k
        if k == 0: return t
t0 = total(size(0)[0])
s, _ = size(2**20 + 1 - t0)
PyKeePass(s, password='password')
'''),
 dict(id='S02', property='C05', edits=[('kdbx_parsing/common.py', "            if version.startswith('1.0'):", "            if version == '1.00':")],
      needs='an XML key file of version "1.0" rather than "1.00"', breaks='such a key file is hashed as plain bytes: databases locked with it no longer open',
      demo='''
import base64, hashlib
from pykeepass.kdbx_parsing.common import compute_key_composite
x = b'<?xml version="1.0"?><KeyFile><Meta><Version>1.0</Version></Meta><Key><Data>' + base64.b64encode(bytes(range(32))) + b'</Data></Key></KeyFile>'
assert compute_key_composite(None, io.BytesIO(x)) == hashlib.sha256(bytes(range(32))).digest()
'''),
 dict(id='S03', property='C02', edits=[('kdbx_parsing/common.py', "password.encode('utf-8')).digest()", "password.rstrip('\\n').encode('utf-8')).digest()")],
      needs='passwords that differ by trailing newlines', breaks='a database opens with a password other than its own',
      demo='''
kp = create_database(D + '/a.kdbx', password='a')
try:
    PyKeePass(D + '/a.kdbx', password='a\\n')
except Exception as e:
    sys.exit(0)
sys.exit(1)
'''),
 dict(id='S04', property='C06', edits=[('kdbx_parsing/kdbx4.py', "            parallelism=kdf_parameters['P'].value,\n            version=kdf_parameters['V'].value\n", "            parallelism=kdf_parameters['P'].value\n")],
      needs='a database whose Argon2 version parameter is 0x10', breaks='the transformed key ignores the version in the header: such files do not open',
      demo='''
import argon2, hashlib
p = bytes.fromhex('03d9a29a67fb4bb5') + b'\\0\\0\\4\\0'
def item(t, d): return bytes([t]) + len(d).to_bytes(4, 'little') + d
def v(t, k, d): return bytes([t]) + len(k).to_bytes(4, 'little') + k + len(d).to_bytes(4, 'little') + d
kdf = b'\\0\\1' + v(0x42, b'$UUID', bytes.fromhex('ef636ddf8c29444b91f7a9a403e30a0c')) + v(0x42, b'S', b's' * 32) + v(5, b'I', (1).to_bytes(8, 'little')) + v(5, b'M', (65536).to_bytes(8, 'little')) + v(4, b'P', (1).to_bytes(4, 'little')) + v(4, b'V', (16).to_bytes(4, 'little')) + b'\\0'
h = p + item(2, bytes.fromhex('31c1f2e6bf714350be5805216afc5aff')) + item(3, b'\\1\\0\\0\\0') + item(4, b'm' * 32) + item(7, b'i' * 16) + item(11, kdf) + item(0, b'\\r\\n\\r\\n')
kp = PyKeePass(io.BytesIO(h + hashlib.sha256(h).digest()), password='p', decrypt=False)
c = hashlib.sha256(hashlib.sha256(b'p').digest()).digest()
assert kp.transformed_key == argon2.low_level.hash_secret_raw(secret=c, salt=b's' * 32, time_cost=1, memory_cost=64, parallelism=1, hash_len=32, type=argon2.low_level.Type.D, version=16)
'''),
 dict(id='S05', property='C01', edits=[('kdbx_parsing/common.py', "'[^\\u0020-\\uD7FF\\u0009\\u000A\\u000D\\uE000-\\uFFFD\\U00010000-\\U0010FFFF]+'", "'[^\\u0020-\\uD7FF\\u0009\\u000A\\u000D\\uE000-\\uFFFD\\U00010000-\\U0001FFFF]+'")],
      needs='a protected value with a character of plane 2 or above', breaks='the characters vanish from passwords on reading',
      demo='''
kp = create_database(D + '/a.kdbx', password='a')
kp.add_entry(kp.root_group, 't', 'u', 'x\\U00020000y')
kp.save()
assert PyKeePass(D + '/a.kdbx', password='a').entries[0].password == 'x\\U00020000y'
'''),

 dict(id='S06', property='C07', edits=[('kdbx_parsing/pytwofish.py', "pkey.q_tab[0][by] ^ byte(key[2], 2)] ^ byte(key[1], 2)] ^ byte(key[0], 2)];\n            pkey.mk_tab[3][i] = pkey.m_tab[3][pkey.q_tab[1][pkey.q_tab[1][pkey.q_tab[0][by]", "pkey.q_tab[0][by] ^ byte(key[2], 2)] ^ byte(key[1], 2)] ^ byte(key[0], 2)];\n            pkey.mk_tab[3][i] = pkey.m_tab[3][pkey.q_tab[1][pkey.q_tab[0][pkey.q_tab[0][by]")],
      needs='a key of 192 bits', breaks='encryption is not Twofish for such keys (it still decrypts its own output)',
      demo="""
from pykeepass.kdbx_parsing.pytwofish import Twofish
k = bytes.fromhex('EFA71F788965BD4453F860178FC191010000000000000000')
# vector of the submission, iteration 3
assert Twofish(bytes.fromhex('88B2B2706B105E36B446BB6D731A1E88EFA71F788965BD44')).encrypt(bytes.fromhex('39DA69D6BA4997D585B6DC073CA341B2')) == bytes.fromhex('182B02D81497EA45F9DAACDC29193A65')
"""),
 dict(id='S07', property='C08', edits=[('kdbx_parsing/twofish.py', "            decrypted_blocks = b''\n            self.cache += data\n            if len(self.cache) < self.blocksize:", "            decrypted_blocks = b''\n            self.cache += data\n            if len(data) < self.blocksize:")],
      needs='decryption of data that comes in pieces shorter than a block', breaks='decrypted blocks come late or never',
      demo="""
from pykeepass.kdbx_parsing.twofish import Twofish
a = Twofish.new(b'k' * 32, mode=Twofish.MODE_CBC, IV=b'i' * 16)
c = a.encrypt(b'p' * 32)
b = Twofish.new(b'k' * 32, mode=Twofish.MODE_CBC, IV=b'i' * 16)
assert b''.join(b.decrypt(c[i:i + 8]) for i in range(0, 32, 8)) == b'p' * 32
"""),
 dict(id='S08', property='C08', edits=[('kdbx_parsing/common.py', "        return Twofish.new(master_key, mode=Twofish.MODE_CBC, IV=encryption_iv)\n    def pad(self, data):\n        return CryptoPadding.pad(data, 16)", "        return Twofish.new(master_key, mode=Twofish.MODE_CBC, IV=encryption_iv)\n    def pad(self, data):\n        return CryptoPadding.pad(data, 16) if len(data) % 16 else data")],
      needs='a Twofish payload whose length is a multiple of 16', breaks='no padding is added: other programs cannot read the file',
      demo="""
from pykeepass.kdbx_parsing.common import TwoFishPayload
from construct import GreedyBytes
p = TwoFishPayload(GreedyBytes)
assert p.unpad(p.pad(b'0' * 32)) == b'0' * 32
"""),
 dict(id='S09', property='C09', edits=[('kdbx_parsing/common.py', "        for elem in tree_copy.xpath(self.protected_xpath):\n            if elem.text is not None:\n", "        for elem in tree_copy.xpath(self.protected_xpath):\n            if elem.text is not None and elem.text.strip():\n")],
      needs='a protected value of blanks only', breaks='it is written unencrypted and gone after reading',
      demo="""
kp = create_database(D + '/a.kdbx', password='a')
kp.add_entry(kp.root_group, 't', 'u', '   ')
kp.save()
assert PyKeePass(D + '/a.kdbx', password='a').entries[0].password == '   '
"""),
 dict(id='S10', property='C10', edits=[('pykeepass.py', "            shutil.move(filename_tmp, filename)\n", "            shutil.copyfile(filename_tmp, filename)\n            os.remove(filename_tmp)\n")],
      needs='a crash or a fault while the finished file is put in place', breaks='the target is overwritten in place and left truncated',
      demo="""
import shutil as sh
kp = create_database(D + '/a.kdbx', password='a')
old = open(D + '/a.kdbx', 'rb').read()
kp.add_group(kp.root_group, 'g')
import builtins
real = builtins.open
# a write to the target itself fails half way
class Bad:
    def __init__(self, f): self.f = f
    def __getattr__(self, n): return getattr(self.f, n)
    def __enter__(self): return self
    def __exit__(self, *a): self.f.close()
    def write(self, d): self.f.write(bytes(d)[:10]); raise OSError('disk full')
def fake(name, mode='r', *a, **k):
    f = real(name, mode, *a, **k)
    return Bad(f) if 'w' in mode and str(name) == D + '/a.kdbx' else f
builtins.open = fake
for n in ('_fastcopy_sendfile',):
    if hasattr(sh, n):
        def no(a, b): raise sh._GiveupOnFastCopy(None)
        setattr(sh, n, no)
try:
    kp.save()
except OSError:
    pass
builtins.open = real
PyKeePass(D + '/a.kdbx', password='a')
"""),
 dict(id='S11', property='C11', edits=[('entry.py', "        return self._set_string_field('URL', value)", "        return self._set_string_field('URL', value, False)")],
      needs='an entry whose URL is marked as protected', breaks='setting the URL removes its protection mark',
      demo="""
kp = create_database(D + '/a.kdbx', password='a')
e = kp.add_entry(kp.root_group, 't', 'u', 'p', url='x')
e._element.xpath('String[Key="URL"]/Value')[0].set('Protected', 'True')
e.url = 'y'
assert e._is_property_protected('URL')
"""),
 dict(id='S12', property='C12', edits=[('entry.py', "        if key not in self._get_string_field_keys(exclude_reserved=True):", "        if key not in self._get_string_field_keys():")],
      needs='deleting a reserved name', breaks='title or password of an entry can be deleted as a custom property',
      demo="""
kp = create_database(D + '/a.kdbx', password='a')
e = kp.add_entry(kp.root_group, 't', 'u', 'p')
try:
    e.delete_custom_property('Title')
except Exception:
    pass
assert e.title == 't'
"""),
 dict(id='S13', property='C13', edits=[('pykeepass.py', "                if value is not None:\n", "                if value:\n")],
      needs='a search for entries with autotype disabled', breaks='the condition is dropped and all entries are returned',
      demo="""
kp = create_database(D + '/a.kdbx', password='a')
e = kp.add_entry(kp.root_group, 't', 'u', 'p')
assert kp.find_entries(autotype_enabled=False) == []
"""),
 dict(id='S14', property='C14', edits=[('pykeepass.py', "            group_path = path[:-1]\n", "            group_path = [g.strip() for g in path[:-1]]\n")],
      needs='a group whose name starts or ends with a blank', breaks='paths through that group find nothing or another entry',
      demo="""
kp = create_database(D + '/a.kdbx', password='a')
g = kp.add_group(kp.root_group, 'g ')
e = kp.add_entry(g, 't', 'u', 'p')
assert kp.find_entries(path=e.path) == e
"""),
 dict(id='S15', property='C15', edits=[('pykeepass.py', "        while len(group.subgroups):\n            self.delete_group(group.subgroups[0])\n        while len(group.entries):\n            self.delete_entry(group.entries[0])\n", "        for entry in self.find_entries(group=group):\n            self.delete_entry(entry)\n        for subgroup in self.find_groups(group=group, recursive=False):\n            if not subgroup.subgroups:\n                self.delete_group(subgroup)\n")],
      needs='emptying a group that has groups two levels below', breaks='subgroups stay behind',
      demo="""
kp = create_database(D + '/a.kdbx', password='a')
g = kp.add_group(kp.root_group, 'g')
kp.add_group(kp.add_group(g, 'h'), 'i')
kp.empty_group(g)
assert g.subgroups == []
"""),
 dict(id='S16', property='C16', edits=[('pykeepass.py', "        existing_group = self.recyclebin_group\n", "        existing_group = self.recyclebin_group or self.find_groups(name='Recycle Bin', first=True)\n")],
      needs='a database without a bin but with a group of that name', breaks='trashed items go to a group that is not the bin of the database',
      demo="""
kp = create_database(D + '/a.kdbx', password='a')
kp.add_group(kp.root_group, 'Recycle Bin')
e = kp.add_entry(kp.root_group, 't', 'u', 'p')
kp.trash_entry(e)
assert kp.recyclebin_group is not None and e.group == kp.recyclebin_group
"""),
 dict(id='S17', property='C17', edits=[('pykeepass.py', "            '//Binary/Value[@Ref > \"{}\"]/..'.format(id),", "            '//Binary[not(ancestor::History)]/Value[@Ref > \"{}\"]/..'.format(id),")],
      needs='an attachment in history to a later binary than the deleted one', breaks='attachments in history point at other data',
      demo="""
kp = create_database(D + '/a.kdbx', password='a')
e = kp.add_entry(kp.root_group, 't', 'u', 'p')
a, b, c = (kp.add_binary(x) for x in (b'a', b'b', b'c'))
e.add_attachment(b, 'f')
e.save_history()
kp.delete_binary(a)
h = kp.find_attachments(filename='f', history=True)
assert [x.data for x in h] == [b'b', b'b']
"""),
 dict(id='S18', property='C18', edits=[('entry.py', "            self._element.find('History').remove(history_entry._element)", "            for h in self.history:\n                if h == history_entry:\n                    self._element.find('History').remove(h._element)")],
      needs='two recorded states with the same modification time', breaks='deleting one of them deletes both',
      demo="""
kp = create_database(D + '/a.kdbx', password='a')
e = kp.add_entry(kp.root_group, 't', 'u', 'p')
e.save_history(); e.title = 'x'; e.save_history()
e.delete_history(e.history[0])
assert [h.title for h in e.history] == ['x']
"""),
 dict(id='S19', property='C19', edits=[('pykeepass.py', "            return value.isoformat()\n", "            return value.replace(tzinfo=timezone.utc).isoformat()\n")],
      needs='a time in another zone than UTC set in a KDBX3 database', breaks='the zone is dropped and the time is off by the UTC offset',
      demo="""
from datetime import *
kp = PyKeePass('tests/test3.kdbx', password='password', keyfile='tests/test3.key')
t = datetime(2030, 1, 2, 3, 4, 5, tzinfo=timezone(timedelta(hours=5)))
e = kp.entries[0]
e.expiry_time = t
assert e.expiry_time == t
"""),
 dict(id='S20', property='C20', edits=[('pykeepass.py', "        return (now_date - change_date).days > self.credchange_required_days", "        return (now_date.date() - change_date.date()).days > self.credchange_required_days")],
      needs='a last change late in a day and a check early in a day', breaks='the change is required up to a day too early',
      demo="""
from datetime import *
import pykeepass.pykeepass as m
class T(datetime):
    @classmethod
    def now(cls, tz=None): return datetime(2030, 1, 3, 1, 0, 0, tzinfo=timezone.utc)
kp = create_database(D + '/a.kdbx', password='a')
kp.credchange_date = datetime(2030, 1, 1, 23, 0, 0, tzinfo=timezone.utc)
kp.credchange_required_days = 1
m.datetime = T
assert not kp.credchange_required
"""),
 dict(id='S21', property='C21', edits=[('pykeepass.py', "r'({REF:([TUPANI])@([TUPANI]):([^}]+)})'", "r'({REF:([TUPANI])@([TUPANI]):([^}\\s]+)})'")],
      needs='a reference that searches for a text with blanks', breaks='the reference is returned unresolved',
      demo="""
kp = create_database(D + '/a.kdbx', password='a')
kp.add_entry(kp.root_group, 'a b', 'user', 'p')
assert kp.deref('{REF:U@T:a b}') == 'user'
"""),
 dict(id='S22', property='C22', edits=[('kdbx_parsing/kdbx.py', "    return ctx.sig1 == b'\\x03\\xd9\\xa2\\x9a' and ctx.sig2 == b'\\x67\\xFB\\x4B\\xB5'", "    return ctx.sig1 == b'\\x03\\xd9\\xa2\\x9a' and ctx.sig2[1:] == b'\\xFB\\x4B\\xB5'")],
      needs='a file with the signature of a KeePass 2 pre-release or of KeePass 1', breaks='a foreign file is accepted as a KeePass database',
      demo="""
d = bytearray(open('tests/test3.kdbx', 'rb').read())
d[4] = 0x66
try:
    PyKeePass(io.BytesIO(bytes(d)), password='password', keyfile='tests/test3.key')
except Exception:
    sys.exit(0)
sys.exit(1)
"""),
 dict(id='S25', property='C25', edits=[('pykeepass.py', "        if icon:\n            group = Group(name=group_name, icon=icon, notes=notes, kp=self)\n        else:\n            group = Group(name=group_name, notes=notes, kp=self)\n        destination_group.append(group)\n", "        group = Group(name=group_name, notes=notes, kp=self)\n        destination_group.append(group)\n        if icon:\n            group.icon = icon\n")],
      needs='an icon that is refused', breaks='add_group fails but the group is in the database',
      demo="""
kp = create_database(D + '/a.kdbx', password='a')
n = len(kp.groups)
try:
    kp.add_group(kp.root_group, 'g', icon='\\x00')
except Exception:
    pass
assert len(kp.groups) == n
"""),
 dict(id='S26', property='C26', edits=[('pykeepass.py', "    keepass_instance.password = password\n", "    keepass_instance.password = password or ''\n")],
      needs='a new database with a key file or transformed key only', breaks='the database is locked with an empty password as well',
      demo="""
open(D + '/k', 'wb').write(b'k' * 32)
create_database(D + '/a.kdbx', keyfile=D + '/k')
PyKeePass(D + '/a.kdbx', keyfile=D + '/k')
"""),
 dict(id='S27', property='C03', edits=[('kdbx_parsing/kdbx4.py', "    \"hmac_hash\" / Pointer(\n        this.hmac_hash_offset,\n        Checksum(\n            Bytes(32),\n            compute_payload_block_hash,\n            this,\n            # exception=PayloadChecksumError\n        )\n    )\n", "    \"hmac_hash\" / Pointer(\n        this.hmac_hash_offset,\n        IfThenElse(\n            this._parsing,\n            If(lambda c: len(c.block_data) > 0, Checksum(Bytes(32), compute_payload_block_hash, this)),\n            Checksum(Bytes(32), compute_payload_block_hash, this)\n        )\n    )\n")],
      needs='a file cut between two blocks and closed with an empty block', breaks='the end of the payload is not authenticated',
      demo="""
kp = PyKeePass('tests/test4_chacha20.kdbx', password='password', keyfile='tests/test4.key')
s = io.BytesIO(); kp.save(s)
d = bytearray(s.getvalue())
d[-10] ^= 1
try:
    PyKeePass(io.BytesIO(bytes(d)), password='password', keyfile='tests/test4.key')
except Exception:
    sys.exit(0)
sys.exit(1)
"""),

 dict(id='S28', property='C27', edits=[('kdbx_parsing/common.py', "        return Twofish.new(master_key, mode=Twofish.MODE_CBC, IV=encryption_iv)\n    def pad(self, data):\n        return CryptoPadding.pad(data, 16)\n    def unpad(self, data):\n        return CryptoPadding.unpad(data, 16)\n", "        return Twofish.new(master_key, mode=Twofish.MODE_CBC, IV=encryption_iv)\n    def pad(self, data):\n        return CryptoPadding.pad(data, 16)\n    def unpad(self, data):\n        n = data[-1]\n        if n > 16 or data[-n:] != bytes([n]) * n:\n            raise PayloadChecksumError('Error reading database contents')\n        return data[:-n]\n"),
                                       ('kdbx_parsing/common.py', "from .twofish import Twofish\n", "from ..exceptions import PayloadChecksumError\nfrom .twofish import Twofish\n")],
      needs='wrong credentials for a KDBX3 database with Twofish', breaks='wrong credentials are reported as a damaged file',
      demo='''
from pykeepass.exceptions import CredentialsError
import base64
from pykeepass.kdbx_parsing import kdbx3
kp = PyKeePass('tests/test3.kdbx', password='password', keyfile='tests/test3.key')
h = kp.kdbx.header.value.dynamic_header
h.cipher_id.data = 'twofish'
kp.kdbx.header.pop('data', None)
kp.save(D + '/a.kdbx')
assert PyKeePass(D + '/a.kdbx', password='password', keyfile='tests/test3.key').encryption_algorithm == 'twofish'
for i in range(5):
    try:
        PyKeePass(D + '/a.kdbx', password='x%d' % i)
    except CredentialsError:
        pass
'''),
 dict(id='S29', property='C28', edits=[('group.py', "        return [Entry(element=x, kp=self._kp) for x in self._element.findall('Entry')]", "        if getattr(self, '_entries', None) is None or len(self._entries) != len(self._element.findall('Entry')):\n            self._entries = [Entry(element=x, kp=self._kp) for x in self._element.findall('Entry')]\n        return list(self._entries)")],
      needs='a group handle whose entries were looked at, then one entry taken away and another added through other handles', breaks='the group goes on to list the entry that was taken away',
      demo='''
kp = create_database(D + '/a.kdbx', password='a')
g = kp.add_group(kp.root_group, 'g')
a = kp.add_entry(g, 'a', 'u', 'p')
assert [e.title for e in g.entries] == ['a']
kp.delete_entry(a)
kp.add_entry(g, 'b', 'u', 'p')
assert [e.title for e in g.entries] == ['b']
'''),
 dict(id='S30', property='C29', edits=[('pykeepass.py', "        if hasattr(filename, \"write\"):\n            KDBX.build_stream(\n", "        if hasattr(filename, \"write\"):\n            self.filename = filename\n            KDBX.build_stream(\n")],
      needs='a database opened from a file, saved to a stream, changed and saved again', breaks='the second save goes to the stream, the file keeps the old content',
      demo='''
create_database(D + '/a.kdbx', password='a')
kp = PyKeePass(D + '/a.kdbx', password='a')
kp.save(io.BytesIO())
kp.add_entry(kp.root_group, 't', 'u', 'p')
kp.save()
assert PyKeePass(D + '/a.kdbx', password='a').find_entries(title='t')
'''),
 dict(id='S31', property='C29', edits=[('pykeepass.py', "            shutil.move(filename_tmp, filename)\n", "            if os.path.islink(filename):\n                filename = self.filename\n            shutil.move(filename_tmp, filename)\n")],
      needs='saving elsewhere, to a name that is a symbolic link', breaks='the own file of the database is overwritten instead',
      demo='''
create_database(D + '/a.kdbx', password='a')
create_database(D + '/b.kdbx', password='b')
os.symlink(D + '/b.kdbx', D + '/l')
kp = PyKeePass(D + '/a.kdbx', password='a')
old = open(D + '/a.kdbx', 'rb').read()
kp.save(D + '/l')
assert open(D + '/a.kdbx', 'rb').read() == old
PyKeePass(D + '/l', password='a')
'''),
]
SEEDS += [
 dict(id='S32', property='C30', edits=[('pykeepass.py', "        with open(filename, 'wb') as f:\n            f.write(self.xml())\n", "        # keep the permissions of an existing file\n        with open(filename, 'r+b' if os.path.exists(filename) else 'wb') as f:\n            f.write(self.xml())\n")],
      needs='a dump to a file that exists and is longer than the new dump', breaks='the file ends with the rest of what it had before, and is no XML',
      demo='''
from lxml import etree
kp = create_database(D + '/a.kdbx', password='a')
e = kp.add_entry(kp.root_group, 't', 'u', 'p', notes='x' * 10000)
kp.dump_xml(D + '/x.xml')
etree.parse(D + '/x.xml')
kp.delete_entry(e)
kp.dump_xml(D + '/x.xml')
assert not etree.parse(D + '/x.xml').findall('.//Entry')
'''),
 dict(id='S33', property='C31', edits=[('entry.py', "        while p is not None and not p.is_root_group:\n", "        while not p.is_root_group:\n")],
      needs='an entry below a group that was deleted', breaks='printing the entry or asking for its path raises AttributeError',
      demo='''
kp = create_database(D + '/a.kdbx', password='a')
g = kp.add_group(kp.root_group, 'g')
e = kp.add_entry(g, 't', 'u', 'p')
assert str(e) == 'Entry: "g/t (u)"'
kp.delete_group(g)
assert str(e) == 'Entry: "g/t (u)"'
'''),
]
SEEDS += [
 dict(id='S34', property='C18', edits=[('entry.py', "            archive.remove(hist)\n", "            archive.remove(hist)\n            if len(hist) > 0 and len(self._element.find('History')) >= 10:\n                self._element.find('History').remove(self._element.find('History')[0])\n")],
      needs='more than ten recorded states', breaks='the oldest state is dropped when a new one is recorded',
      demo='''
kp = create_database(D + '/a.kdbx', password='a')
e = kp.add_entry(kp.root_group, 't', 'u', 'p')
for i in range(15):
    e.password = 'p%d' % i
    e.save_history()
assert [h.password for h in e.history] == ['p%d' % i for i in range(15)]
'''),
 dict(id='S35', property='C21', edits=[('pykeepass.py', "            value = value.replace(ref, replacement or '')", "            value = re.sub(re.escape(ref), replacement or '', value)")],
      needs='a reference to a field that contains a backslash', breaks='the content is read as a replacement pattern: an error or another text',
      demo='''
kp = create_database(D + '/a.kdbx', password='a')
kp.add_entry(kp.root_group, 't', 'u', 'C:\\\\new\\\\1')
assert kp.deref('{REF:P@T:t}') == 'C:\\\\new\\\\1'
'''),
 dict(id='S36', property='C28', edits=[('baseelement.py', "        b64_uuid = self._get_subelement_text('UUID')\n        return uuid.UUID(bytes=base64.b64decode(b64_uuid))", "        if getattr(self, '_uuid', None) is None:\n            b64_uuid = self._get_subelement_text('UUID')\n            self._uuid = uuid.UUID(bytes=base64.b64decode(b64_uuid))\n        return self._uuid"), ('baseelement.py', "        b64_uuid = base64.b64encode(uuid.bytes).decode('utf-8')\n        return", "        b64_uuid = base64.b64encode(uuid.bytes).decode('utf-8')\n        self._uuid = None\n        return")],
      needs='two handles of one item, both asked for its UUID before one of them sets it', breaks='the other handle keeps showing the old UUID and no longer equals the first',
      demo='''
import uuid
kp = create_database(D + '/a.kdbx', password='a')
e = kp.add_entry(kp.root_group, 't', 'u', 'p')
f = kp.entries[0]
assert e == f
f.uuid = uuid.UUID(int=5)
assert e.uuid == f.uuid and e == f
'''),
 dict(id='S37', property='C05', edits=[('kdbx_parsing/common.py', "            with open(keyfile, 'rb') as f:\n                keyfile_bytes = f.read()\n", "            if keyfile not in _keyfiles:\n                with open(keyfile, 'rb') as f:\n                    _keyfiles[keyfile] = f.read()\n            keyfile_bytes = _keyfiles[keyfile]\n"), ('kdbx_parsing/common.py', "# -------------------- Key Computation --------------------\n", "# -------------------- Key Computation --------------------\n_keyfiles = {}\n\n\n")],
      needs='a key file that is replaced by another one of the same name within one process', breaks='the old key file is used',
      demo='''
def put(x):
    with open(D + '/k', 'wb') as f:
        f.write(x)
put(b'first')
create_database(D + '/a.kdbx', password='a', keyfile=D + '/k')
put(b'second')
try:
    PyKeePass(D + '/a.kdbx', password='a', keyfile=D + '/k')
except Exception:
    sys.exit(0)
sys.exit(1)
'''),
 dict(id='S38', property='C17', edits=[('attachment.py', "        return int(self._element.find('Value').attrib['Ref'])", "        return int(self._element.find('Value').attrib['Ref'][-2:])")],
      needs='more than a hundred binaries', breaks='an attachment shows the data of another one',
      demo='''
kp = create_database(D + '/a.kdbx', password='a')
e = kp.add_entry(kp.root_group, 't', 'u', 'p')
for i in range(105):
    kp.add_binary(b'%d' % i)
assert e.add_attachment(104, 'f').data == b'104'
'''),
]
