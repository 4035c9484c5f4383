"""Protected values are encrypted on save and stay readable."""
from sx.api import scenario, V3, V4, V41
from props.lib import save, txt
from props import fmt
from pykeepass import PyKeePass
from lxml import etree
from Cryptodome.Cipher import Salsa20, ChaCha20
import base64, copy, struct

BOUNDS = ('up to 5 values (thorough: 7) in up to 2 entries, a history item and a group level, each protected or not, each of any length '
          'and content; both stream ciphers; serialised document below 512 KiB; binaries in KDBX3 files, protected or not, compressed or not, among them')
ASSUMES = ['Salsa20 and ChaCha20 are ideal stream ciphers, the same ones on both sides']


def stream(cx, base, kp):
    """the inner stream as the format defines it"""
    if base.startswith('v3'):
        k = kp.kdbx.header.value.dynamic_header.protected_stream_key.data
        return Salsa20.new(key=cx.sha256(k), nonce=bytes.fromhex('e830094b97205d2a'))
    k = cx.sha512(kp.payload.inner_header.protected_stream_key.data)
    return ChaCha20.new(key=k[:32], nonce=k[32:44])


def stored(cx, base, kp, out):
    """the document as it is in the file"""
    h = len(kp.kdbx.header.data)
    hd = kp.kdbx.header.value.dynamic_header
    if base.startswith('v3'):
        data = fmt.decrypt(hd.cipher_id.data, kp.kdbx.body.master_key, hd.encryption_iv.data, out[h:])
        data = data[72:len(data) - 40]
    else:
        data = fmt.decrypt(hd.cipher_id.data, kp.kdbx.body.master_key, hd.encryption_iv.data, out[h + 100:len(out) - 36])
    if base.endswith('gz'):
        data = fmt.ungz(data)
    if base.startswith('v4'):
        at = 0
        while True:
            i, n = int.from_bytes(data[at:at + 1], 'little'), int.from_bytes(data[at + 1:at + 5], 'little')
            at = at + 5 + n
            if i == 0:
                break
        data = data[at:]
    return etree.fromstring(data, etree.XMLParser(huge_tree=True))


def verify(cx, base, kp, before):
    """what is stored is the document with exactly the marked values encrypted, in order"""
    out = save(cx, kp).getvalue()
    cx.check(cx.tree_eq(kp.tree, before), 'memory unchanged by saving')
    tree = stored(cx, base, kp, out)
    c = stream(cx, base, kp)
    a, b = before.xpath('//Value'), tree.xpath('//Value')
    cx.check(len(a) == len(b), 'number of values')
    for x, y in zip(a, b):
        cx.check(x.get('Protected') == y.get('Protected'), 'mark kept')
        if x.get('Protected') == 'True':
            want = base64.b64encode(c.encrypt(txt(x.text).encode('utf-8'))).decode()
            cx.check(txt(y.text) == want, 'protected value encrypted')
        else:
            cx.check(txt(y.text) == txt(x.text), 'other value as it is')
    # everything else is equal
    for x, y in zip(a, b):
        y.text = x.text
    cx.check(cx.tree_eq(before, tree), 'rest of the document')
    kp2 = PyKeePass(cx.bio(out), password='pw')
    cx.check(cx.tree_eq(kp2.tree, before), 'values come back')
    return kp2


@scenario(base=[V3, V4, 'v3_twofish_raw', 'v4_aes256_aeskdf_raw'])
def mixed(cx, base):
    """protected and unprotected values in any mix"""
    kp = cx.db(base)
    cx.unlimit(2 ** 19)
    e = kp.add_entry(kp.root_group, 't', 'u', cx.str('p0'))
    for i in range(3):
        e.set_custom_property('k%d' % i, cx.str('v%d' % i), protect=cx.flip('f%d' % i))
    f = kp.add_entry(kp.add_group(kp.root_group, 'g'), 't2', 'u2', cx.str('p1'), otp='otp')
    verify(cx, base, kp, copy.deepcopy(kp.tree))


@scenario(base=[V3, V4])
def named(cx, base):
    """whatever the field is called"""
    kp = cx.db(base)
    cx.unlimit(2 ** 19)
    k = cx.str('k', lo=1)
    for r in ('Title', 'UserName', 'Password', 'URL', 'Notes', 'otp', 'Tags', 'IconID', 'Times', 'History'):
        cx.assume(k != r)
    e = kp.add_entry(kp.root_group, 't', 'u', cx.str('p0'))
    e.set_custom_property(k, cx.str('v0'), protect=cx.flip('f'))
    e.set_custom_property('other', cx.str('v1'), protect=True)
    if k == 'other':
        return
    verify(cx, base, kp, copy.deepcopy(kp.tree))


@scenario(base=[V3, V4], quick=False)
def mixed7(cx, base):
    kp = cx.db(base)
    cx.unlimit(2 ** 19)
    e = kp.add_entry(kp.root_group, 't', 'u', cx.str('p0'))
    for i in range(5):
        e.set_custom_property('k%d' % i, cx.str('v%d' % i), protect=cx.flip('f%d' % i))
    kp.add_entry(kp.add_group(kp.root_group, 'g'), 't2', 'u2', cx.str('p1'), otp='otp')
    verify(cx, base, kp, copy.deepcopy(kp.tree))


@scenario(base=[V3, V4, V41])
def history(cx, base):
    """values in history are protected like the others"""
    kp = cx.db(base)
    cx.unlimit(2 ** 19)
    e = kp.add_entry(kp.root_group, 't', 'u', cx.str('p0'))
    e.set_custom_property('k', cx.str('v'), protect=cx.flip('f'))
    e.save_history()
    e.password = cx.str('p1')
    e.notes = cx.str('n')
    e.save_history()
    verify(cx, base, kp, copy.deepcopy(kp.tree))


@scenario(base=[V3, V4], field=['title', 'username', 'url', 'notes', 'password', 'otp'])
def fields(cx, base, field):
    """a mark set by another program stays when the value is replaced"""
    names = {'title': 'Title', 'username': 'UserName', 'url': 'URL', 'notes': 'Notes', 'password': 'Password', 'otp': 'otp'}
    kp = cx.db(base)
    cx.unlimit(2 ** 19)
    e = kp.add_entry(kp.root_group, 't', 'u', 'p', url='a', notes='b', otp='c')
    prot = cx.flip('f')
    e._set_string_field(names[field], cx.str('v', lo=1), prot)
    v = cx.str('w')
    setattr(e, field, v)
    el = e._xpath('String/Key[text()="%s"]/../Value' % names[field], first=True)
    cx.check((el.get('Protected') == 'True') == prot, 'mark kept when the value changes')
    kp2 = verify(cx, base, kp, copy.deepcopy(kp.tree))
    f = kp2.entries[0]
    cx.check(txt(getattr(f, field)) == v, 'value')
    # once more: edit after reading, save, read
    setattr(f, field, cx.str('x'))
    el = f._xpath('String/Key[text()="%s"]/../Value' % names[field], first=True)
    cx.check((el.get('Protected') == 'True') == prot or (field in ('password', 'otp') and cx.truth(v == '')), 'mark kept after reading')
    verify(cx, base, kp2, copy.deepcopy(kp2.tree))


@scenario(base=[V3, V4])
def new(cx, base):
    """passwords and one-time password secrets of new entries are marked"""
    kp = cx.db(base)
    e = kp.add_entry(kp.root_group, 't', 'u', cx.str('p'), otp=cx.str('o', lo=1))
    cx.check(e._is_property_protected('Password'), 'new password is protected')
    cx.check(e._is_property_protected('otp'), 'new secret is protected')
    f = kp.add_entry(kp.root_group, 't2', 'u', '')
    f.password = cx.str('q')
    f.otp = cx.str('o2')
    cx.check(f._is_property_protected('Password'), 'set password is protected')
    cx.check(f._is_property_protected('otp'), 'set secret is protected')
    f.set_custom_property('k', 'v', protect=True)
    cx.check(f.is_custom_property_protected('k'), 'custom property is protected')
    f.set_custom_property('l', 'v')
    cx.check(not f.is_custom_property_protected('l'), 'custom property is not protected')
    cx.check(not f.is_custom_property_protected('m'), 'missing property is not protected')


def written(cx, base, kp, c, also=''):
    """the database as another program writes it"""
    copy_ = copy.deepcopy(kp.tree)
    for x in copy_.xpath("//Value[@Protected='True']" + also):
        if x.tag == 'Binary':
            x.text = base64.b64encode(c.encrypt(base64.b64decode(txt(x.text)))).decode()
        else:
            x.text = base64.b64encode(c.encrypt(txt(x.text).encode('utf-8'))).decode()
    xml = etree.tostring(copy_)
    hd = kp.kdbx.header.value.dynamic_header
    head = kp.kdbx.header.data
    if base.startswith('v3'):
        data = hd.stream_start_bytes.data + fmt.blocks3(cx, fmt.gz(xml))
        return head + fmt.encrypt(hd.cipher_id.data, kp.kdbx.body.master_key, hd.encryption_iv.data, data)
    data = fmt.gz(fmt.inner4(3, kp.payload.inner_header.protected_stream_key.data) + xml)
    enc = fmt.encrypt(hd.cipher_id.data, kp.kdbx.body.master_key, hd.encryption_iv.data, data)
    return head + fmt.body4(cx, head, hd.master_seed.data, kp.transformed_key, enc)


@scenario(base=[V3, V4])
def foreign(cx, base):
    """a document written by another program: values in any order and place"""
    kp = cx.db(base)
    cx.unlimit(2 ** 19)
    e = kp.add_entry(kp.root_group, 't', 'u', 'p')
    tree = kp.tree
    c = stream(cx, base, kp)
    vals, prots = [], []
    el = e._element
    for i in range(4):
        v, prot = cx.str('v%d' % i), cx.flip('f%d' % i)
        s = etree.SubElement(el, 'String')
        etree.SubElement(s, 'Key').text = 'k%d' % i
        x = etree.SubElement(s, 'Value')
        if prot:
            x.set('Protected', 'True')
        elif i % 2:
            x.set('Protected', 'False')
        x.text = v
        vals.append(v)
        prots.append(prot)
    want = copy.deepcopy(tree)
    src = written(cx, base, kp, c)
    kp2 = PyKeePass(cx.bio(src), password='pw')
    f = kp2.entries[0]
    for i in range(4):
        cx.check(txt(f.get_custom_property('k%d' % i)) == vals[i], 'value of another program')
        cx.check(f.is_custom_property_protected('k%d' % i) == prots[i], 'mark of another program')
    cx.check(cx.tree_eq(kp2.tree, want), 'whole document')


@scenario(base=[V3, 'v3_twofish_gz'])
def binaries(cx, base):
    """KDBX3: binaries are part of the document, and another program may have protected them"""
    kp = cx.db(base)
    cx.unlimit(2 ** 19)
    e = kp.add_entry(kp.root_group, 't', 'u', cx.str('p', lo=1, hi=4096))
    pool = kp.tree.getroot().find('Meta').find('Binaries')
    n = len(pool)
    blobs, prots = [], []
    for i in range(2):
        b = cx.blob('b%d' % i, lo=1, hi=4096)
        x = etree.SubElement(pool, 'Binary')
        x.set('ID', str(n + i))
        prot = cx.flip('f%d' % i)
        if prot:
            x.set('Protected', 'True')
        x.text = base64.b64encode(b).decode()
        e.add_attachment(n + i, 'f%d' % i)
        blobs.append(b)
        prots.append(prot)
    c = stream(cx, base, kp)
    src = written(cx, base, kp, c, "|//Binaries/Binary[@Protected='True']")
    kp2 = PyKeePass(cx.bio(src), password='pw')
    again = cx.flip('saved')
    if again:
        kp2.add_binary(b'third')
        kp2 = PyKeePass(save(cx, kp2), password='pw')
    f = kp2.entries[0]
    cx.check(f.password == e.password, 'password beside a binary of another program')
    for i in range(2):
        cx.check(kp2.binaries[n + i] == blobs[i], 'binary of another program')
        cx.check(f.attachments[i].data == blobs[i], 'attachment of another program')
        el = kp2.tree.getroot().find('Meta').find('Binaries')[n + i]
        cx.check((el.get('Protected') == 'True') == prots[i], 'mark of another program')
    if again:
        cx.check(kp2.binaries[n + 2] == b'third', 'binary beside those of another program')


@scenario(base=[V3, V4], c=['\U000f0000', '\U0010ffff', '\U00030000', '\U00010000', '\ufffd', '\ue000', '\ud7ff', '\t', '\n', '\r', ' ', '\x7f'])
def edges(cx, base, c):
    """characters at the edges of what XML can carry, the last ones beyond the range of the solver's characters"""
    kp = cx.db(base)
    cx.unlimit(2 ** 19)
    e = kp.add_entry(kp.root_group, 't', 'u', c)
    e.set_custom_property('k', cx.str('v') + c, protect=True)
    e.set_custom_property('l', c, protect=cx.flip('f'))
    verify(cx, base, kp, copy.deepcopy(kp.tree))
