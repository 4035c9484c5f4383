"""Shared parts of the scenarios."""
from pykeepass import PyKeePass

ALL = [c + '_' + k for c in ('v3_aes256', 'v3_chacha20', 'v3_twofish') for k in ('gz', 'raw')] + \
      ['v4_%s_%s_%s' % (c, k, z) for c in ('aes256', 'chacha20', 'twofish') for k in ('argon2', 'argon2id', 'aeskdf') for z in ('gz', 'raw')] + \
      ['v41_aes256_argon2_gz', 'v41_chacha20_argon2id_raw']


def txt(x):
    return '' if x is None else x


def save(cx, kp, **k):
    s = cx.bio()
    kp.save(s, **k)
    s.seek(0)
    return s


def reopen(cx, kp, **k):
    return PyKeePass(save(cx, kp), password=kp.password, keyfile=kp.keyfile, **k)


def same_db(cx, a, b, what=''):
    """the whole document and all binaries agree"""
    cx.check(cx.tree_eq(a.tree, b.tree), what + 'whole document is equal')
    x, y = a.binaries, b.binaries
    cx.check(len(x) == len(y), what + 'number of binaries')
    for i in range(len(x)):
        cx.check(x[i] == y[i], what + 'binary content')


def fields(cx, e, f, what=''):
    """all text fields of two entries agree"""
    for a in ('title', 'username', 'password', 'url', 'notes', 'otp', 'icon', 'autotype_sequence', 'autotype_window'):
        cx.check(txt(getattr(e, a)) == txt(getattr(f, a)), what + a)


def canon(el, path='', out=None):
    """what a document says, as a flat map, regardless of the order in which different kinds of things are written"""
    if out is None:
        out = {}
        if hasattr(el, 'getroot'):
            el = el.getroot()
        path = el.tag
    if len(el) == 0:
        out[path] = txt(el.text)
    else:
        out[path] = 'has children'
    for k, v in el.attrib.items():
        out[path + '/@' + k] = v
    count = {}
    for c in el:
        if c.tag == 'String' and c.find('Key') is not None and isinstance(c.find('Key').text, str):
            p = '%s/String{%s}' % (path, c.find('Key').text)
            v = c.find('Value')
            out[p] = txt(v.text)
            out[p + '/@Protected'] = v.get('Protected') == 'True'
            continue
        n = count.get(c.tag, 0)
        count[c.tag] = n + 1
        canon(c, '%s/%s[%d]' % (path, c.tag, n), out)
    return out


def unchanged(cx, before, after, but=(), what='everything else'):
    """every path outside `but` is the same in both maps"""
    def mine(k):
        return any(k == b or k.startswith(b + '/') for b in but)
    for k in before:
        if not mine(k):
            cx.check(k in after, what + ' still exists')
            cx.check(after[k] == before[k], what + ' is unchanged')
    for k in after:
        if not mine(k):
            cx.check(k in before, what + ': nothing new')


def where(kp, el):
    """path of an element in canon's terms"""
    parts = []
    while el.getparent() is not None:
        p = el.getparent()
        same = [c for c in p if c.tag == el.tag]
        parts.append('%s[%d]' % (el.tag, [c is el for c in same].index(True)))
        el = p
    parts.append(el.tag)
    return '/'.join(reversed(parts))


def sample(cx, kp):
    """a database with something of everything (fixed content); -> entry with it all, its group, another entry"""
    g = kp.add_group(kp.root_group, 'g1', icon='1', notes='group notes')
    a = kp.add_entry(kp.root_group, 'first', 'u', 'p')
    e = kp.add_entry(g, 'title', 'user', 'pass', url='url', notes='notes', otp='otp', icon='2', tags=['t1', 't2'])
    e.set_custom_property('title', 'lower case key')
    e.set_custom_property('Title ', 'key with a space', protect=True)
    e.set_custom_property('URL2', 'Title')
    e.set_custom_property('String', 'Notes')
    e.add_attachment(kp.add_binary(b'data'), 'file')
    e.save_history()
    e.password = 'newer'
    e.save_history()
    f = kp.add_entry(g, 'title', 'user', 'pass', force_creation=True)
    h = kp.add_group(g, 'g2')
    kp.add_entry(h, 'title', 'deep', 'pw')
    return e, g, f
