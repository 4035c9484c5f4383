"""XML dumps show exactly the current content."""
from sx.api import scenario, V3, V4, V41
from props.lib import txt, canon, sample, reopen, unchanged, ALL
from pykeepass import PyKeePass
from lxml import etree

BOUNDS = ('every text that XML can carry in two fields of an entry, a custom property, a group and the database settings, every attachment up to 256 KiB; '
          'whole database, file, and single entries, groups and history items, pretty-printed or not; before and after saving and reopening; 1 operation of 17 (thorough: 2)')


def parse(data, blanks=False):
    return etree.fromstring(data, etree.XMLParser(remove_blank_text=not blanks, huge_tree=True))


def shows(cx, data, tree, what='dump'):
    """the dump is that document, whether or not the reader drops the blanks between elements"""
    root = tree.getroot() if hasattr(tree, 'getroot') else tree
    cx.check(isinstance(data, bytes), what + ': bytes')
    cx.check(cx.tree_eq(parse(data), root), what + ': the same document')
    unchanged(cx, canon(root, root.tag, {}), canon(parse(data, True), root.tag, {}), what=what)


def fill(cx, base):
    kp = cx.db(base)
    e, g, f = sample(cx, kp)
    which = cx.choice('which', ['entry', 'group', 'settings', 'attachment'])
    if which == 'entry':
        e.password, e.notes = cx.str('password'), cx.str('notes')
        e.set_custom_property('k', cx.str('value'), protect=cx.flip('protect'))
        e.tags = [cx.str('tag'), 'x']
    elif which == 'group':
        g.name, g.notes = cx.str('name'), cx.str('notes')
    elif which == 'settings':
        kp.database_name, kp.database_description, kp.default_username = cx.str('name'), cx.str('description'), cx.str('user')
    else:
        e.add_attachment(kp.add_binary(cx.blob('data', hi=2 ** 18), compressed=cx.flip('compressed')), cx.str('file', lo=1))
    return kp, e, g


@scenario(base=[V3, V4, V41])
def whole(cx, base):
    kp, e, g = fill(cx, base)
    before = canon(kp.tree)
    shows(cx, kp.xml(), kp.tree)
    unchanged(cx, before, canon(kp.tree), what='the database')
    shows(cx, kp.xml(), kp.tree, 'second dump')
    # and it is current
    v = cx.str('later', lo=1)
    e.title = v
    kp.add_group(g, 'later')
    x = kp.xml()
    shows(cx, x, kp.tree, 'later dump')
    found = [s.find('Value').text for s in parse(x).iter('String') if s.find('Key').text == 'Title']
    cx.check(any([t == v for t in found]), 'the new title is in the dump')


@scenario(base=[V3, V4], there=[False, True])
def to_file(cx, base, there):
    """a file has exactly the dump, whatever it had before"""
    kp, e, g = fill(cx, base)
    cx.put('other.xml', b'other')
    if there:
        cx.put('x.xml', b'<old>' + b'z' * 100000)
    name = kp.filename
    before, files = canon(kp.tree), set(cx.files())
    kp.dump_xml(cx.path('x.xml'))
    shows(cx, cx.get('x.xml'), kp.tree, 'file')
    unchanged(cx, before, canon(kp.tree), what='the database')
    cx.check(set(cx.files()) == files | {'x.xml'}, 'one file is written')
    cx.check(cx.get('other.xml') == b'other', 'no other file is changed')
    cx.check(kp.filename is name, 'the database stays where it was')
    e.notes = cx.str('later', lo=1)
    kp.dump_xml(cx.path('x.xml'))
    shows(cx, cx.get('x.xml'), kp.tree, 'file written again')


@scenario(base=[V3, V4], kind=['entry', 'group', 'history', 'root'])
def element(cx, base, kind):
    kp = cx.db(base)
    e, g, f = sample(cx, kp)
    e.password, e.notes, g.name = cx.str('password'), cx.str('notes'), cx.str('name')
    if cx.flip('recorded'):
        e.save_history()
    x = {'entry': e, 'group': g, 'history': e.history[-1], 'root': kp.root_group}[kind]
    before = canon(kp.tree)
    pretty = cx.choice('pretty', [None, False, True])
    data = x.dump_xml() if pretty is None else x.dump_xml(pretty_print=pretty)
    shows(cx, data, x._element)
    unchanged(cx, before, canon(kp.tree), what='the database')


@scenario(base=[V3, V4])
def stored(cx, base):
    """saving and reopening do not change what is shown"""
    kp = cx.db(base)
    e, g, f = sample(cx, kp)
    cx.unlimit(2 ** 19)
    e.password = cx.str('password', hi=4096)
    e.set_custom_property('k', cx.str('value', hi=4096), protect=True)
    kp2 = reopen(cx, kp)
    shows(cx, kp.xml(), kp.tree, 'after saving')
    shows(cx, kp2.xml(), kp.tree, 'after reopening')
    shows(cx, kp2.find_entries(path=['g1', 'title']).dump_xml(), e._element, 'entry after reopening')


@scenario(base=[V3, V4])
def histories(cx, base):
    from props.c01 import start, ops
    kp = start(cx, base)
    ops(cx, kp, 0, 1)
    shows(cx, kp.xml(), kp.tree)


@scenario(base=[V3, V4], quick=False)
def histories2(cx, base):
    from props.c01 import start, ops
    kp = start(cx, base)
    ops(cx, kp, 0, 1)
    ops(cx, kp, 0, 2)
    shows(cx, kp.xml(), kp.tree)


@scenario(base=ALL)
def closed(cx, base):
    """nothing is shown, and no file written, of a database that was not decrypted"""
    kp = PyKeePass(cx.bio(cx.data_bytes(base + '.kdbx')), decrypt=False)
    cx.put('x.xml', b'old')
    for f in (kp.xml, lambda: kp.tree):
        try:
            f()
        except ValueError:
            cx.check(True, 'refused')
        else:
            cx.check(False, 'refused')
