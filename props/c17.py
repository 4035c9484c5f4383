"""Attachments keep pointing at their data."""
from sx.api import scenario, V3, V4, V41
from props.lib import txt, canon, unchanged, reopen
from pykeepass import PyKeePass
from pykeepass.exceptions import BinaryError

BOUNDS = ('every content up to 16 MiB and every non-empty file name; up to 3 binaries (thorough: 4; one scenario with 32) and 4 attachments in 2 entries and their history; '
          'every sequence of 2 operations (thorough: 3) with every operand; every unknown id; saved and reopened; KDBX3 binaries in every order of their IDs, 5 choices of IDs with gaps')
ASSUMES = ['zlib and base64 are inverse to themselves']


class Model:
    """the oracle: binaries are objects, attachments point at objects"""

    def __init__(self, cx, kp):
        self.cx, self.kp = cx, kp
        self.bins = []
        self.atts = {}
        self.n = 0

    def add(self, data, **k):
        i = self.kp.add_binary(data, **k)
        self.cx.check(i == len(self.bins), 'id of a new binary')
        self.bins.append([data, k.get('protected', True)])
        return i

    def attach(self, e, i, name):
        a = e.add_attachment(i, name)
        self.atts.setdefault(id(e), (e, [], []))[1].append((name, self.bins[i]))
        return a

    def snap(self, e):
        e.save_history()
        self.atts.setdefault(id(e), (e, [], []))[2].append(list(self.atts[id(e)][1]))

    def delete(self, i):
        b = self.bins[i]
        del self.bins[i]
        for e, cur, hist in self.atts.values():
            for l in [cur] + hist:
                l[:] = [x for x in l if x[1] is not b]

    def shown(self, got, want, what):
        cx = self.cx
        cx.check(len(got) == len(want), what + ': number of attachments')
        for a, (name, b) in zip(got, want):
            cx.check(a.filename == name, what + ': file name')
            cx.check(a.data == b[0], what + ': data')
            cx.check(a.binary == b[0], what + ': data')
            cx.check(a.id == [x is b for x in self.bins].index(True), what + ': id')

    def check(self):
        cx, kp = self.cx, self.kp
        bs = kp.binaries
        cx.check(len(bs) == len(self.bins), 'number of binaries')
        for x, y in zip(bs, self.bins):
            cx.check(x == y[0], 'binary')
        from pykeepass.attachment import Attachment
        total = 0
        for e, cur, hist in self.atts.values():
            self.shown(e.attachments, cur, 'entry')
            for a in e.attachments:
                cx.check(a.entry == e, 'entry of an attachment')
            for h, l in zip(e.history, hist):
                self.shown([Attachment(element=x, kp=kp) for x in h._element.findall('Binary')], l, 'history')
            total += len(cur)
        cx.check(len(kp.attachments) == total, 'number of attachments')


def start(cx, base, n=3):
    kp = cx.db(base)
    m = Model(cx, kp)
    e = kp.add_entry(kp.root_group, 't', 'u', 'p')
    f = kp.add_entry(kp.add_group(kp.root_group, 'g'), 't2', 'u', 'p')
    for i in range(n):
        if base == V3:
            m.add(cx.blob('b%d' % i), compressed=i % 2 == 0)
        else:
            m.add(cx.blob('b%d' % i), protected=i % 2 == 0)
    m.attach(e, 0, cx.str('f0', lo=1))
    m.attach(e, 1, cx.str('f1', lo=1))
    m.snap(e)
    if n > 2:
        m.attach(e, 2, cx.str('f2', lo=1))
    m.attach(f, 1, 'f3')
    m.snap(f)
    return kp, m, e, f


def step(cx, kp, m, e, f, n, ops):
    op = cx.choice('op%d' % n, ops)
    k = len(m.bins)
    es = [e, f]
    if op == 'delete binary':
        if not k:
            cx.assume(False)
        i = cx.choice('i%d' % n, list(range(k)))
        kp.delete_binary(i)
        m.delete(i)
    elif op == 'delete attachment':
        x = es[cx.choice('e%d' % n, [0, 1])]
        l = m.atts[id(x)][1]
        if not l:
            cx.assume(False)
        i = cx.choice('i%d' % n, list(range(len(l))))
        if cx.flip('direct%d' % n):
            x.attachments[i].delete()
        else:
            x.delete_attachment(x.attachments[i])
        del l[i]
    elif op == 'add binary':
        m.add(cx.blob('new%d' % n))
    elif op == 'attach':
        if not k:
            cx.assume(False)
        m.attach(es[cx.choice('e%d' % n, [0, 1])], cx.choice('i%d' % n, list(range(k))), cx.str('name%d' % n, lo=1))
    elif op == 'history':
        m.snap(es[cx.choice('e%d' % n, [0, 1])])
    elif op == 'add and attach':
        i = m.add(cx.blob('new%d' % n))
        m.attach(es[cx.choice('e%d' % n, [0, 1])], i, cx.str('name%d' % n, lo=1))


OPS = ['delete binary', 'delete attachment', 'add and attach', 'attach', 'history']


@scenario(base=[V3, V4, V41], op=OPS)
def one(cx, base, op):
    kp, m, e, f = start(cx, base)
    m.check()
    step(cx, kp, m, e, f, 0, [op])
    m.check()


@scenario(base=[V3, V4], first=OPS, second=OPS, quick=lambda base, first, second: 'delete binary' in (first, second))
def two(cx, base, first, second):
    kp, m, e, f = start(cx, base)
    step(cx, kp, m, e, f, 0, [first])
    step(cx, kp, m, e, f, 1, [second])
    m.check()


@scenario(base=[V3, V4], first=OPS, quick=False)
def three(cx, base, first):
    kp, m, e, f = start(cx, base)
    step(cx, kp, m, e, f, 0, [first])
    step(cx, kp, m, e, f, 1, ['delete binary', 'add and attach'])
    step(cx, kp, m, e, f, 2, OPS)
    m.check()


PERMS = [(0, 1, 2), (0, 2, 1), (1, 0, 2), (1, 2, 0), (2, 0, 1), (2, 1, 0)]


@scenario(op=OPS + ['add binary'])
def shuffled(cx, op):
    """KDBX3: another program wrote the binaries in another order than that of their IDs"""
    kp, m, e, f = start(cx, V3)
    pool = kp.tree.getroot().find('Meta').find('Binaries')
    els = list(pool)
    for i in PERMS[cx.choice('order', list(range(6)))]:
        pool.remove(els[i])
        pool.append(els[i])
    m.check()
    step(cx, kp, m, e, f, 0, [op])
    m.check()
    step(cx, kp, m, e, f, 1, ['delete binary'])
    m.check()


@scenario()
def gaps(cx):
    """KDBX3: IDs need not be consecutive"""
    kp = cx.db(V3)
    e = kp.add_entry(kp.root_group, 't', 'u', 'p')
    b = [cx.blob('b%d' % i) for i in range(3)]
    for x in b:
        kp.add_binary(x)
    ids = [(0, 2, 3), (1, 2, 3), (3, 0, 1), (0, 1, 5), (4, 2, 0)][cx.choice('ids', [0, 1, 2, 3, 4])]
    for i, x in zip(ids, kp.tree.getroot().find('Meta').find('Binaries')):
        x.set('ID', str(i))
    for i in ids:
        e.add_attachment(i, 'f%d' % i)
    for k in range(3):
        cx.check(e.attachments[k].data == b[k], 'data')
    new = cx.blob('new')
    n = kp.add_binary(new)
    cx.check(n not in ids, 'id of a new binary')
    e.add_attachment(n, 'new')
    d = cx.choice('delete', [0, 1, 2])
    kp.delete_binary(ids[d])
    left = [b[k] for k in range(3) if k != d] + [new]
    cx.check(len(e.attachments) == 3, 'number of attachments')
    for a, x in zip(e.attachments, left):
        cx.check(a.data == x, 'data after deleting')


@scenario(base=[V3, V4])
def many(cx, base):
    """ids of one and of two digits"""
    kp = cx.db(base)
    m = Model(cx, kp)
    e = kp.add_entry(kp.root_group, 't', 'u', 'p')
    for i in range(32):
        m.add(b'data %d' % i if i not in (2, 9, 10) else cx.blob('b%d' % i))
    for i in (1, 2, 9, 10, 11, 3) + tuple(range(12, 32)):
        m.attach(e, i, 'f%d' % i)
    m.snap(e)
    i = cx.choice('i', [0, 1, 2, 8, 9, 10, 11, 30, 31])
    kp.delete_binary(i)
    m.delete(i)
    m.check()
    i = m.add(cx.blob('more'))
    m.attach(e, i, cx.str('name', lo=1))
    m.check()


@scenario(base=[V3, V4, V41])
def unknown(cx, base):
    """an id that does not exist"""
    kp, m, e, f = start(cx, base, 2)
    i = cx.int('i', -5, 1000)
    cx.assume(cx.either(i < 0, i >= 2))
    before = canon(kp.tree)
    try:
        kp.delete_binary(i)
    except BinaryError:
        cx.check(True, 'unknown binary is an error')
    else:
        cx.check(False, 'unknown binary is an error')
    unchanged(cx, before, canon(kp.tree), [], 'document')
    m.check()
    j = cx.int('j', 2, 1000)
    a = e.add_attachment(j, 'x')
    try:
        a.data
    except BinaryError:
        cx.check(True, 'attachment without data is an error')
    else:
        cx.check(False, 'attachment without data is an error')
    a.delete()
    m.check()


@scenario(base=[V3, V4])
def stored(cx, base):
    """the same after saving and reopening, flags included, and deleting then"""
    kp, m, e, f = start(cx, base, 2)
    cx.unlimit(2 ** 19)
    kp2 = reopen(cx, kp)
    m.kp = kp2
    by = {id(e): kp2.root_group.entries[0], id(f): kp2.groups[1].entries[0]}
    m.atts = {id(by[k]): (by[k], c, h) for k, (x, c, h) in m.atts.items()}
    m.check()
    if base == V4:
        for b, y in zip(kp2.payload.inner_header.binary, m.bins):
            cx.check(b.data[0] == (1 if y[1] else 0), 'protection flag')
    i = cx.choice('i', [0, 1])
    kp2.delete_binary(i)
    m.delete(i)
    m.check()
    if base == V4:
        for b, y in zip(kp2.payload.inner_header.binary, m.bins):
            cx.check(b.data[0] == (1 if y[1] else 0), 'protection flag of the others')


@scenario(base=[V3, V4])
def rest(cx, base):
    """deleting a binary changes nothing but attachments and binaries"""
    kp, m, e, f = start(cx, base)
    e.set_custom_property('Binary', '1')
    e.notes = cx.str('n')
    i = cx.choice('i', [0, 1, 2])

    def others():
        import copy
        t = copy.deepcopy(kp.tree)
        for b in t.xpath('//Binary'):
            b.getparent().remove(b)
        return canon(t)
    before = others()
    kp.delete_binary(i)
    unchanged(cx, before, others())


@scenario(base=[V3, V4])
def hundreds(cx, base):
    """ids of three digits"""
    kp = cx.db(base)
    m = Model(cx, kp)
    e = kp.add_entry(kp.root_group, 't', 'u', 'p')
    for i in range(112):
        m.add(b'data %d' % i if i not in (1, 101) else cx.blob('b%d' % i))
    for i in (1, 100, 101, 11, 111):
        m.attach(e, i, 'f%d' % i)
    m.snap(e)
    m.check()
    i = cx.choice('i', [0, 1, 10, 100, 101])
    kp.delete_binary(i)
    m.delete(i)
    m.check()


@scenario(base=[V3, V4])
def shared(cx, base):
    """one binary attached many times, in many history items"""
    kp = cx.db(base)
    m = Model(cx, kp)
    e = kp.add_entry(kp.root_group, 't', 'u', 'p')
    f = kp.add_entry(kp.root_group, 't2', 'u', 'p')
    for i in range(3):
        m.add(cx.blob('b%d' % i))
    for i in range(9):
        m.attach(f, (1, 2, 0)[i % 3], 'f%d' % i)
        m.snap(f)
    for i in range(70):
        m.attach(e, 1, 'e%d' % i)
    m.attach(e, 2, cx.str('name', lo=1))
    m.check()
    i = cx.choice('i', [0, 1, 2])
    kp.delete_binary(i)
    m.delete(i)
    m.check()


@scenario(base=[V4, V41])
def marks(cx, base):
    """each binary keeps its mark, also an empty one"""
    kp = cx.db(base)
    fl = [cx.flip('p%d' % i) for i in range(2)]
    data = [cx.blob('b%d' % i, lo=0) for i in range(2)]
    for d, f in zip(data, fl):
        kp.add_binary(d, protected=f)
    for d, f, b in zip(data, fl, kp.payload.inner_header.binary):
        cx.check(b.data == (b'\x01' if f else b'\x00') + d, 'data after its mark')
    cx.check(kp.binaries == data, 'binaries')


PLAIN = [b'', b'\0', b'\0' * 48, b'\x01', b'\n', b' ', b'=', b'a\r\n', b'\xff' * 3, b'\x1f\x8b\x08', b'\x1f\x8b' + b'\0' * 40, b'PK\x03\x04', b'\xef\xbb\xbf', b'AAAA', b'x\x9c\x03\0\0\0\0\x01', b'<a/>', b'\0a\0']


@scenario(base=[V3, V4], i=list(range(len(PLAIN))))
def plain(cx, base, i):
    """data that looks like something else, next to data of every content"""
    kp, d = cx.db(base), PLAIN[i]
    m = Model(cx, kp)
    e = kp.add_entry(kp.root_group, 't', 'u', 'p')
    fl = cx.flip('flag')
    b = cx.blob('b', hi=4096)
    for x in (d, b, d):
        m.attach(e, m.add(x, compressed=fl, protected=fl), 'f')
    m.check()
    kp2 = reopen(cx, kp)
    cx.check([a.data for a in kp2.entries[0].attachments] == [d, b, d], 'data after saving')
    kp.delete_binary(0)
    m.delete(0)
    m.check()
