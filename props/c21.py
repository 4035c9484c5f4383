"""Field references resolve to the fields they name."""
import re
import uuid as _uuid
from sx.api import scenario, V3, V4
from props.lib import txt, canon, unchanged
from pykeepass import PyKeePass

BOUNDS = ('every content of the fields searched and named (without braces, unless stated), every text around and between references without braces; every pair of fields; '
          '3 entries; up to 3 references in a text and 3 levels of nesting (one scenario with 20, one with a chain of 30); texts without references may contain anything; references that resolve without a cycle')
FIELDS = {'T': 'title', 'U': 'username', 'P': 'password', 'A': 'url', 'N': 'notes', 'I': 'uuid'}


def text(cx, name, lo=0, hi=24):
    """text without braces"""
    return cx.str(name, lo=lo, hi=hi, lacks='{}')


def entries(cx, kp, n=3):
    es = []
    g = kp.root_group
    for i in range(n):
        if i == 2:
            g = kp.add_group(kp.root_group, 'g')
        es.append(kp.add_entry(g, 't%d' % i, 'u%d' % i, 'p%d' % i, url='a%d' % i, notes='n%d' % i))
    return es


def value(e, f):
    v = getattr(e, FIELDS[f])
    return v.hex.upper() if f == 'I' else txt(v)


def first(cx, es, f, q):
    for e in es:
        v = getattr(e, FIELDS[f])
        if v is not None and v == q:
            return e


@scenario(base=[V3, V4], search=list('TUPAN'), want=list('TUPANI'), quick=lambda base, search, want: base == V4 or search == 'T' or want == 'P')
def single(cx, base, search, want):
    """one reference, found by the content of a field"""
    kp = cx.db(base)
    es = entries(cx, kp)
    for i, e in enumerate(es):
        setattr(e, FIELDS[search], cx.str('s%d' % i, lo=1, hi=24) if want != search else text(cx, 's%d' % i, lo=1))
    if want != search and want != 'I':
        for i, e in enumerate(es):
            setattr(e, FIELDS[want], text(cx, 'w%d' % i))
    q = text(cx, 'q', lo=1)
    pre, post = text(cx, 'pre'), text(cx, 'post')
    before = canon(kp.tree)
    got = kp.deref(pre + '{REF:%s@%s:' % (want, search) + q + '}' + post)
    e = first(cx, es, search, q)
    if e is None:
        cx.check(got is None, 'None if nothing matches')
    else:
        cx.check(got == pre + value(e, want) + post, 'replaced by the field')
    unchanged(cx, before, canon(kp.tree), [], 'resolving')


@scenario(base=[V3, V4], search=list('TUPAN'), quick=lambda base, search: base == V4 or search == 'T')
def brace(cx, base, search):
    """what is searched for may contain an opening brace"""
    kp = cx.db(base)
    want = 'U' if search == 'T' else 'T'
    es = entries(cx, kp, 2)
    for i, e in enumerate(es):
        setattr(e, FIELDS[search], cx.str('s%d' % i, lo=1, hi=8))
    q = cx.choice('q', ['{', 'a{b', '{{x', 'p{REF:', '{REF:T@T:x', '{REF:T@T', 'a {S:b', '{\n'])
    got = kp.deref('{REF:%s@%s:' % (want, search) + q + '}')
    e = first(cx, es, search, q)
    cx.check(got == (None if e is None else value(e, want)), 'replaced by the field, or None if nothing matches')


@scenario(base=[V3, V4], want=list('TUPANI'), form=['upper', 'lower', 'dashes'])
def by_uuid(cx, base, want, form):
    kp = cx.db(base)
    es = entries(cx, kp)
    for i in (0, 2):
        es[i].uuid = cx.uuid('id%d' % i)
    if want != 'I':
        for i, e in enumerate(es):
            setattr(e, FIELDS[want], text(cx, 'w%d' % i))
    u = es[2].uuid
    cx.assume(es[0].uuid != u)
    if form == 'dashes':
        cx.assume(u == _uuid.UUID('00112233-4455-6677-8899-aabbccddeeff'))
        q = '00112233-4455-6677-8899-aabbccddeeff'
    else:
        q = u.hex.upper() if form == 'upper' else u.hex
    pre, post = text(cx, 'pre'), text(cx, 'post')
    got = kp.deref(pre + '{REF:%s@I:' % want + q + '}' + post)
    cx.check(got == pre + value(es[2], want) + post, 'replaced by the field')


@scenario(base=[V3, V4], want=['title', 'username', 'password', 'url', 'notes', 'uuid'])
def own(cx, base, want):
    """the reference an entry gives for its field resolves to that field"""
    kp = cx.db(base)
    es = entries(cx, kp)
    e = es[cx.choice('i', [0, 1, 2])]
    if want != 'uuid':
        v = text(cx, 'v')
        setattr(e, want, v)
    e.uuid = cx.uuid('id')
    for o in es:
        if o is not e:
            cx.assume(o.uuid != e.uuid)
    r = e.ref(want)
    cx.check(kp.deref(r) == (e.uuid.hex.upper() if want == 'uuid' else v), 'resolves to the field')
    other = es[0] if e is not es[0] else es[1]
    other.notes = r
    other.url = 'x' + r + 'y'
    cx.check(other.deref('notes') == (e.uuid.hex.upper() if want == 'uuid' else v), 'resolved through another entry')
    cx.check(other.deref('url') == 'x' + (e.uuid.hex.upper() if want == 'uuid' else v) + 'y', 'resolved within text')
    other.delete()
    e.delete()
    cx.check(kp.deref(r) is None, 'None once the entry is gone')


@scenario(base=[V3, V4])
def no_uuid(cx, base):
    """a reference by UUID whose value is none matches nothing"""
    kp = cx.db(base)
    es = entries(cx, kp)
    q = cx.choice('q', ['xyz', '0', 'G' * 32, '0' * 31, '0' * 33, '-', ' ', '\u0661' * 31, '0x' + '0' * 30, '1_' * 16, '+' + '1' * 31])
    got = kp.deref(cx.str('x', hi=6, lacks='{}') + '{REF:%s@I:%s}' % (cx.choice('f', sorted(FIELDS)), q) + cx.str('y', hi=6, lacks='{}'))
    cx.check(got is None, 'None if nothing matches')


@scenario(base=[V3, V4], i=[0, 7, 15, 16, 30, 31])
def damaged(cx, base, i):
    """one digit of an existing UUID replaced by what is no digit"""
    kp = cx.db(base)
    es = entries(cx, kp)
    good = '00112233445566778899AABBCCDDEEFF'
    es[0].uuid = _uuid.UUID(good)
    es[0].username = v = text(cx, 'v')
    c = cx.choice('c', list('OolIGghzZSx/.:') + ['\xe9'])
    x, y = cx.str('x', hi=6, lacks='{}'), cx.str('y', hi=6, lacks='{}')
    cx.check(kp.deref(x + '{REF:U@I:%s}' % good + y) == x + v + y, 'resolved')
    cx.check(kp.deref(x + '{REF:U@I:%s}' % (good[:i] + c + good[i + 1:]) + y) is None, 'None if nothing matches')


@scenario(base=[V3, V4])
def plain(cx, base):
    """a text without references is unchanged"""
    kp = cx.db(base)
    entries(cx, kp)
    s = cx.str('s', hi=60)
    if not re.search(r'\{REF:[TUPANI]@[TUPANI]:[^}]+\}', s):
        cx.check(kp.deref(s) == s, 'unchanged')
    cx.check(kp.deref(None) is None, 'None')
    cx.check(kp.deref('') == '', 'empty text')


@scenario(base=[V3, V4], broken=['{REF:X@T:t0}', '{REF:T@X:t0}', '{REF:T@T:}', '{REF:T@T:t0', '{ref:T@T:t0}', '{REF:TT@T:t0}', 'REF:T@T:t0}', '{REF:T:t0}', '{ REF:T@T:t0}'])
def malformed(cx, base, broken):
    """what is no reference stays"""
    kp = cx.db(base)
    entries(cx, kp)
    pre, post = text(cx, 'pre'), text(cx, 'post')
    cx.check(kp.deref(pre + broken + post) == pre + broken + post, 'unchanged')


@scenario(base=[V3, V4], kind=['same', 'different', 'adjacent', 'one unknown', 'prefix'])
def several(cx, base, kind):
    """several references in a text are all replaced, each by its own field"""
    kp = cx.db(base)
    es = entries(cx, kp)
    v, w = text(cx, 'v'), text(cx, 'w')
    es[0].username, es[1].password = v, w
    a, b = '{REF:U@T:t0}', '{REF:P@T:t1}'
    x, y, z = text(cx, 'x', hi=12), text(cx, 'y', hi=12), text(cx, 'z', hi=12)
    if kind == 'same':
        cx.check(kp.deref(x + a + y + a + z) == x + v + y + v + z, 'both replaced')
    elif kind == 'different':
        cx.check(kp.deref(x + a + y + b + z) == x + v + y + w + z, 'each replaced by its own')
        cx.check(kp.deref(x + b + y + a + z + b) == x + w + y + v + z + w, 'each replaced by its own')
    elif kind == 'adjacent':
        cx.check(kp.deref(a + b + a) == v + w + v, 'each replaced by its own')
    elif kind == 'one unknown':
        cx.check(kp.deref(x + a + y + '{REF:P@T:nothing}' + z) is None, 'None if one matches nothing')
        cx.check(kp.deref(x + '{REF:P@T:nothing}' + y + a + z) is None, 'None if one matches nothing')
    else:
        es[2].title = 't01'
        u = text(cx, 'u')
        es[2].username = u
        cx.check(kp.deref(x + '{REF:U@T:t01}' + y + a + z) == x + u + y + v + z, 'names that begin alike')


@scenario(base=[V3, V4], depth=[1, 2, 3])
def nested(cx, base, depth):
    """fields that contain references themselves"""
    kp = cx.db(base)
    es = entries(cx, kp)
    v = text(cx, 'v')
    es[0].username = v
    want = v
    chain = ['{REF:U@T:t0}', '{REF:P@T:t1}', '{REF:N@T:t2}']
    for i in range(1, depth):
        pre, post = text(cx, 'pre%d' % i, hi=8), text(cx, 'post%d' % i, hi=8)
        setattr(es[i], 'password' if i == 1 else 'notes', pre + chain[i - 1] + post)
        want = pre + want + post
    a, b = text(cx, 'a', hi=8), text(cx, 'b', hi=8)
    cx.check(kp.deref(a + chain[depth - 1] + b) == a + want + b, 'resolved to the end')
    es[0].title = 'other'
    cx.check(kp.deref(a + chain[depth - 1] + b) is None, 'None if the end matches nothing')


@scenario(base=[V3, V4])
def diamond(cx, base):
    """two references that lead to the same field"""
    kp = cx.db(base)
    es = entries(cx, kp)
    v = text(cx, 'v')
    es[0].username = v
    es[1].password = '{REF:U@T:t0}'
    es[2].notes = 'n{REF:P@T:t1}{REF:U@T:t0}'
    x = text(cx, 'x', hi=8)
    cx.check(kp.deref('{REF:N@T:t2}' + x + '{REF:P@T:t1}') == 'n' + v + v + x + v, 'all resolved')


@scenario(base=[V3, V4])
def empty(cx, base):
    """a reference to an empty or missing field is replaced by nothing"""
    kp = cx.db(base)
    e = kp.add_entry(kp.root_group, 't0', '', '')
    x, y = text(cx, 'x'), text(cx, 'y')
    for f in 'UPAN':
        cx.check(kp.deref(x + '{REF:%s@T:t0}' % f + y) == x + y, 'replaced by nothing')


@scenario(base=[V3, V4])
def history(cx, base):
    """recorded states are not looked at"""
    kp = cx.db(base)
    es = entries(cx, kp)
    q = text(cx, 'q', lo=1)
    es[0].title = q
    es[0].save_history()
    r = text(cx, 'r', lo=1)
    es[0].title = r
    v, w = text(cx, 'v'), text(cx, 'w')
    es[0].notes = v
    es[0].save_history()
    es[0].notes = w
    got = kp.deref('{REF:N@T:' + q + '}')
    e = first(cx, es, 'T', q)
    if e is None:
        cx.check(got is None, 'None if only recorded states match')
    else:
        cx.check(got == value(e, 'N'), 'present content')


@scenario(base=[V3, V4], name=['q"uote', "apo'strophe", 'both"\'', '<&>', ' space ', '$v0', '.*', 'a:b@c'])
def special(cx, base, name):
    """names with characters that mean something elsewhere"""
    kp = cx.db(base)
    es = entries(cx, kp)
    es[1].title = name
    v = text(cx, 'v')
    es[1].password = v
    cx.check(kp.deref('x{REF:P@T:' + name + '}') == 'x' + v, 'resolved')


@scenario(base=[V3, V4])
def chain(cx, base):
    """a reference to a reference, and so on"""
    kp = cx.db(base)
    n = 30
    v = text(cx, 'v', lo=1)
    for i in range(n):
        kp.add_entry(kp.root_group, 't%d' % i, 'u%d' % i, '{REF:P@T:t%d}' % (i + 1) if i < n - 1 else v)
    i = cx.choice('i', [0, 10, 17, 28, 29])
    cx.check(kp.deref('x{REF:P@T:t%d}' % i) == 'x' + v, 'resolved to the end')


@scenario(base=[V3, V4])
def list_(cx, base):
    """many references in one text"""
    kp = cx.db(base)
    n = 20
    vs = [text(cx, 'v%d' % i, lo=1) if i in (0, 11, 19) else 'v%d' % i for i in range(n)]
    for i in range(n):
        kp.add_entry(kp.root_group, 't%d' % i, 'u%d' % i, vs[i])
    got = kp.deref(' '.join(['{REF:P@T:t%d}' % i for i in range(n)]))
    want = ''
    for i in range(n):
        want = want + (' ' if i else '') + vs[i]
    cx.check(got == want, 'each replaced')


@scenario(base=[V3, V4], content=['\\1', '\\g<0>', 'a\\b', '\\', '\\n', '$1', '%s', '{0}', '&amp;'])
def verbatim(cx, base, content):
    """what a field contains comes out as it is, whatever it would mean elsewhere"""
    kp = cx.db(base)
    es = entries(cx, kp)
    es[1].password = content
    pre, post = text(cx, 'pre'), text(cx, 'post')
    cx.check(kp.deref(pre + '{REF:P@T:t1}' + post) == pre + content + post, 'replaced by the field')
    es[0].url = '{REF:P@U:u1}' + post
    cx.check(es[0].deref('url') == content + post, 'replaced by the field')
