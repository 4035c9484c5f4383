"""History records exact earlier states and never changes by itself."""
from sx.api import scenario, V3, V4, V41
from props.lib import txt, canon, unchanged, reopen, sample, where
from pykeepass import PyKeePass

BOUNDS = ('every text of any length in every field, every attachment content up to 16 MiB, entries with up to 3 recorded states; every sequence of 3 operations '
          '(thorough: 4) out of editing, recording, deleting one and deleting all; every single setter after a recording; also after reopening; one scenario with 30 recorded states')


def state(el):
    """what an entry says, without its history"""
    c = canon(el)
    return {k: v for k, v in c.items() if k != 'Entry/History[0]' and not k.startswith('Entry/History[0]/')}


def same(cx, a, b, what):
    cx.check(set(a) == set(b), what + ': the same fields')
    for k in a:
        if k in b:
            cx.check(a[k] == b[k], what + ': the same content')


def full(cx, kp, g, p='', **k):
    """an entry with something in every field"""
    e = kp.add_entry(g, 't' + p, 'u', cx.str(p + 'pw', lo=1), url=cx.str(p + 'url', lo=1), notes=cx.str(p + 'notes', lo=1), otp=cx.str(p + 'otp', lo=1),
                     tags=[cx.str(p + 'tag', lo=1)], icon='3', force_creation=True, **k)
    e.title = cx.str(p + 'title', lo=1)
    e.username = cx.str(p + 'user', lo=1)
    e.set_custom_property('k1', cx.str(p + 'c1', lo=1), protect=True)
    e.set_custom_property('k2', cx.str(p + 'c2', lo=1))
    e.add_attachment(kp.add_binary(cx.blob(p + 'data', lo=1)), cx.str(p + 'file', lo=1))
    e.autotype_sequence = cx.str(p + 'seq', lo=1)
    e.autotype_window = cx.str(p + 'win', lo=1)
    e.autotype_enabled = False
    e.expires = True
    e.expiry_time = cx.datetime(p + 'exp')
    e.mtime = cx.datetime(p + 'mtime')
    return e


def items(e):
    return [h._element for h in e.history]


@scenario(base=[V3, V4, V41], n=[0, 1, 2])
def record(cx, base, n):
    """recording appends a full copy and changes nothing else"""
    kp = cx.db(base)
    s, g, f = sample(cx, kp)
    e = full(cx, kp, g)
    for i in range(n):
        e.save_history()
        e.url = cx.str('url%d' % i, lo=1)
        e.atime = cx.datetime('at%d' % i)
    kp.add_entry(g, 'last', 'u', 'p', force_creation=True)
    now = state(e._element)
    old = [state(x) for x in items(e)]
    before = canon(kp.tree)
    place = where(kp, e._element)
    e.save_history()
    unchanged(cx, before, canon(kp.tree), [place])
    same(cx, now, state(e._element), 'entry')
    h = e.history
    cx.check(len(h) == n + 1, 'number of recorded states')
    for a, b in zip(old, items(e)):
        same(cx, a, state(b), 'older state')
    same(cx, now, state(h[-1]._element), 'recorded state')
    cx.check(all(x._element.find('History') is None for x in h), 'recorded without history')
    cx.check(all(x.is_a_history_entry for x in h), 'is a history entry')
    cx.check(not e.is_a_history_entry, 'is not a history entry')
    r = h[-1]
    for a in ('title', 'username', 'password', 'url', 'notes', 'otp', 'icon', 'uuid', 'expires', 'expiry_time', 'ctime', 'mtime', 'atime',
              'autotype_sequence', 'autotype_window', 'autotype_enabled', 'custom_properties'):
        cx.check(getattr(r, a) == getattr(e, a), 'field of the recorded state')
    cx.check(r.is_custom_property_protected('k1'), 'protection mark')
    cx.check(not r.is_custom_property_protected('k2'), 'protection mark')
    cx.check(r.group == g, 'group of a history entry')


def edit(cx, kp, e, what, n=''):
    if what in ('title', 'username', 'password', 'url', 'notes', 'otp', 'icon', 'autotype_sequence', 'autotype_window'):
        setattr(e, what, cx.str('new' + n, lo=1))
    elif what in ('expiry_time', 'ctime', 'atime', 'mtime'):
        setattr(e, what, cx.datetime('new' + n))
    elif what == 'expires':
        e.expires = cx.flip('new' + n)
    elif what == 'autotype_enabled':
        e.autotype_enabled = cx.choice('new' + n, [True, False, None])
    elif what == 'tags':
        e.tags = [cx.str('new' + n, lo=1), 'x']
    elif what == 'uuid':
        e.uuid = cx.uuid('new' + n)
    elif what == 'custom':
        e.set_custom_property(cx.choice('key' + n, ['k1', 'k2', 'k3']), cx.str('new' + n, lo=1), protect=cx.flip('protect' + n))
    elif what == 'delete custom':
        e.delete_custom_property('k1')
    elif what == 'attach':
        e.add_attachment(kp.add_binary(cx.blob('new' + n)), 'second')
    elif what == 'detach':
        e.attachments[0].delete()
    elif what == 'touch':
        e.touch(modify=cx.flip('modify' + n))
    elif what == 'move':
        kp.move_entry(e, kp.root_group)
    elif what == 'reindex':
        e.reindex(0)
    elif what == 'trash':
        kp.trash_entry(e)
    else:
        raise AssertionError(what)


EDITS = ['title', 'username', 'password', 'url', 'notes', 'otp', 'icon', 'autotype_sequence', 'autotype_window', 'expiry_time', 'ctime', 'atime', 'mtime', 'expires',
         'autotype_enabled', 'tags', 'uuid', 'custom', 'delete custom', 'attach', 'detach', 'touch', 'move', 'reindex', 'trash']


@scenario(base=[V3, V4], what=EDITS)
def edits(cx, base, what):
    """editing an entry leaves its recorded states, and editing a recorded state leaves entry and the others"""
    kp = cx.db(base)
    g = kp.add_group(kp.root_group, 'g')
    kp.add_entry(g, 'before', 'u', 'p', force_creation=True)
    e = full(cx, kp, g)
    e.save_history()
    e.save_history()
    old = [state(x) for x in items(e)]
    edit(cx, kp, e, what)
    cx.check(len(e.history) == 2, 'number of recorded states')
    for a, b in zip(old, items(e)):
        same(cx, a, state(b), 'recorded state')


@scenario(base=[V3, V4], what=[x for x in EDITS if x not in ('detach', 'move', 'reindex', 'trash', 'uuid')])
def inside(cx, base, what):
    """editing a recorded state changes it alone"""
    kp = cx.db(base)
    e = full(cx, kp, kp.root_group)
    for i in range(3):
        e.save_history()
    now = state(e._element)
    old = [state(x) for x in items(e)]
    i = cx.choice('i', [0, 1, 2])
    edit(cx, kp, e.history[i], what)
    same(cx, now, state(e._element), 'entry')
    cx.check(len(e.history) == 3, 'number of recorded states')
    for j, (a, b) in enumerate(zip(old, items(e))):
        if j != i:
            same(cx, a, state(b), 'other recorded state')


def small(cx, kp, p=''):
    e = kp.add_entry(kp.root_group, 't' + p, 'u', 'p')
    e.url = cx.str(p + 'url', lo=1)
    e.notes = 'notes'
    e.set_custom_property('k1', cx.str(p + 'c1', lo=1), protect=True)
    e.set_custom_property('k2', 'x')
    return e


def run(cx, base, ops, k):
    """any sequence of operations, against a list of states"""
    kp = cx.db(base)
    e = small(cx, kp)
    other = small(cx, kp, 'o')
    other.save_history()
    want = []
    rest = canon(other._element)
    for n, op in enumerate(ops):
        if op == 'record':
            want.append(state(e._element))
            e.save_history()
        elif op == 'delete one':
            if not want:
                cx.assume(False)
            i = cx.choice('i%d' % n, list(range(len(want))))
            e.delete_history(e.history[i])
            del want[i]
        elif op == 'delete all':
            if e._element.find('History') is None:
                cx.assume(False)
            e.delete_history(all=True)
            want = []
        else:
            now = state(e._element)
            edit(cx, kp, e, op, str(n))
        h = items(e)
        cx.check(len(h) == len(want), 'number of recorded states')
        for a, b in zip(want, h):
            same(cx, a, state(b), 'recorded state')
    unchanged(cx, rest, canon(other._element), [], 'other entry')
    return kp, e, want


STEP = ['record', 'delete one', 'delete all', 'url', 'custom']


@scenario(base=[V3, V4], a=STEP, b=STEP, quick=lambda base, a, b: base == V4)
def histories(cx, base, a, b):
    c = cx.choice('c', STEP)
    run(cx, base, ['record', a, b, c], 3)


@scenario(base=[V3, V4], a=STEP, b=STEP, quick=False)
def long_histories(cx, base, a, b):
    run(cx, base, ['record', 'url', 'record', a, b, cx.choice('c', STEP), cx.choice('d', STEP)], 4)


@scenario(base=[V3, V4])
def delete(cx, base):
    """deleting removes exactly the given state and nothing else anywhere, also among equal ones"""
    kp = cx.db(base)
    s, g, f = sample(cx, kp)
    e = full(cx, kp, g)
    e.save_history()
    if cx.flip('edit'):
        e.notes = cx.str('n1', lo=1)
    e.save_history()
    e.save_history()
    h = items(e)
    place = where(kp, e._element)
    i = cx.choice('i', [0, 1, 2])
    now, old, before = state(e._element), [state(x) for x in h], canon(kp.tree)
    e.delete_history(e.history[i])
    left = items(e)
    cx.check(len(left) == 2, 'one is gone')
    cx.check([x is y for x, y in zip(left, [x for j, x in enumerate(h) if j != i])] == [True, True], 'the others are left, in order')
    for a, b in zip([x for j, x in enumerate(old) if j != i], left):
        same(cx, a, state(b), 'other state')
    same(cx, now, state(e._element), 'entry')
    unchanged(cx, before, canon(kp.tree), [place])
    e.delete_history(all=True)
    cx.check(len(e.history) == 0, 'all are gone')
    same(cx, now, state(e._element), 'entry')
    unchanged(cx, before, canon(kp.tree), [place])
    e.save_history()
    cx.check(len(e.history) == 1, 'recording again')
    same(cx, now, state(items(e)[0]), 'recorded again')


@scenario(base=[V3, V4])
def no_history(cx, base):
    """deleting all of nothing changes nothing"""
    kp = cx.db(base)
    e = full(cx, kp, kp.root_group)
    if cx.flip('gone'):
        e.save_history()
        if cx.flip('one by one'):
            e.delete_history(e.history[0])
        else:
            e.delete_history(all=True)
    now, before, place = state(e._element), canon(kp.tree), where(kp, e._element)
    e.delete_history(all=True)
    cx.check(e.history == [], 'no history')
    same(cx, now, state(e._element), 'entry')
    unchanged(cx, before, canon(kp.tree), [place + '/History[0]'])
    e.save_history()
    cx.check(len(e.history) == 1, 'recording')
    same(cx, now, state(items(e)[0]), 'recorded')


@scenario(base=[V3, V4])
def foreign(cx, base):
    """a state of another entry is not deleted here"""
    kp = cx.db(base)
    e = full(cx, kp, kp.root_group)
    o = full(cx, kp, kp.root_group, 'o')
    e.save_history()
    o.save_history()
    before = canon(kp.tree)
    try:
        e.delete_history(o.history[0])
    except Exception:
        cx.check(True, 'refused')
    else:
        cx.check(False, 'refused')
    unchanged(cx, before, canon(kp.tree))


@scenario(base=[V3, V4], field=['title', 'username', 'password', 'url', 'notes', 'otp', 'string', 'uuid', 'none'])
def search(cx, base, field):
    """searches exclude recorded states unless asked"""
    kp = cx.db(base)
    g = kp.add_group(kp.root_group, 'g')
    e = kp.add_entry(g, 'a', 'b', 'c', url='d', notes='e', otp='f')
    e.set_custom_property('k', 'x')
    e.save_history()
    f = kp.add_entry(g, 'a2', 'b2', 'c2', force_creation=True)
    f.save_history()
    v, w = cx.str('v', lo=1), cx.str('w', lo=1)
    if field == 'string':
        e.set_custom_property('k', v)
        e.save_history()
        e.set_custom_property('k', w)
        q = lambda s: dict(string={'k': s})
        old = 'x'
    elif field in ('uuid', 'none'):
        q = lambda s: {} if field == 'none' else dict(uuid=e.uuid)
        old = v
        e.save_history()
    else:
        old = getattr(e, field)
        setattr(e, field, v)
        e.save_history()
        setattr(e, field, w)
        q = lambda s: {field: s}
    s = cx.str('s', lo=1)
    now = kp.find_entries(**q(s))
    every = kp.find_entries(history=True, **q(s))
    cx.check(not any(x.is_a_history_entry for x in now), 'recorded states are excluded')
    if field == 'none':
        want, want_all = [e, f], [e] + e.history + [f] + f.history
    elif field == 'uuid':
        want, want_all = [e], [e] + e.history
    else:
        want = [e] if s == w else []
        c = [e] if s == w else []
        # the order of recorded states and the field itself within the document is the order of the entry element first
        h = e.history
        want_all = c + ([h[0]] if s == old else []) + ([h[1]] if s == v else [])
        for x in [f] + f.history:
            val = x.get_custom_property('k') if field == 'string' else getattr(x, field)
            if val is not None and s == val:
                want_all.append(x)
                if x is f:
                    want.append(x)
    cx.check([x._element for x in now] == [x._element for x in want], 'without history')
    cx.check([x._element for x in every] == [x._element for x in want_all], 'with history')
    cx.check([x._element for x in kp.entries] == [e._element, f._element], 'entries')
    cx.check([x._element for x in g.entries] == [e._element, f._element], 'entries of the group')
    cx.check(len(kp.attachments) == 0, 'attachments')


@scenario(base=[V3, V4])
def attached(cx, base):
    """listings of attachments exclude those of recorded states unless asked"""
    kp = cx.db(base)
    e = kp.add_entry(kp.root_group, 'a', 'b', 'c')
    i = kp.add_binary(cx.blob('d', lo=1))
    name = cx.str('name', lo=1)
    a = e.add_attachment(i, name)
    e.save_history()
    s = cx.str('s', lo=1)
    cx.check(len(kp.attachments) == 1, 'attachments')
    cx.check(len(e.attachments) == 1, 'attachments of the entry')
    cx.check(len(kp.find_attachments(filename=s)) == (1 if s == name else 0), 'without history')
    cx.check(len(kp.find_attachments(filename=s, history=True)) == (2 if s == name else 0), 'with history')
    cx.check(len(kp.find_attachments(id=i)) == 1, 'by id')
    cx.check(len(kp.find_attachments(id=i, history=True)) == 2, 'by id with history')
    x = e.history[0].attachments
    cx.check(len(x) == 1, 'attachments of the recorded state')
    cx.check(x[0]._element.getparent() is e.history[0]._element, 'attachments of the recorded state are its own')
    cx.check(x[0].filename == name, 'name in the recorded state')
    cx.check(x[0].data == e.attachments[0].data, 'data in the recorded state')
    a.delete()
    cx.check(len(kp.find_attachments(id=i, history=True)) == 1, 'recorded state keeps its attachment')
    cx.check(len(e.attachments) == 0, 'the entry has none any more')
    cx.check(len(e.history[0].attachments) == 1, 'listed with the recorded state')


@scenario(base=[V3, V4])
def stored(cx, base):
    """recorded states survive saving, and recording goes on after it"""
    kp = cx.db(base)
    e = full(cx, kp, kp.root_group)
    e.save_history()
    e.password = cx.str('pw2', lo=1)
    e.delete_custom_property('k2')
    e.save_history()
    e.notes = cx.str('n2', lo=1)
    cx.unlimit(2 ** 19)
    old, now = [state(x) for x in items(e)], state(e._element)
    kp2 = reopen(cx, kp)
    e2 = kp2.entries[0]
    same(cx, now, state(e2._element), 'entry')
    cx.check(len(e2.history) == 2, 'number of recorded states')
    for a, b in zip(old, items(e2)):
        same(cx, a, state(b), 'recorded state')
    e2.title = cx.str('t3', lo=1)
    now = state(e2._element)
    e2.save_history()
    cx.check(len(e2.history) == 3, 'number of recorded states')
    for a, b in zip(old + [now], items(e2)):
        same(cx, a, state(b), 'recorded state')
    same(cx, now, state(e2._element), 'entry')


@scenario(base=[V3, V4])
def plenty(cx, base):
    """many recorded states"""
    kp = cx.db(base)
    g = kp.add_group(kp.root_group, 'g')
    e = kp.add_entry(g, 't', 'u', 'p')
    if cx.flip('expires'):
        e.expiry_time, e.expires = cx.datetime('d', step=1000000), True
    want = []
    for i in range(30):
        e.password = cx.str('p%d' % i, lo=1) if i in (0, 9, 10, 29) else 'p%d' % i
        want.append(e.password)
        e.save_history()
    cx.check(len(e.history) == 30, 'number of recorded states')
    for h, p in zip(e.history, want):
        cx.check(h.password == p, 'recorded state')
    i = cx.choice('i', [0, 9, 11, 28, 29])
    e.delete_history(e.history[i])
    del want[i]
    cx.check(len(e.history) == 29, 'number of recorded states')
    for h, p in zip(e.history, want):
        cx.check(h.password == p, 'state left')
    # states that say the same are recorded all the same
    for k in range(3):
        e.save_history()
    cx.check(len(e.history) == 32, 'number of recorded states')
    cx.check([x.password for x in kp.entries] == [e.password], 'entries')
    e.delete_history(all=True)
    cx.check(e.history == [], 'no state left')


@scenario(base=[V3, V4], n=[12], quick=lambda base, n: True)
def loaded(cx, base, n):
    """an entry with many attachments, fields and tags: a recorded state has all of them"""
    kp = cx.db(base)
    e = kp.add_entry(kp.root_group, 't', 'u', 'p', tags=['t%d' % i for i in range(n)])
    for i in range(n):
        kp.add_binary(b'x%d' % i)
        e.add_attachment(i, cx.str('f%d' % i, lo=1) if i in (0, n - 1) else 'f%d' % i)
        e.set_custom_property('k%d' % i, cx.str('v%d' % i) if i in (0, n - 1) else 'v%d' % i)
    was = [(a.filename, a.id) for a in e.attachments]
    props = [(k, txt(v)) for k, v in e.custom_properties.items()]
    tags = e.tags
    e.save_history()
    e.delete_attachment(e.attachments[0])
    for i in range(n):
        e.delete_custom_property('k%d' % i)
    e.tags = []
    h = e.history[0]
    got = [(b.find('Key').text, b.find('Value').attrib['Ref']) for b in h._element.findall('Binary')]
    cx.check(len(got) == n, 'number of attachments of the state')
    for (f, r), (g, i) in zip(got, was):
        cx.check(f == g, 'attachment of the state')
        cx.check(r == str(i), 'attachment of the state')
    have = [(k, txt(v)) for k, v in h.custom_properties.items()]
    cx.check(len(have) == n, 'number of custom properties of the state')
    for (k, v), (l, w) in zip(have, props):
        cx.check(k == l, 'custom property of the state')
        cx.check(v == w, 'custom property of the state')
    cx.check(h.tags == tags, 'tags of the state')
