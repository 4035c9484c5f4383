"""Setting a field changes that field and nothing else."""
from sx.api import scenario, V3, V4, V41
from props.lib import txt, canon, unchanged, where, sample, reopen
from pykeepass import PyKeePass
from datetime import timezone

BOUNDS = ('every text (every tag of 1 to 3 without separators, every time to the second, every UUID, every number of days); one or two assignments on a database with 3 groups, '
          '4 entries, history and an attachment; fields present, empty and absent; before and after saving and reopening; also entries without parts of AutoType')
STR = {'title': 'Title', 'username': 'UserName', 'password': 'Password', 'url': 'URL', 'notes': 'Notes', 'otp': 'otp'}


def pick(cx, kp, who):
    e, g, f = sample(cx, kp)
    return {'full': e, 'plain': f, 'history': e.history[0] if who == 'history' else None, 'reread': e}[who], g


def mark(cx, e, field):
    """any field may be marked as protected, or not, as other programs do"""
    m = cx.choice('mark', [None, 'True', 'False'])
    for x in e._element.iterchildren('String'):
        if x.find('Key').text == STR[field]:
            v = x.find('Value')
            v.attrib.pop('Protected', None)
            if m is not None:
                v.set('Protected', m)


@scenario(base=[V3, V4], field=list(STR), who=['full', 'plain', 'history'])
def string_field(cx, base, field, who):
    kp = cx.db(base)
    e, g = pick(cx, kp, who)
    mark(cx, e, field)
    for i in range(2):
        before = canon(kp.tree)
        path = where(kp, e._element)
        v = cx.str('v%d' % i)
        setattr(e, field, v)
        cx.check(txt(getattr(e, field)) == v, 'value is read back')
        after = canon(kp.tree)
        p = '%s/String{%s}' % (path, STR[field])
        unchanged(cx, before, after, [p])
        cx.check(after.get(p) == v, 'value is stored once in its place')
        was = before.get(p + '/@Protected', False)
        if field in ('password', 'otp'):
            cx.check(after[p + '/@Protected'] == (was or cx.truth(before.get(p, '') == '')), 'protection mark')
        else:
            cx.check(after[p + '/@Protected'] == was, 'protection mark')


@scenario(base=[V3, V4], field=list(STR))
def reread(cx, base, field):
    """the same on a database that was saved and opened again, empty fields included"""
    kp = cx.db(base)
    cx.unlimit(2 ** 19)
    e, g, f = sample(cx, kp)
    setattr(e, field, cx.str('v'))
    mark(cx, e, field)
    kp = reopen(cx, kp)
    e = kp.find_entries(username='user', first=True) if field != 'username' else kp.groups[1].entries[0]
    before = canon(kp.tree)
    path = where(kp, e._element)
    w = cx.str('w')
    setattr(e, field, w)
    cx.check(txt(getattr(e, field)) == w, 'value is read back')
    after = canon(kp.tree)
    p = '%s/String{%s}' % (path, STR[field])
    unchanged(cx, before, after, [p])
    cx.check(after.get(p) == w, 'value is stored once in its place')
    was = before.get(p + '/@Protected', False)
    cx.check(after[p + '/@Protected'] == (was or (field in ('password', 'otp') and cx.truth(before.get(p, '') == ''))), 'protection mark')


@scenario(base=[V3, V4])
def tags(cx, base):
    kp = cx.db(base)
    e, g, f = sample(cx, kp)
    e = [e, f][cx.choice('who', [0, 1])]
    path = where(kp, e._element)
    n = cx.choice('n', [1, 2, 3])
    # (a lone empty tag is no tag)
    ts = [cx.str('t%d' % i, lo=0 if i == 1 else 1) for i in range(n)]
    for t in ts:
        cx.assume(';' not in t)
        cx.assume(',' not in t)
    before = canon(kp.tree)
    e.tags = ts[0] if n == 1 and cx.flip('as text') else ts
    r = e.tags
    cx.check(len(r) == n, 'number of tags')
    for i in range(n):
        cx.check(r[i] == ts[i], 'tag is read back')
    unchanged(cx, before, canon(kp.tree), [path + '/Tags[0]'])
    e.tags = []
    cx.check(e.tags == [], 'no tags')
    unchanged(cx, before, canon(kp.tree), [path + '/Tags[0]'])


@scenario(base=[V3, V4], who=['full', 'plain', 'history', 'group', 'root'])
def icon(cx, base, who):
    kp = cx.db(base)
    e, g, f = sample(cx, kp)
    x = {'full': e, 'plain': f, 'history': e.history[1], 'group': g, 'root': kp.root_group}[who]
    path = where(kp, x._element)
    before = canon(kp.tree)
    for i in range(2):
        v = cx.str('v%d' % i)
        x.icon = v
        cx.check(txt(x.icon) == v, 'icon is read back')
        unchanged(cx, before, canon(kp.tree), [path + '/IconID[0]'])


@scenario(base=[V3, V4], field=['autotype_enabled', 'autotype_sequence', 'autotype_window'])
def autotype(cx, base, field):
    kp = cx.db(base)
    e, g, f = sample(cx, kp)
    e = [e, f, e.history[0]][cx.choice('who', [0, 1, 2])]
    path = where(kp, e._element) + '/AutoType[0]/' + {'autotype_enabled': 'Enabled[0]', 'autotype_sequence': 'DefaultSequence[0]',
                                                      'autotype_window': 'Association[0]/Window[0]'}[field]
    before = canon(kp.tree)
    for i in range(2):
        v = cx.choice('v%d' % i, [True, False, None]) if field == 'autotype_enabled' else cx.str('v%d' % i)
        setattr(e, field, v)
        r = getattr(e, field)
        if field == 'autotype_enabled':
            cx.check(r is v, 'state is read back')
        else:
            cx.check(txt(r) == v, 'text is read back')
        unchanged(cx, before, canon(kp.tree), [path])
    if field != 'autotype_enabled':
        setattr(e, field, None)
        cx.check(getattr(e, field) is None, 'text is removed')
        unchanged(cx, before, canon(kp.tree), [path])


@scenario(base=[V3, V4], missing=['AutoType', 'AutoType/Enabled', 'AutoType/DefaultSequence', 'AutoType/Association', 'AutoType/Association/Window'])
def autotype_missing(cx, base, missing):
    """entries of other programs have no elements for what is not in use"""
    kp = cx.db(base)
    e, g, f = sample(cx, kp)
    e = [e, f, e.history[0]][cx.choice('who', [0, 1, 2])]
    x = e._element.find(missing)
    x.getparent().remove(x)
    names = {'autotype_enabled': 'AutoType/Enabled', 'autotype_sequence': 'AutoType/DefaultSequence', 'autotype_window': 'AutoType/Association/Window'}
    for n in names:
        if names[n].startswith(missing):
            cx.check(getattr(e, n) is None, 'nothing where there is nothing')
    others = [n for n in names]
    field = others[cx.choice('field', [0, 1, 2])]
    was = {n: getattr(e, n) for n in names}
    before = canon(kp.tree)
    v = cx.flip('v') if field == 'autotype_enabled' else cx.str('v', lo=1, valid=False)
    try:
        setattr(e, field, v)
    except ValueError:
        unchanged(cx, before, canon(kp.tree), [], 'refused')
        return
    cx.check(getattr(e, field) == v, 'read back')
    for n in names:
        if n != field:
            cx.check(getattr(e, n) == was[n], 'the others are as before')
    unchanged(cx, before, canon(kp.tree), [where(kp, e._element) + '/AutoType[0]'])


TIMES = {'expiry_time': 'ExpiryTime', 'ctime': 'CreationTime', 'atime': 'LastAccessTime', 'mtime': 'LastModificationTime'}


@scenario(base=[V3, V4], field=list(TIMES), who=['full', 'history', 'group'])
def times(cx, base, field, who):
    kp = cx.db(base)
    e, g, f = sample(cx, kp)
    x = {'full': e, 'history': e.history[0], 'group': g}[who]
    path = where(kp, x._element) + '/Times[0]/' + TIMES[field] + '[0]'
    before = canon(kp.tree)
    v = cx.datetime('v', step=1000000)
    setattr(x, field, v)
    cx.check(getattr(x, field) == v, 'time is read back')
    unchanged(cx, before, canon(kp.tree), [path])


@scenario(base=[V3, V4], who=['full', 'history', 'group'])
def expires(cx, base, who):
    kp = cx.db(base)
    e, g, f = sample(cx, kp)
    x = {'full': e, 'history': e.history[0], 'group': g}[who]
    path = where(kp, x._element) + '/Times[0]/Expires[0]'
    before = canon(kp.tree)
    for i in range(2):
        v = cx.flip('v%d' % i)
        x.expires = v
        cx.check(x.expires is v, 'expires is read back')
        unchanged(cx, before, canon(kp.tree), [path])
    # touch changes the access time, and the modification time if asked
    m = cx.flip('modify')
    before = canon(kp.tree)
    x.touch(modify=m)
    t = where(kp, x._element) + '/Times[0]/'
    unchanged(cx, before, canon(kp.tree), [t + 'LastAccessTime[0]'] + ([t + 'LastModificationTime[0]'] if m else []))
    after = canon(kp.tree)
    cx.check(cx.neg(after[t + 'LastAccessTime[0]'] == before[t + 'LastAccessTime[0]']), 'access time is new')
    if m:
        cx.check(after[t + 'LastModificationTime[0]'] == after[t + 'LastAccessTime[0]'], 'modification time is the same')


@scenario(base=[V3, V4], who=['full', 'plain', 'history', 'group'])
def uuids(cx, base, who):
    kp = cx.db(base)
    e, g, f = sample(cx, kp)
    x = {'full': e, 'plain': f, 'history': e.history[0], 'group': g}[who]
    path = where(kp, x._element) + '/UUID[0]'
    before = canon(kp.tree)
    u = cx.uuid('u')
    x.uuid = u
    cx.check(x.uuid == u, 'UUID is read back')
    unchanged(cx, before, canon(kp.tree), [path])


@scenario(base=[V3, V4], field=['name', 'notes'], who=['group', 'inner', 'root'])
def group_text(cx, base, field, who):
    kp = cx.db(base)
    e, g, f = sample(cx, kp)
    x = {'group': g, 'inner': g.subgroups[0], 'root': kp.root_group}[who]
    path = where(kp, x._element) + '/' + {'name': 'Name[0]', 'notes': 'Notes[0]'}[field]
    before = canon(kp.tree)
    for i in range(2):
        v = cx.str('v%d' % i)
        setattr(x, field, v)
        cx.check(txt(getattr(x, field)) == v, 'text is read back')
        unchanged(cx, before, canon(kp.tree), [path])


DAYS = {'credchange_required_days': 'MasterKeyChangeForce', 'credchange_recommended_days': 'MasterKeyChangeRec'}


@scenario(base=[V3, V4])
def database_missing(cx, base):
    """a database may lack a setting: it reads as None and can be set"""
    kp = cx.db(base)
    sample(cx, kp)
    names = sorted({**DB, **DAYS, 'credchange_date': 'MasterKeyChanged'}.items())
    field, tag = names[cx.choice('setting', list(range(len(names))))]
    m = kp.tree.getroot().find('Meta')
    m.remove(m.find(tag))
    cx.check(getattr(kp, field) is None, 'missing setting')
    before = canon(kp.tree)
    v = cx.datetime('d', step=1000000) if field == 'credchange_date' else cx.int('n', -1, 10 ** 9) if field in DAYS else cx.str('v', lo=1)
    for i in range(2):
        setattr(kp, field, v)
        cx.check(getattr(kp, field) == v, 'read back')
        unchanged(cx, before, canon(kp.tree), ['KeePassFile/Meta[0]/%s[0]' % tag])
        v = v if i or field == 'credchange_date' else cx.int('m', -1, 10 ** 9) if field in DAYS else cx.str('w', lo=1)
    cx.check(getattr(reopen(cx, kp), field) == getattr(kp, field), 'reopened')


DB = {'database_name': 'DatabaseName', 'database_description': 'DatabaseDescription', 'default_username': 'DefaultUserName'}


@scenario(base=[V3, V4], field=list(DB))
def database_text(cx, base, field):
    kp = cx.db(base)
    sample(cx, kp)
    path = 'KeePassFile/Meta[0]/' + DB[field] + '[0]'
    before = canon(kp.tree)
    cx.check(path in before, 'setting exists')
    for i in range(2):
        v = cx.str('v%d' % i)
        setattr(kp, field, v)
        cx.check(txt(getattr(kp, field)) == v, 'text is read back')
        unchanged(cx, before, canon(kp.tree), [path])


@scenario(base=[V3, V4])
def database_days(cx, base):
    kp = cx.db(base)
    sample(cx, kp)
    before = canon(kp.tree)
    a, b = cx.int('a', -1, 10 ** 9), cx.int('b', -1, 10 ** 9)
    kp.credchange_required_days = a
    unchanged(cx, before, canon(kp.tree), ['KeePassFile/Meta[0]/MasterKeyChangeForce[0]'])
    kp.credchange_recommended_days = b
    cx.check(kp.credchange_required_days == a, 'required days are read back')
    cx.check(kp.credchange_recommended_days == b, 'recommended days are read back')
    unchanged(cx, before, canon(kp.tree), ['KeePassFile/Meta[0]/MasterKeyChangeForce[0]', 'KeePassFile/Meta[0]/MasterKeyChangeRec[0]'])
    before = canon(kp.tree)
    d = cx.datetime('d', step=1000000)
    kp.credchange_date = d
    cx.check(kp.credchange_date == d, 'date is read back')
    unchanged(cx, before, canon(kp.tree), ['KeePassFile/Meta[0]/MasterKeyChanged[0]'])


@scenario(base=[V3, V4])
def attachment(cx, base):
    kp = cx.db(base)
    e, g, f = sample(cx, kp)
    kp.add_binary(b'second')
    e.add_attachment(1, 'other')
    a = e.attachments[cx.choice('a', [0, 1])]
    path = where(kp, a._element)
    before = canon(kp.tree)
    n = cx.str('n', lo=1)
    a.filename = n
    cx.check(a.filename == n, 'file name is read back')
    unchanged(cx, before, canon(kp.tree), [path + '/Key[0]'])
    before = canon(kp.tree)
    i = cx.int('i', 0, 10 ** 6)
    a.id = i
    cx.check(a.id == i, 'id is read back')
    unchanged(cx, before, canon(kp.tree), [path + '/Value[0]/@Ref'])


@scenario(base=[V3, V4], a=list(STR), quick=lambda base, a: base == V4)
def two_fields(cx, base, a):
    """two assignments to two fields do not meet"""
    kp = cx.db(base)
    e, g, f = sample(cx, kp)
    b = cx.choice('b', [x for x in STR if x != a])
    x = [e, f][cx.choice('x', [0, 1])]
    y = [e, f, e.history[0]][cx.choice('y', [0, 1, 2])]
    v, w = cx.str('v'), cx.str('w')
    before = canon(kp.tree)
    setattr(x, a, v)
    setattr(y, b, w)
    cx.check(txt(getattr(x, a)) == v, 'first value is read back')
    cx.check(txt(getattr(y, b)) == w, 'second value is read back')
    unchanged(cx, before, canon(kp.tree), ['%s/String{%s}' % (where(kp, x._element), STR[a]), '%s/String{%s}' % (where(kp, y._element), STR[b])])


@scenario(base=[V3, V4, V41])
def new_entry(cx, base):
    """a new entry has what it was given and the rest is as before"""
    kp = cx.db(base)
    e, g, f = sample(cx, kp)
    before = canon(kp.tree)
    full = cx.flip('full')
    v = {k: cx.str(k, lo=1) for k in ('title', 'username', 'password')}
    if full:
        v.update({k: cx.str(k, lo=1) for k in ('url', 'notes', 'otp', 'icon')})
        t = cx.str('tag', lo=1)
        cx.assume(';' not in t)
        cx.assume(',' not in t)
        x = cx.datetime('x', step=1000000)
        n = kp.add_entry(g, tags=[t, 'tag2'], expiry_time=x, force_creation=True, **v)
    else:
        n = kp.add_entry(g, force_creation=True, **v)
    for k in v:
        cx.check(getattr(n, k) == v[k], 'given value is read back')
    if full:
        cx.check(n.tags[0] == t, 'given tag is read back')
        cx.check(n.tags[1:] == ['tag2'], 'given tag is read back')
        cx.check(n.expiry_time == x, 'given expiry time is read back')
        cx.check(n.expires is True, 'expires if an expiry time is given')
    else:
        for k in ('url', 'notes', 'otp', 'icon', 'autotype_sequence', 'autotype_window'):
            cx.check(not getattr(n, k), 'nothing else is set')
        cx.check(n.tags == [], 'no tags')
        cx.check(n.expires is False, 'does not expire')
    cx.check(n.autotype_enabled is True, 'autotype is on')
    cx.check(n.ctime == n.mtime, 'created and modified at the same time')
    cx.check(len(n.history) == 0, 'no history')
    cx.check(n.custom_properties == {}, 'no custom properties')
    cx.check(n._is_property_protected('Password'), 'password is protected')
    cx.check(g.entries[-1] == n, 'is the last of its group')
    unchanged(cx, before, canon(kp.tree), [where(kp, n._element)])


@scenario(base=[V3, V4])
def new_group(cx, base):
    kp = cx.db(base)
    e, g, f = sample(cx, kp)
    before = canon(kp.tree)
    name, notes, icon = cx.str('name', lo=1), cx.str('notes', lo=1), cx.str('icon', lo=1)
    full = cx.flip('full')
    n = kp.add_group(g, name, icon=icon, notes=notes) if full else kp.add_group(g, name)
    cx.check(n.name == name, 'name is read back')
    if full:
        cx.check(n.notes == notes, 'notes are read back')
        cx.check(n.icon == icon, 'icon is read back')
    else:
        cx.check(not n.notes, 'no notes')
        cx.check(not n.icon, 'no icon')
    cx.check(n.expires is False, 'does not expire')
    cx.check(n.entries == [] and n.subgroups == [], 'empty')
    cx.check(g.subgroups[-1] == n, 'is the last of its group')
    unchanged(cx, before, canon(kp.tree), [where(kp, n._element)])


@scenario(base=[V3, V4])
def made_entry(cx, base):
    """an entry made on its own and then put into a group"""
    from pykeepass.entry import Entry
    kp = cx.db(base)
    e, g, f = sample(cx, kp)
    before = canon(kp.tree)
    v = {k: cx.str(k, lo=1) for k in ('title', 'username', 'password')}
    more = cx.choice('more', ['texts', 'autotype', 'times', 'nothing'])
    if more == 'texts':
        v.update({k: cx.str(k, lo=1) for k in ('url', 'notes', 'otp', 'icon')})
    elif more == 'autotype':
        v.update({k: cx.str(k, lo=1) for k in ('autotype_sequence', 'autotype_window')})
        v['autotype_enabled'] = cx.flip('enabled')
    elif more == 'times':
        v['expiry_time'] = cx.datetime('x', step=1000000)
        v['expires'] = cx.flip('expires')
    n = Entry(kp=kp, **v)
    unchanged(cx, before, canon(kp.tree))
    g.append(n)
    if cx.flip('reopened'):
        cx.unlimit(2 ** 19)
        kp = reopen(cx, kp)
        n = kp.find_groups(name='g1', first=True).entries[-1]
    for k in v:
        cx.check(getattr(n, k) == v[k], 'given value is read back')
    for k in ('url', 'notes', 'otp', 'icon', 'autotype_sequence', 'autotype_window'):
        if k not in v:
            cx.check(not getattr(n, k), 'nothing else is set')
    for k, w in (('autotype_enabled', True), ('expires', False)):
        cx.check(getattr(n, k) is v.get(k, w), k)
    cx.check(n.tags == [], 'no tags')
    cx.check(n.custom_properties == {}, 'no custom properties')
    cx.check(len(n.history) == 0, 'no history')
    unchanged(cx, before, canon(kp.tree), [where(kp, n._element)])


@scenario(base=[V3, V4])
def made_group(cx, base):
    from pykeepass.group import Group
    kp = cx.db(base)
    e, g, f = sample(cx, kp)
    before = canon(kp.tree)
    v = {'name': cx.str('name', lo=1)}
    more = cx.choice('more', ['texts', 'times', 'nothing'])
    if more == 'texts':
        v.update({k: cx.str(k, lo=1) for k in ('notes', 'icon')})
    elif more == 'times':
        v['expiry_time'] = cx.datetime('x', step=1000000)
        v['expires'] = cx.flip('expires')
    n = Group(kp=kp, **v)
    unchanged(cx, before, canon(kp.tree))
    g.append(n)
    if cx.flip('reopened'):
        cx.unlimit(2 ** 19)
        kp = reopen(cx, kp)
        n = kp.find_groups(name='g1', first=True).subgroups[-1]
    for k in v:
        cx.check(getattr(n, k) == v[k], 'given value is read back')
    for k in ('notes', 'icon'):
        if k not in v:
            cx.check(not getattr(n, k), 'nothing else is set')
    cx.check(n.expires is v.get('expires', False), 'expires')
    cx.check(n._element.find('Times/Expires').text in ('True', 'False'), 'stored as a boolean')
    cx.check(n.entries == [] and n.subgroups == [], 'empty')
    unchanged(cx, before, canon(kp.tree), [where(kp, n._element)])
