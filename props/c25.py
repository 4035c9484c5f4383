"""A refused value leaves everything as it was."""
import copy
from datetime import datetime, timedelta, timezone
from sx.api import scenario, V3, V4, V41
from props.lib import sample
from pykeepass import PyKeePass

BOUNDS = ('one call on a database of 3 groups, 4 entries, 2 history states and 1 attachment whose affected field holds any text; '
          'value: every text (also with characters that XML cannot carry), any 3 bytes, every integer, None, floats, booleans, lists, tuples, dictionaries, other objects, '
          'date and time with and without offset, UUID, and lists mixing valid and invalid tags; every field of entries, groups and database')
ASSUMES = ['lxml rejects a value in the way seen in its released versions: the old text of an element is removed before the new one is refused, an attribute keeps its value']

FIELDS = ('title', 'username', 'password', 'url', 'notes', 'otp', 'icon', 'tags')
AUTO = ('autotype_sequence', 'autotype_window', 'autotype_enabled')
TIMES = ('expiry_time', 'ctime', 'atime', 'mtime', 'expires', 'uuid')
DB = ('database_name', 'database_description', 'default_username', 'credchange_required_days', 'credchange_recommended_days', 'credchange_date')


class Thing:
    def __str__(self):
        return 'thing'


class Mute:
    def __str__(self):
        raise RuntimeError('no text')


def values(cx, kind):
    return {
        'text': lambda: cx.str('value', valid=False),
        'bytes': lambda: cx.bytes('value', 3),
        'int': lambda: cx.int('value'),
        'none': lambda: None,
        'list': lambda: [cx.str('value', valid=False), 'ok'],
        'mixed': lambda: ['ok', cx.int('value')],
        'time': lambda: cx.datetime('value', tz='any'),
        'naive': lambda: datetime(2020, 1, 2, 3, 4, 5),
        'uuid': lambda: cx.uuid('value'),
        'other': lambda: cx.choice('value', [1.5, True, (), ('a',), {}, {'a': 1}, object(), Thing(), Mute(), timedelta(1), b'', bytearray(b'x'), '\x00', '\ud800', 'a\x0b']),
    }[kind]()


KINDS = ['text', 'bytes', 'int', 'none', 'list', 'mixed', 'time', 'naive', 'uuid', 'other']


def attempt(cx, kp, op, what):
    """the operation is carried out or everything is as before"""
    before, data = copy.deepcopy(kp.tree), list(kp.binaries)
    try:
        op()
    except Exception:
        cx.check(cx.tree_eq(before, kp.tree), what + ' refused: the document is as before')
        now = kp.binaries
        cx.check(len(now) == len(data), what + ' refused: number of binaries')
        for a, b in zip(data, now):
            cx.check(a == b, what + ' refused: binary')
        return False
    cx.check(True, 'accepted')
    return True


@scenario(base=[V3, V4, V41], kind=KINDS, field=list(FIELDS + AUTO + TIMES), quick=lambda base, kind, field: base != V41)
def entry_field(cx, base, kind, field):
    kp = cx.db(base)
    e, g, f = sample(cx, kp)
    if field in FIELDS or field in AUTO[:2]:
        setattr(e, field, cx.str('old'))
    e.autotype_enabled = True
    v = values(cx, kind)
    if not attempt(cx, kp, lambda: setattr(e, field, v), field):
        if field in FIELDS[:7] or field in AUTO[:2]:
            setattr(e, field, 'fine')
            cx.check(getattr(e, field) == 'fine', 'a valid value is accepted afterwards')


@scenario(base=[V3, V4], kind=KINDS, field=list(FIELDS + TIMES[:4]))
def fresh_field(cx, base, kind, field):
    """the field does not exist yet"""
    kp = cx.db(base)
    e, g, f = sample(cx, kp)
    h = kp.add_entry(kp.root_group, 'fresh', '', '')
    v = values(cx, kind)
    attempt(cx, kp, lambda: setattr(h, field, v), field)


@scenario(base=[V3, V4, V41], kind=KINDS, field=['name', 'notes', 'icon'] + list(TIMES), quick=lambda base, kind, field: base != V41)
def group_field(cx, base, kind, field):
    kp = cx.db(base)
    e, g, f = sample(cx, kp)
    if field in ('name', 'notes', 'icon'):
        setattr(g, field, cx.str('old'))
    v = values(cx, kind)
    attempt(cx, kp, lambda: setattr(g, field, v), field)


@scenario(base=[V3, V4, V41], kind=KINDS, field=list(DB), quick=lambda base, kind, field: base != V41)
def database_field(cx, base, kind, field):
    kp = cx.db(base)
    sample(cx, kp)
    if field in DB[:3]:
        setattr(kp, field, cx.str('old'))
    v = values(cx, kind)
    attempt(cx, kp, lambda: setattr(kp, field, v), field)


@scenario(base=[V3, V4], kind=KINDS, part=['key', 'value'], exists=[True, False], protect=[True, False])
def custom(cx, base, kind, part, exists, protect):
    kp = cx.db(base)
    e, g, f = sample(cx, kp)
    if exists:
        e.set_custom_property('mine', cx.str('old'), protect=True)
    v = values(cx, kind)
    if part == 'key':
        attempt(cx, kp, lambda: e.set_custom_property(v, 'x', protect), 'property')
    else:
        attempt(cx, kp, lambda: e.set_custom_property('mine', v, protect), 'property')


@scenario(base=[V3, V4], action=['set', 'delete'])
def reserved(cx, base, action):
    """keys of other fields, or unknown ones"""
    kp = cx.db(base)
    e, g, f = sample(cx, kp)
    k = cx.choice('key', ['Title', 'UserName', 'Password', 'URL', 'Tags', 'IconID', 'Times', 'History', 'Notes', 'otp', 'missing'])
    v = cx.str('value')
    if action == 'set':
        ok = attempt(cx, kp, lambda: e.set_custom_property(k, v), 'property')
        cx.check(ok == (k == 'missing'), 'reserved keys are refused')
    else:
        ok = attempt(cx, kp, lambda: e.delete_custom_property(k), 'property')
        cx.check(not ok, 'there is no such property')


@scenario(base=[V3, V4], kind=KINDS, arg=['title', 'username', 'password', 'url', 'notes', 'expiry_time', 'tags', 'otp', 'icon', 'destination_group'])
def new_entry(cx, base, kind, arg):
    kp = cx.db(base)
    e, g, f = sample(cx, kp)
    v = values(cx, kind)
    args = {'destination_group': g, 'title': 'n', 'username': 'u', 'password': 'p', 'url': 'x', 'notes': 'y', 'otp': 'z', 'tags': ['a'], 'icon': '1'}
    args[arg] = v
    attempt(cx, kp, lambda: kp.add_entry(**args), 'entry')


@scenario(base=[V3, V4])
def existing_entry(cx, base):
    """adding one more of the same title and user name is refused"""
    kp = cx.db(base)
    e, g, f = sample(cx, kp)
    t, u = cx.str('title', lo=1), cx.str('user', lo=1)
    x = kp.add_entry(g, 'other', 'u', 'p')
    x.title, x.username = t, u
    cx.check(not attempt(cx, kp, lambda: kp.add_entry(g, t, u, cx.str('password')), 'entry'), 'refused')


@scenario(base=[V3, V4], kind=KINDS, arg=['group_name', 'icon', 'notes', 'destination_group'])
def new_group(cx, base, kind, arg):
    kp = cx.db(base)
    e, g, f = sample(cx, kp)
    v = values(cx, kind)
    args = {'destination_group': g, 'group_name': 'n', 'notes': 'y', 'icon': '1'}
    args[arg] = v
    attempt(cx, kp, lambda: kp.add_group(**args), 'group')


@scenario(base=[V3, V4], kind=KINDS, what=['add', 'filename', 'id', 'add id'])
def attachment(cx, base, kind, what):
    kp = cx.db(base)
    e, g, f = sample(cx, kp)
    a, = e.attachments
    a.filename = cx.str('old', lo=1)
    v = values(cx, kind)
    attempt(cx, kp, {
        'add': lambda: e.add_attachment(0, v),
        'add id': lambda: e.add_attachment(v, 'file'),
        'filename': lambda: setattr(a, 'filename', v),
        'id': lambda: setattr(a, 'id', v)}[what], 'attachment')


@scenario(base=[V3, V4], kind=['text', 'int', 'none', 'list', 'mixed', 'time', 'naive', 'uuid', 'other'], compressed=[True, False])
def binary(cx, base, kind, compressed):
    kp = cx.db(base)
    sample(cx, kp)
    v = values(cx, kind)
    attempt(cx, kp, lambda: kp.add_binary(v, compressed=compressed), 'binary')


@scenario(base=[V3, V4])
def unknown_binary(cx, base):
    kp = cx.db(base)
    e, g, f = sample(cx, kp)
    for d in (b'more', b'and more'):
        f.add_attachment(kp.add_binary(d), 'file')
    i = cx.int('id')
    n = len(kp.binaries)
    ok = attempt(cx, kp, lambda: kp.delete_binary(i), 'deletion')
    cx.check(ok == cx.both(i >= 0, i < n), 'deleted exactly if it exists')
