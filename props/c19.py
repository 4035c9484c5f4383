"""Times are stored and read as the same instant."""
import base64
import struct
from datetime import datetime, timedelta, timezone
from sx.api import scenario, V3, V4, V41
from props.lib import canon, unchanged, reopen, sample, where, ALL
from pykeepass import PyKeePass

BOUNDS = ('every instant from 0001-01-01 to 9999-12-31 UTC at microsecond resolution, every UTC offset of whole minutes below 24 h; KDBX 3.1, 4.0 and 4.1; '
          'every moment of the clock; text forms with Z, an offset or none, with and without fractions, and the binary form; items without each part of the times')
ASSUMES = ['datetime.isoformat and datetime.fromisoformat are inverse']
UTC = timezone.utc
FIRST = datetime(1, 1, 1, tzinfo=UTC)
LAST = datetime(9999, 12, 31, 23, 59, 59, 999999, tzinfo=UTC)
TAGS = {'expiry_time': 'ExpiryTime', 'ctime': 'CreationTime', 'atime': 'LastAccessTime', 'mtime': 'LastModificationTime'}


def inside(cx, d):
    """its instant lies within the calendar in UTC too"""
    cx.assume(cx.both(d >= FIRST, d <= LAST))


def same(cx, got, want, what):
    """the same instant to the second, in UTC"""
    cx.check(got.tzinfo is not None, what + ' has a zone')
    cx.check(got.utcoffset() == timedelta(0), what + ' is in UTC')
    cx.check((got - FIRST) // timedelta(seconds=1) == (want - FIRST) // timedelta(seconds=1), what + ' is the same instant')


def item(cx, kp, kind):
    e, g, f = sample(cx, kp)
    return g if kind == 'group' else e if kind == 'entry' else e.history[0]


@scenario(base=[V3, V4, V41], kind=['entry', 'group', 'history'], prop=sorted(TAGS))
def instant(cx, base, kind, prop):
    """what is set is read, in UTC, and nothing else changes"""
    kp = cx.db(base)
    x = item(cx, kp, kind)
    d = cx.datetime('d', tz='any')
    inside(cx, d)
    before = canon(kp.tree)
    setattr(x, prop, d)
    same(cx, getattr(x, prop), d, prop)
    unchanged(cx, before, canon(kp.tree), [where(kp, x._element) + '/Times[0]/%s[0]' % TAGS[prop]])


@scenario(base=[V3, V4, V41])
def all_at_once(cx, base):
    """also after saving and reopening"""
    kp = cx.db(base)
    g = kp.add_group(kp.root_group, 'g')
    e = kp.add_entry(g, 't', 'u', 'p')
    ds = {}
    for n, x in (('g', g), ('e', e)):
        for p in TAGS:
            d = ds[n + p] = cx.datetime(n + p, tz='any' if p in ('expiry_time', 'atime') else 'utc')
            inside(cx, d)
            setattr(x, p, d)
    c = cx.datetime('c', tz='any')
    inside(cx, c)
    kp.credchange_date = c
    kp2 = reopen(cx, kp)
    g2 = kp2.groups[1]
    for n, x in (('g', g2), ('e', g2.entries[0])):
        for p in TAGS:
            same(cx, getattr(x, p), ds[n + p], 'after reopening: ' + p)
    same(cx, kp2.credchange_date, c, 'after reopening: credential change')


@scenario(base=[V3, V4, V41])
def credchange(cx, base):
    kp = cx.db(base)
    sample(cx, kp)
    d = cx.datetime('d', tz='any')
    inside(cx, d)
    before = canon(kp.tree)
    kp.credchange_date = d
    same(cx, kp.credchange_date, d, 'credential change')
    unchanged(cx, before, canon(kp.tree), ['KeePassFile/Meta[0]/MasterKeyChanged[0]'])


@scenario(base=[V3, V4, V41], form=['Z', 'offset', 'none', 'fraction Z', 'fraction offset'])
def plaintext(cx, base, form):
    """times written as text by other programs, in both format versions"""
    kp = cx.db(base)
    e = kp.add_entry(kp.root_group, 't', 'u', 'p')
    step = 1 if form.startswith('fraction') else 1000000
    if form.endswith('offset'):
        d = cx.datetime('d', tz='any', step=step)
        inside(cx, d)
        text, want = d.isoformat(), d
    else:
        d = cx.datetime('d', tz=None, step=step)
        text, want = d.isoformat() + ('Z' if form.endswith('Z') else ''), d.replace(tzinfo=UTC)
    for t in ('CreationTime', 'ExpiryTime'):
        e._element.find('Times').find(t).text = text
    kp.tree.find('Meta/MasterKeyChanged').text = text
    same(cx, e.ctime, want, 'ctime')
    same(cx, e.expiry_time, want, 'expiry_time')
    same(cx, kp.credchange_date, want, 'credential change')
    kp2 = reopen(cx, kp)
    same(cx, kp2.entries[0].ctime, want, 'ctime after reopening')


@scenario(base=[V4, V41])
def binary(cx, base):
    """times written in binary form: seconds since year 1"""
    kp = cx.db(base)
    e = kp.add_entry(kp.root_group, 't', 'u', 'p')
    n = cx.int('n', 0, 315537897599)
    e._element.find('Times/CreationTime').text = base64.b64encode(struct.pack('<Q', n)).decode()
    cx.check(e.ctime == FIRST + timedelta(seconds=n), 'seconds since year 1')
    d = cx.datetime('d', tz='any')
    inside(cx, d)
    e.mtime = d
    raw = base64.b64decode(e._element.find('Times/LastModificationTime').text)
    cx.check(len(raw) == 8, 'eight bytes')
    cx.check(int.from_bytes(raw, 'little') == (d - FIRST) // timedelta(seconds=1), 'written as seconds since year 1')


@scenario(base=[V3, V4], kind=['entry', 'group', 'history'])
def expired(cx, base, kind):
    """expired exactly if it expires and the time has passed"""
    kp = cx.db(base)
    x = item(cx, kp, kind)
    d, now = cx.datetime('d', tz='any'), cx.datetime('now')
    inside(cx, d)
    x.expires = cx.flip('expires')
    if cx.flip('with time'):
        x.expiry_time = d
    else:
        x.expiry_time = d.astimezone(UTC)
    cx.clock(lambda: now)
    before = canon(kp.tree)
    stored = x.expiry_time
    got = x.expired
    if x.expires:
        cx.check(got == (now > stored), 'expired exactly if past the stored time')
        # to the second, that is the time that was set
        if now > d:
            cx.check(got, 'expired when past the given time')
        if (now - FIRST) // timedelta(seconds=1) < (d - FIRST) // timedelta(seconds=1):
            cx.check(not got, 'not expired in an earlier second')
    else:
        cx.check(got is False, 'what does not expire is never expired')
    unchanged(cx, before, canon(kp.tree), [], 'asking')


@scenario(base=[V3, V4])
def flag(cx, base):
    """setting the flag or the time leaves the other"""
    kp = cx.db(base)
    e = kp.add_entry(kp.root_group, 't', 'u', 'p')
    d = cx.datetime('d')
    e.expiry_time = d
    a, b = cx.flip('a'), cx.flip('b')
    e.expires = a
    cx.check(e.expires is a, 'flag')
    same(cx, e.expiry_time, d, 'time')
    c = cx.datetime('c')
    e.expiry_time = c
    cx.check(e.expires is a, 'flag kept')
    e.expires = b
    cx.check(e.expires is b, 'flag')
    same(cx, e.expiry_time, c, 'time')


@scenario(base=[V3, V4], kind=['entry', 'group', 'history'])
def touch(cx, base, kind):
    """touch sets access time, and modification time if asked, to now"""
    kp = cx.db(base)
    x = item(cx, kp, kind)
    a, m, c = (cx.datetime(n) for n in 'amc')
    x.atime, x.mtime, x.ctime = a, m, c
    now = cx.datetime('now')
    cx.clock(lambda: now)
    modify = cx.flip('modify')
    before = canon(kp.tree)
    place = where(kp, x._element) + '/Times[0]/'
    x.touch(modify=modify)
    same(cx, x.atime, now, 'access time')
    same(cx, x.mtime, now if modify else m, 'modification time')
    same(cx, x.ctime, c, 'creation time')
    unchanged(cx, before, canon(kp.tree), [place + 'LastAccessTime[0]'] + ([place + 'LastModificationTime[0]'] if modify else []))


@scenario(base=[V3, V4, V41])
def created(cx, base):
    """new entries and groups have the time of creation, and the given expiry"""
    kp = cx.db(base)
    now, d = cx.datetime('now'), cx.datetime('d', tz='any')
    inside(cx, d)
    cx.clock(lambda: now)
    e = kp.add_entry(kp.root_group, 't', 'u', 'p', expiry_time=d)
    f = kp.add_entry(kp.root_group, 't2', 'u', 'p')
    g = kp.add_group(kp.root_group, 'g')
    for x in (e, f, g):
        for p in ('ctime', 'atime', 'mtime'):
            same(cx, getattr(x, p), now, p + ' of a new item')
    same(cx, e.expiry_time, d, 'given expiry')
    cx.check(e.expires is True, 'expires when given')
    cx.check(f.expires is False, 'does not expire unless given')
    cx.check(g.expires is False, 'does not expire unless given')
    later = cx.datetime('later')
    cx.clock(lambda: later)
    cx.check(e.expired == (later > e.expiry_time), 'expired')
    cx.check(f.expired is False, 'never expired')
    cx.check(g.expired is False, 'never expired')


@scenario(base=[V3, V4], kind=['entry', 'group', 'history'])
def timeless(cx, base, kind):
    """items of other programs may lack times, or some of them: these read as None, and setting them changes nothing else"""
    kp = cx.db(base)
    x = item(cx, kp, kind)
    times = x._element.find('Times')
    prop = cx.choice('prop', sorted(TAGS))
    how = cx.choice('how', ['no times', 'not this one', 'empty'])
    if how == 'no times':
        x._element.remove(times)
    elif how == 'not this one':
        times.remove(times.find(TAGS[prop]))
    else:
        times.find(TAGS[prop]).text = None
    cx.check(getattr(x, prop) is None, 'no time, no value')
    if how == 'no times':
        cx.check(not x.expires, 'does not expire without times')
    else:
        x.expires = cx.flip('expires')
    cx.check(prop != 'expiry_time' and x.expires is True or not x.expired, 'not expired without a time')
    before = canon(kp.tree)
    d = cx.datetime('d', tz='any')
    inside(cx, d)
    setattr(x, prop, d)
    own = where(kp, x._element) + '/Times[0]'
    unchanged(cx, before, canon(kp.tree), [own if how == 'no times' else own + '/%s[0]' % TAGS[prop]])
    same(cx, getattr(x, prop), d, prop)
    if how != 'no times':
        for p in TAGS:
            if p != prop:
                cx.check(getattr(x, p) is not None, 'the other times are there')
    kp2 = reopen(cx, kp)
    cx.check(cx.tree_eq(kp.tree, kp2.tree), 'saved as it is')


@scenario(base=[V3, V4], kind=['entry', 'group'])
def flagless(cx, base, kind):
    """without a mark whether it expires, it does not"""
    kp = cx.db(base)
    x = item(cx, kp, kind)
    f = x._element.find('Times').find('Expires')
    if cx.flip('empty'):
        f.text = None
    else:
        f.getparent().remove(f)
    cx.check(not x.expires, 'does not expire')
    cx.check(x.expired is False, 'never expired')
    v = cx.flip('set')
    if cx.flip('no times'):
        x._element.remove(x._element.find('Times'))
    x.expires = v
    cx.check(x.expires is v, 'set')
