"""Credential changes are dated and their age is judged exactly."""
from datetime import datetime, timedelta, timezone
from sx.api import scenario, V3, V4, V41
from props.lib import canon, unchanged, reopen, sample
from pykeepass import PyKeePass

BOUNDS = ('every date of change from year 1 to 9999 with every UTC offset, every moment of the clock, every number of days from -1 to 3,652,058 (all that the calendar has); '
          'KDBX 3.1, 4.0 and 4.1; passwords and key file names of any text; up to 2 changes; also after reopening')
ASSUMES = ['datetime.isoformat and datetime.fromisoformat are inverse']
UTC = timezone.utc
FIRST = datetime(1, 1, 1, tzinfo=UTC)
LAST = datetime(9999, 12, 31, 23, 59, 59, 999999, tzinfo=UTC)
DAYS = 3652058
META = 'KeePassFile/Meta[0]/'
DATE, REC, REQ = META + 'MasterKeyChanged[0]', META + 'MasterKeyChangeRec[0]', META + 'MasterKeyChangeForce[0]'


def sec(d):
    return (d - FIRST) // timedelta(seconds=1)



@scenario(base=[V3, V4, V41], which=['required', 'recommended'])
def age(cx, base, which):
    kp = cx.db(base)
    d, now = cx.datetime('d', tz='any'), cx.datetime('now')
    cx.assume(cx.both(d >= FIRST, d <= LAST))
    kp.credchange_date = d
    n, other = cx.int('n', -1, DAYS), cx.int('other', -1, DAYS)
    if which == 'required':
        kp.credchange_required_days, kp.credchange_recommended_days = n, other
    else:
        kp.credchange_recommended_days, kp.credchange_required_days = n, other
    cx.check(getattr(kp, 'credchange_%s_days' % which) == n, 'days')
    cx.clock(lambda: now)
    before = canon(kp.tree)
    got = getattr(kp, 'credchange_' + which)
    stored = kp.credchange_date
    passed = (now - stored) // timedelta(days=1)
    cx.check(sec(stored) == sec(d), 'date as given, to the second')
    cx.check(got == cx.both(n != -1, passed > n), 'due exactly if more days than configured have passed')
    unchanged(cx, before, canon(kp.tree), [], 'asking')


@scenario(base=[V3, V4], n=[-1, 0, 1, 30, 365, 100000])
def fixed_days(cx, base, n):
    """the same with usual numbers of days, after reopening"""
    kp = cx.db(base)
    d, now = cx.datetime('d'), cx.datetime('now')
    kp.credchange_date = d
    kp.credchange_required_days = n
    kp.credchange_recommended_days = n + 1 if n >= 0 else n
    kp = reopen(cx, kp)
    cx.clock(lambda: now)
    stored = kp.credchange_date
    cx.check(kp.credchange_required == (n != -1 and now - stored >= timedelta(days=n + 1)), 'required')
    cx.check(kp.credchange_recommended == (n != -1 and now - stored >= timedelta(days=n + 2)), 'recommended')
    cx.check(kp.credchange_required_days == n, 'days')
    cx.check(kp.credchange_recommended_days == (n + 1 if n >= 0 else n), 'days')


@scenario(base=[V3, V4, V41], what=['password', 'keyfile'])
def change(cx, base, what):
    """a new credential sets the date to now and nothing else"""
    kp = cx.db(base)
    sample(cx, kp)
    kp.credchange_date = cx.datetime('old')
    kp.credchange_required_days, kp.credchange_recommended_days = cx.int('req', -1, DAYS), cx.int('rec', -1, DAYS)
    now = cx.datetime('now')
    cx.clock(lambda: now)
    before = canon(kp.tree)
    pw, kf = kp.password, kp.keyfile
    v = None if cx.flip('none') else cx.str('v')
    setattr(kp, what, v)
    cx.check(getattr(kp, what) == v, 'credential as given')
    cx.check((kp.keyfile if what == 'password' else kp.password) == (kf if what == 'password' else pw), 'the other credential is kept')
    cx.check(sec(kp.credchange_date) == sec(now), 'date of the change is now')
    unchanged(cx, before, canon(kp.tree), [DATE])
    cx.check(not kp.credchange_required, 'not required right after it') if kp.credchange_required_days >= 0 else None
    cx.check(not kp.credchange_recommended, 'not recommended right after it') if kp.credchange_recommended_days >= 0 else None


@scenario(base=[V3, V4])
def twice(cx, base):
    """each change is dated"""
    kp = cx.db(base)
    cx.put('key', b'some key')
    t = [cx.datetime('t0'), cx.datetime('t1'), cx.datetime('t2')]
    for i in range(3):
        cx.clock(lambda: t[i])
        what = cx.choice('what%d' % i, ['password', 'no password', 'keyfile', 'no keyfile'])
        if what in ('keyfile', 'no keyfile'):
            kp.keyfile = cx.path('key') if what == 'keyfile' else None
        else:
            kp.password = cx.str('p%d' % i) if what == 'password' else None
        cx.check(sec(kp.credchange_date) == sec(t[i]), 'date of the change')
    kp2 = reopen(cx, kp)
    cx.check(sec(kp2.credchange_date) == sec(t[2]), 'date of the change after reopening')


@scenario(base=[V3, V4, V41])
def days(cx, base):
    """numbers of days are set independently"""
    kp = cx.db(base)
    sample(cx, kp)
    before = canon(kp.tree)
    a, b = cx.int('a', -1, DAYS), cx.int('b', -1, DAYS)
    kp.credchange_required_days = a
    unchanged(cx, before, canon(kp.tree), [REQ])
    mid = canon(kp.tree)
    kp.credchange_recommended_days = b
    unchanged(cx, mid, canon(kp.tree), [REC])
    cx.check(kp.credchange_required_days == a, 'required days')
    cx.check(kp.credchange_recommended_days == b, 'recommended days')
    kp2 = reopen(cx, kp)
    cx.check(kp2.credchange_required_days == a, 'required days after reopening')
    cx.check(kp2.credchange_recommended_days == b, 'recommended days after reopening')


@scenario(base=[V3, V4])
def reading(cx, base):
    """opening, reloading and saving are no changes"""
    kp = cx.db(base)
    d = cx.datetime('d')
    kp.credchange_date = d
    now = cx.datetime('now')
    cx.clock(lambda: now)
    s = cx.path('x.kdbx')
    kp.save(s)
    cx.check(sec(kp.credchange_date) == sec(d), 'saving')
    kp2 = PyKeePass(s, password=kp.password)
    cx.check(sec(kp2.credchange_date) == sec(d), 'opening')
    kp2.reload()
    cx.check(sec(kp2.credchange_date) == sec(d), 'reloading')


@scenario(base=[V3, V4])
def missing(cx, base):
    """a database without these settings asks for no change"""
    kp = cx.db(base)
    cx.clock(lambda now=cx.datetime('now'): now)
    m = kp.tree.find('Meta')
    what = cx.choice('what', ['date', 'days', 'all'])
    for t in {'date': ('MasterKeyChanged',), 'days': ('MasterKeyChangeForce', 'MasterKeyChangeRec'), 'all': ('MasterKeyChanged', 'MasterKeyChangeForce', 'MasterKeyChangeRec')}[what]:
        m.remove(m.find(t))
    cx.check(kp.credchange_required is False, 'required')
    cx.check(kp.credchange_recommended is False, 'recommended')
    now = cx.datetime('then')
    cx.clock(lambda: now)
    before = canon(kp.tree)
    if cx.flip('keyfile'):
        kp.keyfile = None
    else:
        kp.password = cx.str('p')
    cx.check(sec(kp.credchange_date) == sec(now), 'date of the change is now')
    unchanged(cx, before, canon(kp.tree), [DATE])
    cx.check(what == 'date' or kp.credchange_required is False, 'still not required')
