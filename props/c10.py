"""A failed or interrupted save leaves the old file intact."""
from sx.api import scenario, V3, V4
from props.lib import txt
from pykeepass import PyKeePass
from pathlib import Path
import os

BOUNDS = ('one fault or one crash at every file operation of a save (every open, write, close, rename and removal, the index being symbolic), target names '
          'with and without suffix, also .tmp, str and pathlib, present or not; up to 4 other files beside it; text and attachment of any content; failures of the '
          'serialisation by missing key file and by data of a wrong type')
ASSUMES = ['files behave as on a local POSIX file system whose rename is atomic and whose completed writes survive a crash of the process']
NAMES = ['db.kdbx', 'db', 'db.tmp', 'db.kdbx.tmp', '.hidden', 'a b.c.kdbx', 'tmp']
NEAR = ['db.kdbx', 'db', 'db.tmp', 'db.kdbx~', 'db.bak', 'db.kdbx.lock', 'other.kdbx', 'a b.c.tmp', 'a b.tmp', '.tmp', '.hidden.bak', 'tmp.kdbx', 'tmp~']


def target(cx, name):
    p = cx.path(name)
    return Path(p) if name in ('db', 'db.tmp', 'missing/db.kdbx') and cx.flip('pathlib') else p


def setup(cx, base, name, there):
    """files as they are before the save; -> database, content of every file"""
    kp = cx.db(base)
    cx.unlimit(2 ** 19)
    if there:
        kp.save(cx.path(name))
        cx.files()
    for n in NEAR:
        if n != name and n != name + '.tmp':
            cx.put(n, b'content of ' + n.encode())
    before = dict(cx.files())
    e = kp.add_entry(kp.root_group, 't', 'u', cx.str('p', lo=1))
    if base == V4:
        e.add_attachment(kp.add_binary(cx.blob('b', lo=1, hi=4096)), 'f')
    return kp, before


def complete(cx, kp, data):
    k = PyKeePass(cx.bio(data), password='pw')
    cx.check(cx.tree_eq(k.tree, kp.tree), 'new file is complete')
    a, b = k.binaries, kp.binaries
    cx.check(len(a) == len(b), 'new file has all binaries')
    for x, y in zip(a, b):
        cx.check(x == y, 'new file has the binaries')


def judge(cx, kp, name, before, after, clean):
    for n in before:
        if n != name:
            cx.check(n in after, 'other files still exist')
            cx.check(after[n] == before[n], 'other files are unchanged')
    if clean:
        for n in after:
            cx.check(n in before or n == name, 'no temporary file left')
    new = None
    if name in before:
        cx.check(name in after, 'target exists')
        if cx.truth(after[name] == before[name]):
            new = False
        else:
            complete(cx, kp, after[name])
            new = True
    elif name in after:
        complete(cx, kp, after[name])
        new = True
    else:
        new = False
    return new


@scenario(base=[V3, V4], name=NAMES, there=[True, False], quick=lambda base, name, there: base == V4 or name in ('db.kdbx', 'db.tmp'))
def crash(cx, base, name, there):
    """the process dies before any one of the file operations"""
    kp, before = setup(cx, base, name, there)
    k = cx.int('k', 0, 400)
    t = target(cx, name)
    cx.arm(crash=k)
    kp.save(t)
    cx.disarm()
    s = cx.snapshot()
    if s is not None:
        judge(cx, kp, name, before, s, False)
    new = judge(cx, kp, name, before, cx.files(), True)
    cx.check(new, 'saved')


@scenario(base=[V3, V4], name=NAMES, there=[True, False], quick=lambda base, name, there: base == V4 or name in ('db.kdbx', 'db.tmp'))
def fault(cx, base, name, there):
    """any one of the file operations fails"""
    kp, before = setup(cx, base, name, there)
    k = cx.int('k', 0, 400)
    t = target(cx, name)
    cx.arm(fault=k)
    try:
        kp.save(t)
    except Exception:
        ok = False
    else:
        ok = True
    cx.disarm()
    new = judge(cx, kp, name, before, cx.files(), True)
    if ok:
        cx.check(new, 'a save without error has saved')
    # once more, without the fault
    kp.save(t)
    cx.check(judge(cx, kp, name, before, cx.files(), True), 'saved the second time')


@scenario(base=[V3, V4], name=['db.kdbx', 'db.tmp', 'db'], there=[True, False])
def default_target(cx, base, name, there):
    """the same for save() to where the database was opened"""
    kp, before = setup(cx, base, name, there)
    kp.filename = target(cx, name)
    k = cx.int('k', 0, 400)
    f = cx.flip('fault')
    if f:
        cx.arm(fault=k)
    else:
        cx.arm(crash=k)
    try:
        kp.save()
        ok = True
    except Exception:
        ok = False
    cx.disarm()
    s = cx.snapshot()
    if s is not None:
        judge(cx, kp, name, before, s, False)
    new = judge(cx, kp, name, before, cx.files(), True)
    cx.check(new or not ok, 'a save without error has saved')
    cx.check(f or ok, 'no error without a fault')


@scenario(base=[V3, V4], name=['db.kdbx', 'db.tmp', 'db'], there=[True, False])
def unserialisable(cx, base, name, there):
    """what cannot be written: missing key file, attachment of a wrong type, credentials of a wrong type"""
    kp, before = setup(cx, base, name, there)
    t = target(cx, name)
    what = cx.choice('what', ['key file', 'password', 'binary', 'key type'])
    if what == 'key file':
        kp.keyfile = cx.path('missing')
    elif what == 'password':
        kp.password = b'bytes'
    elif what == 'key type':
        kp._keyfile = 1.5
    elif base == V4:
        kp.payload.inner_header.binary[0].data = None
    else:
        kp.kdbx.header.value.dynamic_header.master_seed.data = 'text'
    failed = False
    try:
        kp.save(t)
    except Exception:
        failed = True
    cx.check(failed, 'error is raised')
    after = cx.files()
    cx.check(len(after) == len(before), 'no file appeared or vanished')
    for n in before:
        cx.check(n in after, 'all files still exist')
        cx.check(after[n] == before[n], 'all files unchanged')
    kp._keyfile = None
    kp._password = 'pw'
    if what in ('key file', 'password', 'key type'):
        kp.save(t)
        cx.check(judge(cx, kp, name, before, cx.files(), True), 'saved once the cause is gone')


@scenario(base=[V3, V4])
def nowhere(cx, base):
    """a target in a directory that does not exist"""
    kp, before = setup(cx, base, 'db.kdbx', cx.flip('there'))
    t = target(cx, 'missing/db.kdbx')
    try:
        kp.save(t)
    except FileNotFoundError:
        cx.check(True, 'error tells what is missing')
    else:
        cx.check(False, 'error tells what is missing')
    after = cx.files()
    cx.check(len(after) == len(before), 'no file appeared or vanished')
    for n in before:
        cx.check(after[n] == before[n], 'all files unchanged')


@scenario(base=[V3, V4])
def stale(cx, base):
    """what an earlier, killed save left behind is no obstacle"""
    kp, before = setup(cx, base, 'db.kdbx', True)
    cx.put('db.kdbx.tmp', cx.blob('junk', hi=4096))
    kp.save(target(cx, 'db.kdbx'))
    after = {n: v for n, v in cx.files().items() if n != 'db.kdbx.tmp'}
    cx.check(judge(cx, kp, 'db.kdbx', before, after, True), 'saved')


@scenario(base=[V3, V4])
def twice(cx, base):
    """a crash in the second of two saves leaves the first"""
    kp, before = setup(cx, base, 'db.kdbx', False)
    kp.save(cx.path('db.kdbx'))
    before = dict(cx.files())
    kp.root_group.name = cx.str('n', lo=1)
    k = cx.int('k', 0, 400)
    cx.arm(crash=k)
    kp.save(cx.path('db.kdbx'))
    cx.disarm()
    s = cx.snapshot()
    if s is not None:
        judge(cx, kp, 'db.kdbx', before, s, False)
    judge(cx, kp, 'db.kdbx', before, cx.files(), True)
