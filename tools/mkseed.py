"""makes /verif/seeded/<id>/ from tools/seeds.py and confirms each: applies, tests pass, demo passes without and fails with the change.
usage: mkseed.py [-c] [id...]   (-c: also run this property's check against the changed copy)"""
import sys, os, subprocess, shutil, json, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seeds import SEEDS
PRE = '''import sys, os, io, tempfile, shutil
sys.path.insert(0, os.getcwd())
from pykeepass import *
D = tempfile.mkdtemp()
import atexit
atexit.register(shutil.rmtree, D, True)
'''


def sh(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, shell=isinstance(cmd, str), **k)


def main():
    args = [a for a in sys.argv[1:] if not a.startswith('-')]
    for s in SEEDS:
        if args and s['id'] not in args:
            continue
        d = os.path.join(ROOT, 'seeded', s['id'])
        w = tempfile.mkdtemp(prefix='seed')
        try:
            sh('cp -a /repo/. %s/' % w, '/')
            sh('git checkout -q -- .', w)
            for f, a, b in s['edits']:
                p = os.path.join(w, 'pykeepass', f)
                t = open(p).read()
                assert t.count(a) == 1, (s['id'], f, t.count(a))
                open(p, 'w').write(t.replace(a, b))
            diff = sh('git diff', w).stdout
            os.makedirs(d, exist_ok=True)
            open(d + '/patch.diff', 'w').write(diff)
            open(d + '/demo.py', 'w').write(PRE + s['demo'])
            open(d + '/demo.sh', 'w').write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
            os.chmod(d + '/demo.sh', 0o755)
            json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
            good = sh(['bash', d + '/demo.sh'], '/repo')
            bad = sh(['bash', d + '/demo.sh'], w)
            t = sh('PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 TZ=UTC /opt/venv/bin/python -m pytest -q -x -p no:cacheprovider -o python_files="test*.py" tests 2>&1 | tail -4', w)
            ok = good.returncode == 0 and bad.returncode != 0 and ' failed' not in t.stdout and 'passed' in t.stdout
            print(s['id'], s['property'], 'OK' if ok else 'BAD', 'good', good.returncode, 'bad', bad.returncode, t.stdout.strip().splitlines()[-1:])
            if not ok:
                print(good.stderr[-800:], bad.stderr[-500:], t.stdout)
                continue
            if '-c' in sys.argv:
                c = sh([os.path.join(ROOT, 'check'), s['property']], ROOT, env=dict(os.environ, SX_REPO=w))
                print('   check exit', c.returncode, [l for l in c.stdout.splitlines() if l.startswith(('violated', s['property']))])
        finally:
            shutil.rmtree(w, ignore_errors=True)


main()
