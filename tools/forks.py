"""debug: count forks of a scenario by place.  usage: forks.py C01 scenario [npaths]"""
import sys, os, traceback, collections, time
os.environ['PYTHONHASHSEED'] = '0'
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sx import run
mod = run.load(sys.argv[1])
from sx import core, world
scen = [s for s in mod.SCENARIOS if sys.argv[2] in s['name']][0]
n = int(sys.argv[3]) if len(sys.argv) > 3 else 30
C = collections.Counter()
Q = collections.Counter()
ex = {}
def where():
    fr = [f for f in traceback.extract_stack()[:-3]]
    rep = [f for f in fr if '/repo/' in f.filename or '/props/' in f.filename][-2:]
    lib = [f for f in fr if '/sx/' in f.filename][-3:]
    return ' < '.join('%s:%d' % (os.path.basename(f.filename), f.lineno) for f in reversed(rep + lib))
eng = core.Engine()
ob, oc, os_ = eng.branch, eng.choose, eng._solve
def branch(c):
    k = len(eng.pending)
    r = ob(c)
    if len(eng.pending) > k:
        w = where(); C[w] += 1; ex.setdefault(w, str(c)[:200])
    return r
def choose(m):
    if m > 1:
        w = where(); C[w] += 1
    return oc(m)
def solve(*a, **k):
    Q[where()] += 1
    return os_(*a, **k)
eng.branch, eng.choose, eng._solve = branch, choose, solve
class Rep:
    def run(self, *a, **k): return {'status': 'ok', 'obs': {}}
stack = [[]]
t = time.time()
np = 0
outs = collections.Counter()
while stack and np < n:
    pre = stack.pop(0 if np % 2 else -1)
    st = {}
    def fn():
        cx = world.Cx(eng, scen, Rep(), lambda *a: None)
        try:
            scen['fn'](cx, **scen['kw'])
        except core.SxControl: raise
        except Exception as e:
            traceback.print_exc(); raise core.PathCut('exc %s' % e)
    stack += run.explore_one(core, eng, fn, pre, lambda o: outs.update([o]))
    np += 1
print(outs, 'left', len(stack), 's/path %.3f' % ((time.time() - t) / np), 'queries', eng.stats.queries, 'solver %.2f' % eng.stats.solver_s)
for w, k in C.most_common(25): print(k, w, '|', ex.get(w, ''))
print('--- queries')
for w, k in Q.most_common(15): print(k, w)
os._exit(0)
