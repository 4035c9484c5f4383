"""Symbolic execution engine: path exploration by deterministic re-execution, z3 decides.

A path is a list of decisions.  `Engine.branch` asks the solver which sides of a symbolic
condition are feasible under the path condition, takes one and queues the other.  `check`
asks the solver for a value that satisfies the path condition and falsifies the assertion.
"""
import time, re, json, random, subprocess, sys, os
import z3

z3.set_param('model.completion', True)


class SxControl(BaseException):
    """Engine control flow; never caught by the code under test."""


class PathCut(SxControl):
    """Path abandoned (infeasible, or outside the bound)."""


class Unsupported(SxControl):
    """The encoding has no exact meaning for an operation on this path."""


class Found(SxControl):
    pass


CUR = None


def cur():
    return CUR


class Stats:
    FIELDS = ('paths', 'cut', 'infeasible', 'branches', 'queries', 'sat', 'unsat', 'unknown', 'solver_s',
              'checks', 'discharged', 'trivially_true', 'concretised', 'unsupported', 'step_limit',
              'check_unknown', 'spurious', 'replays', 'replay_mismatch', 'cvc5_queries', 'errors')

    def __init__(self):
        for f in self.FIELDS:
            setattr(self, f, 0)
        self.solver_s = 0.0
        self.notes = {}
        self.labels = {}

    def note(self, k, n=1):
        self.notes[k] = self.notes.get(k, 0) + n

    def label(self, lab, what):
        d = self.labels.setdefault(lab, {})
        d[what] = d.get(what, 0) + 1

    def dump(self):
        d = {f: getattr(self, f) for f in self.FIELDS}
        d['notes'] = self.notes
        d['labels'] = self.labels
        return d

    def merge(self, d):
        for f in self.FIELDS:
            setattr(self, f, getattr(self, f) + d[f])
        for k, v in d['notes'].items():
            self.note(k, v)
        for lab, dd in d['labels'].items():
            t = self.labels.setdefault(lab, {})
            for k, v in dd.items():
                t[k] = t.get(k, 0) + v


class Engine:
    def __init__(self, query_ms=3000, step_limit=400000):
        self.query_ms = query_ms
        self.step_limit = step_limit
        self.stats = Stats()
        self.solver = z3.Solver()
        self.solver.set('timeout', query_ms)
        self.frames = []
        self.frame_keep = []
        self.reset_path([])

    # ---- per path -------------------------------------------------------------------
    def reset_path(self, prefix):
        self.prefix = prefix
        self.trace = []
        self.pending = []
        self.pc = []
        self.decided = {}
        self.keep = []
        self.counter = {}
        self.steps = 0
        self.path_notes = []
        self.final_constraints = []   # only added when a model is extracted (e.g. XML validity)
        self.last_model = None
        self.reg = {}                 # per-path registries used by the models
        self.incomplete = False

    def fresh(self, base):
        n = self.counter.get(base, 0)
        self.counter[base] = n + 1
        return '%s!%d' % (base, n) if n else base

    def step(self):
        self.steps += 1
        if self.steps > self.step_limit:
            self.stats.step_limit += 1
            raise PathCut('step limit')

    # ---- solver ---------------------------------------------------------------------
    def _sync(self):
        i = 0
        n = min(len(self.frames), len(self.pc))
        while i < n and self.frames[i].eq(self.pc[i]):
            i += 1
        if i < len(self.frames):
            self.solver.pop(len(self.frames) - i)
            del self.frames[i:]
        for c in self.pc[i:]:
            self.solver.push()
            self.solver.add(c)
            self.frames.append(c)

    def _solve(self, extra, want_model=False):
        """-> ('sat', model) | ('unsat', None) | ('unknown', None)"""
        self._sync()
        self.stats.queries += 1
        t = time.time()
        self.solver.push()
        try:
            for e in extra:
                self.solver.add(e)
            r = self.solver.check()
            m = self.solver.model() if r == z3.sat else None
        except z3.Z3Exception:
            r, m = z3.unknown, None
        finally:
            self.solver.pop()
        if r == z3.unknown:
            # fresh solver, no incrementality
            s = z3.Solver()
            s.set('timeout', self.query_ms * 2)
            try:
                s.add(*self.pc, *extra)
                r = s.check()
                m = s.model() if r == z3.sat else None
            except z3.Z3Exception:
                r, m = z3.unknown, None
        if r == z3.unknown and not want_model:
            r = self._cvc5(extra)
        self.stats.solver_s += time.time() - t
        if r == z3.sat:
            self.stats.sat += 1
            return 'sat', m
        if r == z3.unsat:
            self.stats.unsat += 1
            return 'unsat', None
        self.stats.unknown += 1
        return 'unknown', None

    def _cvc5(self, extra):
        s = z3.Solver()
        try:
            s.add(*self.pc, *extra)
            txt = '(set-logic ALL)\n' + s.sexpr() + '\n(check-sat)\n'
            self.stats.cvc5_queries += 1
            p = subprocess.run(['cvc5', '--strings-exp', '--tlimit=%d' % (self.query_ms * 2), '-'], input=txt,
                               capture_output=True, text=True, timeout=self.query_ms / 500 + 10)
            out = p.stdout.strip()
            if '(error' in out or '(error' in p.stderr:
                return z3.unknown
            if out.startswith('unsat'):
                return z3.unsat
            if out.startswith('sat'):
                return z3.sat
        except Exception:
            pass
        return z3.unknown

    def add(self, c):
        """Add to the path condition without a feasibility query."""
        c = z3.simplify(c) if not z3.is_true(c) else c
        if z3.is_true(c):
            return
        if z3.is_false(c):
            raise PathCut('assumed false')
        self.pc.append(c)
        self.decided[c.get_id()] = True
        self.keep.append(c)

    def assume(self, c):
        """Add and cut the path if infeasible."""
        c = z3.simplify(c)
        if z3.is_true(c):
            return
        if z3.is_false(c):
            raise PathCut('assumed false')
        if self.decided.get(c.get_id()) is True:
            return
        replay = len(self.trace) < len(self.prefix)
        if not replay:
            r, m = self._solve([c])
            if r == 'unsat':
                raise PathCut('assumption infeasible')
        self.add(c)

    def lookup(self, c):
        v = self.decided.get(c.get_id())
        if v is not None:
            return v
        if z3.is_not(c):
            v = self.decided.get(c.arg(0).get_id())
            if v is not None:
                return not v
        return None

    def branch(self, c):
        self.step()
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        v = self.lookup(c)
        if v is not None:
            return v
        self.stats.branches += 1
        k = len(self.trace)
        if k < len(self.prefix):
            d = self.prefix[k]
            self.trace.append(d)
            val = bool(d[0])
            if not d[1]:            # not forced: constrains the path
                self._take(c, val)
            self._decide(c, val)
            return val
        nc = z3.simplify(z3.Not(c))
        rt, _ = self._solve([c])
        if rt == 'unsat':
            self.trace.append((0, 1))
            self._decide(c, False)
            return False
        rf, _ = self._solve([nc])
        if rf == 'unsat':
            self.trace.append((1, 1))
            self._decide(c, True)
            return True
        self.pending.append(self.trace + [(0, 0)])
        self.trace.append((1, 0))
        self._take(c, True)
        self._decide(c, True)
        return True

    def _decide(self, c, val):
        self.decided[c.get_id()] = val
        self.keep.append(c)

    def _take(self, c, val):
        e = c if val else z3.simplify(z3.Not(c))
        self.pc.append(e)
        self.keep.append(e)

    def choose(self, n):
        """Nondeterministic finite choice (every alternative is explored)."""
        if n <= 0:
            raise PathCut('empty choice')
        k = len(self.trace)
        if k < len(self.prefix):
            d = self.prefix[k]
            self.trace.append(d)
            return d[0]
        for i in range(n - 1, 0, -1):
            self.pending.append(self.trace + [(i, 0)])
        self.trace.append((0, 0))
        return 0

    def must(self, c):
        """Is c implied by the path condition?  (no fork; unknown -> False)"""
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        v = self.lookup(c)
        if v is not None:
            return v
        key = ('must', c.get_id(), len(self.pc))
        if key in self.reg:
            return self.reg[key]
        r, _ = self._solve([z3.Not(c)])
        self.keep.append(c)
        self.reg[key] = (r == 'unsat')
        return r == 'unsat'

    def may(self, c):
        return not self.must(z3.Not(c))

    def model(self, extra=(), soft=True):
        """A model of the path condition and the deferred well-formedness constraints."""
        cons = list(extra) + list(self.final_constraints)
        r, m = self._solve(cons, want_model=True)
        if r == 'sat':
            return m
        if r == 'unsat':
            return None
        # retry without the deferred constraints (regexes are what z3 times out on)
        s = z3.Solver()
        s.set('timeout', self.query_ms * 4)
        s.set('random_seed', 7)
        s.add(*self.pc, *cons)
        if s.check() == z3.sat:
            return s.model()
        return 'unknown'


def explore(engine, fn, prefixes, deadline, on_path):
    """Depth-first from the given prefixes until done or deadline.  Returns unexplored prefixes."""
    global CUR
    stack = list(prefixes)
    while stack:
        if time.time() > deadline:
            return stack
        pre = stack.pop()
        engine.reset_path(pre)
        CUR = engine
        outcome = 'done'
        try:
            fn()
        except PathCut as e:
            outcome = 'cut:' + str(e)
        except Unsupported as e:
            outcome = 'unsupported:' + str(e)
        except Found:
            outcome = 'found'
        finally:
            stack.extend(engine.pending)
            on_path(outcome)
            CUR = None
    return stack
