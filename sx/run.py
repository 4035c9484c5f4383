"""Driver: explores every scenario of one property with a pool of workers, replays, writes the evidence file."""
import os, sys, time, json, hashlib, importlib, multiprocessing as mp, multiprocessing.connection as mpc, traceback, gc, signal, resource
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
from sx import inst
FUNCS = set()
REPO = os.environ.get('SX_REPO', '/repo').rstrip('/') + '/'          # SX_REPO: a scratch copy, for trying out changes


def monitor():
    m = sys.monitoring
    m.use_tool_id(4, 'sx')

    def start(code, off):
        f = code.co_filename
        if f.startswith(REPO) or '/construct/' in f:
            FUNCS.add(('pykeepass/' + f.split('/pykeepass/', 1)[-1] if f.startswith(REPO) else 'construct/' + f.rsplit('/', 1)[-1]) + ':' + code.co_qualname)
        return m.DISABLE
    m.register_callback(4, m.events.PY_START, start)
    m.set_events(4, m.events.PY_START)


def load(prop):
    inst.install(REPO.rstrip('/'), VERIF)
    monitor()
    from sx import world, core
    mod = importlib.import_module('props.' + prop.lower())
    return mod


def worker(prop, conn, opts):
    try:
        signal.signal(signal.SIGINT, signal.SIG_IGN)
        try:
            resource.setrlimit(resource.RLIMIT_AS, (opts['mem'], opts['mem']))
        except Exception:
            pass
        _worker(prop, conn, opts)
    except BaseException:
        try:
            conn.send(('crash', traceback.format_exc()))
        except Exception:
            pass


def _worker(prop, conn, opts):
    mod = sys.modules['props.' + prop.lower()]
    from sx import world, core
    rep = world.Replay(prop)
    while True:
        task = conn.recv()
        if task is None:
            rep.stop()
            return
        si, prefixes, slice_s, hard = task
        scen = mod.SCENARIOS[si]
        eng = core.Engine(query_ms=opts['query_ms'], step_limit=getattr(mod, 'STEP_LIMIT', 400000))
        found = []
        out = {'si': si, 'complete': 0, 'incomplete': 0, 'reached': 0, 'samples': []}
        state = {}

        def on_found(v, inp):
            found.append((v, inp))

        def fn():
            cx = state['cx'] = world.Cx(eng, scen, rep, on_found)
            try:
                scen['fn'](cx, **scen['kw'])
            except core.SxControl:
                raise
            except RecursionError:
                cx.cex([], 'no RecursionError')
            except Exception as e:
                lab = 'unexpected %s' % type(e).__name__
                eng.stats.label(lab, 'raised')
                state['tb'] = traceback.format_exc()
                try:
                    cx.cex([], lab)
                except core.PathCut:
                    if len(world.SPURIOUS) and 'tb' not in world.SPURIOUS[-1]:
                        world.SPURIOUS[-1]['tb'] = state['tb'][-3000:]
                    raise

        def on_path(outcome):
            cx = state.get('cx')
            st = eng.stats
            if outcome == 'done':
                st.paths += 1
                if cx.nchecks:
                    out['reached'] += 1
                out['incomplete' if eng.incomplete else 'complete'] += 1
            elif outcome.startswith('cut:'):
                st.cut += 1
                if 'infeasible' in outcome or 'assum' in outcome or 'well-formed' in outcome:
                    st.infeasible += 1
                else:
                    st.note(outcome)
            elif outcome.startswith('unsupported:'):
                st.unsupported += 1
                st.note(outcome[:160])
            if outcome == 'found' or found or cx is None:
                return
            if outcome == 'done' or outcome.startswith('unsupported') or 'step limit' in outcome:
                budget = state.setdefault('replay_t', 0.0)
                if budget > opts['replay_share'] * (time.time() - state['t0']) + 2.0:
                    return
                t = time.time()
                try:
                    w = cx.witness()
                except core.SxControl:
                    w = None
                state['replay_t'] += time.time() - t
                if w is not None:
                    found.append(w)
                elif outcome == 'done' and len(out['samples']) < 1 and getattr(cx, 'last', None):
                    m = eng.model()
                    if m is not None and m != 'unknown':
                        try:
                            out['samples'].append({'scenario': scen['name'], 'inputs': trim(cx.concrete(m)), 'path_decisions': len(eng.trace),
                                                   'replay': cx.last['status']})
                        except core.SxControl:
                            pass
        state['t0'] = time.time()
        end = min(time.time() + slice_s, hard)
        err = None
        left = []
        try:
            stack = list(prefixes)
            # explore in small steps so that a violation stops at once
            while stack and not found and time.time() < end:
                one = [stack.pop()]
                rest = core.explore(eng, fn, one, min(end, time.time() + 0.0), on_path) if False else explore_one(core, eng, fn, one[0], on_path)
                stack.extend(rest)
            left = stack
        except Exception:
            err = traceback.format_exc()
            eng.stats.errors += 1
        out.update(left=left, stats=eng.stats.dump(), found=found, err=err, t=time.time() - state['t0'], funcs=sorted(FUNCS),
                   spurious=list(world.SPURIOUS))
        world.SPURIOUS.clear()
        conn.send(('ok', out))
        del eng
        gc.collect()


def explore_one(core, eng, fn, pre, on_path):
    eng.reset_path(pre)
    core.CUR = eng
    outcome = 'done'
    try:
        fn()
    except core.PathCut as e:
        outcome = 'cut:' + str(e)
    except core.Unsupported as e:
        outcome = 'unsupported:' + str(e)
    except core.Found:
        outcome = 'found'
    finally:
        try:
            on_path(outcome)
        finally:
            core.CUR = None
    return list(eng.pending)


def trim(x):
    s = json.dumps(x)
    if len(s) < 1500:
        return x
    return {k: v if len(json.dumps(v)) < 300 else [v[0], str(v[1])[:200] + '...'] for k, v in x.items()}


def main():
    prop = sys.argv[1].upper()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv:
        tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    if os.environ.get('PYTHONHASHSEED') != '0':
        os.environ['PYTHONHASHSEED'] = '0'
        os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
        os.execv(sys.executable, [sys.executable, '-m', 'sx.run'] + sys.argv[1:])
    verbose = '-v' in sys.argv
    only = [a for a in sys.argv[2:] if not a.startswith('-')]
    from sx.core import Stats
    stats = Stats()
    problems = []
    mod = None
    try:
        mod = load(prop)
    except BaseException:
        problems.append('cannot load: ' + traceback.format_exc()[-3000:])
    kf = known(prop)
    violation = None
    complete = incomplete = reached = 0
    per = {}
    funcs, samples, spurious = set(), [], []
    pending_left = 0
    if mod is not None:
        scs = [(i, s) for i, s in enumerate(mod.SCENARIOS) if (tier == 'thorough' or s['quick']) and (not only or any(o in s['name'] for o in only))]
        budget = getattr(mod, 'QUICK_S', 150) if tier == 'quick' else getattr(mod, 'THOROUGH_S', 600)
        budget = float(os.environ.get('SX_BUDGET', budget))
        nw = min(int(os.environ.get('SX_WORKERS', '8')), max(1, os.cpu_count() or 1))
        if tier == 'quick':
            nw = min(nw, max(2, len(scs) * 4))
        opts = {'query_ms': getattr(mod, 'QUERY_MS', 3000), 'mem': 12 << 30, 'replay_share': 0.4}
        deadline = t0 + budget
        ctx = mp.get_context('fork')
        ws = []
        for _ in range(nw):
            a, b = ctx.Pipe()
            p = ctx.Process(target=worker, args=(prop, b, opts), daemon=True)
            p.start()
            b.close()
            ws.append([p, a, None])
        queue = [(i, [[]]) for i, _ in scs]
        spent = {i: 0.0 for i, _ in scs}
        names = {i: s['name'] for i, s in scs}
        done_sc = {i: 0 for i, _ in scs}
        try:
            while True:
                now = time.time()
                # hand out
                for w in ws:
                    if w[2] is None and queue and now < deadline and not violation:
                        queue.sort(key=lambda q: spent[q[0]] / mod.SCENARIOS[q[0]]['weight'])
                        si, pre = queue.pop(0)
                        same = [q for q in queue if q[0] == si]
                        if len(pre) > 1:
                            h = max(1, len(pre) // 4)
                            queue.append((si, pre[h:]))
                            pre = pre[:h]
                        spent[si] += 0.001
                        w[1].send((si, pre, 0.4 if spent[si] < 1 else 1.5, deadline))
                        w[2] = (si, pre, now)
                busy = [w for w in ws if w[2] is not None]
                if not busy:
                    break
                got = mpc.wait([w[1] for w in busy], timeout=1.0)
                for w in busy:
                    if w[1] not in got:
                        if time.time() > deadline + 25 or time.time() - w[2][2] > 90:
                            # stuck in one solver call or one path: give the task up
                            problems.append('worker gave no answer on %s' % names[w[2][0]])
                            w[0].kill()
                            pending_left += len(w[2][1])
                            w[2] = None
                            a, b = ctx.Pipe()
                            p = ctx.Process(target=worker, args=(prop, b, opts), daemon=True)
                            p.start()
                            b.close()
                            w[0], w[1] = p, a
                        continue
                    try:
                        kind, out = w[1].recv()
                    except EOFError:
                        kind, out = 'crash', 'worker died (%s)' % w[0].exitcode
                    si, pre, _ = w[2]
                    w[2] = None
                    if kind == 'crash':
                        problems.append('%s: %s' % (names[si], out[-1500:]))
                        pending_left += len(pre)
                        a, b = ctx.Pipe()
                        p = ctx.Process(target=worker, args=(prop, b, opts), daemon=True)
                        p.start()
                        b.close()
                        w[0], w[1] = p, a
                        continue
                    stats.merge(out['stats'])
                    spent[si] += out['t']
                    complete += out['complete']
                    incomplete += out['incomplete']
                    reached += out['reached']
                    d = per.setdefault(names[si], {'paths': 0, 'queries': 0, 'checks': 0, 'discharged': 0, 'reached': 0, 's': 0.0, 'cut': 0, 'unsupported': 0, 'incomplete': 0})
                    for k in ('paths', 'queries', 'checks', 'discharged', 'cut', 'unsupported'):
                        d[k] += out['stats'][k]
                    d['reached'] += out['reached']
                    d['incomplete'] += out['incomplete']
                    d['s'] = round(d['s'] + out['t'], 2)
                    funcs.update(out['funcs'])
                    if len(samples) < 12 and not any(s['scenario'] == names[si] for s in samples):
                        samples += out['samples']
                    spurious += out['spurious'][:3]
                    if out['err']:
                        problems.append('%s: %s' % (names[si], out['err'][-1500:]))
                    if out['found'] and violation is None:
                        v, inp = out['found'][0]
                        violation = (names[si], v, inp)
                    if out['left']:
                        queue.append((si, out['left']))
                if violation:
                    break
                if time.time() > deadline and not any(w[2] for w in ws):
                    break
        finally:
            for w in ws:
                try:
                    w[1].send(None)
                except Exception:
                    pass
            for w in ws:
                w[0].join(0.5)
                if w[0].is_alive():
                    w[0].kill()
        pending_left += sum(len(p) for _, p in queue)
        for i, p in queue:
            per.setdefault(names[i], {}).setdefault('unexplored_prefixes', 0)
            per[names[i]]['unexplored_prefixes'] += len(p)
        # known findings: re-confirmed on the real code
        from sx import world
        rep = world.Replay(prop)
        for k in kf:
            if k.get('status') == 'fixed':
                continue
            r = rep.run(k['scenario'], k['inputs'])
            if r['status'] in ('fail', 'exc', 'timeout'):
                print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
        rep.stop()
    exhausted = pending_left == 0 and not problems and violation is None
    vac = [s for s, d in per.items() if not d.get('reached') and d.get('paths', 0) == 0] if mod else []
    wall = time.time() - t0
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'wall_s': round(wall, 2),
          'coverage': {
              'states': stats.paths, 'transitions': stats.branches, 'traces_validated_against_impl': stats.replays, 'samples': samples,
              'paths_complete_within_bounds': complete, 'paths_with_a_concretised_value_or_unknown': incomplete,
              'paths_cut': stats.cut, 'paths_infeasible': stats.infeasible, 'unsupported_paths': stats.unsupported,
              'exhausted': exhausted, 'unexplored_prefixes': pending_left,
              'queries': stats.queries, 'sat': stats.sat, 'unsat': stats.unsat, 'unknown': stats.unknown, 'cvc5_queries': stats.cvc5_queries,
              'solver_s': round(stats.solver_s, 2), 'assertions_checked': stats.checks, 'assertions_discharged_by_solver': stats.discharged,
              'assertions_true_on_their_path': stats.trivially_true, 'assertions_unknown': stats.check_unknown,
              'spurious_counterexamples': stats.spurious, 'replay_mismatches': stats.replay_mismatch,
              'labels': stats.labels, 'notes': stats.notes, 'scenarios': per, 'scenarios_without_a_reached_assertion': vac,
              'functions_encoded': sorted(funcs),
              'sources': {n: {'path': p, 'sha256': h} for n, (p, h) in inst.SOURCES.items() if n.startswith('pykeepass')},
              'bounds': getattr(mod, 'BOUNDS', '') if mod else '', 'inconclusive': problems + spurious[:8],
          },
          'assumptions': getattr(mod, 'ASSUMES', []) if mod else [], 'violations': []}
    code = 0
    if violation:
        name, v, inp = violation
        h = hashlib.sha256(json.dumps([name, inp], sort_keys=True).encode()).hexdigest()[:12]
        d = os.path.join(VERIF, 'evidence', 'replays')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, '%s-%s.json' % (prop, h))
        with open(path, 'w') as f:
            json.dump({'property': prop, 'scenario': name, 'inputs': inp, 'result': v, 'how': './replay ' + path}, f, indent=1)
        ev['violations'].append({'scenario': name, 'label': v['label'], 'replay': path})
        code = 1
    elif not stats.checks:
        problems.append('no assertion was reached: nothing is decided')
        code = 2
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    tmp = os.path.join(VERIF, 'evidence', '.%s.tmp' % prop)
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(VERIF, 'evidence', prop + '.json'))
    if verbose or problems:
        for x in problems:
            print('INCONCLUSIVE: ' + x)
    if verbose:
        for x in spurious[:6]:
            print('SPURIOUS:', json.dumps(x)[:1800])
        for n, d in sorted(per.items()):
            print('  ', n, ' '.join('%s=%s' % (k, v) for k, v in d.items() if v and k not in ('checks', 'queries')))
        for n, d in sorted(stats.labels.items()):
            if '-l' in sys.argv or set(d) - {'checked', 'held on path', 'discharged'}:
                print('   label', n, d)
        for n, d in sorted(stats.notes.items()):
            print('   note', n, d)
    print('%s %s: %d paths (%d complete), %d queries (%.1f s solver), %d assertions (%d by solver), %d replays, %d mismatches, %d spurious, %d unsupported, %d unexplored, %.1f s%s' % (
        prop, tier, stats.paths, complete, stats.queries, stats.solver_s, stats.checks, stats.discharged, stats.replays, stats.replay_mismatch,
        stats.spurious, stats.unsupported, pending_left, wall, ' exhausted' if exhausted else ''))
    if violation:
        print('violated: %s -- %s %s' % (violation[0], violation[1]['label'], violation[1]['real'].get('detail', '')))
        if verbose:
            print(violation[1]['real'].get('tb', ''))
            print(json.dumps(trim(violation[2])))
        print('VIOLATION property=%s replay=%s' % (prop, path))
    sys.stdout.flush()
    os._exit(code)


def known(prop):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)) if k['property'] == prop]


if __name__ == '__main__':
    main()
