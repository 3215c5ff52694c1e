#!/usr/bin/env python3-vt
"""Decides one property on /repo's working tree.

usage: check.py <property id> [--tier quick|thorough]

exit 0: every obligation of the property is discharged and no replay found a failing input
exit 1: a VIOLATION line was printed
"""
import gc, json, multiprocessing as mp, os, re, signal, sys, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'vc'))
import engine as E           # noqa: E402
from cast import TU, ExtractionError   # noqa: E402
import suites                # noqa: E402
import bounded               # noqa: E402

JOBS = int(os.environ.get('VERIF_JOBS', '8'))


def loop_kinds(eng, specs, prog, key):
    fn = specs.lookup(prog, key)
    return [n.get('kind') for n, _ in eng.static_loops(fn, key)]


def verify_one(prog, specs, key, timeout_ms, pool=None, hint=None):
    eng = E.Engine(prog, specs, timeout_ms=timeout_ms, pool=pool, hint=hint)
    try:
        r = eng.verify(key)
    except Exception as e:       # a spec that does not fit the code any more
        r = eng.res if getattr(eng, 'res', None) is not None else E.Result(key)
        r.error = ('annotation', '%s: %s' % (type(e).__name__, e))
        if os.environ.get('VC_DEBUG'):
            traceback.print_exc()
    try:
        kinds = loop_kinds(eng, specs, prog, key)
    except Exception:
        kinds = None
    return {'key': key, 'obls': r.obls, 'error': r.error, 'paths': r.paths, 'covered': r.covered, 'inlined': sorted(r.inlined),
            'used': sorted(r.used), 'assumed': sorted(r.assumed), 'wall': r.wall, 'smt': r.smt_time, 'loops': kinds,
            'hint': r.hint, 'same': eng.same_code}


def _worker(prog, specs, key, timeout_ms, sem, held, hint, conn, decisive=None):
    try:
        os.setpgid(0, 0)
        conn.send(verify_one(prog, specs, key, timeout_ms, E.Pool(sem, JOBS, held, decisive), hint))
    except BaseException as e:
        try:
            conn.send({'key': key, 'obls': {}, 'error': ('internal', repr(e)), 'paths': 0, 'covered': 0, 'inlined': [], 'used': [],
                       'assumed': [], 'wall': 0, 'smt': 0, 'loops': None, 'hint': None, 'same': False})
        except Exception:
            pass
    conn.close()
    os._exit(0)


HINTS = True


def lost(key, why, wall=0):
    return {'key': key, 'obls': {}, 'error': why, 'paths': 0, 'covered': 0, 'inlined': [], 'used': [], 'assumed': [], 'wall': wall, 'smt': wall, 'loops': None,
            'hint': None, 'same': False}


def run_pool(jobs, limit, baseline, prop=None, stop=None, end=None):
    """jobs: (prog, specs, key, timeout_ms) -> {key: result}; given up when stop() says why, or at time `end`"""
    why = None
    tasks = sorted(jobs, key=lambda j: -baseline.get(j[2], {}).get('wall', 100))
    sem = mp.Semaphore(JOBS)
    out, live = {}, []
    while tasks or live:
        why = why or (stop() if stop else None)
        if why is None and end is not None and time.time() > end:
            why = ('timeout', 'time for all proofs is over')
        if why is not None:
            for _, _, key, _ in tasks:
                out[key] = lost(key, why)
            tasks = []
        while tasks and len(live) < JOBS and sem.acquire(block=False):
            prog, specs, key, to = tasks.pop(0)
            a, b = mp.Pipe(False)
            held = mp.Value('i', 0, lock=False)
            other = prop not in specs.contracts[key].props
            p = mp.Process(target=_worker, args=(prog, specs, key, to, sem, held, baseline.get(key, {}).get('hint') if HINTS else None, b,
                                                 lambda l, other=other: other or tag(l) in (None, prop)))
            p.start()
            b.close()
            live.append((p, a, key, time.time(), held))
        nl = []
        for p, a, key, t0, held in live:
            if a.poll(0.0):
                try:
                    r = a.recv()
                except EOFError:
                    r = lost(key, ('internal', 'worker died'))
                a.close()
                p.join()
            elif not p.is_alive():
                r = lost(key, ('internal', 'worker died'))
            elif why is not None:
                r = lost(key, why, time.time() - t0)
            elif time.time() - t0 > limit:
                r = lost(key, ('timeout', 'function limit of %d s' % limit), limit)
            else:
                nl.append((p, a, key, t0, held))
                continue
            if r['error'] and r['error'][0] in ('internal', 'timeout', 'stopped'):
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    p.kill()
                p.join()
            for _ in range(max(0, held.value) + 1):
                sem.release()
            out[key] = r
        live = nl
        if live:
            mp.connection.wait([x[1] for x in live], timeout=0.2)
    return out


def tag(label):
    m = re.search(r'(?:^|:)(C\d\d):', label)
    return m.group(1) if m else None


def load_progs(names):
    """parse every translation unit of the suites (in parallel)"""
    from concurrent.futures import ThreadPoolExecutor
    progs, errs = {}, {}
    loaded = {n: suites.load(n) for n in names}
    srcs = sorted({s for sp, ss in loaded.values() for s in ss})

    def parse(s):
        try:
            return TU(s, extra=suites.flags(s))
        except Exception as e:
            return e
    with ThreadPoolExecutor(4) as ex:
        tus = dict(zip(srcs, ex.map(parse, srcs)))
    for n, (sp, ss) in loaded.items():
        bad = [tus[s] for s in ss if isinstance(tus[s], Exception)]
        if bad:
            errs[n] = str(bad[0])
        else:
            progs[n] = E.Prog([tus[s] for s in ss])
    return loaded, progs, errs


def select(loaded, prop):
    """functions whose contract carries the property"""
    out = []
    for n, (sp, _) in loaded.items():
        for key, c in sp.contracts.items():
            if prop in c.props and not c.assumed:
                out.append((n, key))
    return out


def main():
    global HINTS
    prop = sys.argv[1]
    HINTS = '--baseline' not in sys.argv
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    thorough = tier == 'thorough'
    timeout_ms = 30000 if thorough else 10000
    limit = 1500 if thorough else 400
    try:
        baseline = json.load(open(os.path.join(HERE, 'vc', 'baseline.json')))
    except Exception:
        baseline = {}

    # replay search / bounded stand-ins run beside the prover
    bj = bounded.start(prop, tier, seed)

    names = [n for n in suites.ENABLED]
    loaded, progs, errs = load_progs(names)
    gc.collect()
    gc.freeze()
    todo = select(loaded, prop)

    def stop():
        """nothing is left to decide once the search has a failing input"""
        if bj.poll() is not None and any(f['id'] not in bounded.known_findings(prop) for f in bounded.finish(bj)['findings']):
            return 'stopped', 'the search found a failing input'
        return None
    results = {}
    done = set()
    while todo:
        jobs = [(progs[n], loaded[n][0], k, timeout_ms) for n, k in todo if n in progs]
        for n, k in todo:
            done.add((n, k))
            if n not in progs:
                results[k] = {'key': k, 'obls': {}, 'error': ('extraction', errs[n]), 'paths': 0, 'covered': 0, 'inlined': [], 'used': [],
                              'assumed': [], 'wall': 0, 'smt': 0, 'loops': None, 'hint': None, 'same': False}
        results.update(run_pool(jobs, limit, baseline, prop, stop, t0 + (6000 if thorough else 650)))
        nxt = []
        for n, k in todo:
            for u in results[k]['used']:
                pin = getattr(loaded[n][0].contracts.get(u), 'proved_in', None)
                if pin:
                    if (pin, u) not in done and (pin, u) not in nxt:
                        nxt.append((pin, u))
                    continue
                if (n, u) not in done and u in loaded[n][0].contracts and not loaded[n][0].contracts[u].assumed and (n, u) not in nxt:
                    nxt.append((n, u))
        todo = nxt

    if '--baseline' in sys.argv:
        dirty = [k for k, r in results.items() if r['hint'] is None]
        if dirty:
            print('no hint for', dirty)

    # ---- judge
    undecided, failed, elsewhere = [], [], []
    nobl = ndis = 0
    backends = {}
    for key, r in sorted(results.items()):
        sp = next(l[0] for l in loaded.values() if key in l[0].contracts)
        mine = prop in sp.contracts[key].props
        base = baseline.get(key)
        misaligned = base is not None and r['loops'] != base.get('loops')
        if r['error']:
            undecided.append((key, '%s: %s' % r['error']))
        for label, xs in r['obls'].items():
            t = tag(label)
            for st, dt, detail, be in xs:
                nobl += 1
                backends[be] = backends.get(be, 0) + 1
                if st == 'discharged':
                    ndis += 1
            bad = [x for x in xs if x[0] != 'discharged']
            if not bad or r['error']:
                continue
            if r['same']:
                # this very code was proved against this contract before: the solvers ran out of time
                undecided.append((key, 'not discharged in time (code unchanged): %s: %s' % (label, bad[0][2][:100])))
            elif misaligned:
                undecided.append((key, 'loops changed shape, %s not discharged' % label))
            elif mine and t in (None, prop):
                failed.append((key, label, bad[0][2]))
            else:
                elsewhere.append((key, label))
                undecided.append((key, 'contract used here fails: %s' % label))
    if select(loaded, prop) and (not results or (nobl == 0 and not undecided)):
        undecided.append(('*', 'no obligation was generated'))

    known = bounded.known_findings(prop)
    b = bounded.finish(bj)
    if b.get('error'):
        undecided.append(('*', 'replay search not available: %s' % b['error']))
    violations = 0
    lines = []
    for f in b['findings']:
        if f['id'] in known:
            continue
        violations += 1
        lines.append('VIOLATION property=%s replay=%s' % (prop, f['replay']))
        print('replay: %s' % f['what'])
        break
    for kf in known.values():
        print('KNOWN-FINDING: property=%s %s' % (prop, kf))
    if failed and not violations:
        violations += 1
        rp = bounded.write_replay(prop, 'obligation', {
            'property': prop, 'kind': 'undischarged obligation',
            'obligations': [{'function': k, 'obligation': l, 'verifier': d} for k, l, d in failed],
            'replay_search': {'evaluations': b['evaluations'], 'found': False},
            'rerun': 'VERIF_TIER=%s VERIF_SEED=%d ./check.py %s' % (tier, seed, prop)})
        lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, rp))
    for k, l, d in failed[:20]:
        print('obligation not discharged: %s %s (%s)' % (k, l, d[:160]))
    for k, w in undecided[:20]:
        print('undecided by proof (bounded stand-in decides): %s: %s' % (k, w[:200]))

    trusted = ['clang 18 parses /repo\'s sources as the compiler does (typed AST, flags of the real build)',
               'the VC generator in /verif/vc and its library contracts of std containers, iterators, smart pointers and std::function',
               'z3 %s (API), z3 4.8.12 (command line) and cvc5 1.1.2' % E.z3.get_version_string()]
    assumptions = list(bounded.GENERAL_ASSUMPTIONS)
    for n, (sp, _) in loaded.items():
        if any(k in sp.contracts for k in results):
            assumptions += suites.ASSUMPTIONS.get(n, [])
        for key, c in sp.contracts.items():
            if c.assumed and not getattr(c, 'proved_in', None) and any(key in results[k]['used'] for k in results):
                assumptions.append('assumed contract: %s (%s)' % (key, c.note))
    for k, w in undecided:
        assumptions.append('not decided by proof on this run, bounded stand-in only: %s: %s' % (k, w[:160]))
    for k, l in elsewhere:
        assumptions.append('used contract not discharged on this run: %s %s' % (k, l))
    level = 'proof' if select(loaded, prop) else 'exploration'
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': level,
          'coverage': {
              'obligations': nobl, 'discharged': ndis,
              'checker_cmd': './check.py %s --tier %s' % (prop, tier),
              'trusted_base': trusted,
              'functions_under_contract': [
                  {'function': k, 'carries_property': prop in next(l[0] for l in loaded.values() if k in l[0].contracts).contracts[k].props,
                   'obligations': sum(len(x) for x in r['obls'].values()),
                   'discharged': sum(1 for x in r['obls'].values() for y in x if y[0] == 'discharged'),
                   'paths': r['paths'], 'feasible_paths_to_end': r['covered'], 'inlined': r['inlined'], 'solver_s': round(r['smt'], 2),
                   'error': r['error']} for k, r in sorted(results.items())],
              'discharged_by': backends,
              'solver_s': round(sum(r['smt'] for r in results.values()), 2),
              'bounded_replay': {k: b[k] for k in ('evaluations', 'distinct_nontrivial', 'rule', 'samples', 'bounds', 'wall_s') if k in b},
          },
          'assumptions': assumptions, 'wall_s': round(time.time() - t0, 2), 'violations': violations}
    if level == 'exploration':      # no contract within reach yet: bounded, never counted as proved
        ev['coverage'] = {k: b[k] for k in ('evaluations', 'distinct_nontrivial', 'rule', 'samples', 'bounds') if k in b}
        ev['assumptions'] = ['bounded search only, no proof obligation was generated for this property']
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1)
    print('%s: %d functions, %d obligations, %d discharged, %d undecided; replay search: %d evaluations; %.1f s' % (
        prop, len(results), nobl, ndis, len(undecided), b['evaluations'], time.time() - t0))
    for l in lines:
        print(l)
    if '--baseline' in sys.argv:
        for k, r in results.items():
            if r['error'] or any(y[0] != 'discharged' for x in r['obls'].values() for y in x):
                print('not recorded: %s' % k)
                continue
            baseline[k] = {'loops': r['loops'], 'hint': r['hint'], 'wall': round(r['wall'], 1), 'obligations': sum(len(x) for x in r['obls'].values())}
        json.dump(baseline, open(os.path.join(HERE, 'vc', 'baseline.json'), 'w'), indent=0, sort_keys=True)
    sys.stdout.flush()
    sys.exit(1 if violations else 0)


if __name__ == '__main__':
    main()
