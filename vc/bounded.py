"""Replay search on the real code (concrete executions) and bookkeeping of findings."""
import hashlib, json, os, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
OUT = os.path.join(HERE, 'replays')

GENERAL_ASSUMPTIONS = [
    'partial correctness: termination of loops is not proved',
    'sequential reasoning per function: other threads are represented by the rely condition at callbacks and waits only',
    'C++ exceptions are not modelled (callbacks do not throw; allocation succeeds)',
    'destructors other than lock guards have no effect on the verified state',
    'build configuration of the repository\'s test build: HSMBUILD_DEBUGGING, HSM_ENABLE_SAFE_STRUCTURE, HSM_LOGGING_MODE_OFF, POSIX',
    'counters (handler ids, list sizes) are mathematical integers unless an obligation says otherwise',
]


CXXFLAGS = ['-std=c++11', '-O1', '-g1', '-D_GLIBCXX_ASSERTIONS', '-DHSMBUILD_DEBUGGING', '-DHSM_ENABLE_SAFE_STRUCTURE',
            '-DHSM_LOGGING_MODE_OFF', '-DPLATFORM_POSIX=1']
CORE = ['src/HsmImpl.cpp', 'src/HsmImplTypes.cpp', 'src/hsm.cpp', 'src/variant.cpp', 'src/logging.cpp', 'src/HsmEventDispatcherBase.cpp']
# platform -> (package, source of the dispatcher, define)
PLATFORM = {'glib': ('glib-2.0', 'src/HsmEventDispatcherGLib.cpp', '-DPLAT_GLIB'),
            'glibmm': ('glibmm-2.4', 'src/HsmEventDispatcherGLibmm.cpp', '-DPLAT_GLIBMM'),
            'qt': ('Qt5Core', 'src/HsmEventDispatcherQt.cpp', '-DPLAT_QT')}
# harness -> (own source, sources of the repository, extra flags)
BINS = {
    'hsm': ('hsm_check.cpp', CORE, []),
    'disp': ('disp_check.cpp', ['src/HsmEventDispatcherBase.cpp', 'src/variant.cpp', 'src/logging.cpp'], []),
    'variant': ('variant_check.cpp', ['src/variant.cpp'], ['-fsanitize=address']),
    'std': ('std_check.cpp', CORE + ['src/HsmEventDispatcherSTD.cpp'], []),
    'tsan': ('std_check.cpp', CORE + ['src/HsmEventDispatcherSTD.cpp'], ['-fsanitize=thread']),
    'glib': ('plat_check.cpp', CORE, []),
    'glibmm': ('plat_check.cpp', CORE, []),
    'qt': ('plat_check.cpp', CORE, []),
}
HSM_RULE = ('random state machines (3..9 states, entry points, history, final states, self transitions, conditions, vetoes, actions, timers, '
            'callbacks that post events) and operation sequences through the public API; every observable action and the list of active '
            'states compared with a reference interpreter after every operation')
DISP_RULE = 'random registrations, events, actions and timers, also from within handlers, compared with a reference model of the dispatcher'
VAR_RULE = 'random values of every type, copies, moves, nesting, in-place changes, conversions and comparisons compared with a value model (AddressSanitizer on)'
STD_RULE = ('sessions with real threads on HsmEventDispatcherSTD: several senders, synchronous transitions, timers started, stopped and restarted while '
            'others expire, handlers and machines that come and go; exact counts, per-thread order, minimum delays, no call that never returns')
PLAT_RULE = ('sessions on the dispatchers for GLib, glibmm and Qt with a real event loop and a second thread: events, actions, bursts, timers started, '
             'stopped and restarted, start and stop, a state machine; exact counts, order, minimum delays, the thread of the callbacks, no call that never returns')
PLATS = ('glib', 'glibmm', 'qt')
# property -> [(harness, profile, observed kinds, rule)]
PLAN = {
    'C01': [('hsm', 'C01', 'XNCTFS=', HSM_RULE)],
    'C02': [('hsm', 'C02', 'XNCT=s', HSM_RULE)],
    'C03': [('hsm', 'C03', 'XNCT=s', HSM_RULE)],
    'C04': [('hsm', 'C04', 'XNCTs', HSM_RULE)],
    'C05': [('hsm', 'C05', 'XNCT=s', HSM_RULE)],
    'C06': [('hsm', 'C06', 'NC=s', HSM_RULE)],
    'C07': [('hsm', 'C07', 'XNCT=s', HSM_RULE)],
    'C08': [('hsm', 'C08', 'XNCTF=s', HSM_RULE)],
    'C09': [('hsm', 'C09', 'XNCTFSI=', HSM_RULE), ('std', 'C09', '', STD_RULE)],
    'C10': [('disp', 'C10', 'MIR', DISP_RULE), ('hsm', 'C10', 'ATIF=', HSM_RULE), ('std', 'C10', '', STD_RULE)] + [(p, 'C10', '', PLAT_RULE) for p in PLATS],
    'C11': [('disp', 'C11', 'EQAWR', DISP_RULE), ('std', 'C11', '', STD_RULE)] + [(p, 'C11', '', PLAT_RULE) for p in PLATS],
    'C12': [('hsm', 'C12', 'ATFRNX', HSM_RULE)],
    'C13': [('variant', 'C13', 'C', VAR_RULE)],
    'C14': [('variant', 'C14', 'PO', VAR_RULE)],
    'C15': [('hsm', 'C15', '=d~', HSM_RULE)],
    'C16': [('hsm', 'C16', 'PTNX=', HSM_RULE)],
    'C17': [('hsm', 'C17', '', HSM_RULE + '; only calls that do not return or crash count'), ('disp', 'C11', '', DISP_RULE + '; only calls that do not return or crash count'),
            ('tsan', 'C17', '', STD_RULE + '; ThreadSanitizer reports every access without its lock and every inconsistent order of locks'), ('std', 'C17', '', STD_RULE)] +
           [(p, 'C17', '', PLAT_RULE + '; only calls that do not return or crash count') for p in PLATS],
    'C18': [('hsm', 'C18', 'XNCTFARPSIV~=', HSM_RULE)],
    'C19': [('hsm', 'C19', 'R=', HSM_RULE)],
}


def _build(tmp, bins):
    """compile the harnesses and the repository's sources they need; one object per (source, flags)"""
    jobs, objs, libs = {}, {}, {}
    inc = ['-I' + os.path.join(REPO, 'include'), '-I' + os.path.join(REPO, 'src'), '-I' + os.path.join(HERE, 'harness')]
    osdir = os.path.join(REPO, 'src', 'os')
    os_src = sorted(os.path.join('src/os', d, f) for d in ('posix', 'stl', 'common') if os.path.isdir(os.path.join(osdir, d))
                    for f in os.listdir(os.path.join(osdir, d)) if f.endswith('.cpp'))
    for b in bins:
        own, srcs, extra = BINS[b]
        lst = [(os.path.join(HERE, 'harness', own), extra)] + [(os.path.join(REPO, s), extra) for s in srcs]
        if b != 'variant':
            lst += [(os.path.join(REPO, s), extra) for s in os_src]
        objs[b], libs[b] = [], []
        if b in PLATFORM:
            pkg, src, define = PLATFORM[b]
            ask = lambda *a: subprocess.run(['pkg-config'] + list(a) + [pkg], capture_output=True, text=True, check=True).stdout.split()
            own_flags = ['-fPIC', define] + ask('--cflags')
            libs[b] = ask('--libs')
            lst[0] = (lst[0][0], own_flags)
            lst.append((os.path.join(REPO, src), own_flags))
            if b == 'qt':
                moc = os.path.join(tmp, 'moc.cpp')
                hdr = os.path.join(REPO, 'include', 'hsmcpp', 'HsmEventDispatcherQt.hpp')
                subprocess.run([os.path.join(ask('--variable=host_bins')[0], 'moc'), '-I' + os.path.dirname(os.path.dirname(hdr)), hdr, '-o', moc], check=True, stderr=subprocess.PIPE)
                lst.append((moc, own_flags))
        for s, ex in lst:
            key = (s, tuple(ex))
            if key not in jobs:
                jobs[key] = os.path.join(tmp, 'o%d.o' % len(jobs))
            objs[b].append(jobs[key])
    ps = [(s, subprocess.Popen(['g++'] + CXXFLAGS + list(ex) + inc + ['-c', s, '-o', o], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE))
          for (s, ex), o in jobs.items()]
    for s, p in ps:
        err = p.communicate()[1]
        if p.returncode != 0:
            raise RuntimeError('%s does not compile: %s' % (s, err.decode(errors='replace')[:400]))
    for b in bins:
        subprocess.run(['g++'] + BINS[b][2] + objs[b] + libs[b] + ['-lpthread', '-o', os.path.join(tmp, b)], check=True, stderr=subprocess.PIPE)


def _run(job):
    tmp = job['tmp']
    try:
        _build(tmp, sorted({x[0] for x in job['plan']}))
        running = []
        for i in range(job['procs']):
            b, prof, kinds, rule = job['plan'][i % len(job['plan'])]
            rf = os.path.join(tmp, 'found%d.txt' % i)
            p = subprocess.Popen([os.path.join(tmp, b), 'search', prof, kinds + '!', str(job['seed'] * 100 + i), '100000000', str(job['secs']), rf],
                                 stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, cwd=tmp)
            running.append((p, b, prof, kinds, rule, rf))
        for p, b, prof, kinds, rule, rf in running:
            out = p.communicate()[0].decode(errors='replace').strip().splitlines()
            job['done'].append((json.loads(out[-1]) if out else None, p.returncode, b, prof, kinds, rule, rf))
    except Exception as e:
        job['error'] = str(e)


def _start(prop, tier, seed):
    plan = PLAN.get(prop)
    job = {'prop': prop, 'plan': plan, 'seed': seed, 'done': [], 'error': None, 't0': time.time()}
    if not plan:
        return job
    job['tmp'] = tempfile.mkdtemp(prefix='verif-%s-' % prop)
    job['procs'] = 8 if tier == 'thorough' else max(3, len(plan))
    job['secs'] = 300 if tier == 'thorough' else 15
    _run(job)
    return job


def _finish(job):
    res = {'findings': [], 'evaluations': 0, 'distinct_nontrivial': 0, 'error': job['error']}
    if not job.get('plan'):
        return res
    rules, samples = [], []
    for out, rc, b, prof, kinds, rule, rf in job['done']:
        if out is None or rc not in (0, 1):
            res['error'] = 'the %s harness ended with status %s' % (b, rc)
            continue
        res['evaluations'] += out['evaluations']
        res['distinct_nontrivial'] += out['distinct_nontrivial']
        if rule not in rules:
            rules.append(rule)
        samples.append(out['sample'][:600])
        if rc == 1 and os.path.exists(rf):
            d = os.path.join(OUT, job['prop'])
            os.makedirs(d, exist_ok=True)
            text = open(rf).read()
            fid = hashlib.sha1(text.split('#')[0].encode()).hexdigest()[:12]
            dst = os.path.join(d, 'scenario-%s.txt' % fid)
            with open(dst, 'w') as fh:
                fh.write('# replay: /verif/replay.sh %s\n# harness %s, observed kinds %s\n%s' % (dst, b, kinds + '!', text))
            res['findings'].append({'id': fid, 'replay': dst, 'what': text[:1500]})
    shutil.rmtree(job['tmp'], ignore_errors=True)
    res['rule'] = ' | '.join(rules)
    res['samples'] = samples[:3]
    res['bounds'] = '%d processes, %d s each, seeds from %d' % (job['procs'], job['secs'], job['seed'] * 100)
    res['wall_s'] = round(time.time() - job['t0'], 2)
    return res


def start(prop, tier, seed):
    """the search runs in a process of its own, beside the prover"""
    return subprocess.Popen([sys.executable, os.path.abspath(__file__), prop, tier, str(seed)], stdout=subprocess.PIPE, stderr=subprocess.PIPE)


def finish(p):
    if not hasattr(p, 'result'):
        p.result = _result(p)
    return p.result


def _result(p):
    out, err = p.communicate()
    try:
        return json.loads(out.decode().strip().splitlines()[-1])
    except Exception:
        return {'findings': [], 'evaluations': 0, 'distinct_nontrivial': 0, 'error': 'no result: ' + err.decode(errors='replace')[-300:]}


def known_findings(prop):
    out = {}
    try:
        for line in open(os.path.join(HERE, 'known-findings.jsonl')):
            line = line.strip()
            if not line or line.startswith('#') or line.startswith('fixed:'):
                continue
            d = json.loads(line)
            if d['property'] == prop:
                out[d['id']] = d['what']
    except FileNotFoundError:
        pass
    return out


def write_replay(prop, name, data):
    d = os.path.join(OUT, prop)
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, name + '.json')
    with open(p, 'w') as fh:
        json.dump(data, fh, indent=1)
    return p


if __name__ == '__main__':
    print(json.dumps(_finish(_start(sys.argv[1], sys.argv[2], int(sys.argv[3])))))
