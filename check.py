#!/usr/bin/env python3
"""Decides one property: check.py C05

1. proof: extracts the LLVM IR of the real templates from /repo's working tree, generates the
   verification conditions of every unit under contract and discharges them (vcgen/, specs/);
2. bounded stand-in: runs the contracts against the real code on concrete inputs (harness/), which is also
   the search for a failing input when an obligation fails.
Exit 0: held; exit 1 with a VIOLATION line otherwise."""
import sys, os, json, time, subprocess, tempfile, shutil, re, threading, signal
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
import table
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = 'python3-vt'

def sh(cmd, timeout, env=None, out=None):
    t = time.time()
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, start_new_session=True)
        try:
            o, er = p.communicate(timeout=timeout)
            return p.returncode, o.decode(errors='replace'), er.decode(errors='replace'), time.time() - t
        except subprocess.TimeoutExpired:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            o, er = p.communicate()
            return -999, o.decode(errors='replace'), er.decode(errors='replace'), time.time() - t
    except OSError as ex:
        return -998, '', str(ex), time.time() - t

CXX = {
    'asan': ['clang++', '-std=c++17', '-O1', '-g1', '-fsanitize=address,undefined', '-fno-sanitize=alignment,vptr', '-fno-sanitize-recover=undefined', '-DPARLAY_USE_STD_ALLOC'],
    'plain': ['clang++', '-std=c++17', '-O2', '-g1'],
    'gcc': ['g++', '-std=c++17', '-O2', '-g1'],
    'fast': ['clang++', '-std=c++17', '-O1', '-g1'],
    'tsan': ['clang++', '-std=c++17', '-O1', '-g1', '-fsanitize=thread', '-DPARLAY_USE_STD_ALLOC'],
}

def main():
    pid = sys.argv[1]
    T = table.TABLE[pid]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    deadline = t0 + (780 if tier == 'quick' else 3400)
    work = tempfile.mkdtemp(prefix='verif_%s_' % pid)
    try:
        return decide(pid, T, tier, seed, t0, deadline, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)

def decide(pid, T, tier, seed, t0, deadline, work):
    pool = ThreadPoolExecutor(8)
    left = lambda: max(5, deadline - time.time())
    # ------------------------------------------------------------ proof
    units = []
    if T.get('spec'):
        rc, o, e, _ = sh([PY, os.path.join(V, 'vcgen', 'list_units.py'), T['spec']], 120)
        if rc == 0:
            units = json.loads(o)
        else:
            print('note: specification could not be loaded: ' + e[-400:])
    tus = {}
    for u in units:
        if u['tu']:
            tus.setdefault((u['tu'], tuple(u['extra'])), None)
    def build_tu(key):
        out = os.path.join(work, key[0].replace('/', '_') + str(abs(hash(key[1])) % 1000) + '.ll')
        rc, o, e, dt = sh([PY, os.path.join(V, 'vcgen', 'build_tu.py'), key[0], out] + list(key[1]), 300)
        return (out if rc == 0 else None), (o + e)[-1500:], dt
    def run_unit(u, irf):
        out = os.path.join(work, 'u_%s.json' % u['name'])
        if u['tu']:
            path, msg, dt = irf.result()
            if path is None:
                return {'unit': u['name'], 'status': 'undecided', 'reason': 'the translation unit does not compile: ' + msg[-300:], 'obligations': [], 'functions': u['functions'],
                        'time': 0, 'solver': 0, 'inproc': 0, 'loops': [], 'pars': [], 'executed': [], 'contracts': {}}
        else:
            path = '-'
        last = ''
        for attempt in range(2):
            rc, o, e, dt = sh([PY, os.path.join(V, 'vcgen', 'worker.py'), T['spec'], u['name'], path, out], min(left(), u['limit']))
            if os.path.exists(out):
                with open(out) as f:
                    return json.load(f)
            last = 'worker ended with %s after %.0f s: %s' % (rc, dt, e[-300:])
            if rc == -999:
                break
        return {'unit': u['name'], 'status': 'undecided', 'reason': last, 'obligations': [], 'functions': u['functions'], 'time': dt, 'solver': 0, 'inproc': 0, 'loops': [], 'pars': [],
                'executed': [], 'contracts': {}}
    irs = {k: pool.submit(build_tu, k) for k in tus}
    # ------------------------------------------------------------ bounded stand-in
    def build_h(name, cfg, extra):
        exe = os.path.join(work, '%s_%s_%d' % (name, cfg, abs(hash(tuple(extra))) % 10000))
        cmd = CXX[cfg] + ['-Wno-everything' if CXX[cfg][0] == 'clang++' else '-w', '-I' + os.path.join(REPO, 'include'), '-I' + os.path.join(V, 'harness')] + list(extra) + \
              [os.path.join(V, 'harness', name + '.cpp'), '-o', exe, '-pthread']
        rc, o, e, dt = sh(cmd, 400)
        if rc != 0:         # argument types the current code does not accept: the same harness without them
            rc, o, e2, dt = sh(cmd[:-3] + ['-DBASIC'] + cmd[-3:], 400)
        return (exe if rc == 0 else None), ' '.join(cmd), e[-2500:], dt
    hb = {}
    runs = []
    for name, cfg, threads, budget, extra in table.harness_runs(T, tier):
        k = (name, cfg, tuple(extra))
        if k not in hb:
            hb[k] = pool.submit(build_h, name, cfg, extra)
        runs.append((k, threads, budget))
    # harness runs use all cores: they run one after another in their own thread, beside the proofs
    def run_h(k, threads, budget):
        exe, cmd, err, dt = hb[k].result()
        if exe is None:
            return {'harness': k[0], 'cfg': k[1], 'threads': threads, 'status': 'nobuild', 'detail': err}
        env = {'VERIF_SEED': str(seed), 'VERIF_TIER': tier, 'H_BUDGET': str(budget), 'PARLAY_NUM_THREADS': str(threads), 'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:exitcode=1',
               'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=1', 'TSAN_OPTIONS': 'halt_on_error=1:exitcode=66'}
        scratch = os.path.join(work, 'scratch_%s_%s_%s' % (k[0], k[1], threads))
        os.makedirs(scratch, exist_ok=True)
        env['H_SCRATCH'] = scratch
        rc, o, e, dt = sh([exe], min(left(), budget + 400), env)
        r = {'harness': k[0], 'cfg': k[1], 'threads': threads, 'time': round(dt, 1), 'cmd': cmd, 'env': {a: env[a] for a in ('VERIF_SEED', 'VERIF_TIER', 'H_BUDGET', 'PARLAY_NUM_THREADS')}}
        m = re.search(r'HFAIL (.*)', o)
        st = re.search(r'HSTATS evaluations=(\d+) distinct=(\d+) tests=(\d+)', o)
        if m:
            r.update(status='fail', detail=m.group(1).strip(), output=(e[-6000:]))
        elif rc == 0 and 'HOK' in o and st:
            r.update(status='ok', evaluations=int(st.group(1)), distinct=int(st.group(2)), tests=int(st.group(3)), samples=re.findall(r'HSAMPLE (.*)', o))
        elif rc == -999:
            r.update(status='timeout', detail='time limit')
        else:
            r.update(status='fail', detail='the program ended with status %s' % rc, output=(o[-1500:] + e[-6000:]))
        return r
    hres = []
    def all_h():
        for k, th, b in runs:
            hres.append(run_h(k, th, b))
    ht = threading.Thread(target=all_h)
    ures_f = [pool.submit(run_unit, u, irs.get((u['tu'], tuple(u['extra'])))) for u in sorted(units, key=lambda u: -u['weight'])]
    ht.start()
    ures = [f.result() for f in ures_f]
    ht.join()
    pool.shutdown()
    # ------------------------------------------------------------ verdict
    ures.sort(key=lambda u: u['unit'])
    bad_h = [r for r in hres if r['status'] == 'fail']
    bad_u = [u for u in ures if u['status'] in ('open', 'refuted')]
    und_u = [u for u in ures if u['status'] == 'undecided']
    known = table.known_findings(pid)
    new_h, seen_known = [], {}
    for r in bad_h:
        k = [f for f in known if f['match'] in r['detail']]
        if k:
            seen_known[k[0]['text']] = True
        else:
            new_h.append(r)
    nviol = 0
    lines = []
    rdir = os.path.join(V, 'evidence', 'replay')
    if new_h or bad_u:
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, '%s_%s.txt' % (pid, tier))
        with open(path, 'w') as f:
            f.write('property %s: %s\n\n' % (pid, T['title']))
            for r in new_h:
                f.write('FAILING INPUT on the real code (%s)\n  build: %s\n  run: env %s <binary>\n\n%s\n\n' % (r['detail'], r.get('cmd', ''), ' '.join('%s=%s' % x for x in r.get('env', {}).items()), r.get('output', '')[-5000:]))
            for u in bad_u:
                f.write('OBLIGATIONS NOT DISCHARGED in unit %s\n' % u['unit'])
                for o in u['obligations']:
                    if o['status'] != 'proved':
                        f.write('  [%s] %s\n     in %s\n     goal: %s\n     verifier: %s\n%s\n' % (o['status'], o['label'], o['fn'], o['goal'], o['backend'] or 'no back end discharged it', ('     counterexample:\n       ' + o['model'].replace('\n', '\n       ')) if o['model'] else ''))
        nviol = len(new_h) + len(bad_u)
        if new_h:
            lines.append('VIOLATION property=%s replay=%s' % (pid, path))
        else:
            lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, path))
    # ------------------------------------------------------------ evidence
    obl = sum(len(u['obligations']) for u in ures)
    dis = sum(1 for u in ures for o in u['obligations'] if o['status'] == 'proved')
    inproc = sum(u['inproc'] for u in ures)
    backs = {}
    for u in ures:
        for o in u['obligations']:
            if o['status'] == 'proved':
                backs[o['backend'] or 'simplifier'] = backs.get(o['backend'] or 'simplifier', 0) + 1
    ev_n = sum(r.get('evaluations', 0) for r in hres)
    ev_d = sum(r.get('distinct', 0) for r in hres)
    contracts = {}
    for u in ures:
        for c, n in u['contracts'].items():
            contracts[c] = contracts.get(c, 0) + n
    cov = {
        'obligations': obl + inproc, 'discharged': dis + inproc,
        'checker_cmd': 'python3 check.py %s (generator vcgen/ on LLVM IR of /repo; back ends z3 5.3, z3 4.8.12, cvc5 1.1.2)' % pid,
        'trusted_base': table.TRUSTED + T.get('trusted', []),
        'explanation': T.get('note', ''),
        'named_obligations': {'generated': obl, 'discharged': dis, 'by_back_end': backs},
        'inductive_invariant_obligations_discharged': inproc,
        'solver_and_generation_seconds': round(sum(u['time'] for u in ures), 1),
        'units': [{'unit': u['unit'], 'status': u['status'], 'reason': u['reason'][:400], 'functions_under_contract': u['functions'], 'obligations': len(u['obligations']),
                   'invariant_obligations': u['inproc'], 'seconds': u['time'], 'functions_executed': len(u['executed']), 'loops': [(l[0][:100], l[2]) for l in u['loops']][:12],
                   'parallel_loops': [(p[0][:100], p[1]) for p in u['pars']][:12]} for u in ures],
        'functions_verified': sorted(set(f for u in ures if u['status'] == 'proved' for f in u['functions'])),
        'contracts_used_at_calls': contracts,
        'undecided_units': [u['unit'] + ': ' + u['reason'][:200] for u in und_u],
        'bounded_stand_in': {'label': 'bounded: not counted as proved', 'runs': [{k: r[k] for k in ('harness', 'cfg', 'threads', 'status', 'evaluations', 'distinct', 'time', 'detail') if k in r} for r in hres]},
        'evaluations': ev_n, 'distinct_nontrivial': ev_d,
        'rule': 'a case is one call (or history of calls) of the real code compared with a sequential oracle; cases count as distinct by their description (operation, type, length, seed parameters), per run configuration',
        'samples': [s for r in hres for s in r.get('samples', [])[:3]][:12],
    }
    if not units:
        cov['explanation'] = (cov['explanation'] + ' No deductive unit.').strip()
    level = T['level']
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov, 'assumptions': table.ASSUMPTIONS + T.get('assumptions', []), 'wall_s': round(time.time() - t0, 1), 'violations': nviol}
    with open(os.path.join(V, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    for u in ures:
        print('unit %-34s %-10s obligations %3d (+%d invariant) %.1fs %s' % (u['unit'], u['status'], len(u['obligations']), u['inproc'], u['time'], u['reason'][:160]))
    for r in hres:
        print('bounded %s/%s threads=%s: %s %s' % (r['harness'], r['cfg'], r['threads'], r['status'], (r.get('detail') or '%s cases, %s distinct, %.0fs' % (r.get('evaluations'), r.get('distinct'), r.get('time', 0)))[:300].replace('\n', ' ')))
    for k in sorted(seen_known):
        print('KNOWN-FINDING: property=%s %s' % (pid, k))
    for l in lines:
        print(l)
    print('%s: %s in %.0f s' % (pid, 'VIOLATION' if lines else 'held', time.time() - t0))
    sys.stdout.flush()
    return 1 if lines else 0

if __name__ == '__main__':
    sys.exit(main())
