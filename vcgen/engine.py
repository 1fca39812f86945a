"""Build the IR from /repo's current sources, run verification units, discharge obligations."""
import re, os, sys, subprocess, time, hashlib, traceback, json, multiprocessing, signal
import z3
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from ir import Module, IRError
from exec import Executor, State, Unsupported, Obligation, View, And, Or, Not, zb, has_quant, PathEnd, old_z3
from val import *
import contracts as C

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLANG = ['clang++', '-std=c++17', '-O1', '-Xclang', '-disable-llvm-passes', '-fno-exceptions', '-fno-access-control', '-Wno-everything', '-I' + os.path.join(REPO, 'include'), '-I' + os.path.join(VERIF, 'units')]
PASSES = 'function(sroa,early-cse,simplifycfg,instcombine<no-verify-fixpoint>,loop-simplify)'

class BuildError(Exception):
    pass

def build_ir(src, out, extra=()):
    r = subprocess.run(CLANG + list(extra) + ['-S', '-emit-llvm', src, '-o', out + '.raw'], capture_output=True, text=True)
    if r.returncode:
        raise BuildError(r.stderr[-3000:])
    r = subprocess.run(['opt', '-S', '-passes=' + PASSES, out + '.raw', '-o', out], capture_output=True, text=True)
    if r.returncode:
        raise BuildError(r.stderr[-3000:])
    os.unlink(out + '.raw')
    with open(out) as f:
        return f.read()

class Unit:
    """one function (or one function with its callees inlined) under contract"""
    def __init__(self, name, tu, entry, run, desc='', functions=(), contracts=None, options=None, lemmas=(), extra=()):
        self.name, self.tu, self.entry, self.run, self.desc = name, tu, entry, run, desc
        self.functions = functions        # what is under contract here (for the evidence)
        self.contracts = contracts or (lambda: [])
        self.options = options or {}
        self.lemmas = lemmas
        self.extra = extra

class BVUnit(Unit):
    """bit-precise unit (vcgen/bvexec.py)"""
    bv = True

class Lemma:
    """a fact about ghost functions, proved by its own queries (induction steps) before it is used"""
    def __init__(self, name, queries):
        self.name, self.queries = name, queries      # queries() -> [(label, hyps, goal)]

def smt2(hyps, goal):
    s = z3.SimpleSolver()
    s.add(*hyps)
    s.add(z3.Not(goal))
    return '(set-logic ALL)\n' + re.sub(r'(?<![\w!.$@|])[.@](?=[A-Za-z0-9_.])', 'v_', s.to_smt2())

def check_z3(hyps, goal, rlimit, ms, seed=0, opts=None, simple=False):
    s = z3.SimpleSolver() if simple else z3.Solver()
    s.set('rlimit', rlimit)
    if seed:
        s.set('random_seed', seed)
    for k, v in (opts or {}).items():
        s.set(k, v)
    s.add(*hyps)
    s.add(z3.Not(goal))
    r = s.check()
    return ('proved' if r == z3.unsat else 'refuted' if r == z3.sat else 'unknown'), (s.model() if r == z3.sat else None)

def check_cvc5(hyps, goal, ms):
    txt = smt2(hyps, goal)
    import tempfile
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write(txt)
    try:
        r = subprocess.run(['cvc5', '--tlimit=%d' % ms, '--full-saturate-quant', '--strings-exp', f.name], capture_output=True, text=True, timeout=ms / 1000 + 10)
        out = r.stdout.strip().split('\n')[0]
    except subprocess.TimeoutExpired:
        out = 'timeout'
    finally:
        os.unlink(f.name)
    return 'proved' if out == 'unsat' else 'refuted' if out == 'sat' else 'unknown'

def has_seq_atoms(g):
    return False

def discharge(ex, ob, ms=20000):
    t = time.time()
    hyps = list(ob.hyps) + list(ex.axioms) + list(ex.qf_axioms)
    hyps += ex.range_facts(hyps + [ob.goal])
    hyps += ex.mul_facts(hyps + [ob.goal])
    hyps += ex.ground_hints(hyps, ob.goal) if hasattr(ex, 'ground_hints') and ex.ground_hints else []
    # dedupe
    seen = {}
    for h in hyps:
        seen[h.get_id()] = h
    hyps = list(seen.values())
    quant = any(has_quant(h) for h in hyps) or has_quant(ob.goal)
    st, m = 'unknown', None
    for k, (rl, opts) in enumerate(((20000000, {'smt.mbqi': False, 'auto_config': False}), (20000000, {'smt.mbqi': False, 'auto_config': False}), (20000000, {'smt.mbqi': False, 'auto_config': False, 'smt.arith.solver': 2}))):
        try:
            st, m = check_z3(hyps, ob.goal, rl, ms, 0, opts, simple=(k == 1))
        except z3.Z3Exception as e:
            st, m = 'unknown', None
        if st == 'proved' or (st == 'refuted'):
            ob.backend = 'z3'
            break
    if st == 'unknown':
        for extra in ((), ('smt.relevancy=0',)):
            if old_z3(smt2(hyps, ob.goal).replace('(set-logic ALL)', ''), 20000000, extra) == 'unsat':
                st, m = 'proved', None
                ob.backend = 'z3-4.8'
                break
    if st == 'unknown':
        s2 = check_cvc5(hyps, ob.goal, ms)
        if s2 == 'proved':
            st, m = s2, None
            ob.backend = 'cvc5'
    ob.status = st
    ob.model = m
    ob.time = time.time() - t
    return st

def model_text(ob, limit=40):
    if ob.model is None:
        return ''
    out = []
    for d in ob.model.decls()[:400]:
        v = str(ob.model[d]).replace('\n', ' ')
        out.append('%s = %s' % (d.name(), v[:160]))
    return '\n'.join(sorted(out)[:limit])

class Result:
    pass

def run_unit(unit, irtext, trace=False, deadline=None):
    """symbolically execute and discharge; returns a plain dict"""
    t0 = time.time()
    out = {'unit': unit.name, 'desc': unit.desc, 'functions': list(unit.functions), 'status': 'proved', 'obligations': [], 'reason': '',
           'loops': [], 'pars': [], 'executed': [], 'contracts': {}, 'assumed': [], 'time': 0.0, 'solver': 0.0, 'inproc': 0}
    z3.set_param('smt.random_seed', 0)
    try:
        mod = irtext if isinstance(irtext, Module) else Module(irtext)
        if unit.entry is not None and unit.entry not in mod.funcs:
            raise Unsupported('entry %s not found' % unit.entry)
        if getattr(unit, 'bv', False):
            from bvexec import BVExecutor, BState
            contracts = list(unit.contracts())
            ex = BVExecutor(mod, contracts, unit.options)
            st = BState()
        else:
            contracts = list(unit.contracts()) + C.standard()
            ex = Executor(mod, contracts, unit.options)
            ex.ground_hints = None
            st = State()
        ex.trace = trace
        unit.run(ex, st)
        if not ex.obls and not ex.houdini_ok and not unit.lemmas and not (getattr(unit, 'bv', False) and ex.quick):
            raise Unsupported('no obligations were generated (vacuous)')
        out['loops'] = [(t[:160], labs[:12], len(labs)) for t, labs, _ in ex.loops_done]
        out['pars'] = [(t[:160], f, l) for t, f, l in ex.pars_done]
        out['executed'] = sorted(ex.mod.dem.get(n, n)[:200] for n in ex.fn_seen)
        out['contracts'] = dict(ex.contract_used)
        out['inproc'] = ex.houdini_ok + ex.quick
        seen = {}
        obls = []
        for lem in unit.lemmas:
            for lab, hyps, goal in lem.queries():
                obls.append(Obligation('lemma %s: %s' % (lem.name, lab), hyps, goal, 'lemma', 'lemma'))
        obls += ex.obls
        uniq = {}
        for ob in obls:
            key = (ob.label, ob.goal.get_id(), tuple(h.get_id() for h in ob.hyps))
            if key in uniq:
                continue
            uniq[key] = ob
        tt = time.time()
        # vacuity guard: the assumptions of at least one path must be satisfiable
        for ob in uniq.values():
            ax = ex.axioms
            if getattr(unit, 'bv', False):
                from bvexec import discharge_bv
                discharge_bv(ex, ob)
            elif ob.kind == 'lemma':
                sv = ex.axioms
                ex.axioms = []
                discharge(ex, ob, unit.options.get('ms', 20000))
                ex.axioms = sv
            else:
                discharge(ex, ob, unit.options.get('ms', 20000))
            out['obligations'].append({'label': ob.label, 'fn': ob.fn[:160], 'kind': ob.kind, 'status': ob.status, 'backend': ob.backend,
                                       'time': round(ob.time, 3), 'model': model_text(ob) if ob.status == 'refuted' else '',
                                       'goal': '' if ob.status == 'proved' else str(ob.goal)[:1500]})
            if trace and ob.status != 'proved':
                print('OPEN', ob.status, ob.label, '|', ob.fn[:80], '|', str(ob.goal)[:400], round(ob.time, 1))
        out['solver'] = time.time() - tt
        if any(o['status'] != 'proved' for o in out['obligations']):
            out['status'] = 'refuted' if any(o['status'] == 'refuted' for o in out['obligations']) else 'open'
            out['reason'] = '; '.join(sorted(set(o['label'] for o in out['obligations'] if o['status'] != 'proved')))[:800]
        elif not out['obligations'] and not out['inproc']:
            out['status'] = 'undecided'
            out['reason'] = 'nothing to prove'
    except (Unsupported, IRError) as e:
        out['status'] = 'undecided'
        out['reason'] = '%s: %s' % (type(e).__name__, e)
        if trace:
            traceback.print_exc()
    except Exception as e:
        out['status'] = 'undecided'
        out['reason'] = 'internal: %s: %s' % (type(e).__name__, e)
        out['trace'] = traceback.format_exc()[-1500:]
        if trace:
            traceback.print_exc()
    out['time'] = round(time.time() - t0, 2)
    out['solver'] = round(out['solver'], 2)
    return out
