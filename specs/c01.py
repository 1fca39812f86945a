"""C01: parallel loops and forks run every index and branch exactly once"""
from lib import *
from contracts import ParDo, ParallelFor, template_args
from c21 import arr, sel
import re

class PardoC(ParDo):
    title = 'fork_join_scheduler::pardo(l, r): both run exactly once; either order, checked not to interfere (unit pardo)'
    def matches(self, name, d, b):
        return b == 'parlay::fork_join_scheduler::pardo'
    def apply(self, ex, st, name, args, rett):
        return super().apply(ex, st, name, args[1:], rett)
    def bodies(self, ex, name):
        res = []
        for t in template_args(ex.mod.dem.get(name, name), 'pardo')[:2]:
            t = re.sub(r'( const)?&{0,2}$', '', t)
            w = (t + '::operator()() const', t + '::operator()()')
            c = [n for n in ex.mod.funcs if ex.mod.dem.get(n, n) in w or ex.mod.dem.get(n, n).split(' ', 1)[-1] in w]
            if len(c) != 1:
                raise Unsupported('pardo: bodies not identified')
            res.append(c[0])
        return tuple(res)

ones = lambda a, lo, hi: z3.ForAll([_k], z3.Implies(z3.And(lo <= _k, _k < hi), sel(a, _k) == 1), patterns=[sel(a, _k)])
zeros = lambda a, lo, hi: z3.ForAll([_k], z3.Implies(z3.And(lo <= _k, _k < hi), sel(a, _k) == 0), patterns=[sel(a, _k)])
_k = z3.Int('cn_k')
_one = lambda ctx, s, rid, fo: [('counted once', lambda w, a_, k: sel(a_, k) == 1)]

def sched(ex, st):
    off = []
    ex.ghost_fns['gh_val'] = lambda ex, s, a: off.append(a[0])
    rid = ex.new_rid('scheduler')
    from exec import CellMem
    st.mem[rid] = CellMem(1 << 20, None, 'scheduler')
    ex.run_function(st, '@vc_off', [Ptr(rid, 0)])
    st.mw(rid).cells[off[0].c] = (4, ex.fresh_lin('num_threads', None, 1, 1 << 16, st=st))
    return Ptr(rid, 0)

def counted(ex, st):
    """counters, all zero in the range; the range is anywhere inside them"""
    n = size(ex, st)
    C = ex.new_array(st, 'cnt', n); st.mem[C].opaque = False
    b = ex.fresh_lin('b', None, 0, MAXN, st=st); e = ex.fresh_lin('e', None, 0, MAXN, st=st)
    st.assume(z3.And(b.z <= n.z, e.z <= n.z))
    ex.loop_cands.append(pointwise_loop(_one))
    frame = lambda a, hi: z3.ForAll([_k], z3.Implies(z3.Or(_k < b.z, _k >= hi), sel(a, _k) == sel(c0, _k)), patterns=[sel(a, _k)])
    c0 = arr(st, C)
    def more(ctx):
        out = [('nothing outside', lambda X, w: frame(w.arr(C, 0), e.z))]
        vs = [(p, u) for p, u in enumerate(ctx.vars) if u.kind == 'int' and u.w == 64]
        for p, u in vs:
            for base, bn in ((Z, '0'), (b.z, 'b')):
                out.append(('ones up to %s+%s' % (bn, u.key), lambda X, w, p=p, base=base: ones(w.arr(C, 0), b.z, base + X[p].z)))
                out.append(('zeros from %s+%s' % (bn, u.key), lambda X, w, p=p, base=base: zeros(w.arr(C, 0), base + X[p].z, e.z)))
                out.append(('only up to %s+%s' % (bn, u.key), lambda X, w, p=p, base=base: frame(w.arr(C, 0), base + X[p].z)))
                for q, v in vs:
                    if p < q:
                        out.append(('ones up to %s+%s+%s' % (bn, u.key, v.key), lambda X, w, p=p, q=q, base=base: ones(w.arr(C, 0), b.z, base + X[p].z + X[q].z)))
            out.append(('%s within' % u.key, lambda X, w, p=p: X[p].z <= (e - b).z))
        # an inner loop over part of the range: relative to what is counted already
        for rid, idx, at in ctx.writes:
            if rid == C:
                out.append(('ones up to the index (%s)' % idx, lambda X, w, at=at: ones(w.arr(C, 0), b.z, at(X).z)))
                out.append(('only up to the index (%s)' % idx, lambda X, w, at=at: frame(w.arr(C, 0), at(X).z)))
                out.append(('zeros from the index (%s)' % idx, lambda X, w, at=at: zeros(w.arr(C, 0), at(X).z, e.z)))
        return out
    ex.loop_cands.append(more)
    st.assume(zeros(c0, b.z, e.z), True)
    return C, c0, n, b, e
Z = z3.IntVal(0)

def cnt_post(ex, s, C, c0, n, b, e, hi=None):
    k = ex.fresh('any')
    r = arr(s, C)
    ex.oblige(s, 'every index of the range exactly once', z3.Implies(z3.And(b.z <= k, k < (hi if hi is not None else e).z), sel(r, k) == 1), 'post')
    ex.oblige(s, 'no other index', z3.Implies(z3.And(0 <= k, k < n.z, z3.Or(k < b.z, k >= (hi if hi is not None else e).z)), sel(r, k) == sel(c0, k)), 'post')

def functor(ex, st, p):
    q = ex.load(st, ('ptr',), p)
    if not isinstance(q, Ptr) or q.rid is None or st.mem[q.rid].kind != 'arr' or not (q.off.is_const() and q.off.c == 0):
        raise Unsupported('functor')
    return q.rid

def count_range(ex, st, C, b, e):
    a = arr(st, C)
    ex.oblige(st, 'indices inside the range, not counted yet', z3.Implies(b.z < e.z, z3.And(0 <= b.z, e.z <= st.mem[C].length.z, zeros(a, b.z, e.z))), 'pre')
    ex.log_access(st, 'R', C, (b, e)); ex.log_access(st, 'W', C, (b, e))
    m = st.mw(C); na = ex.fresh_arr('counted'); k = z3.Int('fr_k')
    st.assume(z3.ForAll([k], z3.If(z3.And(b.z <= k, k < e.z), sel(na, k) == 1, sel(na, k) == sel(a, k)), patterns=[sel(na, k)]), True)
    m.fields[0] = (8, na)

u64_ = lambda ex, st, x: ex.unsigned(st, ex.as_lin(st, x, 64), 64)
T_PF_ = 'parfor_(s, b, e, f, g): f(i) exactly once for b <= i < e (unit parfor_)'
T_PF = 'parfor(s, b, e, f, g): f(i) exactly once for b <= i < e (unit parfor)'
T_GR = 'get_granularity(b, e, f): runs f on [b, b + done), 1 <= done <= e - b (unit get_granularity)'

def c_parfor_():
    def apply(ex, st, fn, args, rett):
        b, e, g = u64_(ex, st, args[1]), u64_(ex, st, args[2]), u64_(ex, st, args[4])
        ex.oblige(st, 'the range is not reversed and the granularity not zero', z3.And(b.z <= e.z, g.z >= 1), 'pre')
        if T_PF_ in ex.opt.get('unfold', ()):
            ex.oblige(st, 'the recursive call runs fewer indices', (e - b).z < ex.variant_n.z, 'decreases')
        count_range(ex, st, functor(ex, st, args[3]), b, e)
        return [(st, None)]
    return SpecContract(T_PF_, lambda nm, d, b: b == 'parlay::fork_join_scheduler::parfor_', apply)
def c_parfor():
    def apply(ex, st, fn, args, rett):
        b, e = u64_(ex, st, args[1]), u64_(ex, st, args[2])
        count_range(ex, st, functor(ex, st, args[3]), b, e)
        return [(st, None)]
    return SpecContract(T_PF, lambda nm, d, b: b == 'parlay::fork_join_scheduler::parfor', apply)
def c_gran():
    def apply(ex, st, fn, args, rett):
        b, e = u64_(ex, st, args[0]), u64_(ex, st, args[1])
        ex.oblige(st, 'the range is not empty', b.z < e.z, 'pre')
        d = ex.fresh_lin('done', None, 1, MAXN)
        st.assume(d.z <= (e - b).z)
        count_range(ex, st, functor(ex, st, args[2]), b, b + d)
        return [(st, d)]
    return SpecContract(T_GR, lambda nm, d, b: b == 'parlay::fork_join_scheduler::get_granularity', apply)
c_now = lambda: SpecContract('steady_clock::now: any time', lambda nm, d, b: b == 'std::chrono::_V2::steady_clock::now', lambda ex, st, f, a, r: [(st, ex.fresh_lin('now', 64))])

def run_parfor_(ex, st):
    C, c0, n, b, e = counted(ex, st)
    st.assume(b.z <= e.z)
    g = ex.fresh_lin('g', 64); st.assume(g.z >= 1)
    ex.variant_n = e - b
    for s, _ in ex.run_function(st, '@vc_parfor_', [sched(ex, st), Ptr(C, 0), b, e, g, ex.fresh_bool('cons')]):
        cnt_post(ex, s, C, c0, n, b, e)

def run_gran(ex, st):
    C, c0, n, b, e = counted(ex, st)
    st.assume(b.z < e.z)
    for s, r in ex.run_function(st, '@vc_granularity', [Ptr(C, 0), b, e]):
        r = u64_(ex, s, r)
        ex.oblige(s, 'at least one index, no more than there are', z3.And(1 <= r.z, r.z <= (e - b).z), 'post')
        cnt_post(ex, s, C, c0, n, b, e, b + r)

def run_entry(entry, sc=False, gran=True):
    def run(ex, st):
        C, c0, n, b, e = counted(ex, st)
        args = ([sched(ex, st)] if sc else []) + [Ptr(C, 0), b, e]
        if gran:
            args += [ex.fresh_lin('g', 64), ex.fresh_bool('cons')]
        for s, _ in ex.run_function(st, entry, args):
            cnt_post(ex, s, C, c0, n, b, e)
    return run

# ---------------------------------------------------------------- forks
def ghosts(ex, st):
    st.ghost = dict(st.ghost)
    for k in 'LRM':
        st.ghost[k] = 0
    def bump(k):
        def g(ex, s, a):
            s.ghost = dict(s.ghost); s.ghost[k] += 1
        return g
    ex.ghost_fns['gh_left'] = bump('L'); ex.ghost_fns['gh_right'] = bump('R'); ex.ghost_fns['gh_mid'] = bump('M')

def run_fork(entry, args, mid=False, sc=False):
    def run(ex, st):
        ghosts(ex, st)
        seen = []
        def gend(ex, s, a):
            seen.append(1)
            for k, nm in (('L', 'left'), ('R', 'right')) + ((('M', 'middle'),) if mid else ()):
                ex.oblige(s, 'the %s branch ran exactly once when the construct returns' % nm, z3.BoolVal(s.ghost[k] == 1), 'post')
        ex.ghost_fns['gh_end'] = gend
        a = ([sched(ex, st)] if sc else []) + [ex.fresh_bool('p') for _ in range(args)]
        if sc:
            ex.ghost_fns['gh_end'] = gend
        ex.run_function(st, entry, a)
        if not seen:
            raise Unsupported('end not reached')
    return run

def sched_contracts():
    def spawn(ex, st, fn, args, rett):
        st.ghost = dict(st.ghost)
        ex.oblige(st, 'one job is spawned, before the branches run', z3.BoolVal(st.ghost.get('job') is None), 'pre')
        st.ghost['job'] = args[1]
        return [(st, None)]
    def own(ex, st, fn, args, rett):
        j = st.ghost.get('job')
        ex.oblige(st, 'the job was spawned and not taken yet', z3.BoolVal(j is not None and 'taken' not in st.ghost), 'pre')
        if j is None:
            raise PathEnd()
        s2 = st.fork()
        for s in (st, s2):
            s.ghost = dict(s.ghost); s.ghost['taken'] = 1
        # another worker stole the job: it calls (*job)() once (unit job)
        s2.ghost['R'] += 1; s2.ghost['stolen'] = 1
        return [(st, Ptr(j.rid, j.off)), (s2, Ptr(None, 0))]
    def wait(ex, st, fn, args, rett):
        ex.oblige(st, 'only a stolen job is waited for', z3.BoolVal('stolen' in st.ghost), 'pre')
        st.ghost = dict(st.ghost); st.ghost['waited'] = 1
        return [(st, None)]
    def fin(ex, st, fn, args, rett):
        ex.oblige(st, 'the job asked for is the spawned one', z3.BoolVal(isinstance(args[0], Ptr) and st.ghost.get('job') is not None and args[0].rid == st.ghost['job'].rid), 'pre')
        return [(st, True if 'waited' in st.ghost else ex.fresh_bool('fin'))]
    m = lambda x: (lambda nm, d, b: b == 'parlay::scheduler::' + x)
    return [SpecContract('scheduler::spawn: the job is in the deque (C02)', m('spawn'), spawn), SpecContract('scheduler::get_own_job: the spawned job, or another worker has it (C02)', m('get_own_job'), own),
            SpecContract('scheduler::wait_until(done) returns when done() is true', m('wait_until'), wait), SpecContract('WorkStealingJob::finished', lambda nm, d, b: b == 'parlay::WorkStealingJob::finished', fin)]

def run_job(ex, st):
    ghosts(ex, st)
    seen = []
    def gb(ex, s, a):
        seen.append(1)
        ex.oblige(s, 'the function of the job ran exactly once', z3.BoolVal(s.ghost['R'] == 1), 'post')
        ex.oblige(s, 'the job is finished afterwards', zb(ex.as_bool(s, a[0])), 'post')
    ex.ghost_fns['gh_bool'] = gb
    ex.run_function(st, '@vc_job', [ex.fresh_bool('x')])
    if not seen:
        raise Unsupported('end not reached')

def run_blocked(ex, st):
    b = ex.fresh_lin('b', None, 0, MAXN, st=st); e = ex.fresh_lin('e', None, 0, MAXN, st=st)
    bs = ex.fresh_lin('bs', None, 1, MAXN, st=st)
    m = size(ex, st, 'm')
    # m blocks of bs indices cover the range, the last one is not empty
    from contracts import nlmul
    st.assume(z3.If(b.z < e.z, z3.And(m.z >= 1, nlmul(m - 1, bs).z < (e - b).z, (e - b).z <= nlmul(m - 1, bs).z + bs.z), m.z == 0))
    ex.axioms += mul_axioms()
    Lo = ex.new_array(st, 'lo', m); Hi = ex.new_array(st, 'hi', m); C = ex.new_array(st, 'cnt', m)
    for r in (Lo, Hi, C):
        st.mem[r].opaque = False
    k = z3.Int('bf_k')
    c0 = arr(st, C)
    st.assume(zeros(c0, Z, m.z), True)
    low = lambda k: b.z + nlmul(Lin.of(k), bs).z
    P = {Lo: lambda a, k: sel(a, k) == low(k), Hi: lambda a, k: sel(a, k) == mn(low(k) + bs.z, e.z), C: lambda a, k: sel(a, k) == 1}
    ex.par_cands.append(pointwise_par(lambda ctx, s, rid, fo: [('block', lambda w, a, k: P[rid](a, k))] if rid in P else []))
    ex.par_after.append(pointwise_after)
    for s, _ in ex.run_function(st, '@vc_blocked_for', [Ptr(Lo, 0), Ptr(Hi, 0), Ptr(C, 0), b, e, bs]):
        x = ex.fresh('any')
        inr = z3.And(0 <= x, x < m.z)
        ex.oblige(s, 'block i starts at start + i * block_size', z3.Implies(inr, sel(arr(s, Lo), x) == low(x)), 'post')
        ex.oblige(s, 'block i ends where the next one starts, or at the end', z3.Implies(inr, sel(arr(s, Hi), x) == mn(low(x) + bs.z, e.z)), 'post')
        ex.oblige(s, 'every block exactly once', z3.Implies(inr, sel(arr(s, C), x) == 1), 'post')

X = ('-fno-access-control',)
CS = lambda: [PardoC(), c_parfor_(), c_parfor(), c_gran(), c_now()]
def without(*ts):
    return lambda: [c for c in CS() if c.title not in ts]
from exec import PathEnd
U = lambda *a, **k: Unit(*a, extra=X, **k)
UNITS = [
    U('parfor_', 'c01.cpp', '@vc_parfor_', run_parfor_, functions=['fork_join_scheduler::parfor_'], contracts=CS, options={'unfold': (T_PF_,)}),
    U('get_granularity', 'c01.cpp', '@vc_granularity', run_gran, functions=['fork_join_scheduler::get_granularity'], contracts=without(T_GR)),
    U('parfor', 'c01.cpp', '@vc_parfor', run_entry('@vc_parfor', True), functions=['fork_join_scheduler::parfor'], contracts=without(T_PF)),
]
for nm, g in (('parallel_for', True), ('parallel_for_default', False)):
    U0 = U(nm, 'c01.cpp', '@vc_' + nm, run_entry('@vc_' + nm, gran=g), functions=['parlay::parallel_for'], contracts=CS, options={'unfold': (ParallelFor.title,)})
    UNITS.append(U0)
UNITS += [
    U('pardo', 'c01.cpp', '@vc_pardo', run_fork('@vc_pardo', 1, sc=True), functions=['fork_join_scheduler::pardo'], contracts=sched_contracts),
    U('par_do', 'c01.cpp', '@vc_par_do', run_fork('@vc_par_do', 1), functions=['parlay::par_do'], contracts=lambda: [PardoC()], options={'unfold': (ParDo.title,)}),
    U('parallel_do', 'c01.cpp', '@vc_parallel_do', run_fork('@vc_parallel_do', 1), functions=['parlay::parallel_do'], contracts=lambda: [PardoC()], options={'unfold': (ParDo.title,)}),
    U('par_do_if', 'c01.cpp', '@vc_par_do_if', run_fork('@vc_par_do_if', 2), functions=['parlay::par_do_if'], contracts=lambda: [PardoC()], options={'unfold': (ParDo.title,)}),
    U('par_do3', 'c01.cpp', '@vc_par_do3', run_fork('@vc_par_do3', 0, True), functions=['parlay::par_do3'], contracts=lambda: [PardoC()], options={'unfold': (ParDo.title,)}),
    U('par_do3_if', 'c01.cpp', '@vc_par_do3_if', run_fork('@vc_par_do3_if', 1, True), functions=['parlay::par_do3_if'], contracts=lambda: [PardoC()], options={'unfold': (ParDo.title,)}),
    U('job', 'c01.cpp', '@vc_job', run_job, functions=['WorkStealingJob::operator()', 'JobImpl::execute', 'make_job']),
    U('blocked_for', 'c01.cpp', '@vc_blocked_for', run_blocked, functions=['parlay::blocked_for']),
]
