"""C16: random shuffles are permutations (elements are opaque to the code and represented by their starting position)"""
import re
from c09 import *

T_SEQ = 'seq_random_shuffle_(A): some order of A'
T_SHUF = 'random_shuffle_(In, Out): Out holds the elements of In, each once'
T_CS = 'count_sort(In, Out, keys, m): Out holds the elements of In grouped by key, and the offsets of the m groups (parallel version: not proved, see C10)'

def hash_fn():
    """hash64 is a function of its argument (unit hash64)"""
    h = z3.Function('hash64', I, I)
    def apply(ex, st, f, a, r):
        t = h(ex.unsigned(st, ex.as_lin(st, a[0], 64), 64).z)
        ex.range[t.get_id()] = (0, (1 << 64) - 1, t)
        return [(st, Lin.atom(t))]
    return SpecContract('hash64(x): a function of x', lambda nm, d, b: b == 'parlay::hash64', apply)

def log2_contract():
    """log2_up(n): the least k with n <= 2^k, so 15 <= k for n above the sequential threshold (unit log2_up)"""
    def apply(ex, st, f, a, r):
        n = ex.unsigned(st, ex.as_lin(st, a[0], 64), 64)
        k = ex.fresh_lin('log2_up', None, 0, 64)
        for c in (8, 12, 13, 16, 17, 20, 26, 27, 28):
            st.assume(z3.And(z3.Implies(n.z > (1 << c), k.z > c), z3.Implies(n.z <= (1 << c), k.z <= c)))
        st.assume(z3.Implies(n.z <= MAXN, k.z <= 48))
        return [(st, k)]
    return SpecContract('log2_up(n): the least k with n <= 2^k', lambda nm, d, b: b == 'parlay::log2_up', apply)

def seq_contract():
    def apply(ex, st, fname, args, rett):
        A, lo, hi = rng(ex, args[0], args[1])
        in_bounds(ex, st, A, lo, hi)
        permuted(ex, st, A, lo, hi, 'shuffled')
        return [(st, None)]
    return SpecContract(T_SEQ, lambda nm, d, b: b == 'parlay::internal::seq_random_shuffle_', apply)

def shuffle_contract():
    def apply(ex, st, fname, args, rett):
        A, a0, a1 = rng(ex, args[0], args[1])
        B_, b0, b1 = rng(ex, args[2], args[3])
        n = a1 - a0
        in_bounds(ex, st, A, a0, a1); in_bounds(ex, st, B_, b0, b1)
        ex.oblige(st, 'the output has the length of the input', n.z == (b1 - b0).z, 'pre')
        ex.log_access(st, 'R', A, (a0, a1)); ex.log_access(st, 'W', B_, (b0, b1))
        a = arr(st, A)
        old, na = frame(ex, st, B_, b0, b1, 'shuffled')
        N = ex.fresh_n; ex.fresh_n += 1
        pi = z3.Function('pi!%d' % N, I, I); inv = z3.Function('piinv!%d' % N, I, I)
        k = z3.Int('pm_k')
        st.assume(z3.ForAll([k], z3.Implies(z3.And(b0.z <= k, k < b1.z), z3.And(0 <= pi(k), pi(k) < n.z, sel(na, k) == sel(a, a0.z + pi(k)), inv(pi(k)) == k)), patterns=[sel(na, k)]), True)
        return [(st, None)]
    return SpecContract(T_SHUF, lambda nm, d, b: b == 'parlay::internal::random_shuffle_', apply)

def count_sort_contract():
    def apply(ex, st, fname, args, rett):
        state = ex.__dict__.setdefault('state', {})
        ret, keys = args[0], args[5]
        A, a0, a1 = rng(ex, args[1], args[2])
        O, b0, b1 = rng(ex, args[3], args[4])
        nb = ex.unsigned(st, ex.as_lin(st, args[6], 64), 64)
        n = a1 - a0
        in_bounds(ex, st, A, a0, a1); in_bounds(ex, st, O, b0, b1)
        ex.oblige(st, 'input and output have the same length', n.z == (b1 - b0).z, 'pre')
        # the key function written in the function under contract, for an arbitrary index
        d = ex.mod.dem[fname]
        def of_keys(suffix):
            out = []
            for f in ex.mod.funcs:
                t = ex.mod.dem.get(f, '')
                if t.startswith('parlay::slice<parlay::delayed_sequence<') and t.endswith('>::' + suffix):
                    t = t[len('parlay::slice<'):-len('>::' + suffix)]
                    if t[:(len(t) - 2) // 2] in d:
                        out.append(f)
            return out
        acc, size_f = of_keys('operator[](unsigned long) const'), of_keys('size() const')
        if len(acc) != 1 or len(size_f) != 1:
            raise Unsupported('key access of count_sort')
        for s2, v in ex.run_function(st.fork(), size_f[0], [keys]):
            ex.oblige(s2, 'one key per element', ex.as_lin(s2, v, 64).z == n.z, 'pre')
        s2 = st.fork()
        i = ex.fresh_lin('i', None, 0, MAXN, st=s2)
        s2.assume(z3.And(0 <= i.z, i.z < n.z))
        for s3, v in ex.run_function(s2, acc[0], [keys, i]):
            ex.oblige(s3, 'every key is below the number of buckets', ex.unsigned(s3, ex.as_lin(s3, v, 64), 64).z < nb.z, 'pre')
        ex.log_access(st, 'R', A, (a0, a1)); ex.log_access(st, 'W', O, (b0, b1))
        a = arr(st, A)
        old, na = frame(ex, st, O, b0, b1, 'bucketed')
        N = ex.fresh_n; ex.fresh_n += 1
        src, inv, grp, bkt = (z3.Function('%s!%d' % (x, N), I, I) for x in ('cs_src', 'cs_inv', 'cs_grp', 'cs_key'))
        of = ex.new_array(st, 'offsets', nb + 1)
        off = arr(st, of)
        k, g = z3.Ints('cs_k cs_g')
        inr = z3.And(b0.z <= k, k < b1.z)
        st.assume(z3.ForAll([k], z3.Implies(inr, z3.And(0 <= src(k), src(k) < n.z, sel(na, k) == sel(a, a0.z + src(k)), inv(src(k)) == k, bkt(src(k)) == grp(k),
                            0 <= grp(k), grp(k) < nb.z, sel(off, grp(k)) <= k - b0.z, k - b0.z < sel(off, grp(k) + 1))), patterns=[sel(na, k)]), True)
        st.assume(z3.ForAll([k, g], z3.Implies(z3.And(inr, 0 <= g, g < nb.z, sel(off, g) <= k - b0.z, k - b0.z < sel(off, g + 1)), grp(k) == g), patterns=[z3.MultiPattern(grp(k), sel(off, g))]), True)
        st.assume(z3.ForAll([k, g], z3.Implies(z3.And(0 <= k, k <= g, g <= nb.z), z3.And(0 <= sel(off, k), sel(off, k) <= sel(off, g), sel(off, g) <= n.z)), patterns=[z3.MultiPattern(sel(off, k), sel(off, g))]), True)
        state.update(src=src, grp=grp, bkt=bkt, off=off, out=O, lo=b0, hi=b1, nb=nb, na=na)
        next(c for c in ex.contracts if isinstance(c, Storage)).put(ex, st, ret, SeqVal(of, nb + 1))
        single = ex.fresh_bool('single')
        ex.store(st, ('i', 8), ex.as_lin(st, single, 8), Ptr(ret.rid, ret.off + 16))        # layout checked by the unit pair_layout
        return [(st, None)]
    return SpecContract(T_CS, lambda nm, d, b: b == 'parlay::internal::count_sort', apply, assumed=True)

def post(ex, s, r, n):
    x, y = ex.fresh('any_k'), ex.fresh('any_l')
    R = lambda i: sel(r, i)
    ex.oblige(s, 'every element of the result is an element of the input', z3.Implies(z3.And(0 <= x, x < n.z), z3.And(0 <= R(x), R(x) < n.z)), 'post')
    ex.oblige(s, 'no element occurs twice', z3.Implies(z3.And(0 <= x, x < y, y < n.z), R(x) != R(y)), 'post')

def sh_cands(A, n):
    def gen(ctx):
        ar = lambda w: w.arr(A, 0)
        return [('%s >= 1' % u.key, lambda X, w, p=p: X[p].z >= 1) for p, u in enumerate(ctx.vars) if u.kind == 'int'] + [('distinct', lambda X, w: distinct(ar(w), z3.IntVal(0), n.z)), ('inside', lambda X, w: inside(ar(w), z3.IntVal(0), n.z, z3.IntVal(0), n.z))]
    return gen

def run_seq(ex, st):
    n, A, a = setup(ex, st)
    seed = ex.fresh_lin('seed', 64)
    ex.loop_cands.append(sh_cands(A, n))
    for s, _ in ex.run_function(st, '@vc_seq_shuffle', [Ptr(A, 0), n, seed]):
        post(ex, s, arr(s, A), n)

def run_shuffle_(ex, st):
    n, A, a = setup(ex, st)
    st.mem[A].readonly = True
    O = ex.new_array(st, 'Out', n)
    seed = ex.fresh_lin('seed', 64)
    ps = lambda ctx, s, rid, fo: [('copy', lambda w, b, k: sel(b, k) == sel(a, k))]
    ex.loop_cands.append(pointwise_loop(ps)); ex.par_cands.append(pointwise_par(ps)); ex.par_after.append(pointwise_after)
    state = ex.__dict__.setdefault('state', {})
    def segs(ctx):
        out = []
        if 'off' not in state:
            return out
        off, bkt, O = state['off'], state['bkt'], state['out']
        x, y = z3.Ints('sg_x sg_y')
        e = lambda w, k: sel(w.arr(O, 0), k)
        b = lambda i: (sel(off, i), sel(off, i + 1))
        def own(w, i):
            lo, hi = b(i)
            return z3.ForAll([x], z3.Implies(z3.And(lo <= x, x < hi), z3.And(0 <= e(w, x), e(w, x) < n.z, bkt(e(w, x)) == i)), patterns=[e(w, x)])
        def dis(w, i):
            lo, hi = b(i)
            return z3.ForAll([x, y], z3.Implies(z3.And(lo <= x, x < y, y < hi), e(w, x) != e(w, y)), patterns=[z3.MultiPattern(e(w, x), e(w, y))])
        return [('own bucket', own), ('distinct in the bucket', dis)]
    def after(ctx, aft):
        # every place lies in one bucket
        if ctx.kept != ['own bucket', 'distinct in the bucket'] or not (ctx.lo.is_const() and ctx.lo.c == 0 and ctx.hi.same(state['nb'])):
            return
        O, bkt, off, grp, na, nb = (state[v] for v in ('out', 'bkt', 'off', 'grp', 'na', 'nb'))
        v = aft.mem[O].fields[0][1]
        x, y = ex.fresh('x'), ex.fresh('y')
        hyps = [f for f, _ in aft.pc] + [0 <= x, x < n.z, sel(na, x) == sel(na, x), 0 <= y, y < n.z, sel(na, y) == sel(na, y)]
        seg = lambda t: z3.And(0 <= grp(t), grp(t) < nb.z, sel(off, grp(t)) <= t, t < sel(off, grp(t) + 1))
        if ex.full_check(hyps, seg(x), 8000000) and ex.full_check(hyps + [seg(x), seg(y)], z3.And(0 <= sel(v, x), sel(v, x) < n.z, bkt(sel(v, x)) == grp(x)), 8000000) and \
           ex.full_check(hyps + [seg(x), seg(y), x < y, bkt(sel(v, x)) == grp(x), bkt(sel(v, y)) == grp(y)], sel(v, x) != sel(v, y), 8000000):
            aft.assume(inside(v, z3.IntVal(0), n.z, z3.IntVal(0), n.z), True)
            aft.assume(distinct(v, z3.IntVal(0), n.z), True)
    ex.par_cands.append(segs)
    ex.par_after.append(after)
    def foot(ctx, rid):
        if 'off' in state and rid == state['out']:
            return [('bucket', sel(state['off'], ctx.i), sel(state['off'], ctx.i + 1))]
    ex.foot_cands.append(foot)
    for s, _ in ex.run_function(st, '@vc_shuffle_', [Ptr(A, 0), Ptr(O, 0), n, seed]):
        post(ex, s, arr(s, O), n)

def out_unit(entry, perm):
    def run(ex, st):
        if perm:
            n = size(ex, st)
            args = [n]
        else:
            n, A, a = setup(ex, st)
            st.mem[A].readonly = True
            args = [Ptr(A, 0), n]
        ps = lambda ctx, s, rid, fo: [('identity', lambda w, b, k: sel(b, k) == k)]
        ex.loop_cands.append(pointwise_loop(ps)); ex.par_cands.append(pointwise_par(ps)); ex.par_after.append(pointwise_after)
        seen = []
        def gout(ex, s, a):
            p, m = a
            seen.append(1)
            ex.oblige(s, 'the result has the length of the input', ex.as_lin(s, m, 64).z == n.z, 'post')
            if p.rid is not None:
                post(ex, s, arr(s, p.rid), n)
        ex.ghost_fns['gh_out'] = gout
        ex.run_function(st, entry, args + [ex.fresh_lin('seed', 64)])
        if not seen:
            raise Unsupported('result not reached')
    return run

# ---------------------------------------------------------------- generators, bit-precise
import bvlib
from bvlib import BVUnit
def fv(t):
    out, seen, stack = set(), set(), [t]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(str(x))
        elif z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(x.decl().name())
        stack.extend(x.children())
    return out

def function_of(entry, npar):
    """every value the function reports is determined by its arguments"""
    def r(ex, st):
        args = bvlib.params(ex, st, entry)
        other = bvlib.params(ex, st, entry)
        vals = []
        def mk(tag):
            def g(ex, s, a):
                vals.append((tag, s, a))
            return g
        ex.ghost_fns['gh_val'] = lambda ex, s, a: vals.append((s, a[0]))
        labels = {'gh_same': 'the generator it was called on is unchanged', 'gh_eq': 'two calls in the same state give the same'}
        seen = bvlib.bools(ex, labels)
        ex.run_function(st, '@' + entry, args)
        if not vals:
            raise Unsupported('result not reached')
        for s, v in vals:
            ex.oblige(s, 'the result depends on nothing but the state and the index', z3.BoolVal(fv(v) <= {str(a) for a in args}), 'post')
    return r

def run_log2(ex, st):
    n, = bvlib.params(ex, st, 'vc_log2_up')
    st.assume(n != 0)
    for s, v in ex.run_function(st, '@vc_log2_up', [n]):
        one = z3.BitVecVal(1, 64)
        ex.oblige(s, 'at most 64', z3.ULE(v, z3.BitVecVal(64, 64)), 'post')
        for c in range(64):
            ex.oblige(s, 'n <= 2^%d exactly if log2_up(n) <= %d' % (c, c), z3.ULE(n, one << c) == z3.ULE(v, z3.BitVecVal(c, 64)), 'post')

def run_layout(ex, st):
    got = []
    ex.ghost_fns['gh_val'] = lambda ex, s, a: got.append((s, a[0]))
    ex.run_function(st, '@vc_pair_layout', [])
    if not got:
        raise Unsupported('result not reached')
    for s, v in got:
        ex.oblige(s, 'the flag of the pair (offsets, flag) is at byte 16', v == 16, 'post')
def CT():
    return [hash_fn(), log2_contract(), seq_contract(), shuffle_contract(), count_sort_contract()]
U = lambda nm, e, r, f, **k: Unit(nm, 'c16.cpp', e, r, functions=f, contracts=CT, **k)
UNITS = [
    U('seq_random_shuffle_', '@vc_seq_shuffle', run_seq, ['internal::seq_random_shuffle_'], options={'unfold': (T_SEQ,)}),
    U('random_shuffle_', '@vc_shuffle_', run_shuffle_, ['internal::random_shuffle_'], options={'unfold': (T_SHUF,)}),
    U('random_shuffle', '@vc_random_shuffle', out_unit('@vc_random_shuffle', False), ['parlay::random_shuffle']),
    U('random_permutation', '@vc_random_permutation', out_unit('@vc_random_permutation', True), ['parlay::random_permutation']),
] + [BVUnit(n, 'c16.cpp', '@vc_' + n, function_of('vc_' + n, 1), functions=[f]) for n, f in (
    ('hash64', 'parlay::hash64'), ('gen_call', 'random_generator::operator()'), ('gen_index', 'random_generator::operator[]'), ('gen_seed', 'random_generator::seed'),
    ('random_fork', 'random::fork'), ('random_next', 'random::next'), ('random_ith', 'random::ith_rand, operator[]'), ('random_rand', 'random::rand'))] + [
    BVUnit('log2_up', 'c16.cpp', '@vc_log2_up', run_log2, functions=['parlay::log2_up']),
    BVUnit('pair_layout', 'c16.cpp', '@vc_pair_layout', run_layout, functions=[]),
]
