"""C22: order statistics"""
from interval import *
from search import arr, sel
import c07
from c07 import all_from, check

# ------------------------------------------------------------- reduce without identity laws
def semi_axioms():
    """associativity only: fold(a, l, h) for l < h is the left-to-right combination; nothing is known about the identity"""
    a = z3.Const('fa', AI)
    l, m, h = z3.Ints('fl fm fh')
    return [
        z3.ForAll([a, l, h], z3.Implies(h == l + 1, fold(a, l, h) == z3.Select(a, l)), patterns=[fold(a, l, h)]),
        z3.ForAll([a, l, h], z3.Implies(l < h, fold(a, l, h + 1) == op(fold(a, l, h), z3.Select(a, h))), patterns=[op(fold(a, l, h), z3.Select(a, h))]),
        z3.ForAll([a, l, m, h], z3.Implies(z3.And(l < m, m < h), op(fold(a, l, m), fold(a, m, h)) == fold(a, l, h)), patterns=[op(fold(a, l, m), fold(a, m, h))]),
    ]

def semi_lemmas():
    a = z3.Const('lem_a', AI); s = z3.Const('lem_s', AI)
    l, m, h, b, n, hi = z3.Ints('lem_l lem_m lem_h lem_b lem_n lem_hi')
    x, y, z = z3.Ints('x y z')
    assoc = z3.ForAll([x, y, z], op(op(x, y), z) == op(x, op(y, z)), patterns=[op(op(x, y), z), op(x, op(y, z))])
    def d(a, l, h):
        return [z3.Implies(h == l + 1, fold(a, l, h) == z3.Select(a, l)), z3.Implies(l + 1 < h, fold(a, l, h) == op(fold(a, l, h - 1), z3.Select(a, h - 1)))]
    def qs():
        out = [('split base', [l < m] + d(a, m, m + 1) + d(a, l, m + 1), op(fold(a, l, m), fold(a, m, m + 1)) == fold(a, l, m + 1)),
               ('split step', [assoc, l < m, m < h] + d(a, m, h + 1) + d(a, l, h + 1) + [op(fold(a, l, m), fold(a, m, h)) == fold(a, l, h)],
                op(fold(a, l, m), fold(a, m, h + 1)) == fold(a, l, h + 1))]
        Z = z3.IntVal(0)
        split = lambda m, h: z3.Implies(z3.And(0 < m, m < h), op(fold(a, 0, m), fold(a, m, h)) == fold(a, 0, h))
        mb = mulF(m, b); hb = mulF(hi - 1, b); mb1 = mb + b
        mono = [z3.Implies(z3.And(b >= 1, m <= hi - 1), mb <= hb), z3.Implies(z3.And(m >= 1, b >= 1), mb >= b)]
        out += [('blocks base', d(s, Z, z3.IntVal(1)) + [n >= 1, b >= 1, z3.Select(s, Z) == fold(a, Z, mn(b, n))], fold(s, Z, z3.IntVal(1)) == fold(a, Z, mn(b, n))),
                ('blocks step', d(s, Z, m + 1) + mono + [1 <= m, m < hi, b >= 1, n >= 1, hb < n, split(mb, mn(mb1, n)),
                         z3.Select(s, m) == fold(a, mb, mn(mb1, n)), fold(s, Z, m) == fold(a, Z, mn(mb, n))], fold(s, Z, m + 1) == fold(a, Z, mn(mb1, n)))]
        return out
    return [Lemma('ordered combination splits (associativity only)', qs)]

def semi_after(ctx, after):
    for lab in ctx.kept:
        if lab in getattr(ctx, 'blocks', {}):
            rid, fo, a, b, n = ctx.blocks[lab]
            last = nlmul(ctx.hi - 1, b)
            side = z3.And(ctx.lo.z == 0, last.z < n.z, b.z >= 1, ctx.hi.z >= 1)
            if ctx.ex.full_check([f for f, q in after.pc], side, 8000000):
                s = after.mem[rid].fields[fo][1]
                hb = nlmul(ctx.hi, b).z
                after.assume(fold(s, z3.IntVal(0), ctx.hi.z) == fold(a, z3.IntVal(0), mn(hb, n.z)))

def semi_contract():
    def apply(ex, st, name, args, rett):
        o = seq_of(ex, st, args[0])
        if getattr(ex, 'variant_n', None) is not None:
            ex.oblige(st, 'the recursive call of reduce is on a shorter sequence', o.n.z < ex.variant_n.z, 'decreases')
        ex.oblige(st, 'the recursive call of reduce is on a non-empty sequence', o.n.z >= 1, 'pre')
        if o.rid is None:
            return []
        a = st.mem[o.rid].fields[0][1]
        ex.log_access(st, 'R', o.rid, (Lin(0), o.n))
        t = fold(a, z3.IntVal(0), o.n.z)
        ex.range[t.get_id()] = (0, (1 << 64) - 1, t)
        return [(st, Lin.atom(t))]
    return SpecContract('internal::reduce(non-empty sequence) combines the elements in order without the identity', lambda n, d, b: b == 'parlay::internal::reduce' and 'reduce<parlay::sequence<unsigned long' in d, apply)

def run_semi(entry, seq):
    def run(ex, st):
        n = size(ex, st, lo=1)
        A = ex.new_array(st, 'A', n)
        idn = ex.fresh_lin('id', 64)
        a0 = arr(st, A)
        ex.axioms += semi_axioms() + mul_axioms()
        ex.loop_cands.append(fold_loop_cands(lambda: [(A, a0)]))
        ex.par_cands.append(block_fold_cands(lambda: [(A, a0)]))
        ex.par_after.append(semi_after)
        if seq:
            ex.variant_n = n
            args = [new_seq(ex, st, A, n), idn]
        else:
            args = [Ptr(A, 0), n, idn]
        for s, v in ex.run_function(st, entry, args):
            ex.oblige(s, 'reduce combines the elements in order, without the identity', ex.as_lin(s, v, 64).z == fold(a0, z3.IntVal(0), n.z), 'post')
    return run

# ------------------------------------------------------------- extreme elements
def idx_res(ex, st, n):
    v = ex.fresh_lin('x', 64)
    return v, None

def pair_res(ex, st, n):
    v = [ex.fresh_lin('x1', 64), ex.fresh_lin('x2', 64)]
    rid = ex.new_rid('pair')
    st.mem[rid] = CellMem(16, None, 'pair')
    st.mem[rid].cells[0] = (8, v[0]); st.mem[rid].cells[8] = (8, v[1])
    return v, Ptr(rid, 0)

def bool_res(ex, st, n):
    v = ex.fresh_bool('b')
    rid = ex.new_rid('flag')
    st.mem[rid] = CellMem(1, None, 'flag')
    st.mem[rid].cells[0] = (1, ex.bool_to_lin(v) if not isinstance(v, Lin) else v)
    return v, Ptr(rid, 0)

def least(a, i, j, x, less):
    k = z3.Int('le_k')
    return z3.And(i <= x, x < j, z3.ForAll([k], z3.Implies(z3.And(i <= k, k < j), z3.And(z3.Not(less(sel(a, k), sel(a, x))), z3.Implies(k < x, less(sel(a, x), sel(a, k))))), patterns=[sel(a, k)]))

lessf = lambda x, y: less_f(x, y)
moref = lambda x, y: less_f(y, x)

def run_extreme(entry, less):
    def run(ex, st):
        n = size(ex, st)
        A = ex.new_array(st, 'A', n); st.mem[A].readonly = True
        a = arr(st, A)
        ex.axioms += less_is_key()
        ex.iv_Q = lambda ex, s, i, j, v, nn: least(a, i, j, ex.as_lin(s, v, 64).z, less)
        def fn(ex, s, r, c):
            r = ex.unsigned(s, r, 64)
            # the address of the element, in elements
            ex.oblige(s, 'empty range: the end', z3.Implies(n.z == 0, r.z == 0), 'post')
            ex.oblige(s, 'the result is an element of the range that no other is before and the first of its equals', z3.Implies(n.z > 0, least(a, z3.IntVal(0), n.z, r.z, less)), 'post')
        check(ex, st, entry, [Ptr(A, 0), n], fn)
    return run

def run_minmax(ex, st):
    n = size(ex, st)
    A = ex.new_array(st, 'A', n); st.mem[A].readonly = True
    a = arr(st, A)
    ex.axioms += less_is_key()
    def parts(ex, s, v):
        if isinstance(v, Ptr):
            return [ex.as_lin(s, ex.load(s, ('i', 64), Ptr(v.rid, v.off + o)), 64).z for o in (0, 8)]
        return [ex.as_lin(s, x, 64).z for x in v]
    ex.iv_Q = lambda ex, s, i, j, v, nn: z3.And(*[least(a, i, j, x, l) for x, l in zip(parts(ex, s, v), (lessf, moref))])
    got = []
    def g(ex, s, args):
        got.append(1)
        for v, less, w in zip(args, (lessf, moref), ('least', 'greatest')):
            r = ex.unsigned(s, ex.as_lin(s, v, 64), 64)
            ex.oblige(s, 'empty range: the end', z3.Implies(n.z == 0, r.z == 0), 'post')
            ex.oblige(s, 'the result is the first %s element' % w, z3.Implies(n.z > 0, least(a, z3.IntVal(0), n.z, r.z, less)), 'post')
    ex.ghost_fns['gh_two'] = g
    ex.run_function(st, '@vc_minmax_element', [Ptr(A, 0), n])
    if not got:
        raise Unsupported('result not reached')

def run_is_sorted(ex, st):
    n = size(ex, st)
    A = ex.new_array(st, 'A', n); st.mem[A].readonly = True
    a = arr(st, A)
    ex.axioms += less_is_key()
    k = z3.Int('is_k')
    bad = lambda i, j: z3.Exists([k], z3.And(i <= k, k < j, less_f(sel(a, k + 1), sel(a, k))))
    ok = lambda i, j: z3.ForAll([k], z3.Implies(z3.And(i <= k, k < j), z3.Not(less_f(sel(a, k + 1), sel(a, k)))), patterns=[sel(a, k)])
    ex.iv_Q = lambda ex, s, i, j, v, nn: z3.And(z3.Implies(zb(ex.as_bool(s, v)), bad(i, j)), z3.Implies(z3.Not(zb(ex.as_bool(s, v))), ok(i, j)))
    def fn(ex, s, r, c):
        # adjacent elements in order; by transitivity of the order that is the definition
        ex.oblige(s, 'true means no element before its predecessor', z3.Implies(r, z3.ForAll([k], z3.Implies(z3.And(0 <= k, k + 1 < n.z), z3.Not(less_f(sel(a, k + 1), sel(a, k)))))), 'post')
        ex.oblige(s, 'false means there is one', z3.Implies(z3.Not(r), bad(z3.IntVal(0), n.z - 1)), 'post')
    check(ex, st, '@vc_is_sorted', [Ptr(A, 0), n], fn, name='gh_bool')

Q = lambda ex, s, i, j, v, nn: ex.iv_Q(ex, s, i, j, v, nn)
UNITS = [
    Unit('reduce_semigroup', 'c05.cpp', '@vc_reduce', run_semi('@vc_reduce', False), functions=['internal::reduce (associativity only, no identity laws)'], contracts=lambda: [semi_contract()], lemmas=semi_lemmas() + euclid_lemma()),
    Unit('reduce_semigroup_seq', 'c05.cpp', '@vc_reduce_seq', run_semi('@vc_reduce_seq', True), functions=['internal::reduce(sequence) (associativity only)'], contracts=lambda: [semi_contract()], lemmas=semi_lemmas() + euclid_lemma(),
         options={'unfold': (semi_contract().title,)}),
    Unit('min_element', 'c22.cpp', '@vc_min_element', run_extreme('@vc_min_element', lessf), functions=['parlay::min_element'], contracts=lambda: [interval_contract(Q, idx_res)]),
    Unit('max_element', 'c22.cpp', '@vc_max_element', run_extreme('@vc_max_element', moref), functions=['parlay::max_element'], contracts=lambda: [interval_contract(Q, idx_res)]),
    Unit('minmax_element', 'c22.cpp', '@vc_minmax_element', run_minmax, functions=['parlay::minmax_element'], contracts=lambda: [interval_contract(Q, pair_res)]),
    Unit('is_sorted', 'c22.cpp', '@vc_is_sorted', run_is_sorted, functions=['parlay::is_sorted'], contracts=lambda: [interval_contract(Q, bool_res)]),
] + c07.ORDER_UNITS
