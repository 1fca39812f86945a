"""C10: counting and integer sorts.  The position of input element j in the stable order by key is
pos(j) = Lo(key j) + Cn(j, key j), with Cn(j, k) = number of positions below j with key k and
Lo(k) = number of positions with a key below k."""
from c07 import *
from count import arr, sel, Z
from c01 import without as _w

Cn = z3.Function('keycount', I, I, I)
Lo = z3.Function('keylow', I, I)
pos = z3.Function('sorted_pos', I, I)

def key_axioms(K, n, nb):
    j, h, k, m = z3.Ints('cj ch ck cm')
    MP = z3.MultiPattern
    return [
        z3.ForAll([k], Cn(Z, k) == 0, patterns=[Cn(Z, k)]),
        z3.ForAll([j, h, k], z3.Implies(z3.And(0 <= j, h == j + 1), Cn(h, k) == Cn(j, k) + z3.If(sel(K, j) == k, 1, 0)), patterns=[MP(Cn(j, k), Cn(h, k))]),
        Lo(Z) == 0,
        z3.ForAll([k, m], z3.Implies(z3.And(0 <= k, m == k + 1), Lo(m) == Lo(k) + Cn(n, k)), patterns=[MP(Lo(k), Lo(m))]),
        z3.ForAll([j], pos(j) == Lo(sel(K, j)) + Cn(j, sel(K, j)), patterns=[sel(K, j)]),
        # precondition of the sort: keys below the number of buckets
        z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), z3.And(0 <= sel(K, j), sel(K, j) < nb)), patterns=[sel(K, j)]),
        # lemmas, proved in key_lemmas
        z3.ForAll([j, k], z3.Implies(0 <= j, z3.And(0 <= Cn(j, k), Cn(j, k) <= j)), patterns=[Cn(j, k)]),
        z3.ForAll([j, h, k], z3.Implies(z3.And(0 <= j, j <= h), Cn(j, k) <= Cn(h, k)), patterns=[MP(Cn(j, k), Cn(h, k))]),
        z3.ForAll([j, h, k], z3.Implies(z3.And(0 <= j, j < h, sel(K, j) == k), Cn(j, k) + 1 <= Cn(h, k)), patterns=[MP(Cn(j, k), Cn(h, k))]),
        z3.ForAll([k, m], z3.Implies(z3.And(0 <= k, k < m), Lo(k) + Cn(n, k) <= Lo(m)), patterns=[MP(Lo(k), Lo(m))]),
        z3.ForAll([k], z3.Implies(0 <= k, z3.And(0 <= Lo(k), z3.Implies(k <= nb, Lo(k) <= n))), patterns=[Lo(k)]),
        Lo(nb) == n,
        z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), z3.And(0 <= pos(j), pos(j) < n)), patterns=[pos(j)]),
        z3.ForAll([j, h], z3.Implies(z3.And(0 <= j, j < h, h < n), pos(j) != pos(h)), patterns=[MP(pos(j), pos(h))]),
    ]

def key_lemmas():
    j, h, k, m, n, nb, k2 = z3.Ints('lem_j lem_h lem_k lem_m lem_n lem_nb lem_k2')
    K = z3.Const('lem_K', AI)
    d = lambda j, k: Cn(j + 1, k) == Cn(j, k) + z3.If(sel(K, j) == k, 1, 0)
    L2 = z3.Function('keylow2', I, I, I)        # Lo over the first j positions
    dl = lambda j, k: L2(j, k + 1) == L2(j, k) + Cn(j, k)
    lt = lambda j, k: L2(j + 1, k) == L2(j, k) + z3.If(sel(K, j) < k, 1, 0)
    def q():
        yield ('bounds base', [Cn(Z, k) == 0], z3.And(0 <= Cn(Z, k), Cn(Z, k) <= 0))
        yield ('bounds step', [0 <= j, d(j, k), 0 <= Cn(j, k), Cn(j, k) <= j], z3.And(0 <= Cn(j + 1, k), Cn(j + 1, k) <= j + 1))
        yield ('monotone step', [j <= h, d(h, k), Cn(j, k) <= Cn(h, k)], Cn(j, k) <= Cn(h + 1, k))
        yield ('strict base', [d(j, k), sel(K, j) == k], Cn(j, k) + 1 <= Cn(j + 1, k))
        yield ('strict step', [j < h, d(h, k), Cn(j, k) + 1 <= Cn(h, k)], Cn(j, k) + 1 <= Cn(h + 1, k))
        yield ('buckets base', [dl(n, k), Cn(n, k) >= 0], L2(n, k) + Cn(n, k) <= L2(n, k + 1))
        yield ('buckets step', [k < m, dl(n, m), Cn(n, m) >= 0, L2(n, k) + Cn(n, k) <= L2(n, m)], L2(n, k) + Cn(n, k) <= L2(n, m + 1))
        # Lo counts the smaller keys: L2(j+1, k) = L2(j, k) + [key j < k], induction on k
        yield ('smaller base', [L2(j + 1, Z) == 0, L2(j, Z) == 0, 0 <= sel(K, j)], lt(j, Z))
        yield ('smaller step', [0 <= k, lt(j, k), dl(j, k), dl(j + 1, k), d(j, k)], lt(j, k + 1))
        yield ('empty base', [L2(Z, Z) == 0], L2(Z, Z) == 0)
        yield ('empty step', [L2(Z, k) == 0, dl(Z, k), Cn(Z, k) == 0], L2(Z, k + 1) == 0)
        yield ('total base', [L2(Z, nb) == 0], L2(Z, nb) == 0)
        yield ('total step', [lt(j, nb), sel(K, j) < nb, L2(j, nb) == j], L2(j + 1, nb) == j + 1)
        P = lambda j: L2(n, sel(K, j)) + Cn(j, sel(K, j))
        st = lambda a: Cn(a, sel(K, a)) + 1 <= Cn(n, sel(K, a))
        bk = lambda x, y: z3.Implies(x < y, L2(n, x) + Cn(n, x) <= L2(n, y))
        inr = [0 <= j, j < n, 0 <= sel(K, j), sel(K, j) < nb]
        yield ('position in range', inr + [st(j), bk(sel(K, j), nb), L2(n, nb) == n, L2(n, sel(K, j)) >= 0, Cn(j, sel(K, j)) >= 0], z3.And(0 <= P(j), P(j) < n))
        two = inr + [j < h, h < n, 0 <= sel(K, h), sel(K, h) < nb, st(j), st(h), bk(sel(K, j), sel(K, h)), bk(sel(K, h), sel(K, j)),
                     z3.Implies(sel(K, j) == sel(K, h), Cn(j, sel(K, j)) + 1 <= Cn(h, sel(K, j))), Cn(h, sel(K, h)) >= 0, Cn(j, sel(K, j)) >= 0]
        yield ('positions differ', two, P(j) != P(h))
        yield ('stable order', two, z3.If(sel(K, j) <= sel(K, h), P(j) < P(h), P(h) < P(j)))
        yield ('bucket k is [Lo k, Lo k+1)', inr + [st(j), dl(n, sel(K, j)), Cn(j, sel(K, j)) >= 0], z3.And(L2(n, sel(K, j)) <= P(j), P(j) < L2(n, sel(K, j) + 1)))
    return [Lemma('stable positions by key', lambda: list(q()))]

def every(pred):
    """for every element index k: P(array, k, position) over arrays modified by the loop"""
    def gen(ctx):
        out = []
        inits = [v.init for v in ctx.vars]
        if any(v is None for v in inits):
            return out
        ats = []
        for lst in (ctx.reads, ctx.writes):
            for rid, idx, at in lst:
                ats.append((idx, at))
        for k0 in sorted({(k[1], k[2]) for k in ctx.mods if k[0] == 'a'}, key=str):
            rid, fo = k0
            for idx, at in ats[:6]:
                for lab, P in pred(ctx, rid, fo):
                    def fn(x, w, rid=rid, fo=fo, at=at, P=P):
                        k = z3.Int('ev_k')
                        a = w.arr(rid, fo)
                        return z3.ForAll([k], P(a, k, at(x).z, at([v.init for v in ctx.vars]).z), patterns=[sel(a, k)])
                    out.append(('every %s %s at %s' % (ctx.st0.mem[rid].name, lab, idx), fn))
        return out
    return gen

def inputs(ex, st):
    n = size(ex, st)
    nb = size(ex, st, 'nb')
    A = ex.new_array(st, 'A', n); st.mem[A].readonly = True
    K = ex.new_array(st, 'K', n); st.mem[K].readonly = True; st.mem[K].opaque = False
    a, k = arr(st, A), arr(st, K)
    ex.axioms += key_axioms(k, n.z, nb.z)
    return n, nb, A, K, a, k

inb = lambda k, nb: z3.And(0 <= k, k < nb.z)

def count_cands(nb, n):
    def pred(ctx, rid, fo):
        return [('counts', lambda a, k, p, p0: z3.Implies(inb(k, nb), sel(a, k) == Cn(p, k))),
                ('down', lambda a, k, p, p0: z3.Implies(inb(k, nb), sel(a, k) == Lo(k) + Cn(p + 1, k))),
                ('up', lambda a, k, p, p0: z3.Implies(inb(k, nb), sel(a, k) == Lo(k) + Cn(p, k))),
                ('ends', lambda a, k, p, p0: z3.Implies(inb(k, nb), sel(a, k) == z3.If(k < p, Lo(k + 1), Cn(n.z, k))))]
    return every(pred)

def placed_cands(Kz, a, down=True, up=True):
    def gen(ctx):
        out = []
        inits = [v.init for v in ctx.vars]
        if any(v is None for v in inits):
            return out
        for rid, fo in sorted({(k[1], k[2]) for k in ctx.mods if k[0] == 'a'}, key=str):
            for r2, idx, at in ctx.reads:
                if r2 == rid:
                    continue
                t0 = at(inits)
                for dr in ('up', 'down'):
                    def fn(x, w, rid=rid, fo=fo, at=at, t0=t0, dr=dr):
                        j = z3.Int('pl_j')
                        c = z3.And(t0.z <= j, j < at(x).z) if dr == 'up' else z3.And(at(x).z < j, j <= t0.z)
                        return z3.ForAll([j], z3.Implies(c, sel(w.arr(rid, fo), pos(j)) == sel(a, j)), patterns=[pos(j)])
                    out.append(('placed %s %s at %s' % (dr, ctx.st0.mem[rid].name, idx), fn))
        return out
    return gen

def low_acc(ctx):
    """s == Lo(index)"""
    out = []
    for n, v in value_vars(ctx):
        for rid, idx, at in (ctx.reads + ctx.writes)[:4]:
            out.append(('*low(%s) at %s' % (v.key, idx), lambda x, w, n=n, at=at: x[n].z == Lo(at(x).z)))
    return out

def run_count(ex, st):
    n, nb, A, K, a, k = inputs(ex, st)
    Cs = ex.new_array(st, 'counts', nb); st.mem[Cs].opaque = False
    ex.loop_cands.append(count_cands(nb, n))
    ex.loop_cands.append(pointwise_loop(lambda ctx, s, rid, fo: [('count', lambda w, b, k: sel(b, k) == Cn(n.z, k))]))
    for s, _ in ex.run_function(st, '@vc_seq_count_', [Ptr(A, 0), Ptr(K, 0), n, Ptr(Cs, 0), nb]):
        x = ex.fresh('any')
        ex.oblige(s, 'counts[k] is the number of elements with key k', z3.Implies(inb(x, nb), sel(arr(s, Cs), x) == Cn(n.z, x)), 'post')

def check_placed(ex, s, n, Out, a, k):
    x = ex.fresh('any')
    ex.oblige(s, 'every element is at its stable position by key', z3.Implies(z3.And(0 <= x, x < n.z), sel(arr(s, Out), pos(x)) == sel(a, x)), 'post')

def run_write_down(ex, st):
    n, nb, A, K, a, k = inputs(ex, st)
    Out = ex.new_array(st, 'Out', n)
    Of = ex.new_array(st, 'offsets', nb); st.mem[Of].opaque = False
    x = z3.Int('pr_k')
    st.assume(z3.ForAll([x], z3.Implies(inb(x, nb), sel(arr(st, Of), x) == Lo(x) + Cn(n.z, x)), patterns=[sel(arr(st, Of), x)]), True)
    ex.loop_cands += [count_cands(nb, n), placed_cands(k, a)]
    for s, _ in ex.run_function(st, '@vc_seq_write_down_', [Ptr(A, 0), Ptr(K, 0), n, Ptr(Out, 0), Ptr(Of, 0), nb]):
        check_placed(ex, s, n, Out, a, k)
        x = ex.fresh('any')
        ex.oblige(s, 'offsets[k] is where bucket k starts', z3.Implies(inb(x, nb), sel(arr(s, Of), x) == Lo(x)), 'post')

def run_write_up(ex, st):
    n, nb, A, K, a, k = inputs(ex, st)
    Out = ex.new_array(st, 'Out', n)
    Of = ex.new_array(st, 'offsets', nb); st.mem[Of].opaque = False; st.mem[Of].readonly = True
    o0 = arr(st, Of)
    ex.ext_fns = dict(getattr(ex, 'ext_fns', {}))
    ex.ghost_fns['gh_base'] = lambda ex, s, args: Ptr(Out, 0)
    x = z3.Int('pr_k')
    st.assume(z3.ForAll([x], z3.Implies(inb(x, nb), sel(o0, x) == Lo(x)), patterns=[sel(o0, x)]), True)
    ex.loop_cands += [count_cands(nb, n), placed_cands(k, a), pointwise_loop(lambda ctx, s, rid, fo: [('copy', lambda w, b, k: sel(b, k) == sel(o0, k))])]
    for s, _ in ex.run_function(st, '@vc_seq_write_', [Ptr(A, 0), Ptr(K, 0), n, Ptr(Of, 0), nb]):
        check_placed(ex, s, n, Out, a, k)

def run_count_sort_(ex, st):
    n, nb, A, K, a, k = inputs(ex, st)
    Out = ex.new_array(st, 'Out', n)
    Cs = ex.new_array(st, 'counts', nb); st.mem[Cs].opaque = False
    ex.loop_cands += [count_cands(nb, n), placed_cands(k, a), low_acc, pointwise_loop(lambda ctx, s, rid, fo: [('count', lambda w, b, k: sel(b, k) == Cn(n.z, k))])]
    for s, _ in ex.run_function(st, '@vc_seq_count_sort_', [Ptr(A, 0), Ptr(K, 0), n, Ptr(Out, 0), Ptr(Cs, 0), nb]):
        check_placed(ex, s, n, Out, a, k)
        x = ex.fresh('any')
        ex.oblige(s, 'counts[k] is where bucket k starts', z3.Implies(inb(x, nb), sel(arr(s, Cs), x) == Lo(x)), 'post')

def run_count_sort(ex, st):
    n, nb, A, K, a, k = inputs(ex, st)
    Out = ex.new_array(st, 'Out', n)
    ex.loop_cands += [count_cands(nb, n), placed_cands(k, a), low_acc, pointwise_loop(lambda ctx, s, rid, fo: [('count', lambda w, b, k: sel(b, k) == Cn(n.z, k))])]
    seen = []
    def g(ex, s, args):
        seen.append(1)
        p, l = args
        l = ex.as_lin(s, l, 64)
        x = ex.fresh('any')
        ex.oblige(s, 'one offset per bucket and the end', l.z == nb.z + 1, 'post')
        ex.oblige(s, 'bucket k is [offsets[k], offsets[k+1])', z3.Implies(z3.And(0 <= x, x <= nb.z), sel(arr(s, p.rid), x) == Lo(x)), 'post')
        check_placed(ex, s, n, Out, a, k)
    ex.ghost_fns['gh_out'] = g
    ex.run_function(st, '@vc_seq_count_sort', [Ptr(A, 0), Ptr(K, 0), n, Ptr(Out, 0), nb])
    if not seen:
        raise Unsupported('result not reached')

U = lambda nm, e, r, f, **k: Unit(nm, 'c10.cpp', e, r, functions=f, lemmas=key_lemmas(), **k)
UNITS = [
    U('seq_count_', '@vc_seq_count_', run_count, ['internal::seq_count_']),
    U('seq_write_down_', '@vc_seq_write_down_', run_write_down, ['internal::seq_write_down_']),
    U('seq_write_', '@vc_seq_write_', run_write_up, ['internal::seq_write_'], options={'elems': {'It': (8, {0: 8})}}),
    U('seq_count_sort_', '@vc_seq_count_sort_', run_count_sort_, ['internal::seq_count_sort_']),
    U('seq_count_sort', '@vc_seq_count_sort', run_count_sort, ['internal::seq_count_sort']),
]
