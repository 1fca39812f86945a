"""C08: merge and binary search"""
from merge import *
from c07 import pF, all_from

def run_bs(entry, value):
    def run(ex, st):
        n = size(ex, st)
        A = ex.new_array(st, 'B', n); st.mem[A].readonly = True
        a = arr(st, A)
        ex.axioms += less_is_key()
        v = ex.fresh_lin('v', 64)
        before = (lambda k: less_f(sel(a, k), v.z)) if value else (lambda k: pF(sel(a, k)))
        # sorted with respect to the value: once an element is not before it, no later one is
        x, y = z3.Ints('bs_x bs_y')
        ex.axioms.append(z3.ForAll([x, y], z3.Implies(z3.And(0 <= x, x <= y, y < n.z, before(y)), before(x)), patterns=[z3.MultiPattern(sel(a, x), sel(a, y))]))
        def cands(ctx):
            out = []
            for p, u in enumerate(ctx.vars):
                if u.kind != 'int' or u.w != 64:
                    continue
                out.append(('all below %s are before' % u.key, lambda X, w, p=p: all_from(0, X[p].z, before)))
                out.append(('none from %s on is before' % u.key, lambda X, w, p=p: all_from(X[p].z, n.z, lambda k: z3.Not(before(k)))))
                out.append(('%s in range' % u.key, lambda X, w, p=p: z3.And(0 <= X[p].z, X[p].z <= n.z)))
                for q, u2 in enumerate(ctx.vars):
                    if q != p and u2.kind == 'int' and u2.w == 64:
                        out.append(('%s <= %s' % (u.key, u2.key), lambda X, w, p=p, q=q: X[p].z <= X[q].z))
                # a counter relative to the first element looked at
                for rid, idx, at in ctx.reads:
                    inits = [z.init for z in ctx.vars]
                    if rid == A and not any(i is None for i in inits):
                        t0 = at(inits)
                        out.append(('all before the element looked at (%s)' % idx, lambda X, w, at=at, t0=t0: all_from(t0.z, at(X).z, before)))
            return out
        ex.loop_cands.append(cands)
        for s, r in ex.run_function(st, entry, [Ptr(A, 0), n] + ([v] if value else [])):
            r = ex.unsigned(s, ex.as_lin(s, r, 64), 64)
            k = z3.Int('bs_k')
            ex.oblige(s, 'the result is a position or the end', z3.And(0 <= r.z, r.z <= n.z), 'post')
            ex.oblige(s, 'every element below the result is before the value', all_from(0, r.z, before), 'post')
            ex.oblige(s, 'the element at the result is not', z3.Implies(r.z < n.z, z3.Not(before(r.z))), 'post')
    return run

def seq_cands(M, R):
    """both inputs consumed up to (i, j): their elements are placed and nothing later belongs before them"""
    def gen(ctx):
        out = []
        nd = [(('var', p), u.key) for p, u in enumerate(ctx.vars) if u.kind == 'int' and u.w == 64] + [(('c', M.n), 'n'), (('c', M.m), 'm')]
        val = lambda t, X: X[t[1]].z if t[0] == 'var' else t[1].z
        x, y = z3.Ints('sc_x sc_y')
        for ti, ni in nd:
            for tj, nj in nd:
                if ti == tj or (ti[0] == 'c' and tj[0] == 'c') or ni == 'm' or nj == 'n':
                    continue
                lab = '(%s,%s)' % (ni, nj)
                out.append(('range ' + lab, lambda X, w, ti=ti, tj=tj: z3.And(0 <= val(ti, X), val(ti, X) <= M.n.z, 0 <= val(tj, X), val(tj, X) <= M.m.z)))
                out.append(('frontier A ' + lab, lambda X, w, ti=ti, tj=tj: z3.ForAll([x], z3.And(z3.Implies(z3.And(0 <= x, x < val(ti, X)), la(x) <= val(tj, X)), z3.Implies(z3.And(val(ti, X) <= x, x < M.n.z), la(x) >= val(tj, X))), patterns=[la(x)])))
                out.append(('frontier B ' + lab, lambda X, w, ti=ti, tj=tj: z3.ForAll([y], z3.And(z3.Implies(z3.And(0 <= y, y < val(tj, X)), ub(y) <= val(ti, X)), z3.Implies(z3.And(val(tj, X) <= y, y < M.m.z), ub(y) >= val(ti, X))), patterns=[ub(y)])))
                out.append(('placed A ' + lab, lambda X, w, ti=ti, tj=tj: placed(w.arr(R, 0), 0, M.a, 0, val(ti, X), M.b, 0, val(tj, X))[0]))
                out.append(('placed B ' + lab, lambda X, w, ti=ti, tj=tj: placed(w.arr(R, 0), 0, M.a, 0, val(ti, X), M.b, 0, val(tj, X))[1]))
        return out
    return gen

def merged_post(ex, s, M, R):
    x, y = ex.fresh('any_x'), ex.fresh('any_y')
    ex.oblige(s, 'every element of the first range is at its place of the stable merge', z3.Implies(z3.And(0 <= x, x < M.n.z), sel(R, x + la(x)) == sel(M.a, x)), 'post')
    ex.oblige(s, 'every element of the second range is at its place of the stable merge', z3.Implies(z3.And(0 <= y, y < M.m.z), sel(R, y + ub(y)) == sel(M.b, y)), 'post')

def run_merge_fn(entry, extra=lambda ex: [], variant=False, move=False):
    def run(ex, st):
        M = merge_setup(ex, st, not move)
        R = ex.new_array(st, 'R', M.n + M.m)
        if variant:
            M.variant = M.n + M.m
        ex.loop_cands.append(seq_cands(M, R))
        preds = lambda ctx, s, rid, fo: [('copy of ' + nm, lambda w, a_, k, src=src: sel(a_, k) == sel(src, k)) for nm, src in (('A', M.a), ('B', M.b))]
        ex.par_cands.append(pointwise_par(preds)); ex.par_after.append(pointwise_after)
        for s, _ in ex.run_function(st, entry, [Ptr(M.A, 0), M.n, Ptr(M.B, 0), M.m, Ptr(R, 0)] + extra(ex)):
            merged_post(ex, s, M, arr(s, R))
    return run

def run_merge(ex, st):
    M = merge_setup(ex, st)
    seen = []
    def gout(ex, s, a):
        p, k = a
        seen.append(1)
        k = ex.as_lin(s, k, 64)
        ex.oblige(s, 'the result has all elements', k.z == (M.n + M.m).z, 'post')
        if p.rid is None:
            return
        merged_post(ex, s, M, arr(s, p.rid))
    ex.ghost_fns['gh_out'] = gout
    ex.run_function(st, '@vc_merge', [Ptr(M.A, 0), M.n, Ptr(M.B, 0), M.m])
    if not seen:
        raise Unsupported('result not reached')

seqc = lambda: merge_into_contract('seq_merge(A, B, R): the stable merge of A and B is in R', 'seq_merge')
ML = merge_lemmas()
UNITS = [
    Unit('binary_search', 'c08.cpp', '@vc_binary_search', run_bs('@vc_binary_search', True), functions=['internal::binary_search', 'internal::linear_search']),
    Unit('binary_search_pred', 'c08.cpp', '@vc_binary_search_pred', run_bs('@vc_binary_search_pred', False), functions=['internal::binary_search (predicate)', 'internal::linear_search (predicate)']),
    Unit('seq_merge', 'c08.cpp', '@vc_seq_merge', run_merge_fn('@vc_seq_merge'), functions=['internal::seq_merge'], lemmas=ML),
    Unit('seq_merge_move', 'c08.cpp', '@vc_seq_merge_move', run_merge_fn('@vc_seq_merge_move', move=True), functions=['internal::seq_merge (moving)'], lemmas=ML),
    Unit('merge_into', 'c08.cpp', '@vc_merge_into', run_merge_fn('@vc_merge_into', lambda ex: [ex.fresh_bool('cons')], True), functions=['internal::merge_into'],
         contracts=lambda: [merge_into_contract(), seqc(), binary_search_contract()], lemmas=ML, options={'unfold': (T_MERGE,)}),
    Unit('merge', 'c08.cpp', '@vc_merge', run_merge, functions=['parlay::merge', 'internal::merge'], contracts=lambda: [merge_into_contract()], lemmas=ML),
]
