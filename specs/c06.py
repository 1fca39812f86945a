from count import *

pF = z3.Function('uf_p', I, B)
eqF = z3.Function('uf_eq', I, I, B)

def unit(entry, mk):
    """mk(ex, st, n) -> (args, input region ids, selected(k), element(k), max output length or None)"""
    def run(ex, st):
        n = size(ex, st)
        args, rids, selp, elem, extra = mk(ex, st, n)
        ex.axioms += count_axioms(selp) + mul_axioms()
        ex.loop_cands += [count_loop_cands(lambda: rids), placed_loop(lambda: rids, selp, elem)]
        # the flags written by filter
        ps = lambda ctx, s, rid, fo: [('flag', lambda w, a, k: (sel(a, k) == z3.If(selp(k), 1, 0)))]
        ex.loop_cands.append(pointwise_loop(ps))
        ex.par_cands += [count_par(lambda: rids[0], selp, elem, None), pointwise_par(ps)]
        ex.foot_cands.append(count_foot())
        ex.par_after += [count_after(selp, elem), pointwise_after]
        if extra is not None:
            st.assume(C(n.z) <= extra.z)
        rids0 = list(rids)
        def flags_too(ctx, after):
            # an array of flags counts as an input of the next step
            for lab in ctx.kept:
                if lab.startswith('pw ') and lab in getattr(ctx, 'pw', {}):
                    r = ctx.pw[lab][0]
                    if r not in rids:
                        rids.append(r)
        ex.par_after.append(flags_too)
        seen = []
        def gout(ex, s, a):
            p, m = a
            seen.append(1)
            m = ex.as_lin(s, m, 64)
            ex.oblige(s, 'the number of elements returned is the number of selected elements', m.z == C(n.z), 'post')
            if p.rid is None:
                ex.oblige(s, 'an empty result means nothing is selected', C(n.z) == 0, 'post')
                return
            k = z3.Int('post_k')
            o = arr(s, p.rid)
            ex.oblige(s, 'every selected element is in the result, at its rank among the selected ones', z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n.z, selp(k)), sel(o, C(k)) == elem(k))), 'post')
        ex.ghost_fns['gh_out'] = gout
        ex.run_function(st, entry, args)
        if not seen:
            raise Unsupported('result not reached')
    return run

def inp(ex, st, n, flags):
    A = ex.new_array(st, 'A', n)
    st.mem[A].readonly = True
    a0 = arr(st, A)
    if not flags:
        return A, a0
    F = ex.new_array(st, 'F', n, 1, {0: 1}, ex.fresh_arr('F', B))
    st.mem[F].readonly = True
    return A, a0, F, arr(st, F)

def mk_pack(ex, st, n):
    A, a0, F, f0 = inp(ex, st, n, True)
    return [Ptr(A, 0), Ptr(F, 0), n], [F, A], lambda k: sel(f0, k), lambda k: sel(a0, k), None

def out(ex, st):
    m = size(ex, st, 'm')
    return ex.new_array(st, 'Out', m), m

def mk_pack_into(ex, st, n):
    A, a0, F, f0 = inp(ex, st, n, True)
    O, m = out(ex, st)
    return [Ptr(A, 0), Ptr(F, 0), n, Ptr(O, 0), m], [F, A], lambda k: sel(f0, k), lambda k: sel(a0, k), m

def mk_pack_index(ex, st, n):
    A, a0, F, f0 = inp(ex, st, n, True)
    return [Ptr(F, 0), n], [F], lambda k: sel(f0, k), lambda k: k, None

def mk_filter(into, selp):
    def mk(ex, st, n):
        A, a0 = inp(ex, st, n, False)
        args = [Ptr(A, 0), n]
        m = None
        if into:
            O, m = out(ex, st)
            args += [Ptr(O, 0), m]
        return args, [A], lambda k: selp(a0, k), lambda k: sel(a0, k), m
    return mk

def mk_remove(ex, st, n):
    A, a0 = inp(ex, st, n, False)
    v = ex.fresh_lin('v', 64)
    ex.range
    return [Ptr(A, 0), n, v], [A], lambda k: sel(a0, k) != v.z, lambda k: sel(a0, k), None

def mk_unique(ex, st, n):
    A, a0 = inp(ex, st, n, False)
    return [Ptr(A, 0), n], [A], lambda k: z3.Or(k == 0, z3.Not(eqF(sel(a0, k), sel(a0, k - 1)))), lambda k: sel(a0, k), None

def U(name, mk, *fs):
    return Unit(name, 'c06.cpp', '@vc_' + name, unit('@vc_' + name, mk), functions=list(fs), contracts=lambda: [scan_plus_contract()], lemmas=count_lemmas() + euclid_lemma())

S = ('internal::sum_bools_serial', 'internal::pack_serial', 'internal::pack_serial_at', 'internal::sliced_for')
UNITS = [
    U('pack', mk_pack, 'parlay::pack', 'internal::pack', *S),
    U('pack_into', mk_pack_into, 'parlay::pack_into_uninitialized', 'internal::pack_out'),
    U('pack_index', mk_pack_index, 'parlay::pack_index', 'internal::pack_index'),
    U('filter', mk_filter(False, lambda a, k: pF(sel(a, k))), 'parlay::filter', 'internal::filter', 'internal::filter_map'),
    U('filter_into', mk_filter(True, lambda a, k: pF(sel(a, k))), 'parlay::filter_into_uninitialized', 'internal::filter_out'),
    U('remove_if', mk_filter(False, lambda a, k: z3.Not(pF(sel(a, k)))), 'parlay::remove_if'),
    U('remove', mk_remove, 'parlay::remove'),
    U('unique', mk_unique, 'parlay::unique'),
]
