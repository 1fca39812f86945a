"""C19: relocation"""
from c07 import *
from count import sel, Z

def arr(st, rid, fo=0):
    return st.mem[rid].fields[fo][1]

LAY = {'u64': (8, {0: 8}), 'p2': (16, {0: 8, 8: 8}), 'p3': (24, {0: 8, 8: 8, 16: 8}), 'w': (4, {0: 4}), 'm': (16, {0: 8, 8: 8})}

def arrays(ex, st, T, n, m):
    s, f = LAY[T]
    A = ex.new_array(st, 'src', n, s, f); D = ex.new_array(st, 'dst', m, s, f)
    if T == 'm':
        st.mem[A].fields[8] = (8, z3.K(I, z3.IntVal(1))); st.mem[D].fields[8] = (8, z3.K(I, z3.IntVal(0)))
        for r in (A, D):
            st.mem[r].opaque = False
    # lifetime of the tracked objects
    ob = lambda what, v: lambda ex, s, a: ex.oblige(s, what, ex.as_lin(s, a[0], 64).z == v, 'life')
    ex.ghost_fns['gh_construct'] = ob('an object is constructed only in storage without one', 0)
    ex.ghost_fns['gh_use'] = ob('an object is moved from only while it exists', 1)
    ex.ghost_fns['gh_destroy'] = ob('an object is destroyed only while it exists', 1)
    return A, D

def rng(entry, T):
    def run(ex, st):
        n = size(ex, st)
        A, D = arrays(ex, st, T, n, n)
        a0 = {fo: arr(st, A, fo) for fo in LAY[T][1]}
        P = {(D, fo): (lambda a, k, z=a0[fo]: sel(a, k) == sel(z, k)) for fo in a0}
        if T == 'm':
            P[(D, 8)] = lambda a, k: sel(a, k) == 1
            P[(A, 8)] = lambda a, k: sel(a, k) == 0
            P[(A, 0)] = lambda a, k: sel(a, k) == sel(a0[0], k)
        ps = lambda ctx, s, rid, fo: [('element', lambda v, a, k: P[(rid, fo)](a, k))] if (rid, fo) in P else []
        ex.loop_cands.append(pointwise_loop(ps)); ex.par_cands.append(pointwise_par(ps)); ex.par_after.append(pointwise_after)
        seen = []
        def two(ex, s, args):
            seen.append(1)
            b = n * LAY[T][0]
            for p, r, w in ((args[0], A, 'source'), (args[1], D, 'destination')):
                ex.oblige(s, 'the returned %s iterator is the end of the range' % w, z3.And(z3.BoolVal(p.rid == r), p.off.z == b.z), 'post')
            x = ex.fresh('any')
            inr = z3.And(0 <= x, x < n.z)
            for (r, fo), q in P.items():
                ex.oblige(s, 'every destination has the value of its source' if r == D else 'the lifetime of every source object ended', z3.Implies(inr, q(arr(s, r, fo), x)), 'post')
        ex.ghost_fns['gh_two'] = two
        ex.run_function(st, '@vc_%s_%s' % (entry, T), [Ptr(A, 0), n, Ptr(D, 0)])
        if not seen:
            raise Unsupported('result not reached')
    return run

def one(T):
    def run(ex, st):
        n = size(ex, st); m = size(ex, st, 'm')
        i = ex.fresh_lin('i', 64); j = ex.fresh_lin('j', 64)
        st.assume(z3.And(i.z < n.z, j.z < m.z))
        A, D = arrays(ex, st, T, n, m)
        S = LAY[T][0]
        a0 = {fo: arr(st, A, fo) for fo in LAY[T][1]}; d0 = {fo: arr(st, D, fo) for fo in LAY[T][1]}
        for s, _ in ex.run_function(st, '@vc_at_' + T, [Ptr(A, 0), i, Ptr(D, 0), j]):
            for fo in a0:
                want = sel(a0[fo], i.z) if (T, fo) != ('m', 8) else z3.IntVal(1)
                ex.oblige(s, 'the destination has the value of the source', sel(arr(s, D, fo), j.z) == want, 'post')
                x = ex.fresh('any')
                ex.oblige(s, 'nothing else in the destination range changed', z3.Implies(x != j.z, sel(arr(s, D, fo), x) == sel(d0[fo], x)), 'post')
                ex.oblige(s, 'nothing else in the source range changed', z3.Implies(x != i.z, sel(arr(s, A, fo), x) == sel(a0[fo], x)), 'post')
            if T == 'm':
                ex.oblige(s, 'the lifetime of the source ended', sel(arr(s, A, 8), i.z) == 0, 'post')
    return run

UNITS = []
for T, w in (('u64', '8-byte'), ('p2', '16-byte'), ('p3', '24-byte'), ('w', '4-byte'), ('m', 'not trivially relocatable')):
    UNITS += [Unit('relocate_n_' + T, 'c19.cpp', '@vc_n_' + T, rng('n', T), functions=['parlay::uninitialized_relocate_n (%s)' % w], lemmas=euclid_lemma()),
              Unit('relocate_range_' + T, 'c19.cpp', '@vc_r_' + T, rng('r', T), functions=['parlay::uninitialized_relocate (%s)' % w], lemmas=euclid_lemma()),
              Unit('relocate_at_' + T, 'c19.cpp', '@vc_at_' + T, one(T), functions=['parlay::relocate_at (%s)' % w])]
