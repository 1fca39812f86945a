"""stable merge: ranks and the contract of merge_into

la(x): number of elements of B that go before A[x]; ub(y): number of elements of A that go before B[y]
(elements of A before equivalent elements of B).  For ranges sorted by a strict weak order
  less(B[y], A[x])  <=>  y < la(x)  <=>  ub(y) <= x.
The stable merge R is: R[x + la(x)] = A[x] and R[y + ub(y)] = B[y] for all x, y."""
from search import *
la = z3.Function('la', I, I)
ub = z3.Function('ub', I, I)

def merge_axioms(a, n, b, m):
    x, y, u, v = z3.Ints('mg_x mg_y mg_u mg_v')
    return less_is_key() + [
        z3.ForAll([x], z3.Implies(z3.And(0 <= x, x < n), z3.And(0 <= la(x), la(x) <= m)), patterns=[la(x)]),
        z3.ForAll([y], z3.Implies(z3.And(0 <= y, y < m), z3.And(0 <= ub(y), ub(y) <= n)), patterns=[ub(y)]),
        z3.ForAll([x, y], z3.Implies(z3.And(0 <= x, x < n, 0 <= y, y < m), z3.And((key(sel(b, y)) < key(sel(a, x))) == (y < la(x)), (y < la(x)) == (ub(y) <= x))),
                  patterns=[z3.MultiPattern(sel(a, x), sel(b, y))]),
        z3.ForAll([x, y], z3.Implies(z3.And(0 <= x, x < n, 0 <= y, y < m), (y < la(x)) == (ub(y) <= x)), patterns=[z3.MultiPattern(la(x), ub(y))]),
        z3.ForAll([x, u], z3.Implies(z3.And(0 <= x, x <= u, u < n), la(x) <= la(u)), patterns=[z3.MultiPattern(la(x), la(u))]),
        z3.ForAll([y, v], z3.Implies(z3.And(0 <= y, y <= v, v < m), ub(y) <= ub(v)), patterns=[z3.MultiPattern(ub(y), ub(v))]),
        # trigger feeding
        z3.ForAll([x], la(x) == la(x), patterns=[sel(a, x)]),
    ]

def merge_lemmas():
    """ranks exist in sorted ranges, and they cover every position of the result exactly once"""
    a = z3.Const('lem_a', AI); b = z3.Const('lem_b', AI)
    n, m, x, y, h, l, k = z3.Ints('lem_n lem_m lem_x lem_y lem_h lem_l lem_k')
    K = lambda arr_, i: key(sel(arr_, i))
    u, v = z3.Ints('mu mv')
    srt = lambda arr_, n: z3.ForAll([u, v], z3.Implies(z3.And(0 <= u, u <= v, v < n), K(arr_, u) <= K(arr_, v)), patterns=[z3.MultiPattern(sel(arr_, u), sel(arr_, v))])
    split = lambda l, h: z3.And(0 <= l, l <= h, z3.ForAll([y], z3.Implies(z3.And(0 <= y, y < h), (K(b, y) < k) == (y < l)), patterns=[sel(b, y)]))
    def q1():
        # there is l <= h with B[y] < k iff y < l, for every prefix of length h (induction on h): the split point stays or grows by one at the end
        return [('rank base', [], split(z3.IntVal(0), z3.IntVal(0))),
                ('rank step', [srt(b, m), 0 <= h, h < m, split(l, h)], z3.Or(split(l, h + 1), z3.And(l == h, split(h + 1, h + 1))))]
    A0, B0 = z3.Ints('A0 B0')
    def q2():
        ax = merge_axioms(a, n, b, m)[1:]
        # positions x + la(x) and y + ub(y) never coincide and each is strictly increasing: n + m distinct places below n + m
        return [('places of A and B are different', ax + [0 <= x, x < n, 0 <= y, y < m], x + la(x) != y + ub(y)),
                ('places of A increase', ax + [0 <= x, x < h, h < n], x + la(x) < h + la(h)),
                ('places of B increase', ax + [0 <= x, x < h, h < m], x + ub(x) < h + ub(h)),
                ('places are inside', ax + [0 <= x, x < n, 0 <= y, y < m], z3.And(0 <= x + la(x), x + la(x) < n + m, 0 <= y + ub(y), y + ub(y) < n + m)),
                # consistency of the two ranks: y < la(x) iff B[y] < A[x] iff not (x < ub(y))
                ('ranks agree', [z3.Not(K(b, y) < K(a, x)) == (x < l), (K(b, y) < K(a, x)) == (y < h)], (y < h) == (l <= x))]
    return [Lemma('ranks of a sorted range', q1), Lemma('the stable merge fills every place once', q2)]

def placed(R, r0, a, a0, a1, b, b0, b1):
    """elements A[a0..a1) and B[b0..b1) are in their places of R (whose part starts at r0)"""
    x, y = z3.Ints('pl_x pl_y')
    d = r0 - a0 - b0
    return [z3.ForAll([x], z3.Implies(z3.And(a0 <= x, x < a1), sel(R, x + la(x) + d) == sel(a, x)), patterns=[la(x)]),
            z3.ForAll([y], z3.Implies(z3.And(b0 <= y, y < b1), sel(R, y + ub(y) + d) == sel(b, y)), patterns=[ub(y)])]

def idx_of(p):
    q, r = p.off.div_exact(8)
    if r:
        raise Unsupported('unaligned range')
    return q

class MergeSpec:
    pass

def slices6(ex, st, args):
    out = []
    for k in (0, 2, 4):
        s, e = args[k], args[k + 1]
        if s.rid != e.rid:
            raise Unsupported('slice over two regions')
        out.append((s.rid, idx_of(s), idx_of(e)) if s.rid is not None else (None, Lin(0), Lin(0)))
    return out

T_MERGE = 'merge_into(A, B, R): the stable merge of A and B is in R'
def merge_into_contract(title=T_MERGE, name='merge_into'):
    def apply(ex, st, fname, args, rett):
        M = ex.merge
        (ra, a0, a1), (rb, b0, b1), (rr, r0, r1) = slices6(ex, st, args)
        if ra != M.A or rb != M.B or rr is None:
            raise Unsupported('merge of other ranges')
        n, m = a1 - a0, b1 - b0
        ex.oblige(st, 'merged ranges are parts of the inputs', z3.And(0 <= a0.z, a0.z <= a1.z, a1.z <= M.n.z, 0 <= b0.z, b0.z <= b1.z, b1.z <= M.m.z), 'pre')
        ex.oblige(st, 'the destination has the total length', z3.And((r1 - r0).z == (n + m).z, 0 <= r0.z, r1.z <= st.mem[rr].length.z), 'pre')
        x, y = z3.Ints('pc_x pc_y')
        ex.oblige(st, 'the ranges are merged within themselves: elements of the second range outside belong outside (A)',
                  z3.ForAll([x], z3.Implies(z3.And(a0.z <= x, x < a1.z), z3.And(b0.z <= la(x), la(x) <= b1.z)), patterns=[la(x)]), 'pre')
        ex.oblige(st, 'the ranges are merged within themselves: elements of the first range outside belong outside (B)',
                  z3.ForAll([y], z3.Implies(z3.And(b0.z <= y, y < b1.z), z3.And(a0.z <= ub(y), ub(y) <= a1.z)), patterns=[ub(y)]), 'pre')
        if getattr(M, 'variant', None) is not None and title == T_MERGE:
            ex.oblige(st, 'the recursive call has less to merge', (n + m).z < M.variant.z, 'decreases')
        ex.log_access(st, 'R', ra, (a0, a1)); ex.log_access(st, 'R', rb, (b0, b1)); ex.log_access(st, 'W', rr, (r0, r1))
        mr = st.mw(rr)
        old = mr.fields[0][1]
        na = ex.fresh_arr('merged')
        k = z3.Int('fr_k')
        st.assume(z3.ForAll([k], z3.Implies(z3.Or(k < r0.z, k >= r1.z), sel(na, k) == sel(old, k)), patterns=[sel(na, k)]), True)
        for f in placed(na, r0.z, M.a, a0.z, a1.z, M.b, b0.z, b1.z):
            st.assume(f, True)
        mr.fields[0] = (8, na)
        return [(st, None)]
    return SpecContract(title, lambda nm, d, b: b == 'parlay::internal::' + name, apply)

T_BS = 'binary_search(B, v, less): the number of leading elements before v'
def binary_search_contract():
    """first position of a sorted range not less than the value (units binary_search)"""
    def apply(ex, st, fname, args, rett):
        M = ex.merge
        s = ex.load(st, ('ptr',), args[0]); e = ex.load(st, ('ptr',), Ptr(args[0].rid, args[0].off + 8))
        if s.rid != M.B or e.rid != M.B or args[1].rid != M.A:
            raise Unsupported('binary search elsewhere')
        b0, b1, x = idx_of(s), idx_of(e), idx_of(args[1])
        ex.oblige(st, 'the searched range is part of B and the value an element of A', z3.And(0 <= b0.z, b0.z <= b1.z, b1.z <= M.m.z, 0 <= x.z, x.z < M.n.z), 'pre')
        ex.log_access(st, 'R', M.B, (b0, b1)); ex.log_access(st, 'R', M.A, (x, x + 1))
        r = ex.fresh_lin('bs', None, 0, MAXN)
        l = la(x.z)
        st.assume(z3.If(l <= b0.z, r.z == 0, z3.If(l >= b1.z, r.z == (b1 - b0).z, r.z == l - b0.z)))
        return [(st, r)]
    return SpecContract(T_BS, lambda nm, d, b: b == 'parlay::internal::binary_search', apply)

def merge_setup(ex, st, readonly=True):
    M = ex.merge = MergeSpec()
    M.n = size(ex, st); M.m = size(ex, st, 'm')
    st.assume((M.n + M.m).z < MAXN)
    M.A = ex.new_array(st, 'A', M.n); M.B = ex.new_array(st, 'B', M.m)
    if readonly:
        st.mem[M.A].readonly = st.mem[M.B].readonly = True
    M.a, M.b = arr(st, M.A), arr(st, M.B)
    ex.axioms += merge_axioms(M.a, M.n.z, M.b, M.m.z)
    return M
