"""C09: comparison sorts.  Elements are opaque to the code (it only compares and moves them), so an element is
represented by its starting position: the input holds 0, 1, ..., n-1 and the order of the elements is given by an
arbitrary key.  A result whose entries are distinct starting positions in range is a permutation of the input."""
from merge import *
from lib import mn
from c07 import all_from

k_, l_ = z3.Ints('so_k so_l')

def lex(x, y):
    """x before y in the stable order"""
    return z3.Or(key(x) < key(y), z3.And(key(x) == key(y), x < y))

def ident(a, lo, hi):
    return z3.ForAll([k_], z3.Implies(z3.And(lo <= k_, k_ < hi), sel(a, k_) == k_), patterns=[sel(a, k_)])
def inside(a, lo, hi, vlo, vhi):
    return z3.ForAll([k_], z3.Implies(z3.And(lo <= k_, k_ < hi), z3.And(vlo <= sel(a, k_), sel(a, k_) < vhi)), patterns=[sel(a, k_)])
def lexsorted(a, lo, hi):
    return z3.ForAll([k_, l_], z3.Implies(z3.And(lo <= k_, k_ < l_, l_ < hi), lex(sel(a, k_), sel(a, l_))), patterns=[z3.MultiPattern(sel(a, k_), sel(a, l_))])

def sort_post(ex, s, r, n):
    x, y = ex.fresh('any_k'), ex.fresh('any_l')
    R = lambda i: sel(r, i)
    ex.oblige(s, 'every element of the result is an element of the input', z3.Implies(z3.And(0 <= x, x < n.z), z3.And(0 <= R(x), R(x) < n.z)), 'post')
    ex.oblige(s, 'the result is ordered and stable (strictly increasing in key, then starting position: so also a permutation)',
              z3.Implies(z3.And(0 <= x, x < y, y < n.z), lex(R(x), R(y))), 'post')

def frame(ex, st, rid, lo, hi, name='sorted'):
    """forget [lo, hi) of an array, keep the rest"""
    mr = st.mw(rid)
    old = mr.fields[0][1]
    na = ex.fresh_arr(name)
    k = z3.Int('fr_k')
    st.assume(z3.ForAll([k], z3.Implies(z3.Or(k < lo.z, k >= hi.z), sel(na, k) == sel(old, k)), patterns=[sel(na, k)]), True)
    mr.fields[0] = (8, na)
    return old, na

def cands(A, n):
    """insertion: prefix sorted, the element on its way marked by its position"""
    def gen(ctx):
        out = []
        iv = [(p, u) for p, u in enumerate(ctx.vars) if u.kind == 'int' and u.w == 64]
        arr_ = lambda w: w.arr(A, 0)
        for p, u in iv:
            for off in (0, 1):
                out.append(('prefix sorted up to %s+%d' % (u.key, off), lambda X, w, p=p, off=off: lexsorted(arr_(w), z3.IntVal(0), mn(X[p].z + off, n.z))))
                out.append(('prefix ids up to %s+%d' % (u.key, off), lambda X, w, p=p, off=off: inside(arr_(w), 0, mn(X[p].z + off, n.z), 0, mn(X[p].z + off, n.z))))
                out.append(('untouched from %s+%d' % (u.key, off), lambda X, w, p=p, off=off: ident(arr_(w), X[p].z + off, n.z)))
        # inner loop: the element that started at i0 travels down and is now at T
        for p, u in iv:
            if u.init is None or u.init.is_const():
                continue
            for d in (-1, 0, 1):
                T = lambda X, p=p, d=d: X[p].z + d
                i0 = u.init.z + d
                lab = '*at %s%+d: ' % (u.key, d)
                out.append((lab + 'the element on its way', lambda X, w, T=T, i0=i0: z3.And(0 <= T(X), T(X) <= i0, i0 < n.z, sel(arr_(w), T(X)) == i0)))
                out.append((lab + 'the others are sorted', lambda X, w, T=T, i0=i0: z3.ForAll([k_, l_], z3.Implies(z3.And(0 <= k_, k_ < l_, l_ <= i0, k_ != T(X), l_ != T(X)),
                            lex(sel(arr_(w), k_), sel(arr_(w), l_))), patterns=[z3.MultiPattern(sel(arr_(w), k_), sel(arr_(w), l_))])))
                out.append((lab + 'passed elements are larger', lambda X, w, T=T, i0=i0: z3.ForAll([k_], z3.Implies(z3.And(T(X) < k_, k_ <= i0), key(i0) < key(sel(arr_(w), k_))), patterns=[sel(arr_(w), k_)])))
                out.append((lab + 'the others are earlier', lambda X, w, T=T, i0=i0: z3.ForAll([k_], z3.Implies(z3.And(0 <= k_, k_ <= i0, k_ != T(X)), z3.And(0 <= sel(arr_(w), k_), sel(arr_(w), k_) < i0)), patterns=[sel(arr_(w), k_)])))
                out.append((lab + 'later elements untouched', lambda X, w, i0=i0: ident(arr_(w), i0 + 1, n.z)))
        return out
    return gen

def setup(ex, st, A=None):
    n = size(ex, st)
    A = ex.new_array(st, 'A', n)
    a = arr(st, A)
    ex.axioms += less_is_key()
    st.assume(ident(a, z3.IntVal(0), n.z), True)
    return n, A, a

def run_insertion(ex, st):
    n, A, a = setup(ex, st)
    ex.loop_cands.append(cands(A, n))
    for s, _ in ex.run_function(st, '@vc_insertion_sort', [Ptr(A, 0), n]):
        sort_post(ex, s, arr(s, A), n)


# ---------------------------------------------------------------- contracts
def rng(ex, p, q):
    if p.rid is None or p.rid != q.rid:
        raise Unsupported('slice over two regions')
    return p.rid, idx_of(p), idx_of(q)

T_INS = 'insertion_sort(A, n): stable sort in place'
def insertion_contract():
    def apply(ex, st, fname, args, rett):
        A = args[0].rid; lo = idx_of(args[0]); n = ex.unsigned(st, ex.as_lin(st, args[1], 64), 64)
        sorted_in_place(ex, st, A, lo, lo + n)
        return [(st, None)]
    return SpecContract(T_INS, lambda nm, d, b: b == 'parlay::internal::insertion_sort', apply)

def sorted_in_place(ex, st, A, lo, hi):
    ex.oblige(st, 'the range to sort is inside the array', z3.And(0 <= lo.z, lo.z <= hi.z, hi.z <= st.mem[A].length.z), 'pre')
    ex.oblige(st, 'the range holds its own elements', ident(arr(st, A), lo.z, hi.z), 'pre')
    ex.log_access(st, 'R', A, (lo, hi)); ex.log_access(st, 'W', A, (lo, hi))
    old, na = frame(ex, st, A, lo, hi)
    st.assume(inside(na, lo.z, hi.z, lo.z, hi.z), True)
    st.assume(lexsorted(na, lo.z, hi.z), True)

def keysorted(a, lo, hi):
    return z3.ForAll([k_, l_], z3.Implies(z3.And(lo <= k_, k_ <= l_, l_ < hi), key(sel(a, k_)) <= key(sel(a, l_))), patterns=[z3.MultiPattern(sel(a, k_), sel(a, l_))])

T_MERGE_ANY = 'merge_into(A, B, R): the stable merge of the sorted ranges A and B is in R'
def merge_any_contract():
    """the contract of merge_into (proved by the units of C08) for ranges in any arrays"""
    def apply(ex, st, fname, args, rett):
        (ra, a0, a1), (rb, b0, b1), (rr, r0, r1) = slices6(ex, st, args)
        if ra is None or rb is None or rr is None:
            raise Unsupported('merge of no range')
        if rr in (ra, rb):
            raise Unsupported('merge into a source')
        n, m = a1 - a0, b1 - b0
        a, b = arr(st, ra), arr(st, rb)
        ex.oblige(st, 'merged ranges are inside their arrays', z3.And(0 <= a0.z, a0.z <= a1.z, a1.z <= st.mem[ra].length.z, 0 <= b0.z, b0.z <= b1.z, b1.z <= st.mem[rb].length.z), 'pre')
        ex.oblige(st, 'the destination has the total length', z3.And((r1 - r0).z == (n + m).z, 0 <= r0.z, r1.z <= st.mem[rr].length.z), 'pre')
        ex.oblige(st, 'the first merged range is sorted', keysorted(a, a0.z, a1.z), 'pre')
        ex.oblige(st, 'the second merged range is sorted', keysorted(b, b0.z, b1.z), 'pre')
        ex.log_access(st, 'R', ra, (a0, a1)); ex.log_access(st, 'R', rb, (b0, b1)); ex.log_access(st, 'W', rr, (r0, r1))
        old, R = frame(ex, st, rr, r0, r1, 'merged')
        N = ex.fresh_n; ex.fresh_n += 1
        la = z3.Function('la!%d' % N, I, I); ub = z3.Function('ub!%d' % N, I, I)
        fa_ = z3.Function('fromA!%d' % N, I, B); src = z3.Function('src!%d' % N, I, I)
        x, y, u = z3.Ints('ma_x ma_y ma_u')
        ina = lambda x: z3.And(0 <= x, x < n.z)
        inb = lambda y: z3.And(0 <= y, y < m.z)
        A_, B_ = (lambda x: sel(a, a0.z + x)), (lambda y: sel(b, b0.z + y))
        st.assume(z3.ForAll([x], z3.Implies(ina(x), z3.And(0 <= la(x), la(x) <= m.z)), patterns=[la(x)]), True)
        st.assume(z3.ForAll([y], z3.Implies(inb(y), z3.And(0 <= ub(y), ub(y) <= n.z)), patterns=[ub(y)]), True)
        st.assume(z3.ForAll([x, y], z3.Implies(z3.And(ina(x), inb(y)), z3.And((key(B_(y)) < key(A_(x))) == (y < la(x)), (y < la(x)) == (ub(y) <= x))),
                            patterns=[z3.MultiPattern(la(x), ub(y))]), True)
        st.assume(z3.ForAll([x, u], z3.Implies(z3.And(ina(x), x <= u, ina(u)), la(x) <= la(u)), patterns=[z3.MultiPattern(la(x), la(u))]), True)
        st.assume(z3.ForAll([y, u], z3.Implies(z3.And(inb(y), y <= u, inb(u)), ub(y) <= ub(u)), patterns=[z3.MultiPattern(ub(y), ub(u))]), True)
        # the places of A and B are distinct and as many as the places of the result, so every place k is one of them
        k = z3.Int('ma_k')
        K = k - r0.z
        st.assume(z3.ForAll([k], z3.Implies(z3.And(r0.z <= k, k < r1.z), z3.If(fa_(k),
                    z3.And(ina(src(k)), K == src(k) + la(src(k)), sel(R, k) == A_(src(k))),
                    z3.And(inb(src(k)), K == src(k) + ub(src(k)), sel(R, k) == B_(src(k))))), patterns=[sel(R, k)]), True)
        return [(st, None)]
    return SpecContract(T_MERGE_ANY, lambda nm, d, b: b == 'parlay::internal::merge_into', apply)

T_MS = 'merge_sort_(In, Out, f, inplace): the stable sort of In is in In (inplace) or in Out'
def merge_sort_contract():
    def apply(ex, st, fname, args, rett):
        A, lo, hi = rng(ex, args[0], args[1])
        Bo, bo, bh = rng(ex, args[2], args[3])
        if A == Bo:
            raise Unsupported('one array for both')
        inplace = zb(ex.as_bool(st, args[5])) if not isinstance(args[5], bool) else z3.BoolVal(args[5])
        ex.oblige(st, 'sorted ranges are inside their arrays', z3.And(0 <= lo.z, lo.z <= hi.z, hi.z <= st.mem[A].length.z, 0 <= bo.z, bh.z <= st.mem[Bo].length.z), 'pre')
        ex.oblige(st, 'both ranges have the same length', (hi - lo).z == (bh - bo).z, 'pre')
        ex.oblige(st, 'the range holds its own elements', ident(arr(st, A), lo.z, hi.z), 'pre')
        if getattr(ex, 'variant_n', None) is not None:
            ex.oblige(st, 'the recursive call sorts fewer elements', (hi - lo).z < ex.variant_n.z, 'decreases')
        for r, l, h in ((A, lo, hi), (Bo, bo, bh)):
            ex.log_access(st, 'R', r, (l, h)); ex.log_access(st, 'W', r, (l, h))
        out = []
        cases = [(True, st)] if z3.is_true(inplace) else [(False, st)] if z3.is_false(inplace) else [(True, st), (False, st.fork())]
        for c, s in cases:
            if len(cases) > 1:
                s.assume(inplace if c else z3.Not(inplace))
            o1, na = frame(ex, s, A, lo, hi); o2, nb = frame(ex, s, Bo, bo, bh)
            r, l, h = (na, lo, hi) if c else (nb, bo, bh)
            s.assume(inside(r, l.z, h.z, lo.z, hi.z), True)
            s.assume(lexsorted(r, l.z, h.z), True)
            out.append((s, None))
        return out
    return SpecContract(T_MS, lambda nm, d, b: b == 'parlay::internal::merge_sort_', apply)

def run_merge_sort_(ex, st):
    n, A, a = setup(ex, st)
    Bo = ex.new_array(st, 'B', n)
    ex.variant_n = n
    ip = ex.fresh_bool('inplace')
    ex.loop_cands.append(pointwise_loop(lambda ctx, st, rid, fo: [('copy', lambda w, a_, k, src=src: sel(a_, k) == sel(src, k)) for r, src in read_arrays(ctx)]))
    for s, _ in ex.run_function(st, '@vc_merge_sort_', [Ptr(A, 0), Ptr(Bo, 0), n, ip]):
        for c in (True, False):
            s2 = s.fork(); s2.assume(ip if c else z3.Not(ip))
            if ex.feasible(s2):
                sort_post(ex, s2, arr(s2, A if c else Bo), n)

def run_out(entry):
    def run(ex, st):
        n, A, a = setup(ex, st)
        seen = []
        def gout(ex, s, a):
            p, k = a
            seen.append(1)
            ex.oblige(s, 'the result has all elements', ex.as_lin(s, k, 64).z == n.z, 'post')
            if p.rid is not None:
                sort_post(ex, s, arr(s, p.rid), n)
        ex.ghost_fns['gh_out'] = gout
        preds = lambda ctx, s, rid, fo: [('copy', lambda w, a_, k: sel(a_, k) == sel(a, k))]
        ex.par_cands.append(pointwise_par(preds)); ex.par_after.append(pointwise_after); ex.loop_cands.append(pointwise_loop(preds))
        ex.run_function(st, entry, [Ptr(A, 0), n])
        if not seen:
            raise Unsupported('result not reached')
    return run

def run_inplace(entry):
    def run(ex, st):
        n, A, a = setup(ex, st)
        for s, _ in ex.run_function(st, entry, [Ptr(A, 0), n]):
            sort_post(ex, s, arr(s, A), n)
    return run

# ---------------------------------------------------------------- quicksort: not stable, so only a permutation in key order
def distinct(a, lo, hi):
    return z3.ForAll([k_, l_], z3.Implies(z3.And(lo <= k_, k_ < l_, l_ < hi), sel(a, k_) != sel(a, l_)), patterns=[z3.MultiPattern(sel(a, k_), sel(a, l_))])

def permuted(ex, st, A, lo, hi, name='perm'):
    """forget the order of [lo, hi): the elements are those that were there, each once"""
    ex.log_access(st, 'R', A, (lo, hi)); ex.log_access(st, 'W', A, (lo, hi))
    old, na = frame(ex, st, A, lo, hi, name)
    N = ex.fresh_n; ex.fresh_n += 1
    pi = z3.Function('pi!%d' % N, I, I); inv = z3.Function('piinv!%d' % N, I, I)
    k = z3.Int('pm_k')
    st.assume(z3.ForAll([k], z3.Implies(z3.And(lo.z <= k, k < hi.z), z3.And(lo.z <= pi(k), pi(k) < hi.z, sel(na, k) == sel(old, pi(k)), inv(pi(k)) == k)), patterns=[sel(na, k)]), True)
    return na

def in_bounds(ex, st, A, lo, hi, least=0):
    ex.oblige(st, 'the range to sort is inside the array', z3.And(0 <= lo.z, lo.z + least <= hi.z, hi.z <= st.mem[A].length.z), 'pre')

def inplace_contract(title, fn, post, least=0, dec=False):
    def apply(ex, st, fname, args, rett):
        A = args[0].rid; lo = idx_of(args[0]); n = ex.unsigned(st, ex.as_lin(st, args[1], 64), 64)
        in_bounds(ex, st, A, lo, lo + n, least)
        if dec and title in ex.opt.get('unfold', ()):
            ex.oblige(st, 'the recursive call sorts fewer elements', n.z < ex.variant_n.z, 'decreases')
        na = permuted(ex, st, A, lo, lo + n)
        return post(ex, st, na, lo, n, A, args) or [(st, None)]
    return SpecContract(title, lambda nm, d, b: b == 'parlay::internal::' + fn and 'slice' not in d.split('(')[-1], apply)

def p_sorted(ex, st, na, lo, n, A, args):
    st.assume(keysorted(na, lo.z, (lo + n).z), True)
def p_sort5(ex, st, na, lo, n, A, args):
    for i in range(4):
        st.assume(key(sel(na, lo.z + i)) <= key(sel(na, lo.z + i + 1)))
def p_split(ex, st, na, lo, n, A, args):
    raise Unsupported('split3 call convention')

T_QS = 'quicksort(A, n): A in key order'
T_QSS = 'quicksort_serial(A, n): A in key order'
T_INSQ = 'insertion_sort(A, n): A in key order (weaker than what the unit insertion_sort proves)'
T_SORT5 = 'sort5(A, n): some order of A in which the first five elements are sorted'
T_SPLIT = 'split3(A, n): A partitioned into less, middle, greater'
hash_contract = lambda: SpecContract('hash64(x): some 64 bit value', lambda nm, d, b: b == 'parlay::hash64', lambda ex, st, f, a, r: [(st, ex.fresh_lin('hash', 64))])
c_ins = lambda: inplace_contract(T_INSQ, 'insertion_sort', p_sorted)
c_qss = lambda: inplace_contract(T_QSS, 'quicksort_serial', p_sorted, dec=True)
c_qs = lambda: inplace_contract(T_QS, 'quicksort', p_sorted, dec=True)
c_sort5 = lambda: inplace_contract(T_SORT5, 'sort5', p_sort5, 5)

def parts(a, lo, L, M, hi):
    """nothing in an earlier part is greater than anything in a later part; A[L] starts the middle"""
    x, y = z3.Ints('pt_x pt_y')
    K = lambda i: key(sel(a, i))
    return z3.ForAll([x, y], z3.Implies(z3.And(lo <= x, y < hi, z3.Or(z3.And(x < L, L <= y), z3.And(x < M, M <= y), z3.And(x == L, L <= y))), K(x) <= K(y)), patterns=[z3.MultiPattern(sel(a, x), sel(a, y))])

def same_keys(a, lo, hi):
    x, y = z3.Ints('sk_x sk_y')
    return z3.ForAll([x, y], z3.Implies(z3.And(lo <= x, x < hi, lo <= y, y < hi), key(sel(a, x)) == key(sel(a, y))), patterns=[z3.MultiPattern(sel(a, x), sel(a, y))])

def split_contract():
    def apply(ex, st, fname, args, rett):
        # the tuple is returned through a pointer: (bool, M, L) in the order the standard library lays it out
        ret, A0, n = args[0], args[1], ex.unsigned(st, ex.as_lin(st, args[2], 64), 64)
        A = A0.rid; lo = idx_of(A0); hi = lo + n
        in_bounds(ex, st, A, lo, hi, 5)
        na = permuted(ex, st, A, lo, hi, 'split')
        L = ex.fresh_lin('L', None, 0, MAXN); M = ex.fresh_lin('M', None, 0, MAXN); eq = ex.fresh_bool('eq')
        st.assume(z3.And(lo.z <= L.z, L.z < M.z, M.z <= hi.z))
        st.assume(parts(na, lo.z, L.z, M.z, hi.z), True)
        st.assume(z3.Implies(eq, same_keys(na, L.z, M.z)), True)
        lay = (16, 8, 0)        # checked against the layout of std::tuple by the unit tuple_layout
        ex.store(st, ('ptr',), Ptr(A, L * 8), Ptr(ret.rid, ret.off + lay[0]))
        ex.store(st, ('ptr',), Ptr(A, M * 8), Ptr(ret.rid, ret.off + lay[1]))
        ex.store(st, ('i', 8), ex.as_lin(st, eq, 8), Ptr(ret.rid, ret.off + lay[2]))
        return [(st, None)]
    return SpecContract(T_SPLIT, lambda nm, d, b: b == 'parlay::internal::split3', apply)

def qs_post(ex, s, r, n, sorted_to=None):
    x, y = ex.fresh('any_k'), ex.fresh('any_l')
    R = lambda i: sel(r, i)
    ex.oblige(s, 'every element of the result is an element of the input', z3.Implies(z3.And(0 <= x, x < n.z), z3.And(0 <= R(x), R(x) < n.z)), 'post')
    ex.oblige(s, 'no element occurs twice', z3.Implies(z3.And(0 <= x, x < y, y < n.z), R(x) != R(y)), 'post')
    m = n.z if sorted_to is None else z3.IntVal(sorted_to)
    ex.oblige(s, 'the result is in key order', z3.Implies(z3.And(0 <= x, x < y, y < m), key(R(x)) <= key(R(y))), 'post')

def qcands(A, n):
    def gen(ctx):
        out = []
        ar = lambda w: w.arr(A, 0)
        out.append(('distinct', lambda X, w: distinct(ar(w), z3.IntVal(0), n.z)))
        out.append(('inside', lambda X, w: inside(ar(w), z3.IntVal(0), n.z, z3.IntVal(0), n.z)))
        for p, u in enumerate(ctx.vars):
            if u.kind == 'int' and u.w == 64:
                out.append(('sorted from ' + u.key, lambda X, w, p=p: keysorted(ar(w), X[p].z, n.z)))
                x, y = z3.Ints('qc_x qc_y')
                out.append(('split at ' + u.key, lambda X, w, p=p: z3.ForAll([x, y], z3.Implies(z3.And(0 <= x, x < X[p].z, X[p].z <= y, y < n.z), key(sel(ar(w), x)) <= key(sel(ar(w), y))),
                                                                           patterns=[z3.MultiPattern(sel(ar(w), x), sel(ar(w), y))])))
        ptrs = [(p, u) for p, u in enumerate(ctx.vars) if u.kind == 'ptr' and u.rid == A]
        K = lambda w, i: key(sel(ar(w), i))
        for c in (0, 1) if ptrs else ():
            out.append(('*pivot %d stays' % c, lambda X, w, c=c, a0=arr(ctx.st0, A): sel(ar(w), z3.IntVal(c)) == sel(a0, z3.IntVal(c))))
        for p, u in ptrs:
            for c in (1, 2, 3, 4):
                out.append(('%s >= %d' % (u.key, c), lambda X, w, p=p, c=c: X[p].z >= c))
            out.append(('below %s less' % u.key, lambda X, w, p=p: z3.ForAll([k_], z3.Implies(z3.And(2 <= k_, k_ < X[p].z), K(w, k_) < K(w, z3.IntVal(0))), patterns=[sel(ar(w), k_)])))
            for d in (0, 1):
                out.append(('above %s-%d greater' % (u.key, d), lambda X, w, p=p, d=d: z3.ForAll([k_], z3.Implies(z3.And(X[p].z - d < k_, k_ < n.z), K(w, z3.IntVal(1)) < K(w, k_)), patterns=[sel(ar(w), k_)])))
            out.append(('*at %s not greater' % u.key, lambda X, w, p=p: K(w, X[p].z) <= K(w, z3.IntVal(1))))
            for q, v in ptrs:
                if p != q:
                    out.append(('%s <= %s+1' % (u.key, v.key), lambda X, w, p=p, q=q: X[p].z <= X[q].z + 1))
                    out.append(('between %s and %s' % (u.key, v.key), lambda X, w, p=p, q=q: z3.ForAll([k_], z3.Implies(z3.And(X[p].z <= k_, k_ < X[q].z), z3.And(K(w, z3.IntVal(0)) <= K(w, k_), K(w, k_) <= K(w, z3.IntVal(1)))), patterns=[sel(ar(w), k_)])))
        return out
    return gen

def run_q(entry, sorted_to=None, least=0):
    def run(ex, st):
        n, A, a = setup(ex, st)
        if least:
            st.assume(n.z >= least)
        ex.variant_n = n
        ex.loop_cands.append(qcands(A, n))
        for s, _ in ex.run_function(st, entry, [Ptr(A, 0), n]):
            qs_post(ex, s, arr(s, A), n, sorted_to)
    return run

def run_split(ex, st):
    n, A, a = setup(ex, st)
    st.assume(n.z >= 5)
    ex.loop_cands.append(qcands(A, n))
    vals = []
    def gval(ex, s, a):
        s.ghost = dict(s.ghost); k = 'L' if 'L' not in s.ghost else 'M'; s.ghost[k] = ex.signed(s, ex.as_lin(s, a[0], 64), 64)
    def gbool(ex, s, a):
        L, M = s.ghost['L'], s.ghost['M']
        r = arr(s, A)
        x, y = ex.fresh('any_x'), ex.fresh('any_y')
        K = lambda i: key(sel(r, i))
        vals.append(1)
        eq = ex.as_bool(s, a[0])
        ex.oblige(s, 'the parts are inside the range, the middle is not empty', z3.And(0 <= L.z, L.z < M.z, M.z <= n.z), 'post')
        ex.oblige(s, 'every element of the result is an element of the input', z3.Implies(z3.And(0 <= x, x < n.z), z3.And(0 <= sel(r, x), sel(r, x) < n.z)), 'post')
        ex.oblige(s, 'no element occurs twice', z3.Implies(z3.And(0 <= x, x < y, y < n.z), sel(r, x) != sel(r, y)), 'post')
        for lab, c in (('the left part is not greater than the rest', z3.And(0 <= x, x < L.z, L.z <= y, y < n.z)), ('the right part is not less than the rest', z3.And(0 <= x, x < M.z, M.z <= y, y < n.z)),
                       ('the first pivot starts the middle', z3.And(x == L.z, x <= y, y < n.z))):
            ex.oblige(s, lab, z3.Implies(c, K(x) <= K(y)), 'post')
        ex.oblige(s, 'equal pivots: the middle is all equal', z3.Implies(z3.And(zb(eq), L.z <= x, x < M.z, L.z <= y, y < M.z), K(x) == K(y)), 'post')
    ex.ghost_fns['gh_val'] = gval
    ex.ghost_fns['gh_bool'] = gbool
    ex.run_function(st, '@vc_split3', [Ptr(A, 0), n])
    if not vals:
        raise Unsupported('result not reached')

def run_tuple(ex, st):
    seen = []
    def gval(ex, s, a):
        s.ghost = dict(s.ghost); seen.append(1)
        k = s.ghost.get('n', 0); s.ghost['n'] = k + 1
        ex.oblige(s, 'element %d of the tuple is where the contract of split3 stores it' % k, ex.as_lin(s, a[0], 64).z == (16, 8, 0)[k], 'post')
    ex.ghost_fns['gh_val'] = gval
    ex.run_function(st, '@vc_tuple_layout', [])
    if len(seen) < 3:
        raise Unsupported('layout')

CQ = lambda: [c_ins(), c_sort5(), split_contract(), c_qss(), c_qs(), hash_contract()]
CS = lambda: [insertion_contract(), merge_any_contract(), merge_sort_contract()]
UNITS = [
    Unit('insertion_sort', 'c09.cpp', '@vc_insertion_sort', run_insertion, functions=['internal::insertion_sort']),
    Unit('merge_sort_', 'c09.cpp', '@vc_merge_sort_', run_merge_sort_, functions=['internal::merge_sort_'], contracts=CS, options={'unfold': (T_MS,)}, lemmas=merge_lemmas()),
    Unit('merge_sort_inplace', 'c09.cpp', '@vc_merge_sort_inplace', run_inplace('@vc_merge_sort_inplace'), functions=['internal::merge_sort_inplace'], contracts=CS),
    Unit('merge_sort', 'c09.cpp', '@vc_merge_sort', run_out('@vc_merge_sort'), functions=['internal::merge_sort'], contracts=CS),
    Unit('stable_sort_inplace', 'c09.cpp', '@vc_stable_sort_inplace', run_inplace('@vc_stable_sort_inplace'), functions=['parlay::stable_sort_inplace'], contracts=CS),
    Unit('tuple_layout', 'c09.cpp', '@vc_tuple_layout', run_tuple, functions=[]),
    Unit('sort5', 'c09.cpp', '@vc_sort5', run_q('@vc_sort5', 5, 5), functions=['internal::sort5'], contracts=CQ, options={'unfold': (T_SORT5,)}),
    Unit('split3', 'c09.cpp', '@vc_split3', run_split, functions=['internal::split3'], contracts=CQ, options={'unfold': (T_SPLIT,)}),
    Unit('quicksort_serial', 'c09.cpp', '@vc_quicksort_serial', run_q('@vc_quicksort_serial'), functions=['internal::quicksort_serial'], contracts=CQ, options={'unfold': (T_QSS,)}),
    Unit('quicksort', 'c09.cpp', '@vc_quicksort', run_q('@vc_quicksort'), functions=['internal::quicksort'], contracts=CQ, options={'unfold': (T_QS,)}),
]
