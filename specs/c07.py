from search import *

pF = z3.Function('uf_p', I, B)
qF = z3.Function('uf_q', I, B)
p2 = z3.Function('uf_p2', I, I, B)

def all_from(lo, hi, P, name='af_k'):
    k = z3.Int(name)
    return z3.ForAll([k], z3.Implies(z3.And(lo <= k, k < hi), P(k)))

def first(ex, s, r, n, match, what='the result is the first match or the end'):
    r = ex.signed(s, r, 64)
    ex.oblige(s, 'the result is a position of the range or its end', z3.And(r.z >= 0, r.z <= n), 'post')
    ex.oblige(s, 'nothing before the result matches', all_from(0, r.z, lambda k: z3.Not(match(k))), 'post')
    ex.oblige(s, 'the result matches unless it is the end', z3.Implies(r.z < n, match(r.z)), 'post')

def check(ex, st, entry, args, fn, count=1, name='gh_val'):
    got = []
    def gv(ex, s, a):
        got.append(1)
        v = ex.as_lin(s, a[0], 64) if name == 'gh_val' else zb(ex.as_bool(s, a[0]))
        fn(ex, s, v, len(got))
    ex.ghost_fns[name] = gv
    ex.run_function(st, entry, args)
    if not got:
        raise Unsupported('result not reached')

def prefix_cands(match):
    """no match below the loop variable"""
    def gen(ctx):
        return [('no match below %s' % v.key, lambda x, w, a=a: all_from(0, x[a].z, lambda k: z3.Not(match(k)))) for a, v in enumerate(ctx.vars) if v.kind == 'int' and v.w == 64]
    return gen

def run_fii(gran):
    def run(ex, st):
        n = size(ex, st)
        ex.loop_cands.append(prefix_cands(lambda k: z3.And(k < n.z, qF(k))))
        ex.loop_cands.append(lambda ctx: [('at most twice %s <= %s' % (v.key, u.key), lambda x, w, a=a, b=b: x[a].z <= 2 * x[b].z) for a, v in enumerate(ctx.vars) for b, u in enumerate(ctx.vars)
                                          if a != b and v.kind == u.kind == 'int' and v.w == u.w == 64])
        ex.par_after.append(min_after)
        args = [n]
        if gran:
            g = ex.fresh_lin('g', 64); st.assume(z3.And(g.z >= 1, g.z < MAXN))
            args.append(g)
        check(ex, st, '@vc_find_if_index' + ('_gran' if gran else ''), args, lambda ex, s, r, c: first(ex, s, r, n.z, lambda k: qF(k)))
    return run

def one(entry, match, extra=False, specs=None, mk=None):
    def run(ex, st):
        n = size(ex, st)
        A = ex.new_array(st, 'A', n); st.mem[A].readonly = True
        a = arr(st, A)
        args = [Ptr(A, 0), n]
        v = None
        if extra:
            v = ex.fresh_lin('v', 64)
            args.append(v)
        check(ex, st, entry, args, lambda ex, s, r, c: first(ex, s, r, n.z, lambda k: match(a, k, v, n.z)))
    return run

def two(entry, fn, specs=lambda a, n, b, m: [], loops=None, kind='gh_val', pre=None):
    def run(ex, st):
        n = size(ex, st); m = size(ex, st, 'm')
        A = ex.new_array(st, 'A', n); B_ = ex.new_array(st, 'B', m)
        st.mem[A].readonly = st.mem[B_].readonly = True
        a, b = arr(st, A), arr(st, B_)
        if pre:
            pre(ex, st, n, m)
        ex.pred_specs = specs(a, n.z, b, m.z)
        if loops:
            ex.loop_cands.append(loops(A, a, b))
        check(ex, st, entry, [Ptr(A, 0), n, Ptr(B_, 0), m], lambda ex, s, r, c: fn(ex, s, r, a, n.z, b, m.z, c), name=kind)
    return run

def window_loop(A, a, b):
    """the pattern matched so far"""
    def gen(ctx):
        out = []
        inits = [v.init for v in ctx.vars]
        if any(v is None for v in inits):
            return out
        for rid, idx, at in ctx.reads:
            if rid != A:
                continue
            t0 = at(inits)
            for q, v in enumerate(ctx.vars):
                out.append(('window %s' % v.key, lambda x, w, at=at, t0=t0, q=q: all_from(0, x[q].z, lambda j: p2(sel(a, t0.z + j), sel(b, j)), 'wi_j')))
        return out
    return gen

def window(a, i, b, m):
    return all_from(0, m, lambda j: p2(sel(a, i + j), sel(b, j)), 'wi_j')

def run_find_end_post(ex, s, r, a, n, b, m, c):
    r = ex.signed(s, r, 64)
    ex.oblige(s, 'the result is a position of the range or its end', z3.And(r.z >= 0, r.z <= n), 'post')
    k = z3.Int('fe_k')
    ex.oblige(s, 'the result matches unless it is the end', z3.Implies(r.z < n, z3.And(m > 0, r.z + m <= n, window(a, r.z, b, m))), 'post')
    k = ex.fresh('any')        # an arbitrary position
    fi_instances(ex, s, [n - m - k])
    ex.oblige(s, 'no match after the result', z3.Implies(z3.And(m > 0, z3.If(r.z < n, r.z, -1) < k, 0 <= k, k + m <= n), z3.Not(window(a, k, b, m))), 'post')

def exists(lo, hi, P, name='ex_k'):
    k = z3.Int(name)
    return z3.Exists([k], z3.And(lo <= k, k < hi, P(k)))

def counting(entry, selp, post, kind='gh_val', extra=False):
    def run(ex, st):
        n = size(ex, st)
        A = ex.new_array(st, 'A', n); st.mem[A].readonly = True
        a = arr(st, A)
        v = ex.fresh_lin('v', 64) if extra else None
        sp = lambda k: selp(a, k, v)
        ex.axioms += count_axioms(sp) + mul_axioms()
        ex.loop_cands.append(count_loop_cands(lambda: [A]))
        ex.par_cands.append(count_par(lambda: A, sp, lambda k: k, None))
        ex.par_after.append(count_after(sp, lambda k: k))
        check(ex, st, entry, [Ptr(A, 0), n] + ([v] if extra else []), lambda ex, s, r, c: post(ex, s, r, n.z, sp), name=kind)
    return run

def reduce_counts_contract():
    """internal::reduce(sequence, plus): the sum (C05), used with the telescoping lemma"""
    def apply(ex, st, name, args, rett):
        o = Storage().get(ex, st, args[0])
        tot = ex.fresh_lin('total', 64)
        st.assume(z3.Implies(o.n.z == 0, tot.z == 0))
        if o.rid is None:
            return [(st, Lin(0))]
        s = arr(st, o.rid)
        l = o.n
        ex.log_access(st, 'R', o.rid, (Lin(0), l))
        for fo, b, n, hi in ex.__dict__.get('cnt_blocks', {}).get(o.rid, []):
            hy = [f for f, _ in st.pc]
            x = ex.fresh('sx')
            xb = nlmul(Lin.of(x), b)
            ok = ex.full_check(hy + [0 <= x, x < l.z], sel(s, x) == C(mn((xb + b).z, n.z)) - C(xb.z), 8000000)
            last = nlmul(l - 1, b)
            if ok and ex.full_check(hy + [l.z >= 1], z3.And(last.z <= n.z, b.z >= 0, n.z >= 0), 3000000):
                st.assume(tot.z == C(mn(nlmul(l, b).z, n.z)))
                break
        return [(st, tot)]
    return SpecContract('internal::reduce(sequence, plus) = sum (C05)', lambda n, d, b: b == 'parlay::internal::reduce' and 'reduce<parlay::sequence<unsigned long' in d and 'plus<unsigned long>' in d, apply)

def none_all(ex, s, r, n, sp, want):
    """count relations: n elements selected iff all selected, none iff none (lemmas over C)"""
    k = z3.Int('na_k')

FII = lambda: [find_if_index_contract()]
def U(name, run, *fs, con=FII, lem=()):
    return Unit(name, 'c07.cpp', '@vc_' + name, run, functions=list(fs), contracts=con, lemmas=list(lem))

m1 = lambda f: (lambda a, k, v, n: f(sel(a, k), v))
cnt_is = lambda ex, s, r, n, sp: ex.oblige(s, 'the result is the number of selected elements', r.z == C(n), 'post')
CL = count_lemmas()

def all_lemma():
    h, k = z3.Ints('lem_h lem_k')
    p = z3.Function('lem_p', I, B)
    d = lambda x: C(x + 1) == C(x) + z3.If(p(x), 1, 0)
    allp = lambda hh: z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < hh), p(k)))
    nonep = lambda hh: z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < hh), z3.Not(p(k))))
    def qs():
        return [('all base', [C(Z) == 0], (C(Z) == 0)), ('all step', [h >= 0, d(h), C(h) <= h, (C(h) == h) == allp(h)], (C(h + 1) == h + 1) == allp(h + 1)),
                ('none step', [h >= 0, d(h), C(h) >= 0, (C(h) == 0) == nonep(h)], (C(h + 1) == 0) == nonep(h + 1))]
    return [Lemma('count is full (empty) iff all (none) are selected', qs)]

def bool_post(f):
    def post(ex, s, r, n, sp):
        s.assume((C(n) == n) == all_from(0, n, sp), True)
        s.assume((C(n) == 0) == all_from(0, n, lambda k: z3.Not(sp(k))), True)
        ex.oblige(s, 'the answer is that of the definition', r == f(n, sp), 'post')
    return post

def bpost(spec):
    return lambda ex, s, r, a, n, b, m, c: ex.oblige(s, 'the answer is that of the definition', r == spec(a, n, b, m), 'post')

def lex_post(ex, s, r, a, n, b, m, c):
    # less is a strict weak order: less(x, y) <=> key(x) < key(y)
    k = z3.Int('lx_k'); j = z3.Int('lx_j')
    K = lambda arr_, i: key(sel(arr_, i))
    eq_to = lambda h: z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < h), K(a, j) == K(b, j)))
    spec = z3.Or(z3.Exists([k], z3.And(0 <= k, k < mn(n, m), eq_to(k), K(a, k) < K(b, k))), z3.And(n < m, eq_to(n)))
    ex.oblige(s, 'true answers are right', z3.Implies(r, spec), 'post')
    ex.oblige(s, 'false answers are right', z3.Implies(z3.Not(r), z3.Not(spec)), 'post')

def with_less(ex, st, n, m):
    ex.axioms += less_is_key()

def run_isu(ex, st):
    n = size(ex, st)
    A = ex.new_array(st, 'A', n); st.mem[A].readonly = True
    a = arr(st, A)
    ex.axioms += less_is_key()
    def fn(ex, s, r, c):
        r = ex.signed(s, r, 64)
        ex.oblige(s, 'is_sorted_until: position in the range', z3.And(0 <= r.z, r.z <= n.z, z3.Implies(n.z > 0, r.z > 0)), 'post')
        ex.oblige(s, 'the prefix is sorted', all_from(1, r.z, lambda k: z3.Not(less_f(sel(a, k), sel(a, k - 1)))), 'post')
        ex.oblige(s, 'a longer prefix is not', z3.Implies(r.z < n.z, less_f(sel(a, r.z), sel(a, r.z - 1))), 'post')
    check(ex, st, '@vc_is_sorted_until', [Ptr(A, 0), n], fn)

def run_part(ex, st):
    n = size(ex, st)
    A = ex.new_array(st, 'A', n); st.mem[A].readonly = True
    a = arr(st, A)
    k, j = z3.Ints('ip_k ip_j')
    bad = z3.Exists([k, j], z3.And(0 <= k, k < j, j < n.z, z3.Not(pF(sel(a, k))), pF(sel(a, j))))
    def fn(ex, s, r, c):
        k, j = ex.fresh('any'), ex.fresh('any')        # an arbitrary pair of positions
        logs = [l[1] for l in getattr(ex, 'fi_log', [])]
        fi_instances(ex, s, [k, j] + [x - f.z - e for f in logs for x in (k, j) for e in (0, 1)])
        ex.oblige(s, 'partitioned means no element that satisfies the predicate after one that does not',
                  z3.Implies(z3.And(r, 0 <= k, k < j, j < n.z, z3.Not(pF(sel(a, k)))), z3.Not(pF(sel(a, j)))), 'post')
        ex.oblige(s, 'not partitioned means there is one', z3.Implies(z3.Not(r), bad), 'post')
    check(ex, st, '@vc_is_partitioned', [Ptr(A, 0), n], fn, name='gh_bool')

UNITS = [
    U('find_if_index', run_fii(False), 'internal::find_if_index', con=lambda: [write_min_contract()]),
    U('find_if_index_gran', run_fii(True), 'internal::find_if_index (any granularity)', con=lambda: [write_min_contract()]),
    U('find_if', one('@vc_find_if', m1(lambda e, v: pF(e))), 'parlay::find_if'),
    U('find_if_not', one('@vc_find_if_not', m1(lambda e, v: z3.Not(pF(e)))), 'parlay::find_if_not'),
    U('find', one('@vc_find', m1(lambda e, v: e == v.z), True), 'parlay::find'),
    U('adjacent_find', one('@vc_adjacent_find', lambda a, k, v, n: z3.And(k + 1 < n, p2(sel(a, k), sel(a, k + 1)))), 'parlay::adjacent_find'),
    U('mismatch', two('@vc_mismatch', lambda ex, s, r, a, n, b, m, c: first(ex, s, r, mn(n, m), lambda k: z3.Not(p2(sel(a, k), sel(b, k))))), 'parlay::mismatch'),
    U('find_first_of', two('@vc_find_first_of', lambda ex, s, r, a, n, b, m, c: first(ex, s, r, n, lambda k: exists(0, m, lambda j: p2(sel(a, k), sel(b, j)))),
                           specs=lambda a, n, b, m: [lambda k: exists(0, m, lambda j: p2(sel(a, k), sel(b, j)))]), 'parlay::find_first_of'),
    U('search', two('@vc_search', lambda ex, s, r, a, n, b, m, c: first(ex, s, r, n, lambda k: z3.And(k + m <= n, window(a, k, b, m))),
                    specs=lambda a, n, b, m: [lambda k: z3.And(k + m <= n, window(a, k, b, m))], loops=window_loop), 'parlay::search'),
    U('find_end', two('@vc_find_end', run_find_end_post, specs=lambda a, n, b, m: [lambda k: window(a, n - m - k, b, m)], loops=window_loop), 'parlay::find_end'),
    U('equal', two('@vc_equal', bpost(lambda a, n, b, m: z3.And(n == m, all_from(0, n, lambda k: p2(sel(a, k), sel(b, k))))), kind='gh_bool'), 'parlay::equal'),
    U('lexicographical_compare', two('@vc_lexicographical_compare', lex_post, kind='gh_bool', pre=with_less), 'parlay::lexicographical_compare'),
    U('count_if', counting('@vc_count_if', lambda a, k, v: pF(sel(a, k)), cnt_is), 'parlay::count_if', 'internal::count_if_index', con=lambda: [reduce_counts_contract()], lem=CL),
    U('count', counting('@vc_count', lambda a, k, v: sel(a, k) == v.z, cnt_is, extra=True), 'parlay::count', con=lambda: [reduce_counts_contract()], lem=CL),
    U('all_of', counting('@vc_all_of', lambda a, k, v: pF(sel(a, k)), bool_post(lambda n, sp: all_from(0, n, sp)), 'gh_bool'), 'parlay::all_of', con=lambda: [reduce_counts_contract()], lem=CL + all_lemma()),
    U('any_of', counting('@vc_any_of', lambda a, k, v: pF(sel(a, k)), bool_post(lambda n, sp: z3.Not(all_from(0, n, lambda k: z3.Not(sp(k))))), 'gh_bool'), 'parlay::any_of', con=lambda: [reduce_counts_contract()], lem=CL + all_lemma()),
    U('none_of', counting('@vc_none_of', lambda a, k, v: pF(sel(a, k)), bool_post(lambda n, sp: all_from(0, n, lambda k: z3.Not(sp(k)))), 'gh_bool'), 'parlay::none_of', con=lambda: [reduce_counts_contract()], lem=CL + all_lemma()),
]
# used by C22
ORDER_UNITS = [
    Unit('is_sorted_until', 'c07.cpp', '@vc_is_sorted_until', run_isu, functions=['parlay::is_sorted_until'], contracts=FII),
    Unit('is_partitioned', 'c07.cpp', '@vc_is_partitioned', run_part, functions=['parlay::is_partitioned'], contracts=FII),
]
