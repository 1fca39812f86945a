"""C11: grouping by key"""
from c06 import *

KEY = z3.Function('key_of', I, I)
fF = z3.Function('uf_f', I, I)
G = z3.Function('combined', I, I, I)      # G(k, h): the combination, in order, of the values of the elements [0, h) with key k

def timer_contract():
    return SpecContract('internal::timer and its label: diagnostic only', lambda nm, d, b: 'parlay::internal::timer::' in d.split('(')[0] or b.startswith('std::__cxx11::basic_string')or d.startswith('std::allocator<char>::'), lambda ex, st, name, args, rett: [(st, None)], assumed=True)

def log_contract():
    def apply(ex, st, name, args, rett):
        r = ex.fresh_lin('log', None, 0, 64)
        x = ex.unsigned(st, ex.as_lin(st, args[0], 64), 64)
        st.assume(z3.Implies(x.z <= (1 << 63), r.z <= 63))
        return [(st, r)]
    return SpecContract('log2_up(x) is at most 64 (C16)', lambda nm, d, b: b == 'parlay::log2_up', apply)

def g_axioms(keyat, valat, comb, init):
    k, h, g = z3.Ints('g_k g_h g_g')
    return [z3.ForAll([k, h], z3.Implies(h == 0, G(k, h) == init), patterns=[G(k, h)]),
            z3.ForAll([k, h, g], z3.Implies(z3.And(h >= 0, g == h + 1), G(k, g) == z3.If(keyat(h) == k, comb(G(k, h), valat(h)), G(k, h))), patterns=[z3.MultiPattern(G(k, h), G(k, g))])]

def bucket_cands(nb):
    def gen(ctx):
        out = []
        rs = sorted({q[1] for q in ctx.mods if q[0] == 'a'}, key=str)
        iv = [(p, u) for p, u in enumerate(ctx.vars) if u.kind == 'int' and u.w == 64]
        k = z3.Int('bc_k')
        for r in rs:
            if ctx.st0.mem[r].kind != 'arr':
                continue
            for fo in ctx.st0.mem[r].fields:
                if ('a', r, fo) not in ctx.mods:
                    continue
                for p, u in iv:
                    def fn(x, w, r=r, fo=fo, p=p):
                        a = w.arr(r, fo)
                        e = sel(a, k)
                        if e.sort() == B:
                            e = z3.If(e, 1, 0)
                        return z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < nb.z), e == G(k, x[p].z)), patterns=[sel(a, k)])
                    out.append(('%s holds what was combined before %s' % (ctx.st0.mem[r].name, u.key), fn))
        return out
    return gen

def sums_unit(entry, mk, limit=None, n0=0):
    """mk(ex, st, n, nb) -> args, keyat, valat, comb, init"""
    def run(ex, st):
        n = size(ex, st, 'n', n0)
        if limit:
            st.assume(n.z < limit)
        nb = size(ex, st, 'nb', 1)
        st.assume(nb.z < (1 << 31))
        args, keyat, valat, comb, init = mk(ex, st, n, nb)
        ex.axioms += g_axioms(keyat, valat, comb, init) + mul_axioms()
        ps = lambda ctx, s, rid, fo: [('initial', lambda w, a, k: (sel(a, k) == init) if sel(a, k).sort() != B else (sel(a, k) == z3.BoolVal(False)))]
        ex.loop_cands += [bucket_cands(nb), pointwise_loop(ps)]
        ex.par_cands.append(pointwise_par(ps))
        ex.par_after.append(pointwise_after)
        seen = []
        def gout(ex, s, a):
            p, m = a
            seen.append(1)
            m = ex.as_lin(s, m, 64)
            ex.oblige(s, 'one entry per index', m.z == nb.z, 'post')
            if p.rid is None:
                return
            k = z3.Int('post_k')
            ex.oblige(s, 'every entry combines exactly the elements of its index, in order', z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < nb.z), sel(arr(s, p.rid), k) == G(k, n.z))), 'post')
        ex.ghost_fns['gh_out'] = gout
        ex.run_function(st, entry, args)
        if not seen:
            raise Unsupported('result not reached')
    return run

def keyed(ex, st, n, nb):
    A = ex.new_array(st, 'A', n)
    st.mem[A].readonly = True
    a = arr(st, A)
    idn = ex.fresh_lin('id', 64)
    e = z3.Int('key_e')
    ex.axioms.append(z3.ForAll([e], z3.And(0 <= KEY(e), KEY(e) < nb.z), patterns=[KEY(e)]))
    def gkey(ex, s, args):
        t = KEY(ex.as_lin(s, args[0], 64).z)
        ex.range[t.get_id()] = (0, MAXN, t)
        return Lin.atom(t)
    ex.ghost_fns['gh_key'] = gkey
    return [Ptr(A, 0), n, nb, idn], lambda h: KEY(sel(a, h)), lambda h: fF(sel(a, h)), lambda x, y: op(x, y), idn.z

def pairs(ex, st, n, nb):
    A = ex.new_array(st, 'A', n, 16, {0: 8, 8: 8})
    st.mem[A].readonly = True
    st.mem[A].opaque = False
    a, v = arr(st, A, 0), arr(st, A, 8)
    idn = ex.fresh_lin('id', 64)
    k = z3.Int('pk')
    st.assume(z3.ForAll([k], z3.And(0 <= sel(a, k), sel(a, k) < nb.z), patterns=[sel(a, k)]), True)
    return [Ptr(A, 0), n, nb, idn], lambda h: sel(a, h), lambda h: sel(v, h), lambda x, y: op(x, y), idn.z

def ints(ex, st, n, nb, flag=False):
    A = ex.new_array(st, 'A', n)
    st.mem[A].readonly = True
    st.mem[A].opaque = False
    a = arr(st, A, 0)
    k = z3.Int('pk')
    st.assume(z3.ForAll([k], z3.And(0 <= sel(a, k), sel(a, k) < nb.z), patterns=[sel(a, k)]), True)
    h = z3.Int('pk_h')
    ex.axioms.append(z3.ForAll([k, h], z3.Implies(h >= 0, z3.And(0 <= G(k, h), G(k, h) <= h)), patterns=[G(k, h)]))      # lemma below
    return [Ptr(A, 0), n, nb], lambda h: sel(a, h), lambda h: None, (lambda x, y: x + 1), z3.IntVal(0)

def count_lemma():
    def qs():
        a, b, h = z3.Ints('a b h'); c = z3.Bool('c')
        return [('base', [a == 0, h == 0], z3.And(0 <= a, a <= h)), ('step', [0 <= a, a <= h, b == z3.If(c, a + 1, a)], z3.And(0 <= b, b <= h + 1))]
    return [Lemma('a count is at most the number of elements counted', qs)]

EQ = z3.Function('equal', I, I, B)

def run_bucket(ex, st):
    got = []
    ex.ghost_fns['gh_val'] = lambda ex, s, a: got.append(ex.as_lin(s, a[0], 64).c)
    s = st.fork(); rid = ex.new_rid('obj'); s.mem[rid] = CellMem(4096, None, 'obj')
    ex.run_function(s, '@vc_gb_layout', [Ptr(rid, 0)])
    if len(got) != 7:
        raise Unsupported('layout')
    HASH = z3.Function('hash_of', I, I)
    nt = size(ex, st, 'slots', 1)
    nb = size(ex, st, 'nb', 2)
    hh = size(ex, st, 'heavy')
    st.assume(hh.z < nb.z); st.assume(hh.z < (1 << 31))
    T = ex.new_array(st, 'T', nt, got[5], {0: 8, got[6]: 4})
    st.mem[T].readonly = True; st.mem[T].opaque = False
    kk, ii = arr(st, T, 0), arr(st, T, got[6])
    G_ = ex.new_rid('get_bucket')
    st.mem[G_] = CellMem(got[4], None, 'get_bucket', readonly=True) if False else CellMem(got[4], None, 'get_bucket')
    c = st.mem[G_].cells
    c[got[1]] = (8, nt - Lin(1)); c[got[2]] = (8, nb - Lin(1)); c[got[3]] = (8, hh)
    next(x for x in ex.contracts if isinstance(x, Storage)).put(ex, st, Ptr(G_, got[0]), SeqVal(T, nt))
    k = z3.Int('tb_k')
    # what the constructor establishes: a slot is free (-1) or holds the number of a heavy key
    st.assume(z3.ForAll([k], z3.And(-1 <= sel(ii, k), sel(ii, k) < hh.z), patterns=[sel(ii, k)]), True)
    def gh(ex, s, a):
        t = HASH(ex.as_lin(s, a[0], 64).z)
        ex.range[t.get_id()] = (0, (1 << 64) - 1, t)
        return Lin.atom(t)
    ex.ghost_fns['gh_hash'] = gh
    ex.ghost_fns['gh_equal'] = lambda ex, s, a: ex.as_lin(s, EQ(ex.as_lin(s, a[0], 64).z, ex.as_lin(s, a[1], 64).z), 1)
    V = ex.new_array(st, 'V', Lin(1)); st.mem[V].readonly = True
    v = sel(arr(st, V), z3.IntVal(0))
    seen = []
    def done(ex, s, a):
        seen.append(1)
        r = ex.unsigned(s, ex.as_lin(s, a[0], 64), 64).z
        ex.oblige(s, 'the bucket exists', z3.And(0 <= r, r < nb.z), 'post')
        x = z3.Int('w_x')
        ex.oblige(s, 'a bucket reserved for a frequent key is only given to that key', z3.Implies(r < hh.z, z3.Exists([x], z3.And(0 <= x, x < nt.z, sel(ii, x) == r, EQ(sel(kk, x), fF(v))))), 'post')
    ex.ghost_fns['gh_bucket'] = done
    ex.run_function(st, '@vc_bucket', [Ptr(G_, 0), Ptr(V, 0)])
    if not seen:
        raise Unsupported('result not reached')

CT = lambda: [timer_contract(), log_contract()]
U = lambda nm, e, run, f, **k: Unit(nm, 'c11.cpp', '@' + e, run, functions=f, contracts=CT, **k)
UNITS = [
    U('get_bucket', 'vc_bucket', run_bucket, ['get_bucket::operator()']),
    U('seq_collect_reduce', 'vc_seq', sums_unit('@vc_seq', keyed), ['internal::seq_collect_reduce']),
    U('reduce_by_index', 'vc_reduce_by_index', sums_unit('@vc_reduce_by_index', pairs, 8192), ['reduce_by_index, internal::collect_reduce, internal::collect_reduce_few (fewer than CR_SEQ_THRESHOLD elements)']),
    U('histogram_by_index', 'vc_histogram', sums_unit('@vc_histogram', ints, 8192), ['histogram_by_index (fewer than CR_SEQ_THRESHOLD elements)'], lemmas=count_lemma()),
]
