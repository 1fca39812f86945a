from lib import *

Z = z3.IntVal(0)
fF = z3.Function('uf_f', I, I)
sel = z3.Select

def arr(st, rid):
    return st.mem[rid].fields[0][1]

def post(length, elem, more=None):
    """ghost call gh_out(p, m): length and every element"""
    def mk(ex, seen):
        def gout(ex, s, args):
            p, m = args
            seen.append(1)
            m = ex.as_lin(s, m, 64)
            ex.oblige(s, 'the result has the specified length', m.z == length.z, 'post')
            if p.rid is None:
                return None
            k = z3.Int('post_k')
            a = arr(s, p.rid)
            ex.oblige(s, 'every element is the specified function of the input', z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < length.z), sel(a, k) == elem(k))), 'post')
            if more:
                more(ex, s)
        return gout
    return mk

def go(ex, st, entry, args, length, elem, more=None, preds=None):
    seen = []
    ex.ghost_fns['gh_out'] = post(length, elem, more)(ex, seen)
    ps = preds or (lambda ctx, st, rid, fo: [('element', lambda v, a, k: sel(a, k) == elem(k))])
    ex.loop_cands.append(pointwise_loop(ps))
    ex.par_cands.append(pointwise_par(ps))
    ex.par_after.append(pointwise_after)
    ex.run_function(st, entry, args)
    if not seen:
        raise Unsupported('result not reached')

def counter(ex, st, n):
    C = ex.new_array(st, 'cnt', n, init=z3.K(I, z3.IntVal(0)))
    st.mem[C].opaque = False
    def more(ex, s):
        k = z3.Int('post_k')
        ex.oblige(s, 'the function was evaluated exactly once per element', z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n.z), sel(arr(s, C), k) == 1)), 'post')
    return C, more

def tab(entry, gran=False):
    def run(ex, st):
        n = size(ex, st)
        C, more = counter(ex, st, n)
        g = [ex.fresh_lin('gran', 64)] if gran else []
        ps = lambda ctx, st, rid, fo: [('element', lambda v, a, k: sel(a, k) == fF(k)), ('one', lambda v, a, k: sel(a, k) == 1)]
        go(ex, st, entry, [n, Ptr(C, 0)] + g, n, lambda k: fF(k), more, ps)
    return run

def run_map(ex, st):
    n = size(ex, st)
    A = ex.new_array(st, 'A', n)
    a0 = arr(st, A)
    C, more = counter(ex, st, n)
    go(ex, st, '@vc_map', [Ptr(A, 0), n, Ptr(C, 0)], n, lambda k: fF(sel(a0, k)), more)

def one(entry, elem, extra=lambda ex, st, n: [], ro=True):
    def run(ex, st):
        n = size(ex, st)
        A = ex.new_array(st, 'A', n)
        st.mem[A].readonly = ro
        a0 = arr(st, A)
        go(ex, st, entry, [Ptr(A, 0), n] + extra(ex, st, n), n, lambda k: elem(ex, a0, n, k))
    return run

def run_rotate(ex, st):
    n = size(ex, st)
    A = ex.new_array(st, 'A', n)
    st.mem[A].readonly = True
    a0 = arr(st, A)
    t = ex.fresh_lin('t', 64)
    st.assume(z3.And(t.z >= 0, t.z <= n.z))
    go(ex, st, '@vc_rotate', [Ptr(A, 0), n, t], n, lambda k: sel(a0, z3.If(k + t.z < n.z, k + t.z, k + t.z - n.z)))

def run_append(ex, st):
    n = size(ex, st); m = size(ex, st, 'm')
    st.assume(n.z + m.z < MAXN)
    A = ex.new_array(st, 'A', n); B_ = ex.new_array(st, 'B', m)
    a0, b0 = arr(st, A), arr(st, B_)
    st.mem[A].readonly = st.mem[B_].readonly = True
    go(ex, st, '@vc_append', [Ptr(A, 0), n, Ptr(B_, 0), m], n + m, lambda k: z3.If(k < n.z, sel(a0, k), sel(b0, k - n.z)))

def run_copy(ex, st):
    n = size(ex, st); m = size(ex, st, 'm')
    st.assume(n.z <= m.z)
    A = ex.new_array(st, 'A', n); B_ = ex.new_array(st, 'B', m)
    a0, b0 = arr(st, A), arr(st, B_)
    st.mem[A].readonly = True
    go(ex, st, '@vc_copy', [Ptr(A, 0), n, Ptr(B_, 0), m], m, lambda k: z3.If(k < n.z, sel(a0, k), sel(b0, k)))

def nullary(entry, elem, extra=lambda ex, st: []):
    def run(ex, st):
        n = size(ex, st)
        xs = extra(ex, st)
        go(ex, st, entry, [n] + xs, n, lambda k: elem(xs, k))
    return run

def run_iota(ex, st):
    n = size(ex, st)
    i = ex.fresh_lin('i', 64)
    st.assume(z3.And(i.z >= 0, i.z < n.z))
    want = [n, i]
    got = []
    def gv(ex, s, args):
        got.append(1)
        ex.oblige(s, 'iota: size and elements', ex.as_lin(s, args[0], 64).z == want[(len(got) - 1) % 2].z, 'post')
    ex.ghost_fns['gh_val'] = gv
    ex.run_function(st, '@vc_iota', [n, i])
    if len(got) != 2:
        raise Unsupported('result not reached')

U = lambda name, run, *fs: Unit(name, 'c21.cpp', '@vc_' + name, run, functions=list(fs), lemmas=euclid_lemma())
UNITS = [
    U('tabulate', tab('@vc_tabulate'), 'parlay::tabulate', 'internal::tabulate'),
    U('tabulate_gran', tab('@vc_tabulate_gran', True), 'internal::tabulate<T>(n, f, granularity)'),
    U('map', run_map, 'parlay::map'),
    U('copy', run_copy, 'parlay::copy'),
    U('reverse', one('@vc_reverse', lambda ex, a, n, k: sel(a, n.z - 1 - k)), 'parlay::reverse'),
    U('reverse_inplace', one('@vc_reverse_inplace', lambda ex, a, n, k: sel(a, n.z - 1 - k), ro=False), 'parlay::reverse_inplace'),
    U('rotate', run_rotate, 'parlay::rotate'),
    U('append', run_append, 'parlay::append'),
    U('to_sequence', one('@vc_to_sequence', lambda ex, a, n, k: sel(a, k)), 'parlay::to_sequence(slice)'),
    U('to_sequence_iota', nullary('@vc_to_sequence_iota', lambda xs, k: k), 'parlay::iota', 'parlay::to_sequence(delayed)'),
    U('iota', run_iota, 'parlay::iota'),
    U('delayed_tabulate', nullary('@vc_delayed_tabulate', lambda xs, k: fF(k)), 'parlay::delayed_tabulate'),
    U('delayed_map', one('@vc_delayed_map', lambda ex, a, n, k: fF(sel(a, k))), 'parlay::delayed_map'),
    U('seq_fill', nullary('@vc_seq_fill', lambda xs, k: xs[0].z, lambda ex, st: [ex.fresh_lin('v', 64)]), 'sequence(n, v)'),
    U('seq_zero', nullary('@vc_seq_zero', lambda xs, k: z3.IntVal(0)), 'sequence(n)'),
    U('seq_from_function', tab('@vc_seq_from_function'), 'sequence::from_function'),
    U('for_each', one('@vc_for_each', lambda ex, a, n, k: fF(sel(a, k)), ro=False), 'parlay::for_each'),
]
