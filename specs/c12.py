"""C12: delayed sequences have the elements of their eager equivalents"""
from c05 import *
from c21 import fF, post

sel = z3.Select

def scan_contract():
    """internal::scan_inplace(slice, m) = exclusive prefix folds and the total (C05)"""
    def apply(ex, st, name, args, rett):
        p, e = args[0], args[1]
        if not (isinstance(p, Ptr) and p.rid in st.mem and st.mem[p.rid].kind == 'arr' and p.off.is_const() and p.off.c == 0):
            raise Unsupported('scan_inplace argument')
        rid = p.rid
        l = (e.off - p.off).div_exact(8)[0]
        check_identity(ex, st, args[2])
        a = st.mem[rid].fields[0][1]
        ex.log_access(st, 'W', rid, (Lin(0), l))
        m = st.mw(rid)
        na = ex.fresh_arr('scanned')
        m.fields[0] = (8, na)
        k = z3.Int('sc_k')
        st.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < l.z), sel(na, k) == fold(a, Z, k)), patterns=[sel(na, k)]), True)
        t = fold(a, Z, l.z)
        ex.range[t.get_id()] = (0, (1 << 64) - 1, t)
        ex.scanned = (na, a, l)
        return [(st, Lin.atom(t))]
    return SpecContract('internal::scan_inplace(slice, m) = exclusive prefix folds (C05)', lambda n, d, b: b == 'parlay::internal::scan_inplace', apply)

def slice_args(ex, st, args):
    """a slice passed by value (two pointers) or by reference"""
    p = args[0]
    if isinstance(p, Ptr) and p.rid in st.mem and st.mem[p.rid].kind == 'cell':
        b = ex.load(st, ('ptr',), p); e = ex.load(st, ('ptr',), Ptr(p.rid, p.off + 8))
        return b, e, args[1:]
    return args[0], args[1], args[2:]

def check_identity(ex, st, idc):
    if isinstance(idc, Ptr):
        m = st.mem[idc.rid]
        # the monoid object holds the operation (possibly by reference) and its identity
        vals = [v for o, (s, v) in sorted(m.cells.items()) if isinstance(v, Lin)]
        ex.oblige(st, 'called with the identity of the operation', z3.Or(*[v.z == ex.idn.z for v in vals]) if vals else z3.BoolVal(False), 'pre')

def reduce_slice_contract():
    """internal::reduce(slice, m) = fold (C05)"""
    def apply(ex, st, name, args, rett):
        p, e, rest = slice_args(ex, st, args)
        if p.rid is None:
            return [(st, ex.idn)]
        if not (isinstance(p, Ptr) and isinstance(e, Ptr) and p.rid == e.rid and p.rid in st.mem and st.mem[p.rid].kind == 'arr'):
            raise Unsupported('reduce argument')
        lo = p.off.div_exact(8)[0]; hi = e.off.div_exact(8)[0]
        check_identity(ex, st, rest[0])
        ex.oblige(st, 'the range reduced lies in the array', z3.And(0 <= lo.z, lo.z <= hi.z, hi.z <= st.mem[p.rid].length.z), 'pre')
        a = st.mem[p.rid].fields[0][1]
        ex.log_access(st, 'R', p.rid, (lo, hi - lo))
        t = fold(a, lo.z, hi.z)
        ex.range[t.get_id()] = (0, (1 << 64) - 1, t)
        return [(st, Lin.atom(t))]
    return SpecContract('internal::reduce(slice, m) = fold (C05)', lambda n, d, b: b == 'parlay::internal::reduce' and 'reduce<parlay::slice<unsigned long' in d, apply)

def unit(entry, elem, length=None, arrays=1, ident=False, total=False, ret=False, folds=False, ro=True, extra=lambda ex, st: []):
    def run(ex, st):
        n = size(ex, st)
        ns = [n]; ex.spec_n = n
        A = ex.new_array(st, 'A', n); st.mem[A].readonly = ro
        arrs = [st.mem[A].fields[0][1]]
        rids = [A]
        args = [Ptr(A, 0), n]
        if arrays == 2:
            m = size(ex, st, 'm'); ns.append(m)
            B_ = ex.new_array(st, 'B', m); st.mem[B_].readonly = True
            arrs.append(st.mem[B_].fields[0][1]); rids.append(B_)
            args += [Ptr(B_, 0), m]
        el = lambda k: elem(*arrs, k)
        if folds:
            idn = ex.fresh_lin('id', 64); ex.idn = idn; args.append(idn)
            ex.axioms += fold_axioms(idn.z) + mul_axioms()
            G = arrs[0]
            if folds != True:                 # the fold runs over mapped elements
                k = z3.Int('g_k')
                G = z3.Const('mapped', AI)
                ex.axioms.append(z3.ForAll([k], sel(G, k) == folds(arrs[0], k), patterns=[sel(G, k)]))
                ex.axioms.append(z3.ForAll([k], sel(G, k) == folds(arrs[0], k), patterns=[sel(arrs[0], k)]))
            ex.spec_arrays = [(A, G)]
            el = lambda k: elem(G, k)
            ex.loop_cands.append(fold_loop_cands(lambda: ex.spec_arrays))
            ex.loop_cands.append(prefix_loop(lambda: ex.spec_arrays))
            ex.par_cands.append(block_fold_cands(lambda: ex.spec_arrays))
            ex.par_cands.append(first_of_block(A, G))
            ex.par_after.append(block_fold_after)
        L = length(*ns) if length else n.z
        ps = lambda ctx, s, rid, fo: [('element', lambda w, a, k: sel(a, k) == el(k))] + ([('copy', lambda w, a, k: sel(a, k) == sel(arrs[0], k))] if not folds else [])
        ex.loop_cands.append(pointwise_loop(ps)); ex.par_cands.append(pointwise_par(ps)); ex.par_after.append(pointwise_after)
        seen = []
        def gout(ex, s, a):
            p, m = a
            seen.append(1)
            m = ex.as_lin(s, m, 64)
            ex.oblige(s, 'the result has the specified length', m.z == L, 'post')
            if p.rid is None:
                return
            x = ex.fresh('px')
            ex.oblige(s, 'every element is the specified one', z3.Implies(z3.And(0 <= x, x < L), sel(s.mem[p.rid].fields[0][1], x) == el(x)), 'post')
        def gval(ex, s, a):
            seen.append(2)
            ex.oblige(s, 'the total is the fold of the input', ex.as_lin(s, a[0], 64).z == fold(ex.spec_arrays[0][1], Z, n.z), 'post')
        ex.ghost_fns['gh_out'] = gout
        ex.ghost_fns['gh_val'] = gval
        for s, v in ex.run_function(st, entry, args):
            if ret:
                seen.append(1)
                ex.oblige(s, 'reduce returns the fold of the elements', ex.as_lin(s, v, 64).z == fold(ex.spec_arrays[0][1], Z, n.z), 'post')
        if 1 not in seen or (total and 2 not in seen):
            raise Unsupported('result not reached')
    return run

def prefix_loop(arrays):
    """an accumulator holds the fold of everything before (or up to) the element read next"""
    def gen(ctx):
        out = []
        if any(v.init is None for v in ctx.vars):
            return out
        for A, a in arrays():
            for rid, idx, at in [r for r in ctx.reads if r[0] == A][:3]:
                for n, v in value_vars(ctx):
                    if ctx.steps.get(v.key) and None not in ctx.steps[v.key]:
                        continue
                    for dd in (1, 0):
                        out.append(('*prefixc%d(%s) at %s' % (dd, v.key, idx), lambda x, w, n=n, at=at, a=a, dd=dd: z3.And(z3.Implies(at(x).z + dd <= w.ex.spec_n.z, x[n].z == fold(a, Z, at(x).z + dd)), z3.Implies(at(x).z + dd >= w.ex.spec_n.z, x[n].z == fold(a, Z, w.ex.spec_n.z)))))
                    for dd in (0, 1, -1):
                        out.append(('*prefix%d(%s) at %s' % (dd, v.key, idx), lambda x, w, n=n, at=at, a=a, dd=dd: x[n].z == fold(a, Z, at(x).z + dd)))
        return out
    return gen

def first_of_block(A, a):
    def gen(ctx):
        out = []
        for (rid, fo), na in ctx.post.items():
            lab, W, terms = ctx.foot[rid]
            if lab != 'exact' or ctx.pre.mem[rid].fields[fo][0] != 8 or not (len(terms) == 1 and terms[0][0].same(ctx.il)):
                continue
            out.append(('incl %s' % rid, lambda w, x, rid=rid, fo=fo: sel(w.arr(rid, fo), x) == fold(a, Z, Lin.of(x).scale(2000).z + 1)))
        return out
    return gen

LEMS = lambda: LEM() + fold_frame_lemma()
def U(name, elem, fs=(), **k):
    return Unit(name, 'c12.cpp', '@vc_' + name, unit('@vc_' + name, elem, **k), functions=list(fs), contracts=lambda: [reduce_contract(), reduce_slice_contract(), scan_contract()], lemmas=LEMS())

D = 'internal::delayed::'
ident = lambda a, k: sel(a, k)
fmap = lambda a, k: fF(sel(a, k))
pre = lambda a, k: fold(a, Z, k)
inc = lambda a, k: fold(a, Z, k + 1)
zipf = lambda a, b, k: op(sel(a, k), sel(b, k))
mlen = lambda n, m: mn(n.z, m.z)
UNITS = [
    U('to_sequence', ident, [D + 'to_sequence']),
    U('reduce', ident, [D + 'reduce'], folds=True, ret=True),
    U('for_each', fmap, [D + 'for_each'], ro=False),
    U('apply', fmap, [D + 'apply'], ro=False),
    U('for_each_ra', fmap, [D + 'for_each(random access)'], ro=False),
    U('reduce_ra', ident, [D + 'reduce(random access)'], folds=True, ret=True),
    U('map', fmap, [D + 'map', D + 'block_delayed_map_t']),
    U('map_lvalue', fmap, [D + 'map']),
    U('map_ra', fmap, [D + 'map(random access)']),
    U('map_map', lambda a, k: fF(fF(sel(a, k))), [D + 'map']),
    U('scan', pre, [D + 'scan', D + 'block_delayed_scan_t'], folds=True, total=True),
    U('scan_bv', pre, [D + 'scan'], folds=True, total=True),
    U('scan_inclusive', inc, [D + 'scan_inclusive'], folds=True),
    U('scan_inclusive_bv', inc, [D + 'scan_inclusive'], folds=True),
    U('scan_map', lambda a, k: fF(fold(a, Z, k)), [D + 'scan', D + 'map'], folds=True, total=True),
    U('reduce_map', ident, [D + 'reduce', D + 'map'], folds=lambda a, k: fF(sel(a, k)), ret=True),
    U('zip_bv', zipf, [D + 'zip', D + 'block_delayed_zip_t'], arrays=2, length=mlen),
    U('zip_ra', zipf, [D + 'zip(random access)'], arrays=2, length=mlen),
    U('enumerate', lambda a, k: op(k, sel(a, k)), [D + 'enumerate']),
]
