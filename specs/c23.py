"""C23: write_min, write_max, write_add under arbitrary interference.

Rely/guarantee contract: between any two steps of the call other threads may change the cell, but (write_min,
write_max) only to better values, which is what the guarantee proved here allows each of them.  The guarantee of one
call is: every successful compare-exchange installs the argument in place of a strictly worse value, it happens at
most once, success is reported exactly when it happened, and on return the cell is at least as good as the argument.
The final value then is the extreme of all values by the history lemma (induction over the successful updates)."""
from bvlib import *

def cell_setup(ex, st, w, rely, fp=False):
    C = ex.region(st, 'cell', w // 8, {})
    v0 = ex.fresh('init', w) if not fp else z3.fpToIEEEBV(ex.fresh_fp('init', w))
    st.mem[C].cells[0] = (w // 8, v0)
    st.ghost['count'] = z3.BitVecVal(0, 8)
    def interfere(ex, s, p, size):
        if p.rid != C:
            return
        old = s.mem[C].cells[0][1]
        new = ex.fresh('other', w)
        s.assume(rely(old, new))
        s.mw(C).cells[0] = (size, new)
    ex.interfere = interfere
    return C

def cur(s, C):
    return s.mem[C].cells[0][1]

def locals_of(C, st, phis, w):
    """loop variables and local memory of w bits"""
    out = []
    for name, v in phis:
        if z3.is_fp(v) or (z3.is_bv(v) and v.size() == w):
            out.append((name, lambda s, vals, name=name: vals[name]))
    for rid, m in st.mem.items():
        if rid != C and m.arr is None and not m.readonly:
            for o, (sz, v) in m.cells.items():
                if sz * 8 == max(w, 8) and (z3.is_fp(v) or z3.is_bv(v)):
                    def get(s, vals, rid=rid, o=o):
                        x = s.mem[rid].cells[o][1]
                        if not isinstance(x, z3.ExprRef):
                            raise KeyError(o)
                        return x if z3.is_fp(x) or x.size() == w else z3.Extract(w - 1, 0, x)
                    out.append(('%s+%d' % (m.name if hasattr(m, 'name') else rid, o), get))
    return out

def count_cands(C, st, phis):
    n = lambda s: s.ghost['count']
    out = [('no update yet', lambda s, vals: n(s) == 0), ('at most one update', lambda s, vals: z3.ULE(n(s), z3.BitVecVal(1, 8)))]
    for lab, get in locals_of(C, st, phis, 8) + locals_of(C, st, phis, 1):
        out.append(('%s tells whether it was updated' % lab, lambda s, vals, get=get: (get(s, vals) != 0) == (n(s) == 1)))
        out.append(('%s tells whether it was not updated' % lab, lambda s, vals, get=get: (get(s, vals) == 0) == (n(s) == 1)))
    return out

def run_ext(entry, w, sign, fp=False):
    """sign: better(x, y): x is strictly better than y"""
    def r(ex, st):
        key = z3.Function('key%d' % w, z3.BitVecSort(w), z3.BitVecSort(64))
        ex.ufs['uf_less%d' % w] = lambda a, b: b2i(z3.ULT(key(a), key(b)))
        if fp:
            F = lambda x: tofp(x, 64)
            less = lambda x, y: z3.fpLT(F(x), F(y))
        else:
            less = lambda x, y: z3.ULT(key(x), key(y))
        better = less if sign == 'min' else (lambda x, y: less(y, x))
        C = cell_setup(ex, st, w, lambda o, n: z3.Or(n == o, better(n, o)), fp)
        b = ex.fresh('arg', w)
        bvals = b
        if fp:
            bf = ex.fresh_fp('arg', 64)
            st.assume(z3.Not(z3.fpIsNaN(bf)))
            st.assume(z3.Not(z3.fpIsNaN(F(st.mem[C].cells[0][1]))))
            b, bvals = z3.fpToIEEEBV(bf), bf
            st.assume(z3.fpBVToFP(b, FS[64]) == bf)
        def cas(ex, s, a):
            p, old, new = a
            if p.rid != C:
                return
            n, o = (ex.bits(s, x) if z3.is_fp(x) else x for x in (new, old))
            ex.oblige(s, 'only the argument is written', (F(n) == F(b)) if fp else (n == b), 'post')
            ex.oblige(s, 'a better value is never overwritten', better(n, o), 'post')
            s.ghost['count'] = s.ghost['count'] + z3.BitVecVal(1, 8)
        ex.ghost_fns['cas'] = cas
        def num(v):
            return z3.fpToIEEEBV(v) if z3.is_fp(v) else v
        def loop_cands(ex, st, phis, env):
            out = count_cands(C, st, phis)
            out.append(('one update at most leaves the cell as good as the argument', lambda s, vals: z3.Implies(s.ghost['count'] == 1, z3.Not(better(b, cur(s, C))))))
            if fp:
                out.append(('value is a number', lambda s, vals: z3.Not(z3.fpIsNaN(F(cur(s, C))))))
            for lab, get in locals_of(C, st, phis, w):
                out.append(('%s is a value seen earlier' % lab, lambda s, vals, get=get: z3.Not(better(num(get(s, vals)), cur(s, C)))))
                if fp:
                    out.append(('%s is a number' % lab, lambda s, vals, get=get: z3.Not(z3.fpIsNaN(F(num(get(s, vals)))))))
            return out
        ex.loop_cands = loop_cands
        done = []
        def gh(ex, s, a):
            done.append(1)
            ok = i2b(ex.toint(s, a[0], 1))
            ex.oblige(s, 'success is reported exactly when the value was changed', ok == (s.ghost['count'] == 1), 'post')
            ex.oblige(s, 'at most one update', z3.ULE(s.ghost['count'], z3.BitVecVal(1, 8)), 'post')
            ex.oblige(s, 'on return the cell is at least as good as the argument', z3.Not(better(b, cur(s, C))), 'post')
        ex.ghost_fns['gh_done'] = gh
        ex.run_function(st, '@' + entry, [P(C, 0), bvals])
        need(done)
    return r

def run_add(entry, w, bw=None, fp=False):
    def r(ex, st):
        C = cell_setup(ex, st, w, lambda o, n: z3.BoolVal(True), fp)
        F = lambda x: tofp(x, 64)
        if fp:
            b = ex.fresh_fp('arg', 64)
            st.assume(z3.Not(z3.fpIsNaN(b)))
        else:
            b = ex.fresh('arg', bw or w)
        arg = b if fp or not bw else z3.ZeroExt(w - bw, b)
        def cas(ex, s, a):
            p, old, new = a
            if p.rid != C:
                return
            if fp:
                n, o = (x if z3.is_fp(x) else F(x) for x in (new, old))
                r = z3.fpAdd(RM, o, b)
                ex.oblige(s, 'the update adds the argument to the value it replaces', z3.Or(n == r, z3.And(z3.fpIsNaN(n), z3.fpIsNaN(r))), 'post')
            else:
                ex.oblige(s, 'the update adds the argument to the value it replaces', new == old + arg, 'post')
            s.ghost['count'] = s.ghost['count'] + z3.BitVecVal(1, 8)
        ex.ghost_fns['cas'] = cas
        ex.loop_cands = lambda ex, st, phis, env: count_cands(C, st, phis)
        done = []
        def gh(ex, s, a):
            done.append(1)
            ex.oblige(s, 'exactly one update', s.ghost['count'] == 1, 'post')
        ex.ghost_fns['gh_added'] = gh
        ex.run_function(st, '@' + entry, [P(C, 0), b])
        need(done)
    return r

def history():
    """H: successful updates v0 -> v1 -> ... each to a strictly better argument; every finished call left the cell at
    least as good as its argument.  Then the cell is an argument (or the initial value) and at least as good as all."""
    K = z3.Function('key', z3.IntSort(), z3.IntSort())
    v, a, x, i = z3.Ints('v a x i')
    A = z3.Function('arg', z3.IntSort(), z3.BoolSort())       # values given to some call, or the initial value
    q = []
    q.append(('an update keeps: the cell holds an argument or the initial value', [A(v), A(a), K(a) < K(v)], z3.And(A(a))))
    q.append(('an update keeps: the cell is at least as good as the argument of every finished call', [K(v) <= K(x), K(a) < K(v)], K(a) <= K(x)))
    q.append(('a call that returns without an update keeps the history, its argument is no better than the cell', [z3.Not(K(a) < K(v))], K(v) <= K(a)))
    s, t, d = z3.Ints('s t d')
    q.append(('an addition keeps: the cell is the initial value plus the finished and performed arguments', [v == i + s], v + d == i + (s + d)))
    return q

def U(name, entry, run, fn, lem=()):
    return BVUnit(name, 'c23.cpp', '@' + entry, run, functions=[fn], options={'cut': ['parlay::write_'], 'signed_overflow': False}, lemmas=lem)

LEM = [Lemma('history of updates', history)]
UNITS = [
    U('write_min_u64', 'vc_min64', run_ext('vc_min64', 64, 'min'), 'parlay::write_min<unsigned long>', LEM),
    U('write_max_u64', 'vc_max64', run_ext('vc_max64', 64, 'max'), 'parlay::write_max<unsigned long>'),
    U('write_min_u32', 'vc_min32', run_ext('vc_min32', 32, 'min'), 'parlay::write_min<unsigned>'),
    U('write_max_u32', 'vc_max32', run_ext('vc_max32', 32, 'max'), 'parlay::write_max<unsigned>'),
    U('write_min_double', 'vc_mindouble', run_ext('vc_mindouble', 64, 'min', True), 'parlay::write_min<double>'),
    U('write_add_u64', 'vc_add64', run_add('vc_add64', 64), 'parlay::write_add<unsigned long>'),
    U('write_add_i64', 'vc_addi64', run_add('vc_addi64', 64), 'parlay::write_add<long>'),
    U('write_add_u32', 'vc_add32', run_add('vc_add32', 32), 'parlay::write_add<unsigned>'),
    U('write_add_mixed', 'vc_addmix', run_add('vc_addmix', 64, 32), 'parlay::write_add<unsigned long, unsigned>'),
    U('write_add_double', 'vc_adddouble', run_add('vc_adddouble', 64, None, True), 'parlay::write_add<double>'),
]
