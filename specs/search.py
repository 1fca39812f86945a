"""contract of internal::find_if_index and the atomic minimum it is built on"""
from count import *
from contracts import calls_on_param, fresh_after, mentions
from exec import Sink

def run_pred(ex, st, fn, fp, n, specs, title):
    """execute the predicate on an arbitrary index 0 <= i < n (all its own obligations are checked) and
    return its meaning as a function of the index: its exact value, or a formula of the specification shown equal to it"""
    i = ex.fresh('pi')
    mark = ex.fresh_n
    ex.range[i.get_id()] = (0, MAXN, i)
    s1 = st.fork()
    s1.assume(z3.And(0 <= i, i < n.z))
    npc = len(s1.pc)
    pre = st.mem
    rets = ex.call(s1, fn, [fp, Lin.atom(i)], [('ptr',), ('i', 64)], ('i', 1))
    from loops import diff_mem
    mods = {}
    vals = []
    for s2, v in rets:
        diff_mem(st, s2, mods)
        vals.append((s2, [f for f, q in s2.pc[npc:]], zb(ex.as_bool(s2, v))))
    for k in mods:
        if k[0] == 'c' and pre[k[1]].cells.get(k[2]) is None:
            continue
        raise Unsupported('predicate with side effects')
    for sp in specs:
        ok = True
        for s2, conds, v in vals:
            if not ex.full_check([f for f, q in s2.pc], sp(i) == v, ex.opt['rlimit_cand']):
                # both directions separately: easier for the solver
                if not (ex.full_check([f for f, q in s2.pc] + [v], sp(i), ex.opt['rlimit_cand']) and
                        ex.full_check([f for f, q in s2.pc] + [z3.Not(v)], z3.Not(sp(i)), ex.opt['rlimit_cand'])):
                    ok = False
                    break
        if ok:
            return sp
    if any(fresh_after(f, mark) for s2, conds, v in vals for f in conds + [v]):
        raise Unsupported('meaning of the predicate of ' + title)
    f = z3.Or(*[z3.And(*(conds + [v])) for s2, conds, v in vals]) if vals else z3.BoolVal(False)
    f = z3.simplify(f)
    return lambda x: z3.substitute(f, (i, x))

def find_if_index_contract():
    T = 'internal::find_if_index(n, p): the least index below n with p, or n; p applied to indices below n only'
    def apply(ex, st, name, args, rett):
        n = ex.unsigned(st, ex.as_lin(st, args[0], 64), 64)
        fns = [c for c, k in calls_on_param(ex, name, 1) if k == 2]
        if len(set(fns)) != 1:
            raise Unsupported('predicate of find_if_index')
        P = run_pred(ex, st, fns[0], args[1], n, getattr(ex, 'pred_specs', []), 'find_if_index') if ex.feasible(st, n.z > 0) else (lambda x: z3.BoolVal(False))
        r = ex.fresh_lin('found', None, 0, (1 << 64) - 1)
        k = z3.Int('fi_k')
        st.assume(z3.And(r.z >= 0, r.z <= n.z))
        # a quantified meaning is handed on in the form a trigger can be found for
        none = z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < r.z), z3.Not(P(k))))
        st.assume(none, True)
        ex.__dict__.setdefault('fi_log', []).append((none, r, P))
        pr = P(r.z)
        st.assume(z3.Implies(r.z < n.z, pr), has_quant(pr))
        return [(st, r)]
    return SpecContract(T, lambda n, d, b: b == 'parlay::internal::find_if_index', apply)

def fi_instances(ex, s, terms):
    """instances of the quantified fact of the find_if_index contract at chosen indices"""
    have = {f.get_id() for f, q in s.pc}
    for none, r, P in getattr(ex, 'fi_log', []):
        if none.get_id() in have:
            for x in terms:
                f = z3.Implies(z3.And(0 <= x, x < r.z), z3.Not(P(x)))
                s.assume(f, has_quant(f))

def write_min_contract():
    """concurrent write_min(a, v, <): the cell ends as the least of its value and all values offered (C23)"""
    def apply(ex, st, name, args, rett):
        p = args[0]
        v = ex.unsigned(st, ex.as_lin(st, args[1], 64), 64)
        logged = False
        for sk in ex.sinks:
            if p.rid in sk.pre:
                sk.items.append(('m', p.rid, p.off, [f for f, q in st.pc], (st, v)))
                logged = True
        if not logged:
            old = ex.unsigned(st, ex.as_lin(st, ex.load(st, ('i', 64), p), 64), 64)
            nv = ex.fresh_lin('min', 64)
            st.assume(nv.z == z3.If(v.z < old.z, v.z, old.z))
            ex.store(st, ('i', 64), nv, p)
        return [(st, ex.fresh_bool('won'))]
    return SpecContract('write_min: the cell ends as the least of its value and all values offered (C23)',
                        lambda n, d, b: b == 'parlay::write_min' and 'unsigned long, std::less<' in d, apply)

def min_after(ctx, after):
    """cells updated by write_min in a parallel loop"""
    ex = ctx.ex
    cells = {}
    for it in ctx.sink.items:
        if it[0] == 'm':
            cells.setdefault((it[1], it[2].c), []).append((it[3], it[4]))
    for (rid, off), ws in cells.items():
        for it in ctx.sink.items:
            if it[0] in 'rw' and it[1] == rid:
                raise Unsupported('an atomic minimum is also accessed directly')
        m0 = ctx.pre.mem[rid].cells[off]
        old = ex.unsigned(after, m0[1], 64)
        r = ex.fresh_lin('least', 64)
        after.mw(rid).cells[off] = (8, r)
        after.assume(r.z <= old.z)
        npre = len(ctx.pre.pc)
        wit = [r.z == old.z]
        I_ = z3.Int('i!q')
        for pc, (s, v) in ws:
            conds = [f for f, q in s.pc[npre:len(pc)]]
            if any(fresh_after(f, ctx.mark) for f in conds + [v.z]):
                raise Unsupported('conditional atomic minimum')
            c = z3.And(*conds)
            sub = lambda t, x: z3.substitute(t, (ctx.i, x))
            after.assume(z3.ForAll([I_], z3.Implies(z3.And(ctx.lo.z <= I_, I_ < ctx.hi.z, sub(c, I_)), r.z <= sub(v.z, I_))), True)
            w = ex.fresh('wit')
            wit.append(z3.And(ctx.lo.z <= w, w < ctx.hi.z, sub(c, w), r.z == sub(v.z, w)))
        after.assume(z3.Or(*wit))
