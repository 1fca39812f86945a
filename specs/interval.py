"""the interval rule of reduce

internal::reduce over n >= 1 elements with an associative operation combines all elements in order by some
association tree and never uses the identity (units reduce_semigroup of C22, proved for an uninterpreted associative
operation without identity laws, which by parametricity covers every element type and operation).  Hence: if
Q(i, i+1, s_i) for every element and Q(i,j,l), Q(j,k,r) give Q(i,k, l op r) then Q(0, n, reduce(s))."""
from count import *
from ir import base_name

def _callees(ex, fname):
    f = ex.mod.body(ex.mod.funcs[fname])
    out = []
    for b in f.order:
        for i in f.blocks[b]:
            if i.op in ('call', 'invoke') and i.a[0][0] == 'g':
                out.append(i.a[0][1])
    return out

def _find(ex, names, pred):
    r = []
    for n in names:
        d = ex.mod.dem.get(n, n)
        if pred(n, d, base_name(d)) and n not in r:
            r.append(n)
    return r

def width(ex, name):
    return ex.mod.funcs[name]

def interval_contract(Q, mkres):
    """Q(i, j, v): formula; mkres(ex, st, n) -> (value, cells) a fresh result"""
    T = 'internal::reduce(delayed range, op): any Q that holds of the elements and is kept by op holds of the result'
    def apply(ex, st, name, args, rett):
        ser = _find(ex, _callees(ex, name), lambda n, d, b: b == 'parlay::internal::reduce_serial')
        if not ser:
            raise Unsupported('structure of reduce')
        cs = _callees(ex, ser[0])
        sizes = _find(ex, cs, lambda n, d, b: b.endswith('::size'))
        elems = _find(ex, cs, lambda n, d, b: b.endswith('::operator[]'))
        ops = _find(ex, cs, lambda n, d, b: b.endswith('operator()'))
        if len(sizes) != 1 or len(elems) != 1 or len(ops) != 1:
            raise Unsupported('element access and operation of reduce')
        outs = []
        for s0, nv in ex.call(st, sizes[0], [args[0]], [('ptr',)], ('i', 64)):
            n = ex.unsigned(s0, ex.as_lin(s0, nv, 64), 64)
            # empty: the real body
            se = s0.fork(); se.assume(n.z == 0)
            if ex.feasible(se):
                outs += ex.run_function(se, name, args)
            sn = s0.fork(); sn.assume(n.z > 0)
            if not ex.feasible(sn):
                continue
            # elements
            i = ex.fresh_lin('qi', None, 0, MAXN)
            s1 = sn.fork(); s1.assume(z3.And(0 <= i.z, i.z < n.z))
            for s2, v in ex.call(s1, elems[0], [args[0], i], [('ptr',), ('i', 64)], None):
                ex.oblige(s2, 'every element has the property of its own index', Q(ex, s2, i.z, i.z + 1, v, n.z), 'pre')
            # operation
            a, b, c = (ex.fresh_lin('q' + x, None, 0, MAXN) for x in 'abc')
            s1 = sn.fork(); s1.assume(z3.And(0 <= a.z, a.z < b.z, b.z < c.z, c.z <= n.z))
            l, lp = mkres(ex, s1, n); r, rp = mkres(ex, s1, n)
            s1.assume(Q(ex, s1, a.z, b.z, l, n.z), True); s1.assume(Q(ex, s1, b.z, c.z, r, n.z), True)
            f = ex.mod.funcs[ops[0]]
            ts = [ex.mod.types.resolve(t) for t, _ in f.params]
            av = []
            for t, v, p in zip(ts[1:], (l, r), (lp, rp)):
                av.append(p if t[0] == 'ptr' else v)
            if len(ts) != 3:
                raise Unsupported('signature of the operation')
            for s2, v in ex.call(s1, ops[0], [args[1]] + av, ts, None):
                ex.oblige(s2, 'the operation keeps the property of neighbouring intervals', Q(ex, s2, a.z, c.z, v, n.z), 'pre')
            res, _ = mkres(ex, sn, n)
            sn.assume(Q(ex, sn, z3.IntVal(0), n.z, res, n.z), True)
            outs.append((sn, res))
        return outs
    return SpecContract(T, lambda n, d, b: b == 'parlay::internal::reduce' and 'delayed_sequence' in d, apply)
