"""helpers for bit-precise units"""
import z3
from engine import BVUnit, Lemma
from bvexec import *

def params(ex, st, entry):
    f = ex.mod.body(ex.mod.funcs['@' + entry])
    out = []
    for k, (t, n) in enumerate(f.params):
        out.append(ex.fresh_of(t, 'p%d' % k))
    return out

def bools(ex, labels, seen=None):
    seen = seen if seen is not None else []
    for g, lab in labels.items():
        def mk(g, lab):
            def f(ex, s, args):
                seen.append(g)
                ex.oblige(s, lab, i2b(ex.toint(s, args[0], 1)), 'post')
            return f
        ex.ghost_fns[g] = mk(g, lab)
    return seen

def need(seen):
    if not seen:
        raise Unsupported('result not reached')

def b64(phis):
    return [(r, v) for r, v in phis if z3.is_bv(v) and v.size() in (32, 64)]
