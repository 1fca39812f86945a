"""Loops: cut at the header by an inductive invariant.

The invariant is the largest inductive subset (Houdini) of a candidate set made of generic
candidates over the loop variables and the modified memory, and candidates supplied by the
specification.  A candidate takes part only after the solver proved that it holds on entry
and is preserved by an arbitrary iteration that starts in the invariant.
"""
import z3
from val import *

class LoopCtx:
    """handed to the specification's candidate generators"""
    pass

def const_step(init, new, cur):
    d = new - cur
    return d.c if d.is_const() else None

def signed_phis(f, body):
    s = set()
    defs = {}
    for b in body:
        for i in f.blocks[b]:
            if i.res is not None:
                defs[i.res] = i
    for b in body:
        for i in f.blocks[b]:
            if i.op == 'icmp' and i.a[0] in ('slt', 'sle', 'sgt', 'sge'):
                for o in i.a[1:]:
                    if o[0] == 'loc':
                        s.add(o[1])
                        d = defs.get(o[1])
                        if d is not None and d.op in ('add', 'sub'):
                            for q in d.a:
                                if q[0] == 'loc':
                                    s.add(q[1])
    return s

class Var:
    """one integer loop variable: a phi, or the moving part of a pointer phi, or an integer cell"""
    __slots__ = ('key', 'init', 'cur', 'kind', 'w', 'signed', 'rid', 'stride', 'base', 'ptrinit')
    def __init__(self, **k):
        for a in self.__slots__:
            setattr(self, a, k.get(a))

def havoc_value(ex, st, v, t, key, vars, signed):
    """fresh value of the same shape as v; registers integer variables"""
    from exec import Unsupported
    if isinstance(v, (bool, z3.BoolRef)):
        return ex.fresh_bool('b_' + key)
    if isinstance(v, Lin) or (isinstance(v, (Undef, Opaque)) and t is not None and t[0] == 'i'):
        w = t[1] if t is not None and t[0] == 'i' else 64
        if w == 1:
            return ex.fresh_bool('b_' + key)
        if signed:
            x = ex.fresh_lin(key, None, -(1 << (w - 1)), (1 << (w - 1)) - 1)
        else:
            x = ex.fresh_lin(key, w)
        init = v if isinstance(v, Lin) else None
        if init is not None:
            init = ex.signed(st, init, w) if signed else ex.unsigned(st, init, w)
        vars.append(Var(key=key, init=init, cur=x, kind='int', w=w, signed=signed))
        return x
    if isinstance(v, Ptr):
        if v.rid is None or v.rid not in st.mem:
            return v
        m = st.mem[v.rid]
        if m.kind == 'cell':
            return v
        stride = m.stride
        if not v.off.divisible(stride):
            raise Unsupported('loop pointer with unaligned start')
        k, r = v.off.div_exact(stride)
        x = ex.fresh_lin(key, None, None, None)
        vars.append(Var(key=key, init=k, cur=x, kind='ptr', rid=v.rid, stride=stride, base=r, w=64))
        return Ptr(v.rid, x.scale(stride) + r)
    if isinstance(v, list):
        return [havoc_value(ex, st, e, None, '%s.%d' % (key, i), vars, signed) for i, e in enumerate(v)]
    if isinstance(v, (Opaque, Undef)):
        return Opaque('havoc')
    return v

def val_of(ex, st, var, v):
    """integer value of variable `var` when the program value is v (back edge)"""
    from exec import Unsupported
    if var.kind == 'ptr':
        if not isinstance(v, Ptr) or v.rid != var.rid:
            raise Unsupported('loop pointer changes object')
        if not v.off.divisible(var.stride):
            raise Unsupported('loop pointer step')
        k, r = v.off.div_exact(var.stride)
        if r != var.base:
            raise Unsupported('loop pointer step')
        return k
    if isinstance(v, (bool, z3.BoolRef)):
        v = ex.as_lin(st, v, 1)
    if isinstance(v, (Opaque, Undef)):
        return ex.fresh_lin('u', var.w)
    if not isinstance(v, Lin):
        raise Unsupported('loop variable changes kind')
    return ex.signed(st, v, var.w) if var.signed else ex.unsigned(st, v, var.w)

def pick(v, path):
    for p in path:
        v = v[p] if isinstance(v, list) else v
    return v

def changed_cells(m0, m1):
    out = []
    for o in set(m0.cells) | set(m1.cells):
        a, b = m0.cells.get(o), m1.cells.get(o)
        if a is None or b is None:
            out.append(o); continue
        if a is b:
            continue
        if a[0] == b[0] and same_value(a[1], b[1]):
            continue
        out.append(o)
    return out

def same_value(a, b):
    if a is b:
        return True
    if isinstance(a, Lin) and isinstance(b, Lin):
        return a.same(b)
    if isinstance(a, bool) or isinstance(b, bool):
        return isinstance(a, bool) and isinstance(b, bool) and a == b
    if isinstance(a, z3.BoolRef) and isinstance(b, z3.BoolRef):
        return a.eq(b)
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return a.rid == b.rid and a.off.same(b.off)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same_value(x, y) for x, y in zip(a, b))
    if isinstance(a, FnPtr) and isinstance(b, FnPtr):
        return a.name == b.name
    if isinstance(a, SeqVal) and isinstance(b, SeqVal):
        return a.rid == b.rid and same_value(a.n, b.n)
    if isinstance(a, (Opaque, Undef)) and isinstance(b, (Opaque, Undef)):
        return True
    return False

def diff_mem(s0, s1, mods):
    """add to mods what s1 changed of the regions that exist in s0; True if something new"""
    new = False
    for rid, m0 in s0.mem.items():
        m1 = s1.mem.get(rid)
        if m1 is None or m1 is m0 or not m0.alive:
            continue
        if m0.kind == 'cell':
            for o in changed_cells(m0, m1):
                if ('c', rid, o) not in mods:
                    mods[('c', rid, o)] = True; new = True
        else:
            for fo, (w, a) in m0.fields.items():
                if not a.eq(m1.fields[fo][1]) and ('a', rid, fo) not in mods:
                    mods[('a', rid, fo)] = True; new = True
            if m0.ghost is not None and not m0.ghost.eq(m1.ghost) and ('gh', rid) not in mods:
                mods[('gh', rid)] = True; new = True
        if m0.alive != m1.alive and ('life', rid) not in mods:
            mods[('life', rid)] = True; new = True
    for k, v in s0.ghost.items():
        v1 = s1.ghost.get(k)
        if v1 is not v and not (isinstance(v, z3.ExprRef) and isinstance(v1, z3.ExprRef) and v.eq(v1)) and ('g', k) not in mods:
            mods[('g', k)] = True; new = True
    return new

def run_loop(ex, f, it):
    from exec import Item, Unsupported, View, Sink, And, Or, Not, zb, has_quant
    h = it.block
    body = f.loops[h]
    ins = f.blocks[h]
    st0 = it.st
    phis = []
    for i in ins:
        if i.op != 'phi':
            break
        for v, b in i.a:
            if b == it.prev:
                phis.append((i.res, i.ty, ex.ev(st0, it.env, i.ty, v), i)); break
        else:
            raise Unsupported('phi')
    sg = signed_phis(f, body)
    title = '%s %s' % (ex.fn_stack[-1] if ex.fn_stack else '', h)
    site = (tuple(ex.fn_stack), h)

    mods = ex.mods_cache.setdefault(site, {})
    mods = {k: True for k in mods if k[1] in st0.mem or k[0] == 'g' and k[1] in st0.ghost}

    def havoc(st):
        vars = []
        env = dict(it.env)
        for name, ty, v, i in phis:
            t = ex.mod.types.resolve(ty)
            env[name] = havoc_value(ex, st, v, t, name.lstrip('%'), vars, name in sg)
        newc = {}
        for k in mods:
            if k[0] == 'c':
                _, rid, o = k
                m = st.mw(rid)
                c = m.cells.get(o)
                if c is None:
                    continue
                t = None
                if isinstance(c[1], Lin):
                    t = ('i', 8 * c[0])
                if isinstance(c[1], SeqVal):
                    raise Unsupported('sequence object replaced in a loop')
                nv = havoc_value(ex, st, c[1], t, 'cell_%s_%d' % (rid, o), vars, False)
                m.cells[o] = (c[0], nv)
                newc[(rid, o)] = nv
            elif k[0] == 'a':
                _, rid, fo = k
                m = st.mw(rid)
                w, a = m.fields[fo]
                m.fields[fo] = (w, ex.fresh_arr(m.name, a.sort().range()))
            elif k[0] == 'gh':
                m = st.mw(k[1])
                m.ghost = ex.fresh_arr('gh_' + m.name, z3.BoolSort())
            elif k[0] == 'life':
                raise Unsupported('object ends its life in a loop')
            elif k[0] == 'g':
                v = st.ghost[k[1]]
                st.ghost[k[1]] = ex.fresh_ghost(k[1], v)
        return env, vars

    def values(st, env, vars):
        """program values of the variables in a state at a back edge"""
        out = []
        for v in vars:
            key = v.key
            if key.startswith('cell_'):
                rid, o = key[5:].rsplit('_', 1)
                c = st.mem[rid].cells.get(int(o))
                out.append(val_of(ex, st, v, c[1] if c is not None else UNDEF))
            else:
                parts = key.split('.')
                # names may contain dots: find the phi with the longest matching name
                for name, ty, v0, i in phis:
                    n = name.lstrip('%')
                    if key == n:
                        pv = env[name]; break
                else:
                    for name, ty, v0, i in phis:
                        n = name.lstrip('%')
                        if key.startswith(n + '.'):
                            rest = key[len(n) + 1:]
                            try:
                                path = [int(x) for x in rest.split('.')]
                            except ValueError:
                                continue
                            if isinstance(v0, list):
                                pv = pick(env[name], path); break
                    else:
                        raise Unsupported('loop variable')
                out.append(val_of(ex, st, v, pv))
        return out

    def back_env(b):
        new = {}
        for name, ty, v0, i in phis:
            for v, bb in i.a:
                if bb == b.prev:
                    new[name] = ex.ev(b.st, b.env, ty, v); break
            else:
                raise Unsupported('phi')
        e = dict(b.env); e.update(new)
        return e

    def fixed_changes(b, be, env0, pre):
        """program values that the abstraction keeps unchanged (pointers to single objects, ...) must not change"""
        def same(v, w):
            if isinstance(v, list):
                return isinstance(w, list) and len(v) == len(w) and all(same(x, y) for x, y in zip(v, w))
            if isinstance(v, Ptr):
                if not (v.rid is None or v.rid not in pre.mem or pre.mem[v.rid].kind == 'cell'):
                    return True            # a loop variable
                return isinstance(w, Ptr) and w.rid == v.rid and w.off.same(v.off)
            if isinstance(v, (Lin, bool, z3.BoolRef, Opaque, Undef)):
                return True
            return v is w or v == w
        for name, ty, v, i in phis:
            if not same(v, be[name]):
                return True
        for k in mods:
            if k[0] == 'c':
                c = pre.mem[k[1]].cells.get(k[2])
                if c is not None:
                    c2 = b.st.mem[k[1]].cells.get(k[2])
                    if c2 is None or not same(c[1], c2[1]):
                        return True
        return False

    def unrolled(limit):
        todo = [(st0, None)]
        exits, rets = [], []
        for _ in range(limit):
            nxt = []
            for s, e in todo:
                if e is None:
                    e = dict(it.env)
                    for name, ty, v, i in phis:
                        e[name] = v
                r = run(s, e, False)
                exits += r['exits']; rets += r['rets']
                nxt += [(b.st, back_env(b)) for b in r['backs']]
            if not nxt:
                return exits, rets
            todo = nxt
            if len(todo) > 16:
                break
        raise Unsupported('loop over pointers to single objects')

    def run(st, env, quiet, collect=None):
        q, sk = ex.quiet, ex.sinks
        if quiet:
            ex.quiet = q + 1
            ex.sinks = [collect] if collect is not None else []
        try:
            return ex.explore(f, [Item(st, env, h, None, it.active | {h})], (h, body))
        finally:
            ex.quiet = q
            ex.sinks = sk

    # -------- discovery of modified memory
    steps = {}
    rounds = 0
    while True:
        rounds += 1
        if rounds > 8:
            raise Unsupported('loop: modified memory does not stabilise')
        st = st0.fork()
        mark0 = ex.fresh_n
        env, vars = havoc(st)
        dvars = vars
        ex.discover += 1
        try:
            log = Sink(set(st0.mem))
            icl, ex.icmp_log = ex.icmp_log, []
            res = run(st.fork(), env, True, log)
        finally:
            ex.discover -= 1
            icmps = ex.icmp_log
            ex.icmp_log = icl
            if icl is not None:
                icl.extend(icmps)
        new = False
        steps = {}
        if any(fixed_changes(b, back_env(b), env, st0) for b in res['backs']):
            return unrolled(12)
        for b in res['backs']:
            if diff_mem(st, b.st, mods):
                new = True
            be = back_env(b)
            q = ex.quiet; ex.quiet += 1
            try:
                for v, val in zip(vars, values(b.st, be, vars)):
                    steps.setdefault(v.key, set()).add(const_step(v.init, val, v.cur))
            finally:
                ex.quiet = q
        # materialise cells first read inside the loop
        for b in res['backs']:
            for rid, m0 in st0.mem.items():
                if m0.kind == 'cell' and rid in b.st.mem:
                    for o, c in b.st.mem[rid].cells.items():
                        if o not in m0.cells and ('c', rid, o) in mods:
                            if not any(x < o + c[0] and o < x + s[0] for x, s in st0.mem[rid].cells.items()):
                                pass
        if not new:
            break
    ex.mods_cache[site] = dict(mods)
    if not res['backs']:
        # never iterates: the run from the real entry state is exact
        env = dict(it.env)
        for name, ty, v, i in phis:
            env[name] = v
        r = run(st0, env, False)
        if r['backs']:
            raise Unsupported('loop')
        return r['exits'], r['rets']

    if ex.discover:
        return res['exits'], res['rets']

    # A loop that ends with != bounds its variable only through its invariant, so the unrestricted run cannot tell
    # that index arithmetic does not wrap.  For the shapes of candidates (only for them: what is modified was
    # determined above without assumptions) run the body once more with the variable between its first value and
    # the value it is compared with.
    if any(k in 'rw' and st0.mem[r].kind == 'arr' and fresh_except(x.z, mark0, [v.cur.z for v in vars]) for k, r, x, pc, s_ in log.items) or \
            any(v.init is not None and not any(c is not None for c in steps.get(v.key, ())) for v in vars):
        bounds = []
        for n in range(0, len(icmps) - 1, 2):
            (k1, r1, x), (k2, r2, y) = icmps[n], icmps[n + 1]
            for p, q in ((x, y), (y, x)):
                for a, v in enumerate(vars):
                    if k1 == 'int' and v.kind == 'int' and v.init is not None and (p - v.cur).is_const() and not fresh_except(q.z, mark0, []):
                        bounds.append((a, q))
        if bounds:
            sb = st0.fork()
            envb, varsb = havoc(sb)
            done = set()
            for a, e in bounds:
                if a in done:
                    continue
                v = varsb[a]
                if ex.proves(st0, v.init.z <= e.z):
                    sb.assume(z3.And(v.init.z <= v.cur.z, v.cur.z <= e.z)); done.add(a)
                elif ex.proves(st0, e.z <= v.init.z):
                    sb.assume(z3.And(e.z <= v.cur.z, v.cur.z <= v.init.z)); done.add(a)
            if done:
                log2 = Sink(set(st0.mem))
                icl, ex.icmp_log = ex.icmp_log, []
                ex.discover += 1
                try:
                    res2 = run(sb, envb, True, log2)
                finally:
                    ex.discover -= 1
                    icmps2, ex.icmp_log = ex.icmp_log, icl
                if res2['backs']:
                    dvars, log, icmps, steps = varsb, log2, icmps2, {}
                    for b in res2['backs']:
                        be = back_env(b)
                        ex.quiet += 1
                        try:
                            for v, val in zip(varsb, values(b.st, be, varsb)):
                                steps.setdefault(v.key, set()).add(const_step(v.init, val, v.cur))
                        finally:
                            ex.quiet -= 1

    # -------- candidates
    st = st0.fork()
    env, vars = havoc(st)
    cands = []       # (label, fn(vals(list of Lin), view) -> formula or None)

    ctx = LoopCtx()
    ctx.ex, ctx.f, ctx.header, ctx.vars, ctx.mods, ctx.st0, ctx.env0 = ex, f, h, vars, mods, st0, it.env
    ctx.title = title
    ctx.fn = ex.fn_stack[-1] if ex.fn_stack else ''
    ctx.steps = steps
    ctx.inv = None
    # element accesses of the body as functions of the loop variables
    ctx.reads, ctx.writes = [], []
    pairs = [v.cur.z for v in dvars]
    for kind, rid, idx, pc, s_ in log.items:
        if kind not in 'rw' or st0.mem[rid].kind != 'arr':
            continue
        if fresh_except(idx.z, mark0, pairs):
            continue
        dst = ctx.reads if kind == 'r' else ctx.writes
        if any(r == rid and l.same(idx) for r, l, _ in dst):
            continue
        def at(x, idx=idx):
            return from_z3(z3.simplify(z3.substitute(idx.z, *[(p, q.z) for p, q in zip(pairs, x)]))) if pairs else idx
        dst.append((rid, idx, at))

    def add(label, fn):
        cands.append((label, fn))

    nv = len(vars)
    for a in range(nv):
        v = vars[a]
        if v.init is not None:
            add('%s>=init' % v.key, lambda x, w, a=a, i=v.init: x[a].z >= i.z)
            add('%s<=init' % v.key, lambda x, w, a=a, i=v.init: x[a].z <= i.z)
            sa = steps.get(v.key)
            sa = next(iter(sa)) if sa and len(sa) == 1 else None
            if sa is not None and abs(sa) > 1:
                add('%s step' % v.key, lambda x, w, a=a, i=v.init, s=abs(sa): (x[a] - i).z % s == 0)
            for b in range(a + 1, nv):
                u = vars[b]
                if u.init is None:
                    continue
                sb = steps.get(u.key)
                sb = next(iter(sb)) if sb and len(sb) == 1 else None
                if sa is not None and sb is not None and sa and sb:
                    add('%s~%s' % (v.key, u.key), lambda x, w, a=a, b=b, i=v.init, j=u.init, sa=sa, sb=sb:
                        ((x[a] - i) * sb).z == ((x[b] - j) * sa).z)
                else:
                    add('%s-%s' % (v.key, u.key), lambda x, w, a=a, b=b, i=v.init, j=u.init: (x[a] - i).z == (x[b] - j).z)
        for b in range(nv):
            if a != b and (vars[a].kind == vars[b].kind) and vars[a].rid == vars[b].rid:
                add('%s<=%s' % (vars[a].key, vars[b].key), lambda x, w, a=a, b=b: x[a].z <= x[b].z)
                add('%s<%s' % (vars[a].key, vars[b].key), lambda x, w, a=a, b=b: x[a].z < x[b].z)
    # bounds: loop-invariant values
    inv = invariant_terms(ex, f, it, st0, body, mods, icmps, mark0)
    for a in range(nv):
        v = vars[a]
        for lab, kind, rid, e in inv:
            if v.kind == 'ptr' and rid == v.rid and kind == 'ptr':
                if not (e.off.divisible(v.stride)):
                    continue
                q, r = e.off.div_exact(v.stride)
                if r != v.base:
                    continue
                e2 = q
            elif v.kind == 'int' and kind == 'int':
                e2 = e
            elif v.kind == 'ptr' and kind == 'len' and rid == v.rid:
                e2 = e
            else:
                continue
            add('%s<=%s' % (v.key, lab), lambda x, w, a=a, e=e2: x[a].z <= e.z)
            add('%s<%s' % (v.key, lab), lambda x, w, a=a, e=e2: x[a].z < e.z)
            add('%s>=%s' % (v.key, lab), lambda x, w, a=a, e=e2: x[a].z >= e.z)
    # frames
    J = z3.Int('jj')
    for k in mods:
        if k[0] == 'a' or k[0] == 'gh':
            rid = k[1]
            m0 = st0.mem[rid]
            fo = k[2] if k[0] == 'a' else None
            a0 = m0.fields[fo][1] if fo is not None else m0.ghost
            def get(w, rid=rid, fo=fo):
                m = w.st.mem[rid]
                return m.fields[fo][1] if fo is not None else m.ghost
            def frame(lab, cond, rid=rid, get=get, a0=a0):
                def g(x, w):
                    a1 = get(w)
                    return z3.ForAll([J], z3.Or(cond(x, J), z3.Select(a1, J) == z3.Select(a0, J)), patterns=[z3.Select(a1, J)])
                add('frame %s outside %s' % (m0.name, lab), g)
            terms = []
            for a in range(nv):
                v = vars[a]
                if v.init is None:
                    continue
                terms.append((v.key, lambda x, a=a: x[a].z))
                terms.append((v.key + '0', lambda x, i=v.init: i.z))
            n = 0
            for a in range(nv):
                v = vars[a]
                if v.init is None:
                    continue
                frame('[init,%s)' % v.key, lambda x, j, a=a, i=v.init: z3.And(i.z <= j, j < x[a].z))
                frame('[%s,init)' % v.key, lambda x, j, a=a, i=v.init: z3.And(x[a].z <= j, j < i.z))
                frame('(%s,init]' % v.key, lambda x, j, a=a, i=v.init: z3.And(x[a].z < j, j <= i.z))
            if all(v.init is not None for v in vars):
                ii = [v.init for v in vars]
                for r2, idx2, at2 in ctx.writes:
                    if r2 != rid or any(idx2.same(v.cur) for v in dvars):
                        continue
                    frame('[init,%s)' % idx2, lambda x, j, at2=at2: z3.And(at2(ii).z <= j, j < at2(x).z))
                    frame('(%s,init]' % idx2, lambda x, j, at2=at2: z3.And(at2(x).z < j, j <= at2(ii).z))
            for a in range(nv):
                for b in range(nv):
                    if a != b and n < 12 and vars[a].kind == vars[b].kind:
                        n += 1
                        frame('[%s,%s]' % (vars[a].key, vars[b].key), lambda x, j, a=a, b=b: z3.And(x[a].z <= j, j <= x[b].z))
    for gen in ex.loop_cands:
        for lab, fn in gen(ctx) or []:
            add(lab, fn)

    # -------- base
    inits = [v.init for v in vars]
    penv0 = dict(it.env)
    for name, ty, v, i in phis:
        penv0[name] = v
    view0 = View(ex, st0, penv0, True)
    cur = [v.cur for v in vars]
    dropped = ex.drop_cache.setdefault(site, set())
    hyps0 = [q for q, _ in st0.pc]
    hqf0 = [q for q, isq in st0.pc if not isq]
    alive = []
    for n, (lab, fn) in enumerate(cands):
        if lab in dropped and ex.quiet:
            continue
        try:
            g = fn(inits, view0) if all(v is not None for v in inits) or True else None
        except (AttributeError, KeyError, TypeError):
            continue
        if g is None:
            continue
        if isinstance(g, bool):
            if g:
                alive.append((lab, fn))
            continue
        g = z3.simplify(g) if not has_quant(g) else g
        if z3.is_true(g):
            alive.append((lab, fn)); continue
        if z3.is_false(g):
            continue
        if has_quant(g) or lab.startswith('!'):
            if trivially_true(g):
                ok = True
            else:
                ok = ex.full_check(hyps0, g, ex.opt['rlimit_cand'])
        else:
            ok = ex.proves(st0, g)
            if not ok and lab.startswith('*'):
                ok = ex.full_check(hyps0, g, ex.opt['rlimit_cand'])
        if ok:
            alive.append((lab, fn))
        else:
            dropped.add(lab)

    # -------- induction
    rounds = 0
    while True:
        rounds += 1
        if rounds > 25:
            raise Unsupported('loop invariant inference does not stabilise')
        s1 = st.fork()
        view = View(ex, s1, env, False)
        for lab, fn in alive:
            g = fn(cur, view)
            if g is None or g is True:
                continue
            s1.assume(g, has_quant(g) if not isinstance(g, bool) else False)
        res = run(s1.fork(), env, True)
        bad = set()
        data = []
        for b in res['backs']:
            q = ex.quiet; ex.quiet += 1
            try:
                be = back_env(b)
                vals = values(b.st, be, vars)
            finally:
                ex.quiet = q
            data.append((b, be, vals))
        for b, be, vals in data:
            hy = [q for q, _ in b.st.pc]
            vw = View(ex, b.st, be, False)
            for lab, fn in alive:
                if lab in bad:
                    continue
                g = fn(vals, vw)
                if g is None or g is True:
                    continue
                if isinstance(g, bool):
                    bad.add(lab); continue
                quant = has_quant(g)
                if not quant:
                    ok = ex.proves(b.st, g)
                    if not ok and (lab.startswith('*')):
                        ok = ex.full_check(hy, g, ex.opt['rlimit_cand'])
                else:
                    ok = ex.full_check(hy, g, ex.opt['rlimit_cand'])
                if not ok:
                    bad.add(lab)
                    if ex.trace:
                        print('   drop', lab, 'at', title[:60])
        if not bad:
            break
        dropped |= bad
        alive = [(l, g) for l, g in alive if l not in bad]

    # -------- final pass from the invariant, obligations recorded
    if ex.trace and not ex.quiet:
        print('LOOP', title[:100], 'mods', list(mods), 'inv', [l for l, _ in alive])
    if ex.quiet and not ex.sinks:
        return res['exits'], res['rets']
    if not ex.quiet:
        ex.loops_done.append((title, [l for l, _ in alive], rounds))
        ex.houdini_ok += 2 * len(alive)
    s1 = st.fork()
    view = View(ex, s1, env, False)
    for lab, fn in alive:
        g = fn(cur, view)
        if g is None or g is True:
            continue
        s1.assume(g, has_quant(g) if not isinstance(g, bool) else False)
    res = run(s1, env, False)
    return res['exits'], res['rets']

def fresh_except(t, mark, allowed):
    import re
    ok = {a.get_id() for a in allowed}
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x.get_id() in seen or x.get_id() in ok:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            m = re.search(r'!(\d+)$', x.decl().name())
            if m and int(m.group(1)) > mark:
                return True
        stack.extend(x.children())
    return False

def trivially_true(g):
    return False

def invariant_terms(ex, f, it, st0, body, mods, icmps, mark0):
    """values that do not change in the loop and may bound a variable: operands of comparisons made by the body"""
    out = []
    seen = []
    def put(lab, kind, rid, e):
        for k2, r2, e2 in seen:
            if k2 == kind and r2 == rid and (e2.same(e) if isinstance(e, Lin) else e2.off.same(e.off)):
                return
        seen.append((kind, rid, e))
        out.append((lab, kind, rid, e))
    for kind, rid, v in icmps:
        if len(out) > 24:
            break
        if kind == 'int':
            if fresh_except(v.z, mark0, []):
                continue
            put('[%s]' % v.z, 'int', None, v)
        elif rid is not None and not fresh_except(v.off.z, mark0, []):
            put('[%s]' % v.off.z, 'ptr', rid, v)
    put('0', 'int', None, Lin(0))
    for rid, m in st0.mem.items():
        if m.kind == 'arr' and m.alive:
            put('len_' + m.name, 'len', rid, m.length)
    return out
