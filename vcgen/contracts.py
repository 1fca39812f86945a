"""Contracts of the functions at the boundary of a proof: sequence storage, parallel_for, par_do, runtime."""
import z3, re
from val import *
from ir import base_name
from exec import Unsupported, PathEnd, Sink, View, And, Or, Not, zb, has_quant, Item, State
from loops import diff_mem, same_value

class Contract:
    title = ''
    assumed = None           # text: why the contract itself is not discharged by this run
    def matches(self, name, d, b):
        raise NotImplementedError

SIZES = {'unsigned long': 8, 'long': 8, 'unsigned int': 4, 'int': 4, 'unsigned char': 1, 'char': 1, 'bool': 1, 'signed char': 1,
         'unsigned short': 2, 'short': 2, 'unsigned long long': 8, 'long long': 8, 'double': 8, 'float': 4}

def first_targ(d, key):
    i = d.find(key + '<')
    if i < 0:
        return None
    i += len(key) + 1
    dep = 0
    j = i
    while j < len(d):
        c = d[j]
        if c in '<(':
            dep += 1
        elif c in '>)':
            if dep == 0:
                break
            dep -= 1
        elif c == ',' and dep == 0:
            break
        j += 1
    return d[i:j].strip()

class Storage(Contract):
    """sequence_base<T>::storage_impl as an abstract (buffer, size) pair"""
    title = 'sequence_base::storage_impl (buffer, size)'
    PRE = 'parlay::sequence_internal::sequence_base::storage_impl::'
    METHODS = ('storage_impl', '~storage_impl', 'swap', 'move_from', 'clear', 'clear_without_destruction', 'size', 'capacity', 'data',
               'set_size', 'at', 'initialize_capacity', 'ensure_capacity', 'operator=', 'is_small', 'destroy_all', 'set_to_empty_representation')

    def matches(self, name, d, b):
        return b.startswith(self.PRE) and b[len(self.PRE):] in self.METHODS

    def layout(self, ex, T):
        el = ex.opt.get('elems', {})
        if T in el:
            return el[T]
        if T in SIZES:
            return (SIZES[T], {0: SIZES[T]})
        raise Unsupported('sequence of ' + T)

    def get(self, ex, st, p):
        if not isinstance(p, Ptr) or p.rid not in st.mem:
            raise Unsupported('sequence object')
        m = ex.region(st, p, 'sequence', '')
        if m.kind != 'cell' or not p.off.is_const():
            raise Unsupported('sequence in an array')
        ex.log_access(st, 'r', p.rid, p.off)
        c = m.cells.get(p.off.c)
        if c is None or not isinstance(c[1], SeqVal):
            raise Unsupported('sequence object without contract state')
        return c[1]

    def put(self, ex, st, p, v):
        m = ex.region(st, p, 'sequence', '')
        if m.kind != 'cell':
            raise Unsupported('sequence in an array')
        ex.log_access(st, 'w', p.rid, p.off)
        m2 = st.mw(p.rid)
        for o in list(m2.cells):
            if p.off.c <= o < p.off.c + 16:
                del m2.cells[o]
        m2.cells[p.off.c] = (15, v)

    def new(self, ex, st, T, cap):
        stride, fields = self.layout(ex, T)
        rid = ex.new_array(st, 'seq', cap, stride, fields)
        m = st.mem[rid]
        if T in SIZES and T not in ex.opt.get('opaque', ()):
            m.opaque = False
        if ex.opt.get('lifetimes') and (stride, tuple(fields)) == ex.opt.get('life_layout', (8, (0,))):
            m.ghost = z3.K(z3.IntSort(), z3.BoolVal(False))
        lf = ex.opt.get('live_field')
        if lf is not None and lf in fields:
            m.fields[lf] = (m.fields[lf][0], z3.K(z3.IntSort(), z3.IntVal(0)))
            m.opaque = False
        return rid

    def lives(self, ex, st, o, what, n=None):
        """tracked elements: exactly the first n are alive"""
        lf = ex.opt.get('live_field')
        if lf is None or o.rid is None or lf not in st.mem[o.rid].fields or ex.quiet:
            return
        m = st.mem[o.rid]
        J = ex.fresh('jl')
        n = o.n if n is None else n
        ex.oblige(st, what, z3.Implies(z3.And(0 <= J, J < m.length.z), z3.Select(m.fields[lf][1], J) == z3.If(J < n.z, z3.IntVal(1), z3.IntVal(0))), 'life')

    def apply(self, ex, st, name, args, rett):
        d = ex.mod.dem[name]
        b = base_name(d)[len(self.PRE):]
        T = first_targ(d[d.index('sequence_base<'):] if 'sequence_base<' in d else d, 'sequence_base')
        th = args[0]
        full = ex.opt.get('seq_capacity')
        if b == 'storage_impl':
            if len(args) == 1:
                self.put(ex, st, th, SeqVal(None, Lin(0)))
                return [(st, None)]
            o = self.get(ex, st, args[1])
            if '&&' in d.rsplit('(', 1)[1]:
                self.put(ex, st, th, o)
                self.put(ex, st, args[1], SeqVal(None, Lin(0)))
            else:
                if o.rid is None:
                    self.put(ex, st, th, o)
                else:
                    rid = self.new(ex, st, T, o.n)
                    ms = st.mem[o.rid]
                    md = st.mem[rid]
                    for f, (w, a) in ms.fields.items():
                        md.fields[f] = (w, a)
                    md.opaque = ms.opaque
                    self.lives(ex, st, o, 'a copied sequence holds live elements')
                    ex.log_access(st, 'R', o.rid, (Lin(0), o.n))
                    self.put(ex, st, th, SeqVal(rid, o.n))
            return [(st, None)]
        if b in ('~storage_impl', 'clear', 'clear_without_destruction', 'set_to_empty_representation'):
            o = self.get(ex, st, th)
            if o.rid is not None and b != 'set_to_empty_representation':
                m = st.mw(o.rid)
                if not m.alive:
                    ex.oblige(st, 'buffer of a sequence freed once', False, 'memory')
                if m.ghost is not None and b != 'clear_without_destruction':
                    J = z3.Int('jl')
                    ex.oblige(st, 'sequence destroys exactly constructed elements', z3.ForAll([J], z3.Implies(z3.And(0 <= J, J < o.n.z), z3.Select(m.ghost, J))), 'lifetime')
                self.lives(ex, st, o, 'a sequence that is freed without destruction holds no live element' if b == 'clear_without_destruction' else 'a sequence that is destroyed holds exactly its elements', Lin(0) if b == 'clear_without_destruction' else None)
                m.alive = False
            self.put(ex, st, th, SeqVal(None, Lin(0)))
            return [(st, None)]
        if b == 'swap':
            o1, o2 = self.get(ex, st, th), self.get(ex, st, args[1])
            self.put(ex, st, th, o2); self.put(ex, st, args[1], o1)
            return [(st, None)]
        if b in ('move_from', 'operator='):
            o = self.get(ex, st, args[1])
            if b == 'operator=':
                old = self.get(ex, st, th)
                if old.rid is not None:
                    if old.rid == o.rid:
                        ex.oblige(st, 'no self move of a sequence', False, 'memory')
                        raise PathEnd()
                    self.lives(ex, st, old, 'a sequence that is destroyed holds exactly its elements')
                    st.mw(old.rid).alive = False
            self.put(ex, st, th, o)
            self.put(ex, st, args[1], SeqVal(None, Lin(0)))
            return [(st, th if b == 'operator=' else None)]
        if b == 'initialize_capacity':
            n = ex.unsigned(st, ex.as_lin(st, args[1], 64), 64)
            rid = self.new(ex, st, T, n)
            self.put(ex, st, th, SeqVal(rid, Lin(0)))
            return [(st, None)]
        o = self.get(ex, st, th)
        if b == 'size':
            return [(st, o.n)]
        if b == 'capacity':
            return [(st, st.mem[o.rid].length if o.rid is not None else Lin(0))]
        if b == 'is_small':
            return [(st, ex.fresh_bool('small'))]
        if b == 'data':
            if o.rid is None:
                rid = self.new(ex, st, T, Lin(0))
                o = SeqVal(rid, Lin(0))
                self.put(ex, st, th, o)
            return [(st, Ptr(o.rid, 0))]
        if b == 'at':
            if o.rid is None:
                ex.oblige(st, 'element access to an empty sequence', False, 'memory')
                raise PathEnd()
            stride = st.mem[o.rid].stride
            i = ex.unsigned(st, ex.as_lin(st, args[1], 64), 64)
            return [(st, Ptr(o.rid, i * stride))]
        if b == 'set_size':
            n = ex.unsigned(st, ex.as_lin(st, args[1], 64), 64)
            if o.rid is None:
                rid = self.new(ex, st, T, Lin(0))
                o = SeqVal(rid, Lin(0))
            cap = st.mem[o.rid].length
            g = ex.ge(cap, n)
            if g is not True:
                if not ex.quiet and not ex.proves(st, g):
                    ex.oblige(st, 'set_size within the capacity', g, 'memory')
                st.assume(g)
            self.put(ex, st, th, SeqVal(o.rid, n))
            return [(st, None)]
        if b == 'ensure_capacity':
            n = ex.unsigned(st, ex.as_lin(st, args[1], 64), 64)
            old = st.mem[o.rid] if o.rid is not None else None
            out = []
            cap = old.length if old is not None else Lin(0)
            c = ex.ge(cap, n)
            if ex.feasible(st, c):
                s1 = st.fork(); s1.assume(zb(c)); out.append((s1, None))
            nc = Not(c)
            if ex.feasible(st, nc):
                s2 = st.fork(); s2.assume(zb(nc))
                nl = ex.fresh_lin('cap', None, 0, 1 << 62)
                s2.assume(nl.z >= n.z)
                rid = self.new(ex, s2, T, nl)
                md = s2.mem[rid]
                if old is not None:
                    J = z3.Int('jl')
                    self.lives(ex, s2, o, 'a sequence that grows holds exactly its elements')
                    for f, (w, a) in old.fields.items():
                        if f == ex.opt.get('live_field'):
                            md.fields[f] = (w, z3.Lambda([J], z3.If(z3.And(0 <= J, J < o.n.z), z3.IntVal(1), z3.IntVal(0))))
                            continue
                        na = md.fields[f][1]
                        s2.assume(z3.ForAll([J], z3.Implies(z3.And(0 <= J, J < o.n.z), z3.Select(na, J) == z3.Select(a, J)),
                                            patterns=[z3.Select(na, J)]), True)
                    if old.ghost is not None:
                        md.ghost = z3.Lambda([J], z3.And(0 <= J, J < o.n.z))
                    md.opaque = old.opaque
                    s2.mw(o.rid).alive = False
                self.put(ex, s2, th, SeqVal(rid, o.n))
                out.append((s2, None))
            return out
        if b == 'destroy_all':
            return [(st, None)]
        raise Unsupported('storage_impl::' + b)

class Runtime(Contract):
    """scheduler queries: any answer"""
    title = 'num_workers/worker_id (any value; scheduler start-up has no effect on data)'
    NAMES = {'parlay::num_workers', 'parlay::worker_id', 'parlay::internal::get_current_scheduler'}
    def matches(self, name, d, b):
        return b in self.NAMES
    def apply(self, ex, st, name, args, rett):
        b = base_name(ex.mod.dem[name])
        if b.endswith('get_current_scheduler'):
            return [(st, Ptr('sched', 0))]
        return [(st, ex.fresh_lin('workers', None, 1 if 'num' in b else 0, 1 << 16, st=st))]

class Allocator(Contract):
    """parlay::allocator<T>: fresh separate storage for n elements (decided under C14)"""
    title = 'parlay::allocator<T>::allocate / deallocate (fresh storage for n elements; units of C14)'
    def matches(self, name, d, b):
        return b in ('parlay::allocator::allocate', 'parlay::allocator::deallocate', 'parlay::allocator::allocator')
    def apply(self, ex, st, name, args, rett):
        d = ex.mod.dem[name]
        b = base_name(d)
        if b.endswith('::allocator'):
            return [(st, None)]
        if b.endswith('::allocate'):
            T = first_targ(d[d.index('allocator<'):], 'allocator')
            n = ex.unsigned(st, ex.as_lin(st, args[1], 64), 64)
            return [(st, Ptr(Storage().new(ex, st, T, n), 0))]
        p = args[1]
        n = ex.unsigned(st, ex.as_lin(st, args[2], 64), 64)
        if not isinstance(p, Ptr) or p.rid is None or p.rid not in st.mem:
            raise Unsupported('deallocate')
        m = st.mw(p.rid)
        if not m.alive:
            ex.oblige(st, 'storage freed once', False, 'memory')
        ex.oblige(st, 'storage freed with the size it was allocated with', z3.And(zb(p.off.z == 0), zb(m.length.z == n.z)), 'memory')
        m.alive = False
        return [(st, None)]

def calls_on_param(ex, fname, pidx):
    """name of the function that `fname` calls with its parameter pidx as first argument"""
    f = ex.mod.body(ex.mod.funcs[fname])
    pn = f.params[pidx][1]
    found = []
    for b in f.order:
        for i in f.blocks[b]:
            if i.op in ('call', 'invoke'):
                callee, args, _ = i.a
                if callee[0] == 'g' and args and args[0][1] == ('loc', pn) and not callee[1].startswith('@llvm.'):
                    found.append((callee[1], len(args)))
                # operator() of an empty functor may receive the pointer through a bitcast or a copy: not seen so far
    return found

class ParCtx:
    pass

class ParallelFor(Contract):
    title = 'parallel_for(start, end, f): f(i) exactly once for every i in [start, end)'
    def matches(self, name, d, b):
        return b == 'parlay::parallel_for'

    def body_of(self, ex, name):
        fs = [c for c, n in calls_on_param(ex, name, 2) if n == 2]
        names = set(fs)
        if len(names) != 1:
            raise Unsupported('parallel_for: body not identified')
        return names.pop()

    def apply(self, ex, st, name, args, rett):
        lo = ex.unsigned(st, ex.as_lin(st, args[0], 64), 64)
        hi = ex.unsigned(st, ex.as_lin(st, args[1], 64), 64)
        fp = args[2]
        bodyfn = self.body_of(ex, name)
        return par_loop(ex, st, lo, hi, lambda s, i: ex.call(s, bodyfn, [fp, i], [('ptr',), ('i', 64)], ('void',)), ex.mod.dem.get(bodyfn, bodyfn))

def mentions(t, ids):
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if i in ids:
            return True
        stack.extend(x.children())
    return False

def fresh_after(t, mark):
    """does t contain a symbol created after the mark"""
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            m = re.search(r'!(\d+)$', x.decl().name())
            if m and int(m.group(1)) > mark:
                return True
        if z3.is_quantifier(x):
            stack.append(x.body())
        else:
            stack.extend(x.children())
    return False

def par_loop(ex, st, lo, hi, runbody, title):
    site = ('par', tuple(ex.fn_stack), title)
    # empty range
    out_states = []
    c = ex.lt(lo, hi)
    if c is False or not ex.feasible(st, c):
        if c is not False:
            st.assume(Not(c))
        return [(st, None)]
    nc = Not(c)
    res = []
    if nc is not False and ex.feasible(st, nc):
        s0 = st.fork(); s0.assume(nc)
        res.append((s0, None))
    st.assume(c)
    i = ex.fresh('i')
    mark = ex.fresh_n
    il = Lin.atom(i)
    pre = st.fork()
    npc = len(pre.pc)
    s1 = st.fork()
    ex.range[i.get_id()] = (0, (1 << 63), i)
    s1.assume(z3.And(lo.z <= i, i < hi.z))
    if ex.par_assume:
        for f in ex.par_assume:
            for g in f(ex, st, lo, hi, i):
                s1.assume(g, has_quant(g))
    sink = Sink(set(st.mem))
    ex.sinks = ex.sinks + [sink]
    ex.fn_stack.append('body of parallel loop: ' + title)
    try:
        rets = runbody(s1, il)
    finally:
        ex.sinks = ex.sinks[:-1]
        ex.fn_stack.pop()
    if ex.discover:
        # only what is modified matters
        after = st.fork()
        mods = {}
        for s2, _ in rets:
            diff_mem(pre, s2, mods)
        for k in mods:
            if k[0] == 'a':
                m = after.mw(k[1]); w, a = m.fields[k[2]]
                m.fields[k[2]] = (w, ex.fresh_arr(m.name, a.sort().range()))
            elif k[0] == 'gh':
                m = after.mw(k[1]); m.ghost = ex.fresh_arr('gh', z3.BoolSort())
        for it in sink.items:
            if it[0] == 'm':
                after.mw(it[1]).cells[it[2].c] = (8, ex.fresh_lin('racy', 64))
        res.append((after, None))
        return res
    mods = {}
    for s2, _ in rets:
        diff_mem(pre, s2, mods)
    after = st.fork()
    if not rets:
        # the body never returns: obligations inside say why
        return res
    arrs = {}
    for k in mods:
        if k[0] == 'a':
            arrs.setdefault(k[1], []).append(k[2])
        elif k[0] == 'gh':
            arrs.setdefault(k[1], [])
        elif k[0] == 'c':
            # a cell of an outer object written in a parallel loop body
            m0 = pre.mem[k[1]].cells.get(k[2])
            if m0 is None and not any(it[0] in 'wW' and it[1] == k[1] for it in sink.items):
                continue       # first read of an uninitialised cell
            if not ex.quiet:
                ex.oblige(st, 'no unsynchronised write to shared %s in a parallel loop' % pre.mem[k[1]].name, hi.z - lo.z <= 1, 'race')
            if m0 is not None:
                mm = after.mw(k[1])
                mm.cells[k[2]] = (m0[0], ex.fresh_lin('racy', 8 * m0[0]) if isinstance(m0[1], Lin) else m0[1])
        elif k[0] == 'life':
            raise Unsupported('object ends its life in a parallel body')
        else:
            raise Unsupported('parallel body changes ghost state')
    ctx = ParCtx()
    ctx.ex, ctx.pre, ctx.lo, ctx.hi, ctx.i, ctx.il, ctx.title, ctx.mods = ex, pre, lo, hi, i, il, title, mods
    ctx.rets = rets
    ctx.mark = mark
    ctx.sink = sink
    k = z3.Int('k!f')
    j = z3.Int('j!f')
    writes = {}
    reads = {}
    for kind, rid, idx, pc, s in sink.items:
        m0 = pre.mem.get(rid)
        if m0 is None or m0.kind != 'arr':
            continue
        (writes if kind in 'wW' else reads).setdefault(rid, []).append((kind, idx, pc))
    foot = {}
    sub = lambda t, x: z3.substitute(t, (i, x))
    for rid in arrs:
        W = None
        ws = writes.get(rid, [])
        name = pre.mem[rid].name
        # exact footprint: finite set of terms in i
        terms = []
        exact = True
        rconds = {}
        npc0 = len(pre.pc)
        for kind, idx, pc in ws:
            if kind == 'w':
                if fresh_after(idx.z, mark):
                    exact = False; break
                if not any(t[1] is None and t[0].same(idx) for t in terms):
                    terms.append((idx, None))
            else:
                if fresh_after(idx[0].z, mark) or fresh_after(idx[1].z, mark):
                    exact = False; break
                terms.append((idx[0], idx[1]))
                rconds[len(terms) - 1] = [f for f in pc[npc0:] if not has_quant(f) and not fresh_after(f, mark)]
        ranges = any(b is not None for a, b in terms)
        def W_exact(x, kk, terms=terms, rconds=rconds):
            return z3.Or(*[sub(z3.And(a.z <= kk, kk < b.z, *rconds.get(n, ())), x) if b is not None else sub(a.z, x) == kk for n, (a, b) in enumerate(terms)])
        if exact and terms and len(terms) <= 6 and ranges:
            # the pieces of different iterations must be disjoint, otherwise an interval per iteration is tried first
            i3, k3 = ex.fresh('i_other'), ex.fresh('k')
            ranges = not ex.full_check([f for f, q in pre.pc] + [lo.z <= i, i < hi.z, lo.z <= i3, i3 < hi.z, i3 != i], z3.Not(z3.And(W_exact(i, k3), W_exact(i3, k3))), 3000000)
        if exact and terms and len(terms) <= 6 and not ranges:
            foot[rid] = ('exact', W_exact, terms)
            continue
        # intervals
        cands = interval_candidates(ctx, rid)
        for gen in ex.foot_cands:
            cands = list(gen(ctx, rid) or []) + cands
        for lab, a, b in cands:
            ok = True
            for kind, idx, pc in ws:
                l, h = (idx.z, idx.z + 1) if kind == 'w' else (idx[0].z, idx[1].z)
                g = z3.Or(l >= h, z3.And(a <= l, h <= b))
                if not ex.full_check(pc, g, ex.opt['rlimit_cand']):
                    ok = False; break
            if ok:
                W = lambda x, kk, a=a, b=b: z3.And(sub(a, x) <= kk, kk < sub(b, x))
                foot[rid] = (lab, W, [(Lin.of(a), Lin.of(b))])
                break
        if W is None and exact and terms and len(terms) <= 6:
            foot[rid] = ('exact', W_exact, terms)
            continue
        if W is None:
            if ex.trace:
                print('no footprint for', name, 'in', title[:90], [(w[0], str(w[1])) for w in ws][:5])
                print('   candidates', [c[0] for c in cands])
            # cannot bound the writes of one iteration
            if not ex.quiet:
                ex.oblige(st, 'the writes of one iteration of a parallel loop to %s stay inside its own part' % name, z3.BoolVal(False), 'footprint')
            foot[rid] = ('none', lambda x, kk: z3.BoolVal(True), None)
    # obligations: disjointness of the footprints and reads of other iterations' writes
    if not ex.quiet:
        i2 = ex.fresh('i_other', 0, 1 << 63)
        inr = z3.And(lo.z <= i2, i2 < hi.z, i2 != i)
        base = st.fork()
        base.assume(z3.And(lo.z <= i, i < hi.z))
        base.assume(inr)
        for rid in arrs:
            lab, W, _ = foot[rid]
            if lab == 'none':
                continue
            kk = ex.fresh('k')
            ex.oblige(base, 'iterations of a parallel loop write disjoint parts of %s' % pre.mem[rid].name, z3.Not(z3.And(W(i, kk), W(i2, kk))), 'race')
            seen = set()
            for kind, idx, pc in reads.get(rid, []):
                s3 = State()
                s3.pc = [(f, False) for f in pc] + [(inr, False)]
                if kind == 'r':
                    key = str(idx)
                    g = z3.Not(W(i2, idx.z))
                else:
                    key = str(idx)
                    g = z3.Or(idx[0].z > kk, kk >= idx[1].z, z3.Not(W(i2, kk)))
                if key in seen and len(seen) > 40:
                    continue
                seen.add(key)
                ex.oblige(s3, 'an iteration does not read what another one writes in %s' % pre.mem[rid].name, g, 'race')
    # post arrays
    post = {}
    for rid in arrs:
        m = after.mw(rid)
        for fo in arrs[rid]:
            w, a = m.fields[fo]
            na = ex.fresh_arr(m.name, a.sort().range())
            m.fields[fo] = (w, na)
            post[(rid, fo)] = na
        if ('gh', rid) in mods:
            m.ghost = ex.fresh_arr('gh_' + m.name, z3.BoolSort())
            post[(rid, 'gh')] = m.ghost
    ctx.post = post
    ctx.foot = foot
    ctx.after = after
    cands = []
    # automatic: the values of straight line writes
    if all(True for _ in rets):
        auto = []
        ok = True
        for s2, _ in rets:
            conds = [f for f, q in s2.pc[npc:]]
            if len(rets) == 1:
                # the only way through the body: its path condition always holds
                conds = []
            elif any(fresh_after(f, mark) for f in conds):
                ok = False
            auto.append((s2, conds))
        for rid in (arrs if ok else []):
            lab, W, terms = foot[rid]
            if lab != 'exact' or any(b is not None for a, b in terms):
                continue
            for fo in arrs[rid] + (['gh'] if ('gh', rid) in mods else []):
                for t, _ in terms:
                    clauses = []
                    good = True
                    for s2, conds in auto:
                        fin = s2.mem[rid].fields[fo][1] if fo != 'gh' else s2.mem[rid].ghost
                        v = select_simpl(fin, t.z, pre.mem[rid].fields[fo][1] if fo != 'gh' else None)
                        if fresh_after(v, mark):
                            good = False; break
                        clauses.append((conds, v))
                    if not good:
                        continue
                    def q(view, x, rid=rid, fo=fo, t=t, clauses=clauses):
                        arr = view.st.mem[rid].fields[fo][1] if fo != 'gh' else view.st.mem[rid].ghost
                        return z3.And(*[z3.Implies(z3.And(*[sub(c, x) for c in cs]) if cs else z3.BoolVal(True),
                                                  z3.Select(arr, sub(t.z, x)) == sub(v, x)) for cs, v in clauses])
                    cands.append(('value of %s' % pre.mem[rid].name, q))
    for gen in ex.par_cands:
        cands += list(gen(ctx) or [])
    dropped = ex.drop_cache.setdefault(site, set())
    kept = []
    I = z3.Int('i!q')
    have = set()
    for lab, fn in cands:
        if lab in dropped and ex.quiet:
            continue
        grp = lab.split('|')[0] if '|' in lab else None
        if grp is not None and grp in have:
            continue
        good = True
        try:
            for s2, _ in rets:
                vs = s2.fork()
                hyps = [f for f, q in vs.pc]
                for (rid, fo), na in post.items():
                    lab2, W, _ = foot[rid]
                    m = vs.mw(rid)
                    fin = m.fields[fo][1] if fo != 'gh' else m.ghost
                    gen_a = ex.fresh_arr('fin', na.sort().range())
                    if fo == 'gh':
                        m.ghost = gen_a
                    else:
                        m.fields[fo] = (m.fields[fo][0], gen_a)
                    hyps.append(z3.ForAll([k], z3.Implies(W(i, k), z3.Select(gen_a, k) == z3.Select(fin, k)), patterns=[z3.Select(gen_a, k)]))
                g = fn(View(ex, vs, {}, False), i)
                if g is None:
                    good = False; break
                if lab.startswith('value of'):
                    continue         # holds by construction
                if not ex.full_check(hyps, g, ex.opt['rlimit_cand']):
                    good = False; break
        except (KeyError, AttributeError):
            good = False
        if good:
            kept.append((lab, fn))
            have.add(grp)
        else:
            dropped.add(lab)
    av = View(ex, after, {}, False)
    for lab, fn in kept:
        g = fn(av, I)
        pats = par_patterns(g, I, [na for na in post.values()])
        body = z3.Implies(z3.And(lo.z <= I, I < hi.z), g)
        if has_quant(g) and not pats:
            after.assume(z3.ForAll([I], body), True)
        else:
            after.assume(z3.ForAll([I], body, patterns=pats) if pats else z3.ForAll([I], body), True)
    # the same facts over the index written instead of the iteration (index = iteration + offset)
    for (rid, fo), na in post.items():
        lab, W, terms = foot[rid]
        inv = simple_inverse(terms, i) if lab == 'exact' else None
        if inv is None or z3.is_int_value(z3.simplify(inv)):
            continue
        for lab2, fn in kept:
            g = fn(av, I)
            if has_quant(g):
                continue
            ids = {na.get_id()}
            if not mentions(g, ids):
                continue
            kx = z3.Int('k!x')
            g2 = z3.simplify(z3.substitute(g, (I, kx - inv)), som=True)
            if any(x.arg(1).eq(kx) for x in selects_of(g2, ids)):
                after.assume(z3.ForAll([kx], z3.Implies(z3.And(lo.z <= kx - inv, kx - inv < hi.z), g2), patterns=[z3.Select(na, kx)]), True)
    # frame: what no iteration writes keeps its value
    for (rid, fo), na in post.items():
        lab, W, terms = foot[rid]
        m0 = pre.mem[rid]
        old = m0.fields[fo][1] if fo != 'gh' else m0.ghost
        if lab == 'none':
            continue
        ex.fresh_n += 1
        sk = z3.Function('iter!%d' % ex.fresh_n, z3.IntSort(), z3.IntSort())
        inv = simple_inverse(terms, i)
        if inv is not None:
            # index = i + c
            after.assume(z3.ForAll([k], z3.Or(z3.And(lo.z <= k - inv, k - inv < hi.z), z3.Select(na, k) == z3.Select(old, k)), patterns=[z3.Select(na, k)]), True)
            # restate the value facts over the index
        else:
            after.assume(z3.ForAll([k], z3.Or(z3.And(lo.z <= sk(k), sk(k) < hi.z, W(sk(k), k)), z3.Select(na, k) == z3.Select(old, k)),
                                   patterns=[z3.Select(na, k)]), True)
    ctx.kept = [l for l, _ in kept]
    for gen in ex.par_after:
        gen(ctx, after)
    if not ex.quiet:
        ex.pars_done.append((title, [(pre.mem[r].name, foot[r][0]) for r in arrs], [l for l, _ in kept]))
        ex.houdini_ok += len(kept)
        if ex.trace:
            print('PAR', title[:110], [(pre.mem[r].name, foot[r][0]) for r in arrs], [l for l, _ in kept], 'dropped', dropped)
    res.append((after, None))
    return res

def select_simpl(arr, idx, old):
    return z3.simplify(z3.Select(arr, idx))

def simple_inverse(terms, i):
    if terms is None or len(terms) != 1 or terms[0][1] is not None:
        return None
    t = terms[0][0]
    if i.get_id() in t.d and t.d[i.get_id()][1] == 1:
        rest = t - Lin.atom(i)
        if not mentions(rest.z, {i.get_id()}):
            return rest.z
    return None

def selects_of(t, ids):
    out, seen, stack = [], set(), [t]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_select(x) and x.arg(0).get_id() in ids:
            out.append(x)
        stack.extend(x.children())
    return out

def par_patterns(g, I, arrs):
    """trigger terms for a quantified per-iteration fact: Select(post array, term with I)"""
    found = []
    ids = {a.get_id() for a in arrs}
    seen = set()
    stack = [(g, False)]
    def has_bound(x):
        return False
    while stack:
        x, inq = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            continue
        if z3.is_select(x) and x.arg(0).get_id() in ids and mentions(x.arg(1), {I.get_id()}):
            # arithmetic-free triggers match best
            found.append(x)
        stack.extend((c, inq) for c in x.children())
    def simple(x):
        return x.arg(1).eq(I)
    s = [x for x in found if simple(x)]
    if s:
        return s[:2]
    found = [x for x in found if not contains_arith_ite(x.arg(1))]
    return found[:2]

def contains_arith_ite(t):
    stack = [t]
    while stack:
        x = stack.pop()
        if z3.is_app_of(x, z3.Z3_OP_ITE):
            return True
        stack.extend(x.children())
    return False

def int_terms(ctx, limit=24):
    """loop-invariant integers visible to a parallel body: cells of live objects"""
    out = []
    def put(l):
        if isinstance(l, Lin) and not any(l.same(o) for o in out):
            out.append(l)
    for rid, m in ctx.pre.mem.items():
        if m.kind == 'cell' and m.alive:
            for o, (s, v) in m.cells.items():
                if isinstance(v, Lin) and s >= 4:
                    put(v)
                elif isinstance(v, SeqVal):
                    put(v.n)
        elif m.kind == 'arr' and m.alive:
            put(m.length)
    put(ctx.hi)
    return out[:limit]

def strides_of(ctx, l):
    """factors b such that the index l contains i * b"""
    out = []
    ii = ctx.i.get_id()
    for k, (t, c) in l.d.items():
        if k == ii:
            out.append(Lin(abs(c)))
        elif z3.is_app(t) and t.decl().eq(mulF):
            for u, v in ((t.arg(0), t.arg(1)), (t.arg(1), t.arg(0))):
                if u.get_id() == ii:
                    out.append(from_z3(v).scale(abs(c)))
    return out

def block_sizes(ctx):
    """block sizes suggested by the accesses of the body"""
    out = []
    def put(b):
        if not any(b.same(x) for x in out) and not (b.is_const() and b.c <= 1):
            out.append(b)
    for kind, rid, idx, pc, s in ctx.sink.items:
        for l in (idx if isinstance(idx, tuple) else (idx,)):
            for b in strides_of(ctx, l):
                put(b)
    # ... and by the conditions on its paths
    seen = set()
    ii = ctx.i.get_id()
    for kind, rid, idx, pc, s in ctx.sink.items:
        stack = [f for f in pc if f.get_id() not in seen]
        while stack:
            x = stack.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_quantifier(x):
                continue
            if z3.is_app(x) and x.num_args() == 2:
                a, b = x.arg(0), x.arg(1)
                if z3.is_app_of(x, z3.Z3_OP_MUL):
                    if b.get_id() == ii and z3.is_int_value(a):
                        put(Lin(abs(a.as_long())))
                    if a.get_id() == ii and z3.is_int_value(b):
                        put(Lin(abs(b.as_long())))
                elif x.decl().eq(mulF):
                    if a.get_id() == ii:
                        put(from_z3(b))
                    elif b.get_id() == ii:
                        put(from_z3(a))
            stack.extend(x.children())
    return out[:8]

def lengths(ctx, first=None):
    out = []
    def put(l):
        if not l.is_const() and not any(l.same(x) for x in out):
            out.append(l)
    if first is not None:
        put(ctx.pre.mem[first].length)
    for rid, m in ctx.pre.mem.items():
        if m.kind == 'arr' and m.alive:
            put(m.length)
    for t in int_terms(ctx):
        put(t)
    return out[:12]

def interval_candidates(ctx, rid):
    """[a(i), b(i)) shapes for the part of a region written by iteration i"""
    ex, i = ctx.ex, ctx.il
    outs = []
    for b in block_sizes(ctx):
        s = nlmul(i, b)
        for n in lengths(ctx, rid):
            e = z3.If((s + b).z < n.z, (s + b).z, n.z)
            outs.append(('block(%s,%s)' % (b, n), s.z, e))
        outs.append(('row(%s)' % b, s.z, (s + b).z))
    return outs[:80]

def template_args(d, fn):
    """top-level template arguments of the function fn in a demangled name"""
    i = d.find(fn + '<')
    if i < 0:
        return []
    i += len(fn) + 1
    out, depth, cur = [], 0, ''
    while i < len(d):
        c = d[i]
        if c in '<([{':
            depth += 1
        elif c in '>)]}':
            if d[i - 1] == '-' and c == '>':
                pass
            elif depth == 0:
                out.append(cur.strip())
                return out
            else:
                depth -= 1
        if c == ',' and depth == 0:
            out.append(cur.strip()); cur = ''
        else:
            cur += c
        i += 1
    return out

class ParDo(Contract):
    title = 'par_do(l, r): both run exactly once; either order, checked not to interfere'
    def matches(self, name, d, b):
        return b == 'parlay::par_do'
    def apply(self, ex, st, name, args, rett):
        l, r = self.bodies(ex, name)
        if ex.discover:
            out = []
            for s1, _ in ex.call(st, l, [args[0]], [('ptr',)], ('void',)):
                out += [(s2, None) for s2, _ in ex.call(s1, r, [args[1]], [('ptr',)], ('void',))]
            return out
        pre = set(st.mem)
        sl, sr = Sink(pre), Sink(pre)
        base = st.fork()
        ex.sinks = ex.sinks + [sl]
        try:
            rl = ex.call(st, l, [args[0]], [('ptr',)], ('void',))
        finally:
            ex.sinks = ex.sinks[:-1]
        out = []
        ex.sinks = ex.sinks + [sr]
        try:
            for s1, _ in rl:
                out += [(s2, None) for s2, _ in ex.call(s1, r, [args[1]], [('ptr',)], ('void',))]
        finally:
            ex.sinks = ex.sinks[:-1]
        if not ex.quiet:
            self.interference(ex, base, sl, sr)
        return out

    def bodies(self, ex, name):
        # par_do forwards both functors to the scheduler's pardo; each is called somewhere below it
        key = ('pardo', name)
        if key in ex.inline_cache:
            return ex.inline_cache[key]
        # the functor types are the template arguments of par_do
        res = []
        for t in template_args(ex.mod.dem.get(name, name), 'par_do')[:2]:
            t = re.sub(r'( const)?&{0,2}$', '', t)
            c = [n for n in ex.mod.funcs if ex.mod.dem.get(n, n) in (t + '::operator()() const', t + '::operator()()') or
                 (t + '::operator()()') in ex.mod.dem.get(n, n) and ex.mod.dem.get(n, n).split(' ', 1)[-1] in (t + '::operator()() const', t + '::operator()()')]
            if len(c) != 1:
                raise Unsupported('par_do: bodies not identified')
            res.append(c[0])
        if len(res) != 2:
            raise Unsupported('par_do: bodies not identified')
        ex.inline_cache[key] = tuple(res)
        return ex.inline_cache[key]

    def interference(self, ex, base, sl, sr):
        if any(it[0] == 'm' for it in sl.items + sr.items):
            raise Unsupported('atomic update in par_do')
        for A, B, what in ((sl, sr, 'right'), (sr, sl, 'left')):
            seen = set()
            for kind, rid, idx, pc, s in A.items:
                if kind not in 'wW':
                    continue
                for kind2, rid2, idx2, pc2, s2 in B.items:
                    if rid2 != rid or (A is sr and kind2 in 'wW'):
                        continue
                    key = (kind, str(idx), kind2, str(idx2), rid)
                    if key in seen:
                        continue
                    seen.add(key)
                    def rng(kd, ix):
                        if isinstance(ix, tuple):
                            return ix[0].z, ix[1].z
                        return ix.z, ix.z + 1
                    a, b = rng(kind, idx)
                    c, d = rng(kind2, idx2)
                    # ranges overlap?
                    g = z3.Or(b <= c, d <= a, a >= b, c >= d)
                    st = State()
                    allp = {f.get_id(): f for f in pc}
                    for f in pc2:
                        allp[f.get_id()] = f
                    st.pc = [(f, has_quant(f)) for f in allp.values()]
                    if not ex.proves(st, g):
                        ex.oblige(st, 'the two branches of par_do do not touch the same part of %s' % base.mem[rid].name, g, 'race')

class SpecContract(Contract):
    """contract written by a specification module: apply is a python function"""
    def __init__(self, title, match, fn, assumed=None):
        self.title, self._m, self._f, self.assumed = title, match, fn, assumed
    def matches(self, name, d, b):
        return self._m(name, d, b)
    def apply(self, ex, st, name, args, rett):
        return self._f(ex, st, name, args, rett)

def standard():
    return [Storage(), Allocator(), Runtime(), ParallelFor(), ParDo()]
