"""counting selected positions: C(k) = number of selected positions below k"""
from lib import *
sel = z3.Select
Z = z3.IntVal(0)
C = z3.Function('cntF', I, I)

def arr(st, rid, fo=0):
    return st.mem[rid].fields[fo][1]

def count_axioms(selp):
    k, h = z3.Ints('ck ch')
    return [C(Z) == 0,
            z3.ForAll([k], z3.Implies(k >= 0, z3.And(C(k) >= 0, C(k) <= k)), patterns=[C(k)]),
            z3.ForAll([k, h], z3.Implies(z3.And(0 <= k, h == k + 1), C(h) == C(k) + z3.If(selp(k), 1, 0)), patterns=[z3.MultiPattern(C(k), C(h))]),
            # lemmas proved in count_lemmas
            z3.ForAll([k, h], z3.Implies(z3.And(0 <= k, k <= h), z3.And(C(k) <= C(h), C(h) - C(k) <= h - k)), patterns=[z3.MultiPattern(C(k), C(h))]),
            z3.ForAll([k, h], z3.Implies(z3.And(0 <= k, k < h, selp(k)), C(k) + 1 <= C(h)), patterns=[z3.MultiPattern(C(k), C(h))])]

def count_lemmas():
    k, h, b, n, l, i = z3.Ints('lem_k lem_h lem_b lem_n lem_l lem_i')
    p = z3.Function('lem_p', I, B)
    s = z3.Const('lem_s', AI); P = z3.Const('lem_P', AI)
    d = lambda x: C(x + 1) == C(x) + z3.If(p(x), 1, 0)
    mono = lambda hh: z3.And(C(k) <= C(hh), C(hh) - C(k) <= hh - k)
    def q1():
        return [('bounds base', [C(Z) == 0], z3.And(C(Z) >= 0, C(Z) <= 0)),
                ('bounds step', [k >= 0, d(k), C(k) >= 0, C(k) <= k], z3.And(C(k + 1) >= 0, C(k + 1) <= k + 1)),
                ('monotone base', [0 <= k], mono(k)), ('monotone step', [0 <= k, k <= h, d(h), mono(h)], mono(h + 1)),
                ('strict base', [0 <= k, d(k), p(k)], C(k) + 1 <= C(k + 1)),
                ('strict step', [0 <= k, k < h, d(h), C(k) + 1 <= C(h)], C(k) + 1 <= C(h + 1)),
                # every position below C(n) is hit: the facts stated over selected positions determine the whole output
                ('onto step', [0 <= h, d(h), 0 <= i, z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < h, p(k)), C(k) != i)), z3.Implies(i < C(h), z3.BoolVal(False)), z3.Or(z3.Not(p(h)), C(h) != i)],
                 i >= C(h + 1))]
    def q2():
        # telescoping: prefix sums of the block counts are the counts at the block borders
        ib = mulF(i, b); lb = mulF(l - 1, b)
        mono = [z3.Implies(z3.And(b >= 0, i <= l - 1), ib <= lb), z3.Implies(z3.And(i >= 0, b >= 0), ib >= 0)]
        return [('base', [C(Z) == 0, n >= 0], z3.IntVal(0) == C(mn(Z, n))),
                ('step', mono + [0 <= i, i < l, lb <= n, b >= 0, n >= 0, sel(P, i) == C(mn(ib, n)), sel(s, i) == C(mn(ib + b, n)) - C(ib), sel(P, i + 1) == sel(P, i) + sel(s, i)],
                 sel(P, i + 1) == C(mn(ib + b, n)))]
    return [Lemma('counting', q1), Lemma('block counts telescope', q2)]

def _first_at(ctx, rids):
    return [(rid, idx, at) for rid, idx, at in ctx.reads if rid in rids]

def count_loop_cands(rids):
    """v - v0 == C(position) - C(position0), position = index of the next input element"""
    def gen(ctx):
        out = []
        inits = [v.init for v in ctx.vars]
        if any(v is None for v in inits):
            return out
        for rid, idx, at in _first_at(ctx, rids())[:4]:
            t0 = at(inits)
            for n, v in enumerate(ctx.vars):
                sp = ctx.steps.get(v.key)
                if sp and len(sp) == 1 and None not in sp:
                    continue
                out.append(('*cnt(%s) at %s' % (v.key, idx), lambda x, w, n=n, at=at, t0=t0, i0=v.init: (x[n] - i0).z == C(at(x).z) - C(t0.z)))
                out.append(('*ncnt(%s) at %s' % (v.key, idx), lambda x, w, n=n, at=at, t0=t0, i0=v.init: (x[n] - i0).z == (at(x).z - t0.z) - (C(at(x).z) - C(t0.z))))
        return out
    return gen

def placed_loop(rids, selp, elem, pos=None, tag=''):
    """for every selected position read so far: Out[pos(j)] == elem(j)"""
    pos = pos or (lambda j: C(j))
    def gen(ctx):
        out = []
        inits = [v.init for v in ctx.vars]
        if any(v is None for v in inits):
            return out
        ats = _first_at(ctx, rids())[:3]
        regs = {(k[1], k[2]) for k in ctx.mods if k[0] == 'a'}
        for rid, fo in sorted(regs, key=str):
            for r2, idx, at in ats:
                if r2 == rid:
                    continue
                t0 = at(inits)
                def fn(x, w, rid=rid, fo=fo, at=at, t0=t0):
                    j = z3.Int('pl_j')
                    return z3.ForAll([j], z3.Implies(z3.And(t0.z <= j, j < at(x).z, selp(j)), sel(w.arr(rid, fo), pos(j)) == elem(j)), patterns=[C(j)])
                out.append(('placed%s %s at %s' % (tag, ctx.st0.mem[rid].name, idx), fn))
        return out
    return gen

def count_foot(pos=None):
    def gen(ctx, rid):
        out = []
        for b in block_sizes_of(ctx):
            s = nlmul(ctx.il, b)
            for n in lengths_of(ctx):
                e = mn((s + b).z, n.z)
                out.append(('count(%s,%s)' % (b, n), C(s.z), C(e)))
        return out[:30]
    return gen

def block_sizes_of(ctx):
    from contracts import block_sizes
    return block_sizes(ctx)

def lengths_of(ctx, rid=None):
    from contracts import lengths
    return lengths(ctx, rid)

def count_par(first, selp, elem, outs, pos=None, tag=''):
    pos = pos or (lambda j: C(j))
    def gen(ctx):
        out = []
        ctx.cnt = getattr(ctx, 'cnt', {})
        for (rid, fo), na in ctx.post.items():
            if fo == 'gh':
                continue
            lab, W, terms = ctx.foot[rid]
            for b in block_sizes_of(ctx):
                for n in lengths_of(ctx, first()):
                    if lab == 'exact' and len(terms) == 1 and terms[0][0].same(ctx.il) and ctx.pre.mem[rid].fields[fo][0] == 8:
                        def q(w, x, rid=rid, fo=fo, b=b, n=n):
                            s = nlmul(Lin.of(x), b)
                            return sel(w.arr(rid, fo), x) == C(mn((s + b).z, n.z)) - C(s.z)
                        l = 'bcount %s|%s/%s' % (rid, b, n)
                        out.append((l, q)); ctx.cnt[l] = ('sum', rid, fo, b, n, q)
                    elif lab != 'exact' and lab != 'none':
                        def q(w, x, rid=rid, fo=fo, b=b, n=n):
                            s = nlmul(Lin.of(x), b)
                            j = z3.Int('pl_j')
                            return z3.ForAll([j], z3.Implies(z3.And(s.z <= j, j < mn((s + b).z, n.z), selp(j)), sel(w.arr(rid, fo), pos(j)) == elem(j)), patterns=[C(j)])
                        l = 'bplaced%s %s|%s/%s' % (tag, rid, b, n)
                        out.append((l, q)); ctx.cnt[l] = ('place', rid, fo, b, n, q)
        return out[:60]
    return gen

def count_after(selp, elem, pos=None):
    pos = pos or (lambda j: C(j))
    def gen(ctx, after):
        ex = ctx.ex
        for lab in ctx.kept:
            if lab not in getattr(ctx, 'cnt', {}):
                continue
            kind, rid, fo, b, n, q = ctx.cnt[lab]
            if kind == 'sum':
                ex.__dict__.setdefault('cnt_blocks', {}).setdefault(rid, [])
                ex.cnt_blocks[rid] = [(fo, b, n, ctx.hi)]
                continue
            view = View(ex, after, {}, False)
            hyps = [f for f, _ in after.pc]
            K = ex.fresh('K'); x = ex.fresh('x')
            h2 = hyps + euclid_facts(ex, K, b, x) + [K >= 0, K < n.z, z3.Implies(z3.And(ctx.lo.z <= x, x < ctx.hi.z), q(view, x)), C(K) >= 0]
            inr = z3.And(ctx.lo.z <= x, x < ctx.hi.z)
            if ex.full_check([f for f in h2 if not has_quant(f)], inr, 3000000) and \
               ex.full_check(h2, z3.Implies(selp(K), sel(view.arr(rid, fo), pos(K)) == elem(K)), 8000000):
                k = z3.Int('pl_k')
                after.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n.z, selp(k)), sel(view.arr(rid, fo), pos(k)) == elem(k)), patterns=[C(k)]), True)
    return gen

def scan_plus_contract():
    """internal::scan_inplace(slice, plus): exclusive prefix sums and the total (C05), used with the telescoping lemma"""
    def apply(ex, st, name, args, rett):
        p, e = args[0], args[1]
        if not isinstance(p, Ptr) or p.rid not in st.mem or st.mem[p.rid].kind != 'arr':
            raise Unsupported('scan_inplace argument')
        rid = p.rid
        l = (e.off - p.off).div_exact(8)[0]
        if not (p.off.is_const() and p.off.c == 0):
            raise Unsupported('scan_inplace of an inner range')
        s = arr(st, rid)
        ex.log_access(st, 'W', rid, (Lin(0), l))
        m = st.mw(rid)
        na = ex.fresh_arr('scanned')
        m.fields[0] = (8, na)
        tot = ex.fresh_lin('total', 64)
        st.assume(z3.Implies(l.z == 0, tot.z == 0))
        i = z3.Int('sc_i')
        for fo, b, n, hi in ex.__dict__.get('cnt_blocks', {}).get(rid, []):
            ib = nlmul(Lin.of(i), b)
            hy = [f for f, _ in st.pc]
            x = ex.fresh('sx')
            xb = nlmul(Lin.of(x), b)
            ok = ex.full_check(hy + [0 <= x, x < l.z], sel(s, x) == C(mn((xb + b).z, n.z)) - C(xb.z), 8000000)
            last = nlmul(l - 1, b)
            ok = ok and ex.full_check(hy + [l.z >= 1], z3.And(last.z <= n.z, b.z >= 0, n.z >= 0), 3000000)
            if ok:
                st.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < l.z), sel(na, i) == C(mn(ib.z, n.z))), patterns=[sel(na, i)]), True)
                st.assume(tot.z == C(mn(nlmul(l, b).z, n.z)))
                break
        return [(st, tot)]
    return SpecContract('internal::scan_inplace(slice, plus) = exclusive prefix sums (C05)', lambda n, d, b: b == 'parlay::internal::scan_inplace' and 'plus<unsigned long>' in d, apply)
