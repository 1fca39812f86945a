"""Specification vocabulary shared by the property specifications."""
import z3, sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'vcgen'))
from val import *
from exec import Unsupported, View, And, Or, Not, zb, has_quant, has_ite, State
from contracts import SpecContract, Storage, nlmul
from engine import Unit, Lemma

I = z3.IntSort()
B = z3.BoolSort()
AI = z3.ArraySort(I, I)

MAXN = 1 << 48          # the size field of a sequence has 48 bits

op = z3.Function('uf_op', I, I, I)
fold = z3.Function('fold', AI, I, I, I)        # fold(a, lo, hi): left fold of a[lo..hi) from the identity
key = z3.Function('key', I, I)
less_f = z3.Function('uf_less', I, I, B)

def size(ex, st, name='n', lo=0):
    n = ex.fresh_lin(name, None, lo, MAXN - 1, st=st)
    return n

def mul_axioms():
    """integer multiplication (the generator treats non-constant products as an uninterpreted function)"""
    x, y, b = z3.Ints('mx my mb')
    m = mulF
    out = []
    for p, q in ((lambda u: m(u, b), lambda u: m(u, b)), (lambda u: m(b, u), lambda u: m(b, u)), (lambda u: m(u, b), lambda u: m(b, u))):
        out.append(z3.ForAll([x, y, b], z3.Implies(b >= 0, z3.And(z3.Implies(x <= y, p(x) <= q(y)), z3.Implies(y <= x, q(y) <= p(x)),
                    z3.Implies(x + 1 <= y, p(x) + b <= q(y)), z3.Implies(y + 1 <= x, q(y) + b <= p(x)),
                    z3.Implies(x + 1 == y, p(x) + b == q(y)), z3.Implies(y + 1 == x, q(y) + b == p(x)))), patterns=[z3.MultiPattern(p(x), q(y))]))
    out.append(z3.ForAll([x, b], z3.And(z3.Implies(x == 0, m(x, b) == 0), z3.Implies(b == 0, m(x, b) == 0), z3.Implies(z3.And(x >= 0, b >= 0), m(x, b) >= 0),
                                     z3.Implies(x == 1, m(x, b) == b), z3.Implies(b == 1, m(x, b) == x)), patterns=[m(x, b)]))
    return out

def mul_facts(terms):
    return []

def fold_axioms(ident):
    """monoid laws of the uninterpreted operation and the definition of fold"""
    a = z3.Const('fa', AI)
    b = z3.Const('fb', AI)
    l, m, h, x, y, z = z3.Ints('fl fm fh fx fy fz')
    return [
        z3.ForAll([x], op(ident, x) == x, patterns=[op(ident, x)]),
        z3.ForAll([x], op(x, ident) == x, patterns=[op(x, ident)]),
        z3.ForAll([a, l, h], z3.Implies(h <= l, fold(a, l, h) == ident), patterns=[fold(a, l, h)]),
        # definition, used in the direction the code computes it
        z3.ForAll([a, l, h], z3.Implies(l <= h, fold(a, l, h + 1) == op(fold(a, l, h), z3.Select(a, h))),
                  patterns=[op(fold(a, l, h), z3.Select(a, h))]),
        z3.ForAll([a, l, h], z3.Implies(h == l + 1, fold(a, l, h) == z3.Select(a, l)), patterns=[fold(a, l, h)]),
        # lemma split (proved below by induction)
        z3.ForAll([a, l, m, h], z3.Implies(z3.And(l <= m, m <= h), op(fold(a, l, m), fold(a, m, h)) == fold(a, l, h)),
                  patterns=[op(fold(a, l, m), fold(a, m, h))]),
    ]

def fold_lemmas():
    """split: op(fold(a,l,m), fold(a,m,h)) = fold(a,l,h), induction on h - m"""
    ident = z3.Int('lem_id')
    a = z3.Const('lem_a', AI)
    l, m, h = z3.Ints('lem_l lem_m lem_h')
    x, y, z = z3.Ints('x y z')
    assoc = z3.ForAll([x, y, z], op(op(x, y), z) == op(x, op(y, z)), patterns=[op(op(x, y), z), op(x, op(y, z))])
    idl = z3.ForAll([x], op(ident, x) == x)
    idr = z3.ForAll([x], op(x, ident) == x)
    def d(l, h):    # one unfolding of the definition
        return [z3.Implies(h <= l, fold(a, l, h) == ident),
                z3.Implies(l < h, fold(a, l, h) == op(fold(a, l, h - 1), z3.Select(a, h - 1)))]
    def qs():
        out = []
        hy = [assoc, idl, idr, l <= m]
        out.append(('base', hy + d(m, m), op(fold(a, l, m), fold(a, m, m)) == fold(a, l, m)))
        out.append(('step', hy + [m <= h] + d(m, h + 1) + d(l, h + 1) + [op(fold(a, l, m), fold(a, m, h)) == fold(a, l, h)],
                    op(fold(a, l, m), fold(a, m, h + 1)) == fold(a, l, h + 1)))
        out.append(('singleton', hy + d(m, m + 1) + d(m, m), fold(a, m, m + 1) == z3.Select(a, m)))
        return out
    return [Lemma('fold splits', qs)]

def frame_fold(a, b, l, h, d=0):
    """instance of: equal elements give equal folds (induction on h, proved in fold_frame_lemma)"""
    j = z3.Int('ff_j')
    return z3.Implies(z3.ForAll([j], z3.Implies(z3.And(l <= j, j < h), z3.Select(a, j) == z3.Select(b, j + d))),
                      fold(a, l, h) == fold(b, l + d, h + d))

def fold_frame_lemma():
    ident = z3.Int('lem_id')
    a = z3.Const('lem_a', AI); b = z3.Const('lem_b', AI)
    l, h, d = z3.Ints('lem_l lem_h lem_d')
    j = z3.Int('ff_j')
    def de(a, l, h):
        return [z3.Implies(h <= l, fold(a, l, h) == ident), z3.Implies(l < h, fold(a, l, h) == op(fold(a, l, h - 1), z3.Select(a, h - 1)))]
    def qs():
        eq = lambda hh: z3.ForAll([j], z3.Implies(z3.And(l <= j, j < hh), z3.Select(a, j) == z3.Select(b, j + d)))
        return [('base', de(a, l, l) + de(b, l + d, l + d), fold(a, l, l) == fold(b, l + d, l + d)),
                ('step', de(a, l, h + 1) + de(b, l + d, h + d + 1) + [l <= h, eq(h + 1), fold(a, l, h) == fold(b, l + d, h + d)],
                 fold(a, l, h + 1) == fold(b, l + d, h + d + 1))]
    return [Lemma('fold depends on the elements only', qs)]

# ---------------------------------------------------------------- candidates
def value_vars(ctx):
    return [(n, v) for n, v in enumerate(ctx.vars) if v.kind == 'int' and v.w == 64]

def fold_loop_cands(arrays, los=None):
    """r == fold(A, lo, index read next) and Out[k] == fold(A, lo, k) for what was written"""
    def gen(ctx):
        out = []
        todo = {}
        for A, a in arrays():
            todo[(A, a.get_id())] = (A, a)
        for rid, idx, at in ctx.reads:
            if 0 in ctx.st0.mem[rid].fields:
                a = ctx.st0.mem[rid].fields[0][1]
                todo[(rid, a.get_id())] = (rid, a)
        for A in todo.values():
            rd = [(idx, at) for rid, idx, at in ctx.reads if rid == A[0]]
            a = A[1]
            inits = [v.init for v in ctx.vars]
            for idx, at in rd[:3]:
                if any(v.init is None for v in ctx.vars):
                    continue
                t0 = at(inits)
                lows = [Lin(0), t0, t0 - 1]
                for n, v in value_vars(ctx):
                    if ctx.steps.get(v.key) and None not in ctx.steps[v.key]:
                        continue        # an induction variable, not an accumulator
                    for ln, lo in enumerate(lows):
                        out.append(('*fold%d(%s) of %s at %s' % (ln, v.key, a, idx), lambda x, w, n=n, at=at, lo=lo, a=a: x[n].z == fold(a, lo.z, at(x).z)))
        return out
    return gen

def less_is_key():
    x, y = z3.Ints('lx ly')
    return [z3.ForAll([x, y], less_f(x, y) == (key(x) < key(y)), patterns=[less_f(x, y)])]

# ---------------------------------------------------------------- blocks
def block_pairs(ctx, first=None):
    """(block size, length) pairs suggested by the accesses of a parallel body"""
    from contracts import block_sizes, lengths
    return [(b, n) for b in block_sizes(ctx) for n in lengths(ctx, first)][:40]

def mn(a, b):
    return z3.If(a <= b, a, b)

def block_fold_cands(arrays):
    """S'[i] == fold(A, i*b, min(i*b+b, n))"""
    def gen(ctx):
        out = []
        for (rid, fo), na in ctx.post.items():
            lab, W, terms = ctx.foot[rid]
            if lab != 'exact' or ctx.pre.mem[rid].fields[fo][0] != 8:
                continue
            if not (len(terms) == 1 and terms[0][0].same(ctx.il)):
                continue
            for A, a in arrays():
                for b, n in block_pairs(ctx, A):
                    def q(w, x, rid=rid, fo=fo, a=a, b=b, n=n):
                        s = nlmul(Lin.of(x), b)
                        return z3.Select(w.arr(rid, fo), x) == fold(a, s.z, mn((s + b).z, n.z))
                    lab = 'blocks %s %s|%s/%s' % (rid, A, b, n)
                    out.append((lab, q))
                    ctx.__dict__.setdefault('blocks', {})[lab] = (rid, fo, a, b, n)
        return out
    return gen

def block_fold_after(ctx, after):
    for lab in ctx.kept:
        if lab in getattr(ctx, 'blocks', {}):
            rid, fo, a, b, n = ctx.blocks[lab]
            # side conditions of the lemma
            side = z3.And(ctx.lo.z == 0, n.z >= 0, b.z >= 0)
            if ctx.ex.full_check([f for f, q in after.pc], side, 8000000):
                m = z3.Int('bm')
                s = after.mem[rid].fields[fo][1]
                mb = nlmul(Lin.of(m), b).z
                after.assume(z3.ForAll([m], z3.Implies(z3.And(0 <= m, m <= ctx.hi.z), fold(s, z3.IntVal(0), m) == fold(a, z3.IntVal(0), mn(mb, n.z))),
                                       patterns=[fold(s, z3.IntVal(0), m)]), True)
                hb = nlmul(ctx.hi, b).z
                after.assume(fold(s, z3.IntVal(0), ctx.hi.z) == fold(a, z3.IntVal(0), mn(hb, n.z)))

def block_lemmas():
    """fold of the block folds is the fold of the whole: induction on the number of blocks"""
    ident, b, n, hi, m = z3.Ints('lem_id lem_b lem_n lem_hi lem_m')
    a = z3.Const('lem_a', AI); s = z3.Const('lem_s', AI)
    def de(a, l, h):
        return [z3.Implies(h <= l, fold(a, l, h) == ident), z3.Implies(l < h, fold(a, l, h) == op(fold(a, l, h - 1), z3.Select(a, h - 1)))]
    l_, m_, h_ = z3.Ints('l_ m_ h_')
    split = lambda m, h: z3.Implies(z3.And(0 <= m, m <= h), op(fold(a, 0, m), fold(a, m, h)) == fold(a, 0, h))
    Z = z3.IntVal(0)
    def qs():
        mb = mulF(m, b); hb = mulF(hi - 1, b); mb1 = mb + b
        mono = [z3.Implies(z3.And(m >= 0, b >= 0), mb >= 0)]
        return [('base', de(s, Z, Z) + de(a, Z, Z) + [n >= 0], fold(s, Z, Z) == fold(a, Z, mn(z3.IntVal(0), n))),
                ('step', de(s, Z, m + 1) + de(a, mb, mn(mb1, n)) + mono + [0 <= m, m < hi, b >= 0, n >= 0, op(fold(a, Z, n), ident) == fold(a, Z, n), split(mb, mn(mb1, n)),
                         z3.Select(s, m) == fold(a, mb, mn(mb1, n)), fold(s, Z, m) == fold(a, Z, mn(mb, n))],
                 fold(s, Z, m + 1) == fold(a, Z, mn(mb1, n)))]
    return [Lemma('blocks compose', qs)]

def seq_of(ex, st, p):
    return Storage().get(ex, st, p)

def reduce_contract():
    """internal::reduce on a sequence: the fold of its elements (recursive call; discharged by the unit reduce_seq)"""
    def apply(ex, st, name, args, rett):
        d = ex.mod.dem[name]
        o = seq_of(ex, st, args[0])
        idc = ex.load(st, ('i', 64), args[1])
        ex.oblige(st, 'reduce is called with the identity of the operation', ex.as_lin(st, idc, 64).z == ex.idn.z, 'pre')
        if getattr(ex, 'variant_n', None) is not None:
            ex.oblige(st, 'the recursive call of reduce is on a shorter sequence', o.n.z < ex.variant_n.z, 'decreases')
        if o.rid is None:
            return [(st, ex.idn)]
        a = st.mem[o.rid].fields[0][1]
        ex.log_access(st, 'R', o.rid, (Lin(0), o.n))
        t = fold(a, z3.IntVal(0), o.n.z)
        ex.range[t.get_id()] = (0, (1 << 64) - 1, t)
        return [(st, Lin.atom(t))]
    return SpecContract('internal::reduce(sequence) = fold', lambda n, d, b: b == 'parlay::internal::reduce' and 'reduce<parlay::sequence<unsigned long' in d, apply)

# ---------------------------------------------------------------- pointwise facts about written elements
def _allowed(label, rid, ex):
    return True

def fa(k, body, *pats):
    """forall with patterns; patterns the solver cannot take (interpreted terms inside) are left to its own choice"""
    ok = [p for p in pats if not has_ite(p)]
    return z3.ForAll([k], body, patterns=ok) if ok else z3.ForAll([k], body)

def copied(ctx, st, rid, fo):
    """elements written by range copies: those of the source, shifted"""
    out = []
    if not hasattr(ctx, 'sink'):
        return out
    seen = set()
    for d, s, sh in ctx.sink.copies:
        if d != rid or s not in ctx.pre.mem or ctx.i.get_id() in sh.d or (s, str(sh)) in seen:
            continue
        seen.add((s, str(sh)))
        src = ctx.pre.mem[s].fields[fo][1]
        out.append(('copy of %s by %s' % (ctx.pre.mem[s].name, sh), lambda v, a, k, src=src, sh=sh: z3.Select(a, k) == z3.Select(src, k - sh.z)))
    return out

def pointwise_loop(preds, regions=None):
    """for every element written so far: P(view, array, k)"""
    def gen(ctx):
        out = []
        inits = [v.init for v in ctx.vars]
        if any(v is None for v in inits):
            inits = None
        seen = set()
        for rid, idx, at in ctx.writes:
            m0 = ctx.st0.mem[rid]
            if regions is not None and not regions(ctx.ex, rid):
                continue
            t0 = at(inits) if inits is not None else None
            if t0 is None:
                continue
            for fo in m0.fields:
                if ('a', rid, fo) not in ctx.mods:
                    continue
                for lab, P in preds(ctx, ctx.st0, rid, fo):
                    for dr in ('up', 'down'):
                        key = (rid, fo, lab, dr, str(idx))
                        if key in seen:
                            continue
                        seen.add(key)
                        def fn(x, w, rid=rid, fo=fo, at=at, P=P, t0=t0, dr=dr):
                            k = z3.Int('pw_k')
                            arr = w.arr(rid, fo)
                            c = z3.And(t0.z <= k, k < at(x).z) if dr == 'up' else z3.And(at(x).z < k, k <= t0.z)
                            return fa(k, z3.Implies(c, P(w, arr, k)), z3.Select(arr, k))
                        out.append(('pw %s %s %s' % (dr, m0.name, lab), fn))
        return out
    return gen

def pointwise_par(preds, regions=None):
    def gen(ctx):
        out = []
        ctx.pw = {}
        for (rid, fo), na in ctx.post.items():
            if fo == 'gh' or (regions is not None and not regions(ctx.ex, rid)):
                continue
            lab, W, terms = ctx.foot[rid]
            if lab == 'none':
                continue
            for pl, P in preds(ctx, ctx.pre, rid, fo):
                def q(w, x, rid=rid, fo=fo, P=P, W=W, terms=terms, lab=lab):
                    arr = w.arr(rid, fo)
                    sub = lambda t: z3.substitute(t, (ctx.i, x)) if isinstance(x, z3.ExprRef) else t
                    if lab == 'exact' and all(b is None for a, b in terms):
                        return z3.And(*[P(w, arr, sub(a.z)) for a, b in terms])
                    k = z3.Int('pw_k')
                    return fa(k, z3.Implies(W(x, k), P(w, arr, k)), z3.Select(arr, k))
                name = 'pw %s%s %s' % (ctx.pre.mem[rid].name, '+%s' % fo if fo else '', pl)
                out.append((name, q))
                ctx.pw[name] = (rid, fo, P, q)
        return out
    return gen

def euclid_facts(ex, K, b, x):
    """lemma euclid: for b >= 1 and K >= 0 there is x >= 0 with x*b <= K < x*b + b"""
    p = nlmul(Lin.atom(x), b)
    return [z3.Implies(z3.And(b.z >= 1, K >= 0), z3.And(x >= 0, x <= K, p.z <= K, K < p.z + b.z))]

def euclid_lemma():
    b, n, x, p = z3.Ints('lem_b lem_n lem_x lem_p')
    def qs():
        return [('base', [b >= 1], z3.And(0 * b <= 0, 0 < 0 * b + b)),
                ('step', [b >= 1, n >= 0, x >= 0, x <= n, p <= n, n < p + b],
                 z3.Or(z3.And(x <= n + 1, p <= n + 1, n + 1 < p + b), z3.And(x + 1 <= n + 1, p + b <= n + 1, n + 1 < p + b + b)))]
    return [Lemma('division by a block size', qs)]

def pointwise_after(ctx, after):
    """cover: facts about the parts written by the iterations give a fact about the whole range"""
    ex = ctx.ex
    for lab in ctx.kept:
        if lab not in getattr(ctx, 'pw', {}):
            continue
        rid, fo, P, q = ctx.pw[lab]
        flab, W, terms = ctx.foot[rid]
        view = View(ex, after, {}, False)
        arr = after.mem[rid].fields[fo][1]
        hyps = [f for f, _ in after.pc]
        from contracts import block_sizes, lengths
        if flab == 'exact':
            # pieces [base + b*i, ...) of [base, base + n), the last piece ends at base + n
            rs = [(x, y) for x, y in terms if y is not None]
            at0 = lambda l: Lin.of(z3.simplify(z3.substitute(l.z, (ctx.i, z3.IntVal(0))), som=True))
            noi = lambda l: ctx.i.get_id() not in {t.get_id() for t, c in l.d.values()}
            ends = [y for x, y in rs if noi(y)]
            done = False
            for x0, y0 in rs[:1]:
                base = at0(x0)
                for e in ends[:2] or lengths(ctx, rid):
                    n = e - base if ends else e
                    for b in block_sizes(ctx):
                        K = ex.fresh('K'); x = ex.fresh('x')
                        h2 = hyps + euclid_facts(ex, K, b, x) + [K >= 0, K < n.z]
                        if ex.full_check([f for f in h2 if not has_quant(f)], z3.And(ctx.lo.z <= x, x < ctx.hi.z, W(x, base.z + K)), 3000000):
                            k = z3.Int('pw_k')
                            after.assume(z3.ForAll([k], z3.Implies(z3.And(base.z <= k, k < (base + n).z), P(view, arr, k)), patterns=[z3.Select(arr, k)]), True)
                            done = True; break
                    if done: break
            continue
        done = False
        for n in lengths(ctx, rid):
            for b in block_sizes(ctx):
                K = ex.fresh('K'); x = ex.fresh('x')
                Kf = euclid_facts(ex, K, b, x)
                # W(x, K) and P(K) follow
                h2 = hyps + Kf + [K >= 0, K < n.z]
                ok = ex.full_check([f for f in h2 if not has_quant(f)], z3.And(ctx.lo.z <= x, x < ctx.hi.z, W(x, K)), 3000000)
                if ok:
                    k = z3.Int('pw_k')
                    after.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n.z), P(view, arr, k)), patterns=[z3.Select(arr, k)]), True)
                    done = True
                    break
            if done:
                break

def read_arrays(ctx):
    """(rid, contents at the start) of the arrays a loop or parallel body reads"""
    out = []
    if hasattr(ctx, 'reads'):
        rids = [r for r, _, _ in ctx.reads]
        st = ctx.st0
    else:
        rids = [it[1] for it in ctx.sink.items if it[0] in 'rR']
        st = ctx.pre
    for r in rids:
        m = st.mem.get(r)
        if m is not None and m.kind == 'arr' and 0 in m.fields and not any(r == o for o, _ in out):
            out.append((r, m.fields[0][1]))
    return out

def fold_prefix_preds(arrays, dd):
    def preds(ctx, st, rid, fo):
        todo = {a.get_id(): a for r, a in read_arrays(ctx)}
        for A, a in arrays():
            todo[a.get_id()] = a
        return [('prefix%d of %s' % (d, a), (lambda w, arr, k, a=a, d=d: z3.Select(arr, k) == fold(a, z3.IntVal(0), k + d if d else k))) for a in todo.values() for d in sorted({0, dd})]
    return preds

def new_seq(ex, st, arr, n, T='u64'):
    """a sequence object holding the array region"""
    rid = ex.new_rid('seqobj')
    st.mem[rid] = CellMem(16, None, 'seqobj')
    st.mem[rid].cells[0] = (15, SeqVal(arr, n))
    return Ptr(rid, 0)
