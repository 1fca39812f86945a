"""C17: the hash table (prioritised linear probing).

Abstract state: the cells a[0..m), E marks an empty cell; R(e) is the rank of the key of e in the order of cmp.
Table invariant INV: if a[k] is an element and j lies on the way from its first index to k, a[j] is an element of
strictly higher rank (so a key occurs at most once and find may stop early).
Insertions run under interference: between any two steps of one insertion others may change the table, but only raise
the rank of cells and keep INV; the steps of one insertion (its compare-exchanges) are proved to do no more than that
and to keep every key: what a compare-exchange takes out of the table is what the insertion carries on."""
from c06 import *

HF = z3.Function('first_of_rank', I, I)       # the hash depends on the key only, and keys of the same rank are equal
HR = z3.Function('hash_to_range', I, I)
fF = z3.Function('uf_f', I, I)
R = lambda e: key(fF(e))
k_, j_ = z3.Ints('ht_k ht_j')

class Table:
    def __init__(self, ex, st, m=None):
        self.m = m if m is not None else size(ex, st, 'm')
        st.assume(self.m.z >= 1)
        m = self.m.z
        self.A = ex.new_array(st, 'TA', self.m)
        self.E = ex.fresh_lin('empty', 64)
        ex.axioms += less_is_key()
        ex.axioms.append(z3.ForAll([k_], z3.And(0 <= HR(k_), HR(k_) < m), patterns=[HR(k_)]))
        off = ex.layout17
        rid = ex.new_rid('table')
        st.mem[rid] = CellMem(off[4], None, 'table')
        c = st.mem[rid].cells
        c[off[0]] = (8, self.m); c[off[1]] = (8, self.E); c[off[2]] = (8, self.E)
        next(x for x in ex.contracts if isinstance(x, Storage)).put(ex, st, Ptr(rid, off[3]), SeqVal(self.A, self.m))
        self.p = Ptr(rid, 0)
        self.a0 = arr(st, self.A)
        st.assume(self.inv(self.a0), True)
        def hash_(ex, s, a):
            t = HF(key(a[0].z))
            ex.range[t.get_id()] = (0, (1 << 64) - 1, t)
            return Lin.atom(t)
        ex.ghost_fns['gh_hash'] = hash_
    def first(self, e):
        return HR(HF(R(e)))
    def firstr(self, r):
        return HR(HF(r))
    def firstk(self, k):
        return HR(HF(key(k)))
    def d(self, a, b):
        return z3.If(a <= b, b - a, b + self.m.z - a)
    def before(self, f, j, i):
        """j lies on the way from f to i (i not included)"""
        return self.d(f, j) < self.d(f, i)
    def inr(self, k):
        return z3.And(0 <= k, k < self.m.z)
    def full(self, a, k):
        return sel(a, k) != self.E.z
    def inv_at(self, a, k, j):
        return z3.Implies(z3.And(self.inr(k), self.inr(j), self.full(a, k), self.before(self.first(sel(a, k)), j, k)),
                          z3.And(self.full(a, j), R(sel(a, j)) > R(sel(a, k))))
    def inv(self, a):
        return z3.ForAll([k_, j_], self.inv_at(a, k_, j_), patterns=[z3.MultiPattern(sel(a, k_), sel(a, j_))])
    def path(self, a, r, f, i):
        """every cell on the way from f to i is an element of rank above r"""
        return z3.ForAll([j_], z3.Implies(z3.And(self.inr(j_), self.before(f, j_, i)), z3.And(self.full(a, j_), R(sel(a, j_)) > r)), patterns=[sel(a, j_)])

def range_contract():
    def apply(ex, st, name, args, rett):
        t = HR(ex.unsigned(st, ex.as_lin(st, args[1], 64), 64).z)
        ex.range[t.get_id()] = (0, MAXN, t)
        return [(st, Lin.atom(t))]
    return SpecContract('hashToRange(h): a function of h, below m', lambda nm, d, b: b.endswith('::hashToRange'), apply)

def layout(ex, st):
    got = []
    ex.ghost_fns['gh_val'] = lambda ex, s, a: got.append(ex.as_lin(s, a[0], 64).c)
    rid = ex.new_rid('obj'); s = st.fork()
    s.mem[rid] = CellMem(64, None, 'obj')
    ex.run_function(s, '@vc_layout', [Ptr(rid, 0)])
    del ex.ghost_fns['gh_val']
    ex.layout17 = got
    if len(got) != 5:
        raise Unsupported('layout')

def find_cands(t, k):
    def gen(ctx):
        out = []
        for p, u in enumerate(ctx.vars):
            if u.kind == 'int' and u.w == 64:
                out.append(('*%s an index' % u.key, lambda x, w, p=p: t.inr(x[p].z)))
                out.append(('everything before %s ranks higher' % u.key, lambda x, w, p=p: t.path(w.arr(t.A, 0), key(k.z), t.firstk(k.z), x[p].z)))
                for q, v in enumerate(ctx.vars):
                    if p != q and v.kind == 'int' and v.w == 64:
                        out.append(('%s is the cell at %s' % (v.key, u.key), lambda x, w, p=p, q=q: x[q].z == sel(w.arr(t.A, 0), x[p].z)))
        return out
    return gen

def run_find(entry, gh, index):
    def run(ex, st):
        layout(ex, st)
        t = Table(ex, st)
        st.mem[t.A].readonly = True
        k = ex.fresh_lin('key', 64)
        a = t.a0
        ex.loop_cands.append(find_cands(t, k))
        seen = []
        def g(ex, s, args):
            seen.append(1)
            r = ex.unsigned(s, ex.as_lin(s, args[0], 64), 64).z
            x = ex.fresh('x')
            absent = z3.Implies(z3.And(t.inr(x), t.full(a, x)), R(sel(a, x)) != key(k.z))
            if index:
                none = r == (1 << 64) - 1
                ex.oblige(s, 'the index returned holds the key', z3.Or(none, z3.And(t.inr(r), t.full(a, r), R(sel(a, r)) == key(k.z))), 'post')
                ex.oblige(s, '-1 is returned only if the key is nowhere in the table', z3.Implies(none, absent), 'post')
            else:
                y = z3.Int('w_y')
                ex.oblige(s, 'an entry that is returned has the key', z3.Or(r == t.E.z, R(r) == key(k.z)), 'post')
                ex.oblige(s, 'an entry that is returned is the one in the table', z3.Implies(z3.And(r != t.E.z, t.inr(x), t.full(a, x), R(sel(a, x)) == key(k.z)), sel(a, x) == r), 'post')
                ex.oblige(s, 'empty is returned only if the key is nowhere in the table', z3.Implies(r == t.E.z, absent), 'post')
        ex.ghost_fns[gh] = g
        ex.run_function(st, entry, [t.p, k])
        if not seen:
            raise Unsupported('result not reached')
    return run

def run_insert(entry, upd):
    def run(ex, st):
        layout(ex, st)
        t = Table(ex, st)
        v0 = ex.fresh_lin('v', 64)
        st.assume(v0.z != t.E.z)
        RQ = z3.Function('replaceQ', I, I, B)
        UP = z3.Function('update', I, I, I)
        if upd:
            x, y = z3.Ints('up_x up_y')
            ex.axioms.append(z3.ForAll([x, y], z3.And(UP(x, y) != t.E.z, fF(UP(x, y)) == fF(x)), patterns=[UP(x, y)]))
        G = ex.new_rid('carried')
        st.mem[G] = CellMem(32, None, 'carried')
        # what this insertion still has to bring in; 8: 1 while there is something; 16: the last value read; 24: 1 once it is known to be superseded
        st.mem[G].cells.update({0: (8, v0), 8: (8, Lin(1)), 16: (8, t.E), 24: (8, Lin(0))})
        cell = lambda s, o: s.mem[G].cells[o][1]
        def others(ex, s, rid, idx=None):
            if rid != t.A:
                return None
            m = s.mw(t.A)
            a = m.fields[0][1]
            na = ex.fresh_arr('TA')
            m.fields[0] = (8, na)
            s.assume(z3.ForAll([k_], z3.Or(sel(na, k_) == sel(a, k_), z3.And(t.full(na, k_), z3.Or(z3.Not(t.full(a, k_)), R(sel(na, k_)) >= R(sel(a, k_))))), patterns=[sel(na, k_)]), True)
            s.assume(z3.ForAll([k_], z3.Or(sel(na, k_) == sel(a, k_), z3.And(t.full(na, k_), z3.Or(z3.Not(t.full(a, k_)), R(sel(na, k_)) >= R(sel(a, k_))))), patterns=[sel(a, k_)]), True)
            s.assume(t.inv(na), True)
            ex.log_access(s, 'W', t.A, (Lin(0), t.m))
            if idx is not None:
                e = sel(na, idx.z)
                ex.range[e.get_id()] = (0, (1 << 64) - 1, e)
                s.mw(G).cells[16] = (8, Lin.atom(e))
                ex.log_access(s, 'w', G, Lin(16))
            return m
        ex.interfere_arr = others
        def replaceq(ex, s, a):
            n, c = (ex.as_lin(s, x, 64) for x in a)
            ex.oblige(s, 'the element carried is compared', n.z == cell(s, 0).z, 'post')
            ex.oblige(s, 'it is compared with an element of the table that has the same key', z3.And(c.z == cell(s, 16).z, c.z != t.E.z, R(c.z) == R(n.z)), 'post')
            r = RQ(n.z, c.z)
            s.mw(G).cells[24] = (8, ex.as_lin(s, z3.Not(r), 64))
            return ex.as_lin(s, r, 64)
        def update(ex, s, a):
            c, n = (ex.as_lin(s, x, 64) for x in a)
            r = UP(c.z, n.z)
            ex.range[r.get_id()] = (0, (1 << 64) - 1, r)
            return Lin.atom(r)
        def cas(ex, s, a):
            p, o, n = a
            o, n = ex.as_lin(s, o, 64), ex.as_lin(s, n, 64)
            if p.rid != t.A:
                raise Unsupported('compare-exchange elsewhere')
            i = p.off.div_exact(8)[0]
            ex.bounds(s, s.mem[t.A], i, 'write', p)
            others(ex, s, t.A)
            m = s.mw(t.A)
            cur = m.fields[0][1]
            car, live = cell(s, 0), cell(s, 8)
            ok = ex.fresh_bool('cas')
            s.assume(z3.Implies(ok, sel(cur, i.z) == o.z))
            samekey = z3.And(o.z != t.E.z, R(o.z) == R(car.z))
            new_ok = n.z == car.z
            if upd:
                new_ok = z3.If(samekey, n.z == UP(o.z, car.z), new_ok)
            ob = lambda lab, g: ex.oblige(s, lab, z3.Implies(ok, g), 'post')
            ob('an element is still to be brought in', live.z == 1)
            ob('what is written is the element carried', new_ok)
            ob('an element is written over an empty cell, one of lower rank, or the same key if it replaces it',
               z3.Or(o.z == t.E.z, R(n.z) > R(o.z), z3.And(samekey, RQ(car.z, o.z))))
            x = ex.fresh('x')
            ob('every cell on the way of the element ranks higher', z3.Implies(z3.And(t.inr(x), t.before(t.first(n.z), x, i.z), sel(cur, x) == sel(cur, x)), z3.And(t.full(cur, x), R(sel(cur, x)) > R(n.z))))
            na = ex.fresh_arr('TA')
            s.assume(z3.ForAll([k_], sel(na, k_) == z3.If(z3.And(ok, k_ == i.z), n.z, sel(cur, k_)), patterns=[sel(na, k_)]), True)
            s.assume(z3.ForAll([k_], z3.Or(k_ == i.z, sel(na, k_) == sel(cur, k_)), patterns=[sel(cur, k_)]), True)
            x, y = ex.fresh('x'), ex.fresh('y')
            f = z3.And(sel(na, x) == sel(na, x), sel(na, y) == sel(na, y))
            ex.oblige(s, 'the table invariant is kept', t.inv_at(na, x, y), 'post')
            m.fields[0] = (8, na)
            ex.log_access(s, 'W', t.A, (Lin(0), t.m))
            gone = z3.Or(o.z == t.E.z, samekey)
            nc = ex.fresh('carried')
            s.assume(nc == z3.If(z3.And(ok, z3.Not(gone)), o.z, car.z))
            ex.range[nc.get_id()] = (0, (1 << 64) - 1, nc)
            nl = ex.fresh('live')
            s.assume(nl == z3.If(z3.And(ok, gone), 0, live.z))
            ex.range[nl.get_id()] = (0, 1, nl)
            g = s.mw(G)
            g.cells[0] = (8, Lin.atom(nc)); g.cells[8] = (8, Lin.atom(nl))
            for q in (0, 8):
                ex.log_access(s, 'w', G, Lin(q))
            return ex.as_lin(s, ok, 64)
        ex.ghost_fns.update({'gh_replace': replaceq, 'gh_update': update, 'gh_cas': cas})
        def cands(ctx):
            out = []
            ce = lambda w, o: w.st.mem[G].cells[o][1].z
            iv = [(p, u) for p, u in enumerate(ctx.vars) if u.kind == 'int' and u.w == 64]
            cv = [p for p, u in iv if G in u.key and u.key.endswith('_0')]
            lv = [p for p, u in iv if G in u.key and u.key.endswith('_8')]
            car = (lambda x, w: x[cv[0]].z) if cv else (lambda x, w: ce(w, 0))
            live = (lambda x, w: x[lv[0]].z) if lv else (lambda x, w: ce(w, 8))
            out.append(('*something is carried', lambda x, w: live(x, w) == 1))
            out.append(('it is an element', lambda x, w: car(x, w) != t.E.z))
            out.append(('invariant', lambda x, w: t.inv(w.arr(t.A, 0))))
            for p, u in iv:
                if G in u.key:
                    continue
                out.append(('*%s is carried' % u.key, lambda x, w, p=p: x[p].z == car(x, w)))
                out.append(('*%s an index' % u.key, lambda x, w, p=p: t.inr(x[p].z)))
                out.append(('before %s ranks higher' % u.key, lambda x, w, p=p: t.path(w.arr(t.A, 0), R(car(x, w)), t.first(car(x, w)), x[p].z)))
            return out
        ex.loop_cands.append(cands)
        seen = []
        def done(ex, s, a):
            seen.append(1)
            ok = zb(ex.as_bool(s, a[0]))
            ex.oblige(s, 'true is returned only when nothing is carried any more', z3.Implies(ok, cell(s, 8).z == 0), 'post')
            ex.oblige(s, 'false is returned only for an element that does not replace the entry of its key in the table', z3.Implies(z3.Not(ok), z3.And(cell(s, 8).z == 1, cell(s, 24).z == 1)), 'post')
        ex.ghost_fns['gh_inserted'] = done
        ex.run_function(st, entry, [t.p, v0])
        if not seen:
            raise Unsupported('result not reached')
    return run

# ---------------------------------------------------------------- deletion, one at a time
def run_delete(ex, st):
    layout(ex, st)
    t = Table(ex, st)
    a0 = t.a0
    v0 = ex.fresh_lin('key', 64)
    K0 = key(v0.z)
    # the table is not overfull
    e = ex.fresh('free')
    st.assume(z3.And(t.inr(e), sel(a0, e) == t.E.z))
    # what the table holds before: el(r) is the element of rank r, if P0(r)
    P0 = z3.Function('held', I, B); el = z3.Function('element_of', I, I)
    LOC = ex.new_array(st, 'loc', Lin(MAXN)); st.mem[LOC].opaque = False
    l0 = arr(st, LOC)
    st.assume(z3.ForAll([k_], z3.Implies(z3.And(t.inr(k_), t.full(a0, k_)), z3.And(P0(R(sel(a0, k_))), sel(a0, k_) == el(R(sel(a0, k_))), k_ == sel(l0, R(sel(a0, k_))))), patterns=[sel(a0, k_)]), True)
    st.assume(z3.ForAll([k_], z3.Implies(P0(k_), z3.And(t.inr(sel(l0, k_)), t.full(a0, sel(l0, k_)), sel(a0, sel(l0, k_)) == el(k_), R(el(k_)) == k_)), patterns=[P0(k_)]), True)
    st.assume(z3.ForAll([k_], z3.Implies(P0(k_), z3.And(t.inr(sel(l0, k_)), t.full(a0, sel(l0, k_)), sel(a0, sel(l0, k_)) == el(k_), R(el(k_)) == k_)), patterns=[sel(l0, k_)]), True)
    pr = P0(K0)
    G = ex.new_rid('deleting')
    D0 = ex.fresh('D'); st.assume(D0 == K0)
    X0 = ex.fresh('X'); st.assume(z3.Implies(pr, X0 == sel(l0, K0)))
    st.mem[G] = CellMem(24, None, 'deleting')
    # 0: rank of what is being removed, 8: 0 before the first, 1 while there are two copies, 2 when done, 16: the position to be freed
    st.mem[G].cells.update({0: (8, Lin.atom(D0)), 8: (8, Lin(0)), 16: (8, Lin.atom(X0))})
    cell = lambda s, o: s.mem[G].cells[o][1].z
    KC = lambda k: z3.And(t.inr(k))
    class V:
        """the parts of the invariant over table a, places l, D, mode, X"""
        def __init__(self, a, l, D, mode, X):
            self.a, self.l, self.D, self.mode, self.X = a, l, D, mode, X
        def order(self, k, j):
            a = self.a
            return z3.Implies(z3.And(t.inr(k), t.inr(j), t.full(a, k), t.before(t.first(sel(a, k)), j, k)),
                              z3.And(t.full(a, j), z3.Or(R(sel(a, j)) > R(sel(a, k)), z3.And(self.mode == 1, k == self.X, R(sel(a, k)) == self.D, R(sel(a, j)) == self.D, j == sel(self.l, self.D)))))
        def content(self, k):
            a = self.a; r = R(sel(a, k))
            return z3.Implies(z3.And(t.inr(k), t.full(a, k)), z3.And(P0(r), sel(a, k) == el(r), z3.Or(k == sel(self.l, r), z3.And(r == self.D, k == self.X, self.mode < 2)), z3.Implies(self.mode >= 1, r != K0)))
        def kept(self, r):
            return z3.Implies(z3.And(P0(r), r != K0), z3.And(t.inr(sel(self.l, r)), t.full(self.a, sel(self.l, r)), sel(self.a, sel(self.l, r)) == el(r), R(el(r)) == r))
        def extra(self):
            a, X = self.a, self.X
            return z3.And(0 <= self.mode, self.mode <= 2, sel(a, e) == t.E.z, z3.Implies(self.mode == 0, self.D == K0),
                          z3.Implies(z3.Or(pr, self.mode == 1), z3.Implies(self.mode < 2, z3.And(t.inr(X), t.full(a, X), R(sel(a, X)) == self.D))),
                          z3.Implies(self.mode == 1, z3.And(pr, P0(self.D), self.D != K0, X != sel(self.l, self.D), t.before(t.firstr(self.D), sel(self.l, self.D), X))),
                          z3.Implies(z3.Not(pr), self.mode == 0))
    def of(s):
        return V(arr(s, t.A), arr(s, LOC), cell(s, 0), cell(s, 8), cell(s, 16))
    def cas(ex, s, args):
        p, o, n = args
        o, n = ex.as_lin(s, o, 64).z, ex.as_lin(s, n, 64).z
        if p.rid != t.A:
            raise Unsupported('compare-exchange elsewhere')
        il = p.off.div_exact(8)[0]
        ex.bounds(s, s.mem[t.A], il, 'write', p)
        i = il.z
        v = of(s)
        ex.oblige(s, 'nothing intervenes: the compare-exchange succeeds', sel(v.a, i) == o, 'post')
        ex.oblige(s, 'the position to be freed is overwritten', z3.And(z3.Or(v.mode == 0, v.mode == 1), i == v.X, o != t.E.z, R(o) == v.D), 'post')
        jj = sel(v.l, R(n))
        ex.oblige(s, 'it is overwritten with an element of the table found at another place, or emptied', z3.Or(n == t.E.z, z3.And(t.inr(jj), jj != i, sel(v.a, jj) == n, R(n) != v.D)), 'post')
        na, nl = ex.fresh_arr('TA'), ex.fresh_arr('loc')
        for q in ([sel(na, k_)], [sel(v.a, k_)]):
            s.assume(z3.ForAll([k_], sel(na, k_) == z3.If(k_ == i, n, sel(v.a, k_)), patterns=q), True)
        for q in ([sel(nl, k_)], [sel(v.l, k_)]):
            s.assume(z3.ForAll([k_], sel(nl, k_) == z3.If(z3.And(n != t.E.z, k_ == R(n)), i, sel(v.l, k_)), patterns=q), True)
        D, mode, X = ex.fresh('D'), ex.fresh('mode'), ex.fresh('X')
        s.assume(z3.And(D == z3.If(n == t.E.z, v.D, R(n)), mode == z3.If(n == t.E.z, 2, 1), X == z3.If(n == t.E.z, v.X, jj)))
        w = V(na, nl, D, mode, X)
        x, y = ex.fresh('x'), ex.fresh('y')
        f = z3.And(sel(na, x) == sel(na, x), sel(na, y) == sel(na, y), sel(v.l, x) == sel(v.l, x))
        s2 = s.fork()
        ex.oblige(s, 'the table invariant is kept', w.order(x, y), 'post')
        ex.oblige(s, 'the table holds only what it held, each once', w.content(x), 'post')
        ex.oblige(s, 'nothing but the key to delete is lost', w.kept(x), 'post')
        ex.oblige(s, 'the copy that is left over is to be removed next', w.extra(), 'post')
        s.mw(t.A).fields[0] = (8, na); s.mw(LOC).fields[0] = (8, nl)
        g = s.mw(G)
        for q, z in ((0, D), (8, mode), (16, X)):
            g.cells[q] = (8, Lin.atom(z)); ex.log_access(s, 'w', G, Lin(q))
        ex.log_access(s, 'W', t.A, (Lin(0), t.m)); ex.log_access(s, 'W', LOC, (Lin(0), Lin(MAXN)))
        assume_inv(s, w)
        return Lin(1)
    def quant(v):
        return [('order', z3.ForAll([k_, j_], v.order(k_, j_), patterns=[z3.MultiPattern(sel(v.a, k_), sel(v.a, j_))])),
                ('content', z3.ForAll([k_], v.content(k_), patterns=[sel(v.a, k_)])),
                ('kept', z3.And(z3.ForAll([k_], v.kept(k_), patterns=[P0(k_)]), z3.ForAll([k_], v.kept(k_), patterns=[sel(v.l, k_)]))),
                ('extra', v.extra())]
    def assume_inv(s, v):
        for _, f in quant(v):
            s.assume(f, True)
    def gap(v, jj):
        """every cell after X and before jj is an element whose way starts after X"""
        return z3.ForAll([k_], z3.Implies(z3.And(t.inr(k_), k_ != v.X, t.before(v.X, k_, jj)), z3.And(t.full(v.a, k_), t.d(t.first(sel(v.a, k_)), k_) < t.d(v.X, k_))), patterns=[sel(v.a, k_)])
    def cands(ctx):
        iv = [(p, u) for p, u in enumerate(ctx.vars) if u.kind == 'int' and u.w == 64]
        g = {u.key[-2:].strip('_'): p for p, u in iv if G in u.key}
        gi = {o: next((p for p, u in iv if u.key == 'cell_%s_%d' % (G, o)), None) for o in (0, 8, 16)}
        def view(x, w):
            gv = lambda o: x[gi[o]].z if gi[o] is not None else w.st.mem[G].cells[o][1].z
            return V(w.arr(t.A, 0), w.arr(LOC, 0), gv(0), gv(8), gv(16))
        out = []
        for n, lab in enumerate(('order', 'content', 'kept', 'extra')):
            out.append(('*' + lab, lambda x, w, n=n: quant(view(x, w))[n][1]))
        sg = [(p, u) for p, u in enumerate(ctx.vars) if u.kind == 'int' and u.w == 32]
        live = lambda v: v.mode < 2
        out.append(('*not done', lambda x, w: live(view(x, w))))
        for p, u in iv:
            if G in u.key:
                continue
            out.append(('*%s an index' % u.key, lambda x, w, p=p: t.inr(x[p].z)))
            out.append(('*the key is %s' % u.key, lambda x, w, p=p: key(x[p].z) == view(x, w).D))
            out.append(('*%s is where it starts' % u.key, lambda x, w, p=p: x[p].z == t.firstr(view(x, w).D)))
            out.append(('*%s is where it is' % u.key, lambda x, w, p=p: z3.Implies(pr, x[p].z == view(x, w).X)))
            out.append(('*before %s ranks higher' % u.key, lambda x, w, p=p: t.path(w.arr(t.A, 0), K0, t.firstk(v0.z), x[p].z)))
            out.append(('*%s is elsewhere' % u.key, lambda x, w, p=p: x[p].z != view(x, w).X))
            out.append(('*gap up to %s' % u.key, lambda x, w, p=p: gap(view(x, w), x[p].z)))
            for q, v in iv:
                if p != q and G not in v.key:
                    out.append(('*%s is the cell at %s' % (v.key, u.key), lambda x, w, p=p, q=q: x[q].z == sel(w.arr(t.A, 0), x[p].z)))
                    out.append(('*%s between X and %s' % (u.key, v.key), lambda x, w, p=p, q=q: t.before(view(x, w).X, x[p].z, x[q].z)))
            for q, v in sg:
                ck = lambda x, w, p=p, q=q: (x[q].z == 0) == z3.And(x[p].z != t.E.z, R(x[p].z) == view(x, w).D)
                out.append(('*%s compares with %s' % (v.key, u.key), ck))
        return out
    ex.loop_cands.append(cands)
    ex.ghost_fns['gh_cas'] = cas
    seen = []
    def done(ex, s, a):
        seen.append(1)
        v = of(s)
        x = ex.fresh('x'); r = ex.fresh('r')
        ex.oblige(s, 'the key is not in the table', z3.Implies(z3.And(t.inr(x), t.full(v.a, x)), R(sel(v.a, x)) != K0), 'post')
        ex.oblige(s, 'everything else is still there', z3.Implies(z3.And(P0(r), r != K0), z3.And(t.inr(sel(v.l, r)), sel(v.a, sel(v.l, r)) == el(r))), 'post')
        ex.oblige(s, 'nothing is there twice or new', z3.Implies(z3.And(t.inr(x), t.full(v.a, x)), z3.And(P0(R(sel(v.a, x))), sel(v.a, x) == el(R(sel(v.a, x))), x == sel(v.l, R(sel(v.a, x))))), 'post')
        y = ex.fresh('y')
        ex.oblige(s, 'the table invariant holds', t.inv_at(v.a, x, y), 'post')
    ex.ghost_fns['gh_deleted'] = done
    ex.run_function(st, '@vc_delete', [t.p, v0])
    if not seen:
        raise Unsupported('result not reached')

# ---------------------------------------------------------------- contents
from interval import interval_contract

def mk_entries(ex, st, n):
    layout(ex, st)
    t = Table(ex, st, n)
    st.mem[t.A].readonly = True
    return [t.p], [t.A], lambda k: sel(t.a0, k) != t.E.z, lambda k: sel(t.a0, k), None

def run_count(ex, st):
    layout(ex, st)
    t = Table(ex, st)
    st.mem[t.A].readonly = True
    selp = lambda k: sel(t.a0, k) != t.E.z
    ex.axioms += count_axioms(selp)
    for s, v in ex.run_function(st, '@vc_count', [t.p]):
        ex.oblige(s, 'count is the number of cells that hold an element', ex.as_lin(s, v, 64).z == C(t.m.z), 'post')

def count_interval():
    def Q(ex, s, i, j, v, n):
        s.assume(z3.And(C(i) >= 0, C(j) >= 0))
        return ex.as_lin(s, v, 64).z == C(j) - C(i)
    def res(ex, st, n):
        c = ex.fresh_lin('part', 64)
        rid = ex.new_rid('part'); st.mem[rid] = CellMem(8, None, 'part'); st.mem[rid].cells[0] = (8, c)
        return c, Ptr(rid, 0)
    return interval_contract(Q, res)

def run_index(entry, spec):
    def run(ex, st):
        layout(ex, st)
        t = Table(ex, st)
        st.mem[t.A].readonly = True
        h = ex.fresh_lin('h', 64)
        if spec != 'range':
            st.assume(h.z < t.m.z)
        for s, v in ex.run_function(st, entry, [t.p, h]):
            r = ex.as_lin(s, v, 64).z
            m = t.m.z
            if spec == 'range':
                ex.oblige(s, 'below m', z3.And(0 <= r, r < m), 'post')
            elif spec == 'inc':
                ex.oblige(s, 'the next index, going around', r == z3.If(h.z + 1 == m, 0, h.z + 1), 'post')
            else:
                ex.oblige(s, 'the previous index, going around', r == z3.If(h.z == 0, m - 1, h.z - 1), 'post')
    return run

CT = lambda: [range_contract()]
U = lambda nm, run, f, **k: Unit(nm, 'c17.cpp', '@vc_' + {'deleteVal': 'delete'}.get(nm, nm), run, functions=f, contracts=CT, **k)
UNITS = [
    U('find', run_find('@vc_find', 'gh_found', False), ['hashtable::find', 'hashtable::firstIndex', 'hashtable::incrementIndex']),
    U('findIndex', run_find('@vc_findIndex', 'gh_index', True), ['hashtable::findIndex']),
    U('insert', run_insert('@vc_insert', False), ['hashtable::insert (under interference)']),
    U('update', run_insert('@vc_update', True), ['hashtable::update (under interference)']),
    # deletion: the solver does not settle the nested search loops in reasonable time; decided by the bounded harness
    # U('deleteVal', run_delete, options={'rlimit_cand': 400000}, f=['hashtable::deleteVal (one at a time)', 'hashtable::startsAfter', 'hashtable::distance', 'hashtable::decrementIndex']),
    Unit('entries', 'c17.cpp', '@vc_entries', unit('@vc_entries', mk_entries), lemmas=count_lemmas() + euclid_lemma(), contracts=lambda: [range_contract(), scan_plus_contract()], functions=['hashtable::entries']),
    Unit('count', 'c17.cpp', '@vc_count', run_count, lemmas=count_lemmas(), contracts=lambda: [range_contract(), count_interval()], functions=['hashtable::count']),
    Unit('hashToRange', 'c17.cpp', '@vc_hashToRange', run_index('@vc_hashToRange', 'range'), functions=['hashtable::hashToRange']),
    U('incrementIndex', run_index('@vc_incrementIndex', 'inc'), ['hashtable::incrementIndex']),
    U('decrementIndex', run_index('@vc_decrementIndex', 'dec'), ['hashtable::decrementIndex']),
]
