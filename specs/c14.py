"""C14: size classes are consistent and large enough, headered blocks are inside their block, free lists keep every block once."""
from bvlib import *
from contracts import SpecContract

SENT = bv(1 << 62)
off_ = lambda p: bv(p.off) if isinstance(p.off, int) else p.off

def offs(ex, st):
    r = []
    for k in range(17):
        r.append(z3.simplify(ex.run_function(st.fork(), '@vc_off', [bv(k)])[0][1]).as_long())
    ex.fn_seen.clear()
    return r

# ---------------------------------------------------------------- p_malloc / p_free
def pow2(x): return z3.And(x != 0, (x & (x - 1)) == 0)

def default_alloc():
    return SpecContract('get_default_allocator (the one pool allocator)', lambda n, d, b: d.startswith('parlay::internal::get_default_allocator'), lambda ex, st, n, a, r: [(st, P('pool', 0))])

def sameclass(m, n):
    return z3.And(*[z3.ULE(m, bv(1 << t)) == z3.ULE(n, bv(1 << t)) for t in range(4, 62)])

def pool_contracts(al=16):
    def alloc(ex, st, name, a, rett):
        rid = ex.bytes_region(st, 'block', a[1], width=8, align=al)
        st.ghost['block'], st.ghost['size'] = rid, a[1]
        return [(st, P(rid, 0))]
    def dealloc(ex, st, name, a, rett):
        ex.oblige(st, 'the block that was allocated is given back', z3.And(z3.BoolVal(a[1].rid == st.ghost['block']), off_(a[1]) == 0), 'pre')
        ex.oblige(st, 'it is given back to the size class it came from', sameclass(a[2], st.ghost['size']), 'pre')
        st.ghost['freed'] = st.ghost.get('freed', 0) + 1
        return [(st, None)]
    return [default_alloc(),
            SpecContract('pool_allocator::allocate (units allocate_*): a fresh block of at least the size, aligned to 16', lambda n, d, b: b.endswith('pool_allocator::allocate'), alloc),
            SpecContract('pool_allocator::deallocate (units deallocate_*)', lambda n, d, b: b.endswith('pool_allocator::deallocate'), dealloc)]

def run_pmalloc(entry, frees):
    def r(ex, st):
        n, al = ex.fresh('n'), ex.fresh('align')
        st.assume(z3.And(z3.ULT(n, bv(1 << 46)), pow2(al), z3.ULE(al, bv(1 << 20))))
        seen = []
        def gb(ex, s, a):
            seen.append(1)
            p = a[0]
            ex.oblige(s, 'the result lies in the allocated block', z3.BoolVal(p.rid == s.ghost['block']), 'post')
            ex.oblige(s, 'the block has room for the header and the requested bytes', z3.And(z3.UGE(off_(p), bv(8)), z3.ULE(off_(p), s.ghost['size']), z3.ULE(n, s.ghost['size'] - off_(p))), 'post')
            ex.oblige(s, 'the result has the requested alignment', ((ex.base_of(s, p.rid) + off_(p)) & (al - 1)) == 0, 'post')
            ex.oblige(s, 'the result is aligned for the header', z3.URem(off_(p), bv(8)) == 0, 'post')
        ex.ghost_fns['gh_block'] = gb
        def end(ex, s, a):
            seen.append(1)
            ex.oblige(s, 'the block is freed exactly once', z3.BoolVal(s.ghost.get('freed', 0) == 1), 'post')
        ex.ghost_fns['gh_end'] = end
        ex.run_function(st, '@' + entry, [n, al])
        need(seen)
    return r

def run_alloc_t(entry, size, big, free):
    def r(ex, st):
        n = ex.fresh('n')
        st.assume(z3.ULT(n, bv(1 << 36)))
        seen = []
        want = n * bv(size)
        if big:
            def pm(ex, st, name, a, rett):
                ex.oblige(st, 'room for all elements is requested', a[0] == want, 'pre')
                ex.oblige(st, 'the alignment of the type is requested', a[1] == bv(256), 'pre')
                rid = ex.bytes_region(st, 'block', a[0], width=8, align=256)
                st.ghost['block'] = rid
                return [(st, P(rid, 0))]
            def pf(ex, st, name, a, rett):
                seen.append(1)
                ex.oblige(st, 'the block itself is freed', z3.And(z3.BoolVal(a[0].rid == st.ghost['block']), off_(a[0]) == 0), 'post')
                return [(st, None)]
            ex.contracts = [SpecContract('p_malloc (unit p_malloc)', lambda n_, d, b: b.endswith('parlay::p_malloc'), pm), SpecContract('p_free (unit p_free)', lambda n_, d, b: b.endswith('parlay::p_free'), pf)] + ex.contracts
        def gb(ex, s, a):
            seen.append(1)
            ex.oblige(s, 'the result is the allocated block', z3.And(z3.BoolVal(a[0].rid == s.ghost['block']), off_(a[0]) == 0), 'post')
            if not big:
                ex.oblige(s, 'room for all elements is requested', z3.UGE(s.ghost['size'], want), 'post')
        ex.ghost_fns['gh_block'] = gb
        ex.ghost_fns['gh_end'] = lambda ex, s, a: seen.append(1)
        args = [n]
        if free:
            rid = ex.bytes_region(st, 'block', want, width=8, align=256)
            st.ghost['block'], st.ghost['size'] = rid, want
            args = [P(rid, 0), n]
        ex.run_function(st, '@' + entry, args)
        need(seen)
    return r

# ---------------------------------------------------------------- pool_allocator
def pool(ex, st):
    O = offs(ex, st)
    nb, ns, ms, mx = (ex.fresh(x) for x in ('num_buckets', 'num_small', 'max_small', 'max_size'))
    S = ex.bytes_region(st, 'sizes', nb * bv(8), width=8, readonly=True)
    sz = lambda i: z3.Select(st.mem[S].arr, i)
    st.assume(z3.And(z3.UGE(nb, bv(1)), z3.ULE(nb, bv(64)), z3.ULE(ns, nb)))
    # established by the constructor
    st.assume(mx == sz(nb - 1))
    st.assume(ms == z3.If(ns == 0, bv(0), sz(ns - 1)))
    st.assume(z3.And(z3.ULE(ms, mx), z3.ULE(mx, bv(1 << 47))))
    la, lu = ex.fresh('large_allocated'), ex.fresh('large_used')
    SM, LB = ex.region(st, 'small_allocators', None, {}), ex.region(st, 'large_buckets', None, {})
    Pl = ex.region(st, 'pool_allocator', O[9], {O[0]: (8, nb), O[1]: (8, ns), O[2]: (8, ms), O[3]: (8, mx), O[4]: (8, la), O[5]: (8, lu), O[6]: (8, P(S, 0)), O[7]: (8, P(LB, 0)), O[8]: (8, P(SM, 0)), O[8] + 8: (8, P(SM, 0))})
    ex.pl = dict(nb=nb, ns=ns, ms=ms, mx=mx, S=S, SM=SM, LB=LB, Pl=Pl, O=O, la=la, lu=lu, sz=sz)
    return Pl

def pool_unit(entry, small, free, direct=False):
    def r(ex, st):
        Pl = pool(ex, st); d = ex.pl
        n = ex.fresh('n')
        st.assume(z3.ULE(n, bv(1 << 47)))
        c = z3.BitVec('bucket', 64)
        lo = bv(0) if small else d['ns']
        if small:
            st.assume(z3.ULE(n, d['ms']))
            st.assume(z3.UGE(d['ns'], bv(1)))
        elif direct:
            st.assume(z3.UGT(n, d['mx']))
        else:
            st.assume(z3.And(z3.UGT(n, d['ms']), z3.ULE(n, d['mx'])))
            st.assume(z3.UGE(n, bv(1)))
        if not direct:
            # the class of n: the first bucket of its part that is large enough
            st.assume(z3.And(z3.ULE(lo, c), z3.ULT(c, d['ns'] if small else d['nb']), z3.ULE(n, d['sz'](c)), z3.ULE(d['sz'](c), d['mx'])))
        first = lambda s, i: s.assume(z3.Implies(z3.And(z3.ULE(lo, i), z3.ULT(i, c)), z3.ULT(d['sz'](i), n)))
        acc = z3.Function('accounted_size', z3.BitVecSort(64), z3.BitVecSort(64))
        seen = []
        def cands(ex, st0, phis, env):
            out = []
            for rg, v in b64(phis):
                out.append(('%s at most the class' % rg, lambda s, v, r=rg: (first(s, v[r]), z3.And(z3.ULE(lo, v[r]), z3.ULE(v[r], c)))[1]))
            return out
        ex.loop_cands = cands
        blk = ex.region(st, 'freed block', None, {})
        fresh = lambda s: P(ex.region(s, 'pooled block', None, {}), 0)
        def b_alloc(ex, s, name, a, rett):
            ex.oblige(s, 'the block comes from the pool of the class', z3.And(z3.BoolVal(small and not free and a[0].rid == d['SM']), off_(a[0]) == c * bv(d['O'][11])), 'post')
            p = fresh(s); s.ghost['result'] = p
            return [(s, p)]
        def b_free(ex, s, name, a, rett):
            seen.append(1)
            ex.oblige(s, 'the block goes back to the pool of its class', z3.And(z3.BoolVal(small and free and a[0].rid == d['SM'] and a[1].rid == blk), off_(a[0]) == c * bv(d['O'][11])), 'post')
            return [(s, None)]
        def h_pop(ex, s, name, a, rett):
            ex.oblige(s, 'the block comes from the pool of the class', z3.And(z3.BoolVal(not small and not free and not direct and a[0].rid == d['LB']), off_(a[0]) == (c - d['ns']) * bv(d['O'][10])), 'post')
            s2 = s.fork()
            p = fresh(s); s.ghost['result'] = p; s.ghost['popped'] = 1
            s2.ghost['popped'] = 0
            return [(s, [p, bv(1, 8)]), (s2, [NULLP, bv(0, 8)])]
        def h_push(ex, s, name, a, rett):
            seen.append(1)
            ex.oblige(s, 'the block goes back to the pool of its class', z3.And(z3.BoolVal(not small and free and not direct and a[0].rid == d['LB'] and a[1].rid == blk), off_(a[0]) == (c - d['ns']) * bv(d['O'][10])), 'post')
            return [(s, None)]
        def nw(ex, s, name, a, rett):
            ex.oblige(s, 'enough memory is requested', z3.UGE(a[0], n if direct else d['sz'](c)), 'post')
            ex.oblige(s, 'with the alignment of the pool', z3.And(a[1] == bv(128), z3.URem(a[0], bv(128)) == 0), 'post')
            p = fresh(s); s.ghost['result'] = p; s.ghost['new'] = 1
            return [(s, p)]
        def dl(ex, s, name, a, rett):
            seen.append(1)
            ex.oblige(s, 'only blocks above the largest class go back to the system', z3.BoolVal(direct and free and a[0].rid == blk), 'post')
            return [(s, None)]
        def accf(ex, s, name, a, rett):
            return [(s, acc(a[1]))]
        ex.contracts = [SpecContract('block_allocator::alloc', lambda n_, D, b: b.endswith('block_allocator::alloc'), b_alloc),
                        SpecContract('block_allocator::free', lambda n_, D, b: b.endswith('block_allocator::free'), b_free),
                        SpecContract('hazptr_stack::pop (assumed linearizable)', lambda n_, D, b: 'hazptr_stack<void*>' in D and b.endswith('::pop'), h_pop),
                        SpecContract('hazptr_stack::push (assumed linearizable)', lambda n_, D, b: 'hazptr_stack<void*>' in D and b.endswith('::push'), h_push),
                        SpecContract('operator new', lambda n_, D, b: D.startswith('operator new'), nw), SpecContract('operator delete', lambda n_, D, b: D.startswith('operator delete'), dl),
                        SpecContract('accounted_size (a function of the size, unit accounted_size)', lambda n_, D, b: b.endswith('pool_allocator::accounted_size'), accf)] + ex.contracts
        def fin(s):
            u, al = s.mem[Pl].cells[d['O'][5]][1], s.mem[Pl].cells[d['O'][4]][1]
            w = acc(n)
            if small:
                ex.oblige(s, 'small blocks are accounted for by their pools', z3.And(u == d['lu'], al == d['la']), 'post')
            elif free:
                ex.oblige(s, 'the bytes in use go down by the accounted size', u == d['lu'] - w, 'post')
                ex.oblige(s, 'the bytes obtained go down exactly when memory is returned to the system', al == (d['la'] - w if direct else d['la']), 'post')
            else:
                ex.oblige(s, 'the bytes in use go up by the accounted size', u == d['lu'] + w, 'post')
                ex.oblige(s, 'the bytes obtained go up exactly when memory comes from the system', al == (d['la'] + w if s.ghost.get('new') else d['la']), 'post')
        def gb(ex, s, a):
            seen.append(1)
            ex.oblige(s, 'the block obtained is returned', z3.BoolVal(a[0].rid == s.ghost['result'].rid and a[0].off == 0), 'post')
            fin(s)
        ex.ghost_fns['gh_block'] = gb
        ex.ghost_fns['gh_end'] = lambda ex, s, a: fin(s)
        ex.run_function(st, '@' + entry, [P(Pl, 0)] + ([P(blk, 0)] if free else []) + [n])
        need(seen)
    return r

def run_accounted(ex, st):
    Pl = pool(ex, st); d = ex.pl
    n = ex.fresh('n')
    st.assume(z3.And(z3.ULE(n, bv(1 << 47)), z3.UGT(n, d['ms']), z3.UGE(n, bv(1))))
    c = z3.BitVec('bucket', 64)
    st.assume(z3.Implies(z3.ULE(n, d['mx']), z3.And(z3.ULE(d['ns'], c), z3.ULT(c, d['nb']), z3.ULE(n, d['sz'](c)))))
    def cands(ex, st0, phis, env):
        def cl(s, i):
            s.assume(z3.Implies(z3.And(z3.ULE(d['ns'], i), z3.ULT(i, c)), z3.ULT(d['sz'](i), n)))
            return z3.And(z3.ULE(d['ns'], i), z3.ULE(i, c))
        return [('%s at most the class' % r, lambda s, v, r=r: cl(s, v[r])) for r, _ in b64(phis)]
    ex.loop_cands = cands
    for s, v in ex.run_function(st, '@vc_accounted', [P(Pl, 0), n]):
        ex.fn_stack.append('accounted_size')
        ex.oblige(s, 'the size of the class is accounted for pooled blocks', z3.Implies(z3.ULE(n, d['mx']), v == d['sz'](c)), 'post')
        ex.oblige(s, 'above the largest class the next power of two is accounted', z3.Implies(z3.UGT(n, d['mx']), z3.And(pow2(v), z3.UGE(v, n), z3.ULT(v >> 1, n))), 'post')
        ex.fn_stack.pop()

# ---------------------------------------------------------------- block_allocator: the per-thread free list
def heap(ex, st):
    H = ex.bytes_region(st, 'blocks', bv(1 << 40), width=8)
    st.mem[H].ptr_to = H
    ex.nullable[H] = SENT
    ex.H = H
    return H

class FreeList:
    """nodes node(1), ..., node(sz) (addresses in the heap), node(k).next = node(k-1), node(0) is null"""
    def __init__(self, ex, st, name):
        self.node = z3.Function(name, z3.BitVecSort(64), z3.BitVecSort(64))
        self.at = z3.Function(name + '_index', z3.BitVecSort(64), z3.BitVecSort(64))
        self.sz = z3.BitVec(name + '_size', 64)
        self.ex, self.arr0 = ex, st.mem[ex.H].arr
        st.assume(z3.ULE(self.sz, bv(1 << 32)))
        st.assume(self.node(bv(0)) == SENT)
    def inst(self, st, *ks):
        """facts of the list (before the call) at position k: a block, distinct from the blocks at other positions, linked to the one below"""
        for k in ks:
            a = self.node(k)
            st.assume(z3.Implies(z3.And(z3.UGE(k, bv(1)), z3.ULE(k, self.sz)), z3.And(
                z3.URem(a, bv(8)) == 0, z3.ULE(a, bv((1 << 40) - 8)), self.at(a) == k,
                z3.Select(self.arr0, z3.UDiv(a, bv(8))) == self.node(k - 1))))
    def next_now(self, st, k):
        return z3.Select(st.mem[self.ex.H].arr, z3.UDiv(self.node(k), bv(8)))

def ba(ex, st):
    O = offs(ex, st)
    L = ex.fresh('list_length')
    st.assume(z3.And(z3.UGE(L, bv(1)), z3.ULE(L, bv(1 << 20))))
    B = ex.region(st, 'block_allocator', O[11], {O[14]: (8, L)})
    heap(ex, st)
    ex.L, ex.B, ex.O = L, B, O
    return B

def local(ex, st, F, name):
    mid = ex.fresh(name + '_mid')
    LL = ex.region(st, name, 128, {0: (8, F.sz), 8: (8, P(ex.H, F.node(F.sz))), 16: (8, P(ex.H, mid))}, align=128)
    # mid is the node that ends the upper half of the list
    st.assume(z3.Implies(z3.UGE(F.sz, ex.L + 2), mid == F.node(ex.L + 1)))
    st.assume(z3.ULE(F.sz, z3.If(ex.L == 1, bv(1 << 32), 2 * ex.L)))
    return LL, mid

def tls_contract():
    """ThreadSpecific::operator-> gives the element of the executing thread (C18); ghost 'thread' names it"""
    return SpecContract("ThreadSpecific::operator->, operator*, get (the executing thread's element, C18)", lambda n, d, b: 'ThreadSpecific<' in d and b.endswith(('::operator@arrow', '::operator*', '::get')), lambda ex, st, n, a, r: [(st, P(st.ghost['thread'], 0))])

def push_contract(fn):
    return SpecContract('hazptr_stack::push (assumed linearizable)', lambda n_, D, b: 'hazptr_stack<' in D and b.endswith('::push'), fn)

def pof(v):
    return z3.BoolVal(False) if not isinstance(v, P) else None

def is_at(ex, v, addr):
    if not isinstance(v, P):
        return z3.BoolVal(False)
    if v.rid is None:
        return addr == SENT
    return z3.And(z3.BoolVal(v.rid == ex.H), off_(v) == addr)

def run_ba_free(ex, st):
    B = ba(ex, st); L = ex.L
    F = FreeList(ex, st, 'list')
    LL, mid = local(ex, st, F, 'local_list')
    st.ghost['thread'] = LL
    x = ex.fresh('freed')
    K = z3.BitVec('K_rigid', 64)
    F.inst(st, F.sz, L, L + 1, K, bv(1))
    # the freed block is a block of this allocator and not in the list
    st.assume(z3.And(z3.URem(x, bv(8)) == 0, z3.ULE(x, bv((1 << 40) - 8)), F.at(x) == 0))
    st.assume(z3.And(z3.UGE(K, bv(1)), z3.ULE(K, F.sz)))
    seen = []
    def push(ex, s, name, a, rett):
        ex.oblige(s, 'only a full double list gives blocks to the global stack', z3.And(F.sz == 2 * L, L != 1), 'post')
        ex.oblige(s, 'the list given to the global stack starts at the lower half', is_at(ex, a[1], F.node(L)), 'post')
        ex.oblige(s, 'its blocks are linked down to the end (list_length of them)', z3.Implies(z3.ULE(K, L), F.next_now(s, K) == F.node(K - 1)), 'post')
        s.ghost['pushed'] = s.ghost.get('pushed', 0) + 1
        return [(s, None)]
    ex.contracts = [push_contract(push)] + ex.contracts
    def end(ex, s, a):
        seen.append(1)
        p = s.ghost.get('pushed', 0)
        c = s.mem[LL].cells
        n1 = c[0][1]
        ex.oblige(s, 'the half list is given away at most once', z3.BoolVal(p <= 1), 'post')
        ex.oblige(s, 'the list has one block more (minus the half given away)', n1 == (L + 1 if p else F.sz + 1), 'post')
        ex.oblige(s, 'the freed block is the head', is_at(ex, c[8][1], x), 'post')
        ex.oblige(s, 'it is linked to the former head', z3.Select(s.mem[ex.H].arr, z3.UDiv(x, bv(8))) == F.node(F.sz), 'post')
        if p:
            ex.oblige(s, 'the upper half stays linked and ends with null', z3.Implies(z3.UGT(K, L), F.next_now(s, K) == z3.If(K == L + 1, SENT, F.node(K - 1))), 'post')
            ex.oblige(s, 'the pushed list stays as it was pushed', z3.Implies(z3.ULE(K, L), F.next_now(s, K) == F.node(K - 1)), 'post')
        else:
            ex.oblige(s, 'the other blocks stay linked', F.next_now(s, K) == F.node(K - 1), 'post')
            ex.oblige(s, 'mid is the last block of the upper half', z3.Implies(z3.UGE(n1, L + 2), is_at(ex, c[16][1], F.node(L + 1))), 'post')
            ex.oblige(s, 'the list never holds more than two lists', z3.Or(L == 1, z3.ULE(n1, 2 * L)), 'post')
    ex.ghost_fns['gh_end'] = end
    ex.run_function(st, '@vc_ba_free', [P(B, 0), P(ex.H, x)])
    need(seen)

def run_ba_alloc(ex, st):
    B = ba(ex, st); L = ex.L
    F, G, C = FreeList(ex, st, 'list'), FreeList(ex, st, 'other_list'), FreeList(ex, st, 'fresh_list')
    LL, mid = local(ex, st, F, 'local_list')
    LG, mid2 = local(ex, st, G, 'other_local_list')
    K = z3.BitVec('K_rigid', 64)
    F.inst(st, F.sz, K); G.inst(st, G.sz, K); C.inst(st, L, K)
    st.assume(C.sz == L)
    st.ghost['thread'] = LL
    seen = []
    def get_list(ex, s, name, a, rett):
        ex.oblige(s, 'a new list is fetched only when the own one is empty', F.sz == 0, 'post')
        s.ghost['fetched'] = s.ghost.get('fetched', 0) + 1
        s2 = s.fork()
        s2.ghost['thread'] = LG                      # the task may continue on another thread
        return [(s, P(ex.H, C.node(L))), (s2, P(ex.H, C.node(L)))]
    def push(ex, s, name, a, rett):
        ex.oblige(s, 'the fetched list is handed on whole', is_at(ex, a[1], C.node(L)), 'post')
        s.ghost['pushed'] = s.ghost.get('pushed', 0) + 1
        return [(s, None)]
    ex.contracts = [SpecContract('block_allocator::get_list (unit get_list; the thread may change)', lambda n_, D, b: b.endswith('block_allocator::get_list'), get_list), push_contract(push)] + ex.contracts
    def gb(ex, s, a):
        seen.append(1)
        f, p = s.ghost.get('fetched', 0), s.ghost.get('pushed', 0)
        T = s.ghost['thread']
        D = F if T == LL else G
        c = s.mem[T].cells
        other = LG if T == LL else LL
        own = z3.BoolVal(f == 0) if T == LL else D.sz != 0
        ex.oblige(s, 'a new list is fetched at most once', z3.BoolVal(f <= 1 and p <= f), 'post')
        use_new = f == 1 and p == 0
        if use_new:
            ex.oblige(s, 'the fetched list is used only if the own list is empty', D.sz == 0, 'post')
            E = C; n0 = L
        else:
            E = D; n0 = D.sz
            ex.oblige(s, 'the own list is not empty', D.sz != 0, 'post')
        ex.oblige(s, 'the head of the list is returned', is_at(ex, a[0], E.node(n0)), 'post')
        ex.oblige(s, 'the list has one block less', c[0][1] == n0 - 1, 'post')
        ex.oblige(s, 'the next block is the head', z3.Implies(n0 != 1, is_at(ex, c[8][1], E.node(n0 - 1))), 'post')
        ex.oblige(s, 'mid stays in place', z3.Implies(z3.UGE(n0 - 1, L + 2), is_at(ex, c[16][1], E.node(L + 1))), 'post')
        ex.oblige(s, 'the links of the blocks do not change', z3.And(*[z3.Implies(z3.And(z3.UGE(K, bv(1)), z3.ULE(K, X.sz)), X.next_now(s, K) == X.node(K - 1)) for X in (F, G, C)]), 'post')
        X = G if T == LL else F
        oc = s.mem[other].cells
        ex.oblige(s, 'the lists of other threads do not change', z3.And(oc[0][1] == X.sz, is_at(ex, oc[8][1], X.node(X.sz))), 'frame')
    ex.ghost_fns['gh_block'] = gb
    ex.run_function(st, '@vc_ba_alloc', [P(B, 0)])
    need(seen)

def run_get_list(ex, st):
    B = ba(ex, st)
    seen = []
    def pop(ex, s, name, a, rett):
        s2 = s.fork()
        s.ghost['r'] = P(ex.H, ex.fresh('popped'))
        return [(s, [s.ghost['r'], bv(1, 8)]), (s2, [NULLP, bv(0, 8)])]
    def ab(ex, s, name, a, rett):
        ex.oblige(s, 'memory for one list is allocated, and only when the global stack is empty', z3.And(a[1] == ex.L, z3.BoolVal('r' not in s.ghost)), 'post')
        s.ghost['buf'] = P(ex.region(s, 'buffer', None, {}), 0)
        return [(s, s.ghost['buf'])]
    def il(ex, s, name, a, rett):
        ex.oblige(s, 'the new memory is made into a list', z3.BoolVal(a[1].rid == s.ghost['buf'].rid and a[1].off == 0), 'post')
        s.ghost['r'] = P(ex.H, ex.fresh('list'))
        return [(s, s.ghost['r'])]
    m = lambda e: (lambda n_, D, b: b.endswith('block_allocator::' + e))
    ex.contracts = [SpecContract('hazptr_stack::pop (assumed linearizable)', lambda n_, D, b: 'hazptr_stack<' in D and b.endswith('::pop'), pop),
                    SpecContract('allocate_blocks (unit)', m('allocate_blocks'), ab), SpecContract('initialize_list (unit)', m('initialize_list'), il)] + ex.contracts
    def gb(ex, s, a):
        seen.append(1)
        r = s.ghost['r']
        ex.oblige(s, 'the list obtained is returned', z3.And(z3.BoolVal(a[0].rid == r.rid), off_(a[0]) == off_(r)), 'post')
    ex.ghost_fns['gh_block'] = gb
    ex.run_function(st, '@vc_ba_get_list', [P(B, 0)])
    need(seen)

def run_allocate_blocks(ex, st):
    B = ba(ex, st); O = ex.O
    bs, al, n, have, mx = (ex.fresh(x) for x in ('block_size', 'align', 'n', 'blocks_allocated', 'max_blocks'))
    st.assume(z3.And(z3.ULE(have, bv(1 << 40)), z3.ULE(n, bv(1 << 20)), z3.ULE(have + n, mx)))     # the documented limit of the allocator, which it checks
    st.mem[B].cells.update({O[12]: (8, bs), O[13]: (8, al), O[15]: (8, mx), O[16]: (8, have)})
    seen = []
    def nw(ex, s, name, a, rett):
        ex.oblige(s, 'memory for n blocks is requested with the alignment of the allocator', z3.And(a[0] == n * bs, a[1] == al), 'post')
        s.ghost['r'] = P(ex.region(s, 'buffer', None, {}), 0)
        return [(s, s.ghost['r'])]
    def push(ex, s, name, a, rett):
        ex.oblige(s, 'the memory is recorded so that it can be returned', z3.BoolVal(a[1].rid == s.ghost['r'].rid and a[1].off == 0), 'post')
        s.ghost['rec'] = s.ghost.get('rec', 0) + 1
        return [(s, None)]
    ex.contracts = [SpecContract('operator new', lambda n_, D, b: D.startswith('operator new'), nw), push_contract(push)] + ex.contracts
    def gb(ex, s, a):
        seen.append(1)
        ex.oblige(s, 'the memory is returned and recorded once', z3.BoolVal(a[0].rid == s.ghost['r'].rid and a[0].off == 0 and s.ghost.get('rec') == 1), 'post')
        ex.oblige(s, 'the blocks are counted', s.mem[B].cells[O[16]][1] == have + n, 'post')
    ex.ghost_fns['gh_block'] = gb
    ex.run_function(st, '@vc_ba_allocate_blocks', [P(B, 0), n])
    need(seen)

def run_init_list(bs):
    def r(ex, st):
        B = ba(ex, st); O = ex.O
        L = ex.L
        st.assume(z3.ULE(L, bv((1 << 18) // bs + 2)))
        st.mem[B].cells[O[12]] = (8, bv(bs))
        X = ex.bytes_region(st, 'buffer', L * bv(bs), width=8)
        st.mem[X].ptr_to = X
        ex.nullable[X] = SENT
        K = z3.BitVec('K_rigid', 64)
        st.assume(z3.ULT(K, L))
        nx = lambda s: z3.Select(s.mem[X].arr, z3.UDiv(K * bv(bs), bv(8)))
        seen = []
        def cands(ex, st0, phis, env):
            out = []
            for rg, v in b64(phis):
                out.append(('%s below the length' % rg, lambda s, v, r=rg: z3.ULE(v[r], L - 1)))
                out.append(('blocks below %s are linked' % rg, lambda s, v, r=rg: z3.Implies(z3.ULT(K, v[r]), nx(s) == (K + 1) * bv(bs))))
                # built from the last block down
                out.append(('%s at most the length' % rg, lambda s, v, r=rg: z3.ULE(v[r], L)))
                out.append(('%s not zero' % rg, lambda s, v, r=rg: v[r] != 0))
                for d in (0, 1):
                    out.append(('blocks from %s+%d are linked' % (rg, d), lambda s, v, r=rg, d=d: z3.Implies(z3.UGE(K, v[r] + d), nx(s) == z3.If(K == L - 1, SENT, (K + 1) * bv(bs)))))
                    for pr, pv in phis:
                        if isinstance(pv, P) and pv.rid in (X, None):
                            out.append(('%s is block %s+%d' % (pr, rg, d), lambda s, v, r=rg, d=d, pr=pr: off_(v[pr]) == z3.If(v[r] + d == L, SENT, (v[r] + d) * bv(bs)) if v[pr].rid == X else z3.BoolVal(False)))
            return out
        ex.loop_cands = cands
        def gb(ex, s, a):
            seen.append(1)
            ex.oblige(s, 'the list starts with the first block', z3.And(z3.BoolVal(a[0].rid == X), off_(a[0]) == 0), 'post')
            ex.oblige(s, 'every block is linked to the following one and the last to none', nx(s) == z3.If(K == L - 1, SENT, (K + 1) * bv(bs)), 'post')
        ex.ghost_fns['gh_block'] = gb
        ex.run_function(st, '@vc_ba_init_list', [P(B, 0), P(X, 0)])
        need(seen)
    return r

def U(name, entry, run, fns, con=lambda: [], **o):
    return BVUnit(name, 'c14.cpp', '@' + entry, run, functions=fns, contracts=con, options=dict(dict(cut=['pool_allocator::', 'block_allocator::'], rlimit=30000000), **o))

PC = pool_contracts
TL = lambda: [tls_contract()]
BAF = 'block_allocator::'
UNITS = [
    U('p_malloc', 'vc_p_malloc', run_pmalloc('vc_p_malloc', 0), ['p_malloc', 'alloc_padding_size'], PC),
    U('p_free', 'vc_p_malloc_free', run_pmalloc('vc_p_malloc_free', 1), ['p_malloc', 'p_free'], PC),
    U('allocator_allocate', 'vc_alloc_u64', run_alloc_t('vc_alloc_u64', 8, False, False), ['allocator<u64>::allocate'], PC),
    U('allocator_deallocate', 'vc_dealloc_u64', run_alloc_t('vc_dealloc_u64', 8, False, True), ['allocator<u64>::deallocate'], PC),
    U('allocator_allocate_overaligned', 'vc_alloc_big', run_alloc_t('vc_alloc_big', 256, True, False), ['allocator<256-byte aligned type>::allocate'], PC),
    U('allocator_deallocate_overaligned', 'vc_dealloc_big', run_alloc_t('vc_dealloc_big', 256, True, True), ['allocator<256-byte aligned type>::deallocate'], PC),
    U('allocate_small', 'vc_allocate', pool_unit('vc_allocate', True, False), ['pool_allocator::allocate']),
    U('deallocate_small', 'vc_deallocate', pool_unit('vc_deallocate', True, True), ['pool_allocator::deallocate']),
    U('allocate_large', 'vc_allocate', pool_unit('vc_allocate', False, False), ['pool_allocator::allocate', 'pool_allocator::allocate_large']),
    U('deallocate_large', 'vc_deallocate', pool_unit('vc_deallocate', False, True), ['pool_allocator::deallocate', 'pool_allocator::deallocate_large']),
    U('allocate_direct', 'vc_allocate', pool_unit('vc_allocate', False, False, True), ['pool_allocator::allocate', 'pool_allocator::allocate_large']),
    U('deallocate_direct', 'vc_deallocate', pool_unit('vc_deallocate', False, True, True), ['pool_allocator::deallocate', 'pool_allocator::deallocate_large']),
    U('accounted_size', 'vc_accounted', run_accounted, ['pool_allocator::accounted_size', 'log2_up']),
    U('free_list_free', 'vc_ba_free', run_ba_free, [BAF + 'free'], TL),
    U('free_list_alloc', 'vc_ba_alloc', run_ba_alloc, [BAF + 'alloc'], TL),
    U('get_list', 'vc_ba_get_list', run_get_list, [BAF + 'get_list']),
    U('allocate_blocks', 'vc_ba_allocate_blocks', run_allocate_blocks, [BAF + 'allocate_blocks']),
] + [U('initialize_list_%d' % b, 'vc_ba_init_list', run_init_list(b), [BAF + 'initialize_list', BAF + 'get_block']) for b in (8, 16, 24, 32, 64, 128, 1 << 10, 1 << 14, 1 << 17)]
