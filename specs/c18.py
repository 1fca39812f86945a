"""C18: every identifier owns one slot; iterators walk the slots in identifier order; slots are initialised once each."""
from bvlib import *
from contracts import SpecContract

NCH = 25
SENT = bv(1 << 62)
STRIDE = 64

def setup(ex, st, kmax=12):
    """P: chunk size, a power of two of at least 4 (proved for the initialiser in unit chunk_size_initialiser)"""
    k = ex.fresh('log2P')
    st.assume(z3.And(z3.UGE(k, 2), z3.ULE(k, kmax)))
    P_ = z3.simplify(bv(1) << k)
    g = [n for n in ex.mod.globals if 'ThreadListChunkData22thread_list_chunk_sizeE' in n and not n.startswith('@_ZGV')]
    if not g:
        raise Unsupported('thread_list_chunk_size not found')
    st.mem['@' + g[0]] = Reg('thread_list_chunk_size', 8, {0: (8, P_)}, readonly=True)
    ex.P_ = P_
    return P_

def start(ex, c):
    return z3.If(c == 0, bv(0), ex.P_ << (c - 1))

def csize(ex, c):
    return z3.If(c == 0, ex.P_, ex.P_ << (c - 1))

def index(ex, c, p):
    return start(ex, c) + p

def tls(name, d, b, what):
    return 'ThreadSpecific' in d and what in b

TS = 'TS'
def object_(ex, st):
    off = None
    rs = ex.run_function(st.fork(), '@vc_off', [])
    off = z3.simplify(rs[0][1]).as_long()
    size = z3.simplify(ex.run_function(st.fork(), '@vc_sizeof', [])[0][1]).as_long()
    ex.fn_seen.clear()
    T = ex.region(st, 'ThreadSpecific', size, {})
    F = ex.region(st, 'chunks', None, {})
    st.mem[F].size = (ex.P_ << 24) * bv(STRIDE)
    ex.nullable[F] = SENT
    st.ghost['exists'] = z3.Store(z3.K(z3.BitVecSort(64), z3.BoolVal(False)), bv(0), z3.BoolVal(True))
    ex.T, ex.F, ex.off_chunks = T, F, off
    return T

def cindex(ex, st, p):
    o = bv(p.off) if isinstance(p.off, int) else p.off
    if p.rid != ex.T:
        raise Unsupported('atomic pointer elsewhere')
    o = z3.simplify(o - bv(ex.off_chunks))
    g = z3.And(z3.ULT(o, bv(8 * NCH)), z3.URem(o, bv(8)) == 0)
    if not ex.proves(st, g):
        ex.oblige(st, 'chunk number is below the number of chunks', g, 'memory')
    st.assume(g)
    return z3.simplify(z3.UDiv(o, bv(8)))

def atomic_load(ex, st, name, args, rett):
    c = cindex(ex, st, args[0])
    e = z3.Select(st.ghost['exists'], c)
    if not st.ghost.get('locked'):
        e = z3.Or(e, ex.fresh('published', 1) == bv(1, 1))
    st.ghost['exists'] = z3.Store(st.ghost['exists'], c, e)
    return [(st, P(ex.F, z3.If(e, start(ex, c) * bv(STRIDE), SENT)))]

def atomic_contracts():
    m = lambda name, d, b: 'Uninitialized<' in d and ('std::atomic<' in d or 'std::__atomic_base<' in d) and re.search(r'::(load|operator parlay.*Uninitialized.*\*)\(', d.split('> const(')[0]) is not None and ' store(' not in d
    return SpecContract('atomic chunk pointer load (others may publish missing chunks)', m, atomic_load)

def ensure_contract():
    def f(ex, st, name, args, rett):
        c = args[1]
        ex.oblige(st, 'chunk number is below the number of chunks', z3.ULT(c, bv(NCH)), 'pre')
        st.ghost['exists'] = z3.Store(st.ghost['exists'], c, z3.BoolVal(True))
        return [(st, None)]
    return SpecContract('ThreadSpecific::ensure_chunk_exists', lambda n, d, b: b.endswith('::ensure_chunk_exists'), f)

def num_contract(ex_tot='total'):
    def f(ex, st, name, args, rett):
        v = st.ghost['total']
        st.assume(z3.ULT(v, bv(1 << 32)))
        return [(st, v if rett[1] == v.size() else z3.Extract(rett[1] - 1, 0, v))]
    return SpecContract('num_thread_ids (some number, fixed during the call)', lambda n, d, b: b.endswith('::get_num_thread_ids') or b.endswith('parlay::num_thread_ids'), f)

def chunkdata_contract():
    """get_chunk_data returns the thread_local constant constructed from the thread's identifier"""
    def f(ex, st, name, args, rett):
        if 'tid' not in st.ghost:
            return [(st, P('unused', 0))]
        rid = ex.region(st, 'chunk data', 24, {0: (8, st.ghost['tid']), 8: (8, st.ghost['tc']), 16: (8, st.ghost['tp'])}, readonly=True)
        return [(st, P(rid, 0))]
    return SpecContract('get_chunk_data (the constant constructed by ThreadListChunkData(id), unit position)', lambda n, d, b: b.endswith('::get_chunk_data'), f)

CON = lambda: [atomic_contracts(), ensure_contract(), num_contract(), chunkdata_contract()]

def valid(ex, st, c, p, end=False):
    st.assume(z3.And(z3.ULT(c, bv(NCH)), z3.ULT(p, csize(ex, c))))

def slot(ex, seen, want, lab):
    def f(ex, s, a):
        seen.append(1)
        p = a[0]
        o = bv(p.off) if isinstance(p.off, int) else p.off
        ex.oblige(s, lab, z3.And(z3.BoolVal(p.rid == ex.F), o == want(s) * bv(STRIDE)), 'post')
    ex.ghost_fns['gh_slot'] = f

def run_init(ex, st):
    hw = z3.BitVec('hardware_concurrency', 32)
    ex.contracts.append(SpecContract('hardware_concurrency (any number below 2^31)', lambda n, d, b: 'hardware_concurrency' in d, lambda ex, st, n, a, r: [(st, hw)]))
    st.assume(z3.ULT(hw, bv(1 << 31, 32)))
    f = [n for n in ex.mod.funcs if re.search(r'ThreadListChunkData22thread_list_chunk_sizeMUlvE', n)]
    if not f:
        raise Unsupported('initialiser of thread_list_chunk_size not found')
    L = ex.region(st, 'lambda', 1, {})
    for s, v in ex.run_function(st, f[0], [P(L, 0)]):
        ex.fn_stack.append('initialiser of thread_list_chunk_size')
        ex.oblige(s, 'the chunk size is a power of two', z3.And(v != 0, (v & (v - 1)) == 0), 'post')
        ex.oblige(s, 'the chunk size is at least 4', z3.UGE(v, bv(4)), 'post')
        ex.fn_stack.pop()

def run_position(ex, st):
    setup(ex, st)
    id_ = ex.fresh('id')
    st.assume(z3.ULT(id_, ex.P_ << 24))
    st.assume(z3.ULT(id_, bv(1 << 32)))              # thread_id_type has 32 bits
    seen = []
    def pos(ex, s, a):
        seen.append(1)
        c, p = a
        ex.oblige(s, 'chunk number is below the number of chunks', z3.ULT(c, bv(NCH)), 'post')
        ex.oblige(s, 'position lies inside the chunk', z3.ULT(p, csize(ex, c)), 'post')
        ex.oblige(s, 'slot number equals the identifier (so distinct identifiers have distinct slots)', index(ex, c, p) == id_, 'post')
    ex.ghost_fns['gh_pos'] = pos
    ex.ghost_fns['gh_val'] = lambda ex, s, a: ex.oblige(s, 'the identifier is kept', a[0] == id_, 'post')
    ex.run_function(st, '@vc_position', [id_])
    need(seen)

def run_chunksize(ex, st):
    setup(ex, st)
    c = ex.fresh('c')
    st.assume(z3.ULT(c, bv(NCH)))
    seen = []
    ex.ghost_fns['gh_chunksize'] = lambda ex, s, a: (seen.append(1), ex.oblige(s, 'chunk size matches the slot numbering', a[0] == csize(ex, c), 'post'))[0]
    ex.run_function(st, '@vc_chunk_size', [c])
    need(seen)

def run_slots_inj(ex, st):
    pass

def run_byindex(entry):
    def r(ex, st):
        setup(ex, st); T = object_(ex, st)
        c, p = ex.fresh('c'), ex.fresh('p')
        valid(ex, st, c, p)
        seen = []
        slot(ex, seen, lambda s: index(ex, c, p), 'the element is the one of the slot')
        ex.run_function(st, '@' + entry, [P(T, 0), c, p])
        need(seen)
    return r

def run_get(entry):
    def r(ex, st):
        setup(ex, st); T = object_(ex, st)
        c, p = ex.fresh('c'), ex.fresh('p')
        valid(ex, st, c, p)
        st.ghost['tc'], st.ghost['tp'], st.ghost['tid'] = c, p, index(ex, c, p)
        seen = []
        slot(ex, seen, lambda s: s.ghost['tid'], "the element is the one of the thread's own identifier")
        ex.run_function(st, '@' + entry, [P(T, 0)])
        need(seen)
    return r

def vars_of(st, phis):
    """named accessors for the 64-bit loop variables: phis and cells of live local objects"""
    out = [('phi ' + r, (lambda s, v, r=r: v[r])) for r, v in b64(phis)]
    for rid, m in st.mem.items():
        if m.alive and not m.readonly and m.cells:
            for o, (sz, v) in m.cells.items():
                if sz == 8 and z3.is_bv(v):
                    out.append(('%s+%d' % (rid, o), lambda s, v, rid=rid, o=o: s.mem[rid].cells[o][1]))
    return out

def it_cands(target, c0):
    def cands(ex, st, phis, env):
        out = []
        vs = vars_of(st, phis)
        for n, a in vs:
            out.append(('%s is a chunk' % n, lambda s, v, a=a: z3.ULT(a(s, v), bv(NCH))))
            out.append(('%s at least the first chunk' % n, lambda s, v, a=a: z3.UGE(a(s, v), c0)))
            out.append(('%s at most the first chunk' % n, lambda s, v, a=a: z3.ULE(a(s, v), c0)))
            out.append(('%s is not negative' % n, lambda s, v, a=a: z3.ULT(a(s, v), bv(1 << 40))))
            out.append(('%s is negative' % n, lambda s, v, a=a: a(s, v) < 0))
            out.append(('%s is small' % n, lambda s, v, a=a: z3.And(a(s, v) < bv(1 << 40), a(s, v) > bv(-(1 << 40)))))
            for m, b in vs:
                if m != n:
                    out.append(('%s past the end of chunk %s' % (m, n), lambda s, v, a=a, b=b: z3.And(z3.ULT(a(s, v), bv(NCH)), z3.UGE(b(s, v), csize(ex, a(s, v))))))
                    out.append(('start(%s) + %s is the target' % (n, m), lambda s, v, a=a, b=b: start(ex, a(s, v)) + b(s, v) == target))
        return out
    return cands

def run_it(entry, delta, kind='it'):
    """kind it: result iterator has the slot number moved by delta"""
    def r(ex, st):
        setup(ex, st); T = object_(ex, st)
        c, p = ex.fresh('c'), ex.fresh('p')
        valid(ex, st, c, p)
        args = [P(T, 0), c, p]
        d = None
        here = index(ex, c, p)
        total = ex.P_ << 24
        if delta in ('add', 'sub', 'index'):
            d = ex.fresh('d')
            args.append(d)
            m = d if delta != 'sub' else -d
            st.assume(z3.And(d > -(ex.P_ << 24), d < (ex.P_ << 24)))
            if delta == 'index':
                st.assume(d >= 0)
        else:
            m = bv(delta)
        target = here + m
        st.assume(z3.And(target >= 0, target < total))
        seen = []
        def git(ex, s, a):
            seen.append(1)
            ex.oblige(s, 'the iterator stays inside the chunks', z3.And(z3.ULT(a[0], bv(NCH)), z3.ULT(a[1], csize(ex, a[0]))), 'post')
            ex.oblige(s, 'the iterator moved by the given number of slots', index(ex, a[0], a[1]) == target, 'post')
            ex.oblige(s, 'the chunk it points into exists', z3.Or(z3.Select(s.ghost['exists'], a[0]), a[0] == c), 'post')
        ex.ghost_fns['gh_it'] = git
        ex.ghost_fns['gh_bool'] = lambda ex, s, a: ex.oblige(s, 'value returned', i2b(a[0]), 'post')
        slot(ex, seen, lambda s: target, 'the element is the one at the given distance')
        ex.loop_cands = widened(it_cands(target, c))
        # the element under the iterator exists
        st.ghost['exists'] = z3.Store(st.ghost['exists'], c, z3.BoolVal(True))
        ex.run_function(st, '@' + entry, args)
        need(seen)
    return r

def two(ex, st):
    setup(ex, st); T = object_(ex, st)
    v = [ex.fresh(x) for x in ('c', 'p', 'c2', 'p2')]
    valid(ex, st, v[0], v[1]); valid(ex, st, v[2], v[3])
    return [P(T, 0)] + v, index(ex, v[0], v[1]), index(ex, v[2], v[3])

def run_diff(ex, st):
    args, a, b = two(ex, st)
    seen = []
    c, p, c2, p2 = args[1:]
    def cands(ex, st, phis, env):
        out = []
        vs = vars_of(st, phis)
        for x, y, px, py in ((c, c2, p, p2), (c2, c, p2, p)):
            for n, f in vs:
                out.append(('%s between the chunks' % n, lambda s, v, f=f, x=x, y=y: z3.And(z3.UGE(f(s, v), y), z3.ULE(f(s, v), x))))
                for m, g in vs:
                    if m != n:
                        out.append(('%s is the distance to the start of chunk %s' % (n, m), lambda s, v, f=f, g=g, x=x, y=y, px=px, py=py: z3.Implies(z3.And(z3.UGE(g(s, v), y), z3.ULE(g(s, v), x)), f(s, v) == px - py + start(ex, g(s, v)) - start(ex, y))))
        return out
    ex.loop_cands = widened(cands)
    ex.ghost_fns['gh_diff'] = lambda ex, s, x: (seen.append(1), ex.oblige(s, 'the difference is the difference of the slot numbers', x[0] == a - b, 'post'))[0]
    ex.run_function(st, '@vc_it_diff', args)
    need(seen)

def run_cmp(ex, st):
    args, a, b = two(ex, st)
    seen = []
    ref = [a == b, a != b, z3.ULT(a, b), z3.ULE(a, b), z3.UGT(a, b), z3.UGE(a, b)]
    def f(ex, s, x):
        seen.append(1)
        ex.oblige(s, 'iterators compare like their slot numbers', i2b(x[0]) == ref[z3.simplify(x[1]).as_long()], 'post')
    ex.ghost_fns['gh_cmp'] = f
    ex.run_function(st, '@vc_it_cmp', args)
    need(seen)

def run_range(entry):
    def r(ex, st):
        setup(ex, st); T = object_(ex, st)
        n = ex.fresh('n')
        st.assume(z3.ULT(n, ex.P_ << 24))
        st.ghost['total'] = n
        seen = []
        ex.ghost_fns['gh_it'] = lambda ex, s, a: ex.oblige(s, 'begin is slot 0', z3.And(a[0] == 0, a[1] == 0), 'post')
        ex.ghost_fns['gh_pos'] = lambda ex, s, a: (seen.append(1), ex.oblige(s, 'end is the slot after the last identifier', z3.And(z3.ULT(a[0], bv(NCH)), z3.ULT(a[1], csize(ex, a[0])), index(ex, a[0], a[1]) == n), 'post'))[0]
        ex.run_function(st, '@' + entry, [P(T, 0)])
        need(seen)
    return r

class Z(dict):
    """loop variables widened to 64 bits"""
    def __getitem__(self, k):
        v = dict.__getitem__(self, k)
        return z3.ZeroExt(32, v) if z3.is_bv(v) and v.size() == 32 else v

def widened(cands):
    return lambda ex, st, phis, env: [(l, (lambda s, v, f=f: f(s, Z(v)))) for l, f in cands(ex, st, phis, env)]

def fe_cands(ex, st, phis, env):
    out = []
    ints = b64(phis)
    cnt = lambda s: s.ghost['n']
    consts = [(n, v if v.size() == 64 else z3.ZeroExt(32, v)) for n, v in env.items() if z3.is_bv(v) and v.size() in (32, 64) and n not in [r for r, _ in ints]]
    tot = st.ghost['total']
    out.append(('calls at most total', lambda s, v: z3.ULE(cnt(s), tot)))
    for r, _ in ints:
        out.append(('%s counts the calls' % r, lambda s, v, r=r: v[r] == cnt(s)))
        out.append(('%s is a chunk number and all earlier chunks are done' % r, lambda s, v, r=r: z3.And(z3.ULT(v[r], bv(NCH)), z3.Or(cnt(s) == start(ex, v[r]), z3.And(cnt(s) == tot, z3.ULE(cnt(s), start(ex, v[r])))))))
        out.append(('%s below 2^40' % r, lambda s, v, r=r: z3.ULT(v[r], bv(1 << 40))))
        out.append(('%s is the chunk in turn' % r, lambda s, v, r=r: z3.And(z3.ULT(v[r], bv(NCH)), z3.Implies(z3.ULT(cnt(s), tot), cnt(s) == start(ex, v[r])))))
        for c, cv in consts + [(r2, None) for r2, _ in ints if r2 != r]:
            g = (lambda v, c=c, cv=cv: v[c] if cv is None else cv)
            out.append(('calls = start(%s) + %s' % (c, r), lambda s, v, r=r, g=g: cnt(s) == start(ex, g(v)) + v[r]))
            out.append(('%s at most the size of chunk %s' % (r, c), lambda s, v, r=r, g=g: z3.ULE(v[r], csize(ex, g(v)))))
    for r, v in phis:
        if isinstance(v, P) and v.rid == ex.F:
            off = lambda v, r: bv(v[r].off) if isinstance(v[r].off, int) else v[r].off
            for c, cv in ints:
                out.append(('pointer %s is chunk %s or null' % (r, c), lambda s, v, r=r, c=c: z3.Or(off(v, r) == SENT, off(v, r) == start(ex, v[c]) * bv(STRIDE))))
                out.append(('pointer %s is chunk %s' % (r, c), lambda s, v, r=r, c=c: off(v, r) == start(ex, v[c]) * bv(STRIDE)))
    return out

def run_foreach(ex, st):
    setup(ex, st); T = object_(ex, st)
    n = ex.fresh('n')
    st.assume(z3.ULE(n, ex.P_ << 23))        # the last of the 25 chunks is a reserve
    st.ghost['total'] = n
    st.ghost['n'] = bv(0)
    def f(ex, s, a):
        p = a[0]
        o = bv(p.off) if isinstance(p.off, int) else p.off
        ex.oblige(s, 'the next call gets the element of the next identifier', z3.And(z3.BoolVal(p.rid == ex.F), o == s.ghost['n'] * bv(STRIDE)), 'post')
        s.ghost['n'] = s.ghost['n'] + 1
    ex.ghost_fns['gh_slot'] = f
    seen = []
    ex.ghost_fns['gh_end'] = lambda ex, s, a: (seen.append(1), ex.oblige(s, 'every identifier was visited exactly once', s.ghost['n'] == s.ghost['total'], 'post'))[0]
    ex.loop_cands = widened(fe_cands)
    ex.run_function(st, '@vc_for_each', [P(T, 0)])
    need(seen)

def grow(entry, chunk0):
    def r(ex, st):
        setup(ex, st); T = object_(ex, st)
        c = bv(0) if chunk0 else ex.fresh('c')
        args = [P(T, 0)] + ([] if chunk0 else [c])
        if not chunk0:
            st.assume(z3.And(z3.UGE(c, bv(1)), z3.ULT(c, bv(NCH))))
        st.ghost['exists'] = z3.K(z3.BitVecSort(64), z3.BoolVal(False))
        already = z3.Const('already', z3.BoolSort())
        if not chunk0:
            st.ghost['exists'] = z3.Store(st.ghost['exists'], c, already)
        st.ghost['locked'] = 1 if chunk0 else 0
        st.ghost['ctor'] = bv(0)
        st.ghost['stores'] = bv(0)
        ctor = z3.Function('ctor', z3.BitVecSort(64), z3.BitVecSort(64))
        K = z3.BitVec('K_rigid', 64)                 # an arbitrary slot of the chunk: quantified by generalisation
        st.assume(z3.ULT(K, csize(ex, c)))
        st.assume(z3.ULE(start(ex, c) + csize(ex, c), bv(1 << 32)))      # identifiers have 32 bits
        ex.new_rid = None
        def new(ex, s, name, args_, rett):
            ck = z3.simplify(args_[0] - csize(ex, c) * bv(STRIDE))           # array cookie in front of the elements
            ex.oblige(s, 'memory for the whole chunk is requested', z3.Or(ck == 0, ck == bv(STRIDE)), 'pre')
            for cand in (bv(STRIDE), bv(0)):
                if ex.proves(s, ck == cand):
                    ck = cand
                    break
            else:
                s.assume(z3.Or(ck == 0, ck == bv(STRIDE)))
            s.ghost['cookie'] = ck
            rid = ex.bytes_region(s, 'new chunk', csize(ex, c) * bv(STRIDE) + ck, width=8, align=64)
            ex.new_rid = rid
            return [(s, P(rid, 0))]
        ex.contracts.insert(0, SpecContract('operator new[]', lambda n, d, b: d.startswith('operator new'), new))
        ex.contracts.insert(0, SpecContract('std::mutex', lambda n, d, b: b in ('std::mutex::lock', 'std::mutex::unlock'), lambda ex, s, n, a, rt: (s.ghost.__setitem__('locked', 1 if 'unlock' not in ex.mod.dem[n] else 0), [(s, None)])[1]))
        def call(ex, s, name, a, rett):
            s.ghost['ctor'] = s.ghost['ctor'] + 1
            v = a[-1]
            return [(s, ctor(z3.ZeroExt(64 - v.size(), v) if v.size() < 64 else v))]
        ex.contracts.insert(0, SpecContract('the constructor function (any pure function of the identifier)', lambda n, d, b: d.startswith('std::function<') and b.endswith('::operator()'), call))
        def store(ex, s, name, a, rett):
            i = cindex(ex, s, a[0])
            v = a[1]
            if v.rid is None:
                ex.oblige(s, 'only chunks other than chunk 0 are marked missing', i != 0 if chunk0 else False, 'post')
                return [(s, None if rett == ('void',) else v)]
            s.ghost['published'] = i
            ex.oblige(s, 'the chunk is stored in its place', z3.And(i == c, z3.BoolVal(v.rid == ex.new_rid), (bv(v.off) if isinstance(v.off, int) else v.off) == s.ghost['cookie']), 'post')
            s.ghost['stores'] = s.ghost['stores'] + 1
            if not chunk0:
                done(ex, s)
            s.ghost['exists'] = z3.Store(s.ghost['exists'], i, z3.BoolVal(True))
            return [(s, None if rett == ('void',) else v)]
        def done(ex, s):
            ex.oblige(s, 'every slot of the chunk holds the value made for its identifier', z3.Select(s.mem[ex.new_rid].arr, z3.UDiv(s.ghost['cookie'], bv(8)) + K * bv(STRIDE // 8)) == ctor(start(ex, c) + K), 'post')
            ex.oblige(s, 'the constructor function ran once per slot', s.ghost['ctor'] == csize(ex, c), 'post')
        m = lambda n, d, b: 'Uninitialized<' in d and ('std::atomic<' in d or 'std::__atomic_base<' in d) and (re.search(r'::store\(', d) or re.search(r'>::operator=\(parlay', d))
        ex.contracts.insert(0, SpecContract('atomic chunk pointer store', m, store))
        def load(ex, s, name, a, rett):
            i = cindex(ex, s, a[0])
            if ex.new_rid and 'published' in s.ghost:
                ex.oblige(s, 'reads back the chunk stored before', i == s.ghost['published'], 'pre')
                return [(s, P(ex.new_rid, s.ghost['cookie']))]
            return atomic_load(ex, s, name, a, rett)
        ex.contracts.insert(0, SpecContract('atomic chunk pointer load', atomic_contracts()._m, load))
        def cands(ex, s0, phis, env):
            out = []
            rid = ex.new_rid
            for r_, v in b64(phis):
                out.append(('%s slots constructed' % r_, lambda s, v, r=r_: s.ghost['ctor'] == v[r]))
                out.append(('%s at most the chunk size' % r_, lambda s, v, r=r_: z3.ULE(v[r], csize(ex, c))))
                if rid:
                    out.append(('slots below %s hold their values' % r_, lambda s, v, r=r_: z3.Implies(z3.ULT(K, v[r]), z3.Select(s.mem[rid].arr, z3.UDiv(s.ghost['cookie'], bv(8)) + K * bv(STRIDE // 8)) == ctor(start(ex, c) + K))))
            for r_, v in phis:
                if isinstance(v, P):
                    off = lambda v, r: bv(v[r].off) if isinstance(v[r].off, int) else v[r].off
                    out.append(('pointer %s inside' % r_, lambda s, v, r=r_: z3.And(z3.ULE(off(v, r), s.ghost['cookie'] + csize(ex, c) * bv(STRIDE)), z3.URem(off(v, r), bv(STRIDE)) == 0) if v[r].rid == ex.new_rid else
                                z3.And(z3.UGE(off(v, r), bv(ex.off_chunks + 8)), z3.ULE(off(v, r), bv(ex.off_chunks + 8 * NCH)), z3.URem(off(v, r) - bv(ex.off_chunks), bv(8)) == 0)))
            return out
        ex.loop_cands = widened(cands)
        seen = []
        def end(ex, s, a):
            seen.append(1)
            ex.oblige(s, 'a missing chunk is stored exactly once, an existing one is left alone', s.ghost['stores'] == (bv(1) if chunk0 else z3.If(already, bv(0), bv(1))), 'post')
            if chunk0:
                done(ex, s)
            else:
                ex.oblige(s, 'the mutex is released', z3.BoolVal(s.ghost['locked'] == 0), 'post')
        ex.ghost_fns['gh_end'] = end
        ex.run_function(st, '@' + entry, args)
        need(seen)
    return r

def U(name, entry, run, fns, **o):
    return BVUnit(name, 'c18.cpp', '@' + entry, run, functions=fns, contracts=o.pop('con', CON), options=dict(o))

UNITS = [
    U('chunk_size_initialiser', 'vc_init_size', run_init, ['ThreadListChunkData::thread_list_chunk_size initialiser']),
    U('position', 'vc_position', run_position, ['ThreadListChunkData::compute_chunk_id', 'ThreadListChunkData::compute_chunk_position', 'ThreadListChunkData::ThreadListChunkData']),
    U('chunk_size', 'vc_chunk_size', run_chunksize, ['ThreadSpecific::get_chunk_size']),
    U('by_index', 'vc_by_index', run_byindex('vc_by_index'), ['ThreadSpecific::get_by_index', 'ThreadSpecific::get_by_index_nocheck']),
    U('by_index_const', 'vc_by_index_const', run_byindex('vc_by_index_const'), ['ThreadSpecific::get_by_index const', 'ThreadSpecific::get_by_index_nocheck const']),
    U('get', 'vc_get', run_get('vc_get'), ['ThreadSpecific::get']),
    U('get_const', 'vc_get_const', run_get('vc_get_const'), ['ThreadSpecific::get const']),
    U('deref', 'vc_deref', run_get('vc_deref'), ['ThreadSpecific::operator*']),
    U('deref_const', 'vc_deref_const', run_get('vc_deref_const'), ['ThreadSpecific::operator* const']),
    U('arrow', 'vc_arrow', run_get('vc_arrow'), ['ThreadSpecific::operator->']),
    U('arrow_const', 'vc_arrow_const', run_get('vc_arrow_const'), ['ThreadSpecific::operator-> const']),
    U('iterator_increment', 'vc_it_inc', run_it('vc_it_inc', 1), ['iterator_t::operator++()']),
    U('iterator_postincrement', 'vc_it_postinc', run_it('vc_it_postinc', 1), ['iterator_t::operator++(int)']),
    U('iterator_decrement', 'vc_it_dec', run_it('vc_it_dec', -1), ['iterator_t::operator--()']),
    U('iterator_postdecrement', 'vc_it_postdec', run_it('vc_it_postdec', -1), ['iterator_t::operator--(int)']),
    U('iterator_add', 'vc_it_add', run_it('vc_it_add', 'add'), ['iterator_t::operator+', 'iterator_t::operator+=', 'iterator_t::operator-='], recursion=1, weight=5, cut=['iterator_t'], rlimit=30000000),
    U('iterator_sub', 'vc_it_sub', run_it('vc_it_sub', 'sub'), ['iterator_t::operator-', 'iterator_t::operator-=', 'iterator_t::operator+='], recursion=1, weight=5, cut=['iterator_t'], rlimit=30000000),
    U('iterator_index', 'vc_it_index', run_it('vc_it_index', 'index'), ['iterator_t::operator[]'], recursion=1, weight=5, cut=['iterator_t'], rlimit=30000000),
    U('iterator_star', 'vc_it_star', run_it('vc_it_star', 0), ['iterator_t::operator*']),
    U('iterator_difference', 'vc_it_diff', run_diff, ['iterator_t::operator-(iterator_t)'], recursion=1, weight=5, cut=['iterator_t'], rlimit=30000000),
    U('iterator_compare', 'vc_it_cmp', run_cmp, ['iterator_t comparison operators']),
    U('begin_end', 'vc_range', run_range('vc_range'), ['ThreadSpecific::begin', 'ThreadSpecific::end']),
    U('begin_end_const', 'vc_range_const', run_range('vc_range_const'), ['ThreadSpecific::begin const', 'ThreadSpecific::end const']),
    U('for_each', 'vc_for_each', run_foreach, ['ThreadSpecific::for_each'], cut=['for_each'], rlimit=30000000),
    U('ensure_chunk_exists', 'vc_ensure', grow('vc_ensure', False), ['ThreadSpecific::ensure_chunk_exists'], cut=['ensure_chunk_exists'], rlimit=30000000, con=lambda: []),
    U('initialize', 'vc_initialize', grow('vc_initialize', True), ['ThreadSpecific::initialize'], cut=['::initialize', 'fill'], con=lambda: [chunkdata_contract()]),
]
