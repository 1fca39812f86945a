"""C03: sequence operations behave like operations on a list.  State: the list A of n elements held by the sequence
(capacity at least n).  Every unit runs the real member function on it, storage_impl being replaced by its contract."""
from c07 import *
from count import sel, Z

LAY = {'u64': (8, {0: 8}), 'T': (16, {0: 8, 8: 8})}

class L:
    """a sequence object and the list it holds"""
    def __init__(self, ex, st, name, T, exact=False, lo=0):
        self.n = size(ex, st, 'n_' + name, lo)
        self.T = T
        cap = self.n
        if not exact:
            cap = ex.fresh_lin('cap_' + name, None, 0, MAXN - 1, st=st)
            st.assume(cap.z >= self.n.z)
        self.cap = cap
        s, f = LAY[T]
        self.A = ex.new_array(st, name, cap, s, f)
        self.a = st.mem[self.A].fields[0][1]
        if T == 'T':
            k = z3.Int('lv_k')
            st.mem[self.A].opaque = False
            st.mem[self.A].fields[8] = (8, z3.Lambda([k], z3.If(z3.And(0 <= k, k < self.n.z), z3.IntVal(1), Z)))
        self.p = new_seq(ex, st, self.A, self.n)
    def at(self, k):
        return sel(self.a, k)

def element(ex, st, T):
    """an object that is no element of a sequence"""
    s, f = LAY[T]
    r = ex.new_array(st, 'value', Lin(1), s, f); st.mem[r].readonly = True
    if T == 'T':
        st.mem[r].opaque = False
        st.mem[r].fields[8] = (8, z3.K(I, z3.IntVal(1)))
    return r, sel(st.mem[r].fields[0][1], Z)

def value_array(ex, st, T):
    k = size(ex, st, 'k')
    s, f = LAY[T]
    r = ex.new_array(st, 'range', k, s, f); st.mem[r].readonly = True
    if T == 'T':
        st.mem[r].opaque = False
        st.mem[r].fields[8] = (8, z3.K(I, z3.IntVal(1)))
    return r, st.mem[r].fields[0][1], k

def seq_now(ex, st, p):
    c = st.mem[p.rid].cells.get(0)
    if c is None or not isinstance(c[1], SeqVal):
        raise Unsupported('sequence object without contract state')
    return c[1]

def holds(ex, s, p, n, elem, what, T):
    """the sequence object holds the list of n elements elem(0), ..."""
    o = seq_now(ex, s, p)
    ex.oblige(s, what + ': size', o.n.z == n, 'post')
    if o.rid is None:
        return o
    m = s.mem[o.rid]
    ex.oblige(s, what + ': the buffer is not freed', z3.BoolVal(bool(m.alive)), 'post')
    x = ex.fresh('any')
    ex.oblige(s, what + ': elements in order', z3.Implies(z3.And(0 <= x, x < n), sel(m.fields[0][1], x) == elem(x)), 'post')
    ex.oblige(s, what + ': capacity', m.length.z >= n, 'post')
    if T == 'T':
        ex.oblige(s, what + ': exactly the elements are alive', sel(m.fields[8][1], x) == z3.If(z3.And(0 <= x, x < n), z3.IntVal(1), Z), 'post')
    return o

def life(ex):
    ob = lambda what, v: lambda ex, s, a: ex.oblige(s, what, ex.as_lin(s, a[0], 64).z == v, 'life')
    ok = ob('an object is constructed only in storage without one', 0)
    def construct(ex, s, a):
        # a variable of the function nobody has written yet holds no object
        if isinstance(a[0], Undef) or (isinstance(a[0], Lin) and a[0].d and set(a[0].d) <= ex.uninit_terms):
            return
        ok(ex, s, a)
    ex.ghost_fns['gh_construct'] = construct
    ex.ghost_fns['gh_use'] = ob('an object is used only while it is alive', 1)
    ex.ghost_fns['gh_destroy'] = ob('an object is destroyed only while it is alive', 1)

def anywhere(ex, st, T, elems):
    """what loops and parallel loops write: elements given by their values, in any of the named ways"""
    def preds(ctx, s, rid, fo):
        m = s.mem[rid]
        if m.kind != 'arr':
            return []
        out = []
        if fo == 0:
            for nm, f in elems:
                out.append((nm, lambda v, a, k, f=f: sel(a, k) == f(k)))
        else:
            out += [('alive', lambda v, a, k: sel(a, k) == 1), ('dead', lambda v, a, k: sel(a, k) == 0)]
        return out + copied(ctx, s, rid, fo)
    ex.loop_cands.append(pointwise_loop(preds)); ex.par_cands.append(pointwise_par(preds)); ex.par_after.append(pointwise_after)

OPS = {}
def op(name, fs):
    def d(f):
        OPS[name] = (f, fs)
        return f
    return d

class R:
    """what an operation is expected to do"""
    def __init__(self, entry, args, L0, n, elem, it=None, val=None, flag=None, others=(), pre=()):
        self.__dict__.update(locals())

def run(name, T):
    f = OPS[name][0]
    def go(ex, st):
        life(ex)
        r = f(ex, st, T)
        seen = {}
        def ghost(k, chk):
            def g(ex, s, args):
                seen[k] = 1
                chk(ex, s, args)
            return g
        def chk_it(ex, s, args):
            o = seq_now(ex, s, r.L0.p)
            p = args[0]
            want = r.it * LAY[T][0]
            if o.rid is None:
                ex.oblige(s, 'returned iterator', want.z == 0 if hasattr(want, 'z') else z3.BoolVal(want == 0), 'post')
                return
            if isinstance(p, Ptr) and p.rid == o.rid:
                ex.oblige(s, 'returned iterator points where the list operation says', p.off.z == Lin.of(want).z, 'post')
            else:
                ex.oblige(s, 'returned iterator points into the sequence', z3.BoolVal(False), 'post')
        ex.ghost_fns['gh_it'] = ghost('it', chk_it)
        ex.ghost_fns['gh_val'] = ghost('val', lambda ex, s, a: ex.oblige(s, 'the size reported', ex.as_lin(s, a[0], 64).z == r.val, 'post'))
        ex.ghost_fns['gh_bool'] = ghost('flag', lambda ex, s, a: ex.oblige(s, 'the answer', zb(ex.as_bool(s, a[0])) == r.flag, 'post'))
        got = 0
        for s, _ in ex.run_function(st, '@vc_' + r.entry, r.args):
            got += 1
            if r.n is not None:
                holds(ex, s, r.L0.p, r.n, r.elem, 'the sequence', T)
            for l, n, elem, w in r.others:
                o2 = holds(ex, s, l.p, n, elem, w, T)
                o1 = seq_now(ex, s, r.L0.p)
                ex.oblige(s, 'the sequences do not share a buffer', z3.BoolVal(o1.rid is None or o1.rid != o2.rid), 'post')
            if T == 'T' and ex.alive_extra is not None:
                ex.alive_extra(ex, s)
        if not got or (r.it is not None and 'it' not in seen) or (r.val is not None and 'val' not in seen) or (r.flag is not None and 'flag' not in seen):
            raise Unsupported('result not reached')
    return go

# ---------------------------------------------------------------- operations
def std(ex, st, T, elems=(), **k):
    l = L(ex, st, 'A', T, **k)
    ex.alive_extra = None
    anywhere(ex, st, T, [('same', l.at)] + list(elems))
    return l

def with_value(ex, st, T, **k):
    r, v = element(ex, st, T)
    l = std(ex, st, T, [('value', lambda k: v)], **k)
    return l, Ptr(r, 0), v

def pick(ex, st, l, name='i', end=False):
    i = ex.fresh_lin(name, None, 0, MAXN - 1, st=st)
    st.assume(i.z <= l.n.z if end else i.z < l.n.z)
    return i

def own(ex, st, T):
    l = L(ex, st, 'A', T, lo=1)
    ex.alive_extra = None
    i = pick(ex, st, l)
    v = l.at(i.z)
    anywhere(ex, st, T, [('same', l.at), ('value', lambda k: v)])
    return l, i, v

def two(ex, st, T):
    l = L(ex, st, 'A', T); b = L(ex, st, 'B', T)
    ex.alive_extra = None
    anywhere(ex, st, T, [('same', l.at), ('other', b.at), ('appended', lambda k: b.at(k - l.n.z))])
    return l, b

app = lambda l, f: (lambda x: z3.If(x < l.n.z, l.at(x), f(x - l.n.z)))
nothing = lambda x: Z

for nm in ('push_back', 'emplace_back', 'push_back_move'):
    def f(ex, st, T, nm=nm):
        l, p, v = with_value(ex, st, T)
        return R(nm, [l.p, p], l, l.n.z + 1, app(l, lambda k: v), it=l.n)
    op(nm, 'sequence::' + nm.replace('_move', '(T&&)'))(f)

@op('push_back_own', 'sequence::push_back(own element)')
def _(ex, st, T):
    l, i, v = own(ex, st, T)
    return R('push_back_own', [l.p, i], l, l.n.z + 1, app(l, lambda k: v), it=l.n)

@op('pop_back', 'sequence::pop_back')
def _(ex, st, T):
    l = std(ex, st, T, lo=1)
    return R('pop_back', [l.p], l, l.n.z - 1, l.at)

@op('append_n', 'sequence::append(n, v), append_n')
def _(ex, st, T):
    l, p, v = with_value(ex, st, T)
    k = size(ex, st, 'k')
    return R('append_n', [l.p, k, p], l, l.n.z + k.z, app(l, lambda k: v), it=l.n)

@op('append_n_own', 'sequence::append(n, own element)')
def _(ex, st, T):
    l, i, v = own(ex, st, T)
    k = size(ex, st, 'k')
    return R('append_n_own', [l.p, k, i], l, l.n.z + k.z, app(l, lambda k: v), it=l.n)

for nm in ('append_range', 'append_rng'):
    def f(ex, st, T, nm=nm):
        r, a, k = value_array(ex, st, T)
        l = L(ex, st, 'A', T); ex.alive_extra = None
        anywhere(ex, st, T, [('same', l.at), ('appended', lambda x: sel(a, x - l.n.z))])
        return R(nm, [l.p, Ptr(r, 0), k], l, l.n.z + k.z, app(l, lambda k: sel(a, k)), it=l.n)
    op(nm, 'sequence::' + nm)(f)

@op('append_move', 'sequence::append(sequence&&)')
def _(ex, st, T):
    l, b = two(ex, st, T)
    return R('append_move', [l.p, b.p], l, l.n.z + b.n.z, app(l, b.at), it=l.n, others=[(b, Z, nothing, 'the moved sequence')])

@op('append_copy', 'sequence::append(range), append_range')
def _(ex, st, T):
    l, b = two(ex, st, T)
    return R('append_copy', [l.p, b.p], l, l.n.z + b.n.z, app(l, b.at), it=l.n, others=[(b, b.n.z, b.at, 'the appended sequence')])

def ins(l, p, k, f):
    return lambda x: z3.If(x < p.z, l.at(x), z3.If(x < p.z + k, f(x - p.z), l.at(x - k)))

for nm in ('insert', 'emplace'):
    def f(ex, st, T, nm=nm):
        l, q, v = with_value(ex, st, T)
        p = pick(ex, st, l, 'p', True)
        return R(nm, [l.p, p, q], l, l.n.z + 1, ins(l, p, 1, lambda k: v), it=p)
    op(nm, 'sequence::' + nm)(f)

@op('insert_own', 'sequence::insert(p, own element)')
def _(ex, st, T):
    l, i, v = own(ex, st, T)
    p = pick(ex, st, l, 'p', True)
    return R('insert_own', [l.p, p, i], l, l.n.z + 1, ins(l, p, 1, lambda k: v), it=p)

@op('insert_n', 'sequence::insert(p, n, v), insert_n')
def _(ex, st, T):
    l, q, v = with_value(ex, st, T)
    p = pick(ex, st, l, 'p', True); k = size(ex, st, 'k')
    return R('insert_n', [l.p, p, k, q], l, l.n.z + k.z, ins(l, p, k.z, lambda k: v), it=p)

@op('insert_n_own', 'sequence::insert(p, n, own element)')
def _(ex, st, T):
    l, i, v = own(ex, st, T)
    p = pick(ex, st, l, 'p', True); k = size(ex, st, 'k')
    return R('insert_n_own', [l.p, p, k, i], l, l.n.z + k.z, ins(l, p, k.z, lambda k: v), it=p)

@op('insert_range', 'sequence::insert(p, first, last), insert_range')
def _(ex, st, T):
    r, a, k = value_array(ex, st, T)
    l = L(ex, st, 'A', T); ex.alive_extra = None
    p = pick(ex, st, l, 'p', True)
    anywhere(ex, st, T, [('same', l.at), ('inserted', lambda x: sel(a, x - p.z))])
    return R('insert_range', [l.p, p, Ptr(r, 0), k], l, l.n.z + k.z, ins(l, p, k.z, lambda k: sel(a, k)), it=p)

@op('insert_move', 'sequence::insert(p, sequence&&)')
def _(ex, st, T):
    l, b = two(ex, st, T)
    p = pick(ex, st, l, 'p', True)
    return R('insert_move', [l.p, p, b.p], l, l.n.z + b.n.z, ins(l, p, b.n.z, b.at), it=p, others=[(b, Z, nothing, 'the moved sequence')])

@op('erase', 'sequence::erase(p)')
def _(ex, st, T):
    l = std(ex, st, T, lo=1)
    p = pick(ex, st, l, 'p')
    return R('erase', [l.p, p], l, l.n.z - 1, lambda x: z3.If(x < p.z, l.at(x), l.at(x + 1)), it=p)

@op('erase_range', 'sequence::erase(p, q)')
def _(ex, st, T):
    l = std(ex, st, T)
    p = pick(ex, st, l, 'p', True); q = pick(ex, st, l, 'q', True)
    st.assume(p.z <= q.z)
    return R('erase_range', [l.p, p, q], l, l.n.z - (q.z - p.z), lambda x: z3.If(x < p.z, l.at(x), l.at(x + q.z - p.z)), it=p)

@op('resize', 'sequence::resize(n, v)')
def _(ex, st, T):
    l, q, v = with_value(ex, st, T)
    k = size(ex, st, 'k')
    return R('resize', [l.p, k, q], l, k.z, lambda x: z3.If(x < l.n.z, l.at(x), v))

@op('resize_own', 'sequence::resize(n, own element)')
def _(ex, st, T):
    l, i, v = own(ex, st, T)
    k = size(ex, st, 'k')
    return R('resize_own', [l.p, k, i], l, k.z, lambda x: z3.If(x < l.n.z, l.at(x), v))

@op('resize_default', 'sequence::resize(n)')
def _(ex, st, T):
    l = std(ex, st, T, [('zero', lambda k: Z)])
    k = size(ex, st, 'k')
    return R('resize_default', [l.p, k], l, k.z, lambda x: z3.If(x < l.n.z, l.at(x), Z))

@op('reserve', 'sequence::reserve')
def _(ex, st, T):
    l = std(ex, st, T)
    k = size(ex, st, 'k')
    return R('reserve', [l.p, k], l, l.n.z, l.at)

@op('clear', 'sequence::clear')
def _(ex, st, T):
    l = std(ex, st, T)
    return R('clear', [l.p], l, Z, nothing)

for nm in ('swap', 'swap_free'):
    def f(ex, st, T, nm=nm):
        l, b = two(ex, st, T)
        return R(nm, [l.p, b.p], l, b.n.z, b.at, others=[(b, l.n.z, l.at, 'the other sequence')])
    op(nm, 'sequence::swap')(f)

@op('assign_copy', 'sequence::operator=(const sequence&)')
def _(ex, st, T):
    l, b = two(ex, st, T)
    return R('assign_copy', [l.p, b.p], l, b.n.z, b.at, others=[(b, b.n.z, b.at, 'the source')])

@op('assign_move', 'sequence::operator=(sequence&&)')
def _(ex, st, T):
    l, b = two(ex, st, T)
    return R('assign_move', [l.p, b.p], l, b.n.z, b.at, others=[(b, Z, nothing, 'the moved sequence')])

@op('assign_n', 'sequence::assign(n, v), initialize_fill')
def _(ex, st, T):
    l, q, v = with_value(ex, st, T)
    k = size(ex, st, 'k')
    return R('assign_n', [l.p, k, q], l, k.z, lambda x: v)

@op('assign_n_own', 'sequence::assign(n, own element)')
def _(ex, st, T):
    l, i, v = own(ex, st, T)
    k = size(ex, st, 'k')
    return R('assign_n_own', [l.p, k, i], l, k.z, lambda x: v)

@op('assign_range', 'sequence::assign(first, last), initialize_range')
def _(ex, st, T):
    r, a, k = value_array(ex, st, T)
    l = std(ex, st, T, [('given', lambda x: sel(a, x))])
    return R('assign_range', [l.p, Ptr(r, 0), k], l, k.z, lambda x: sel(a, x))

class Raw:
    """storage for a sequence object that does not exist yet"""
    def __init__(self, ex, st):
        rid = ex.new_rid('seqobj')
        st.mem[rid] = CellMem(16, None, 'seqobj')
        self.p = Ptr(rid, 0)
        ex.alive_extra = None

@op('ctor_default', 'sequence::sequence()')
def _(ex, st, T):
    l = Raw(ex, st)
    return R('ctor_default', [l.p], l, Z, nothing)

@op('ctor_n', 'sequence::sequence(n), initialize_default')
def _(ex, st, T):
    l = Raw(ex, st); k = size(ex, st, 'k')
    anywhere(ex, st, T, [('zero', lambda x: Z)])
    return R('ctor_n', [l.p, k], l, k.z, lambda x: Z)

@op('ctor_fill', 'sequence::sequence(n, v), initialize_fill')
def _(ex, st, T):
    l = Raw(ex, st); k = size(ex, st, 'k')
    r, v = element(ex, st, T)
    anywhere(ex, st, T, [('value', lambda x: v)])
    return R('ctor_fill', [l.p, k, Ptr(r, 0)], l, k.z, lambda x: v)

for nm in ('ctor_range', 'to_sequence'):
    def f(ex, st, T, nm=nm):
        l = Raw(ex, st)
        r, a, k = value_array(ex, st, T)
        anywhere(ex, st, T, [('given', lambda x: sel(a, x))])
        return R(nm, [l.p, Ptr(r, 0), k], l, k.z, lambda x: sel(a, x))
    op(nm, 'sequence::sequence(first, last), initialize_range' if nm[0] == 'c' else 'parlay::to_sequence')(f)

@op('ctor_copy', 'sequence::sequence(const sequence&)')
def _(ex, st, T):
    b = std(ex, st, T); l = Raw(ex, st)
    return R('ctor_copy', [l.p, b.p], l, b.n.z, b.at, others=[(b, b.n.z, b.at, 'the source')])

@op('ctor_move', 'sequence::sequence(sequence&&)')
def _(ex, st, T):
    b = std(ex, st, T); l = Raw(ex, st)
    return R('ctor_move', [l.p, b.p], l, b.n.z, b.at, others=[(b, Z, nothing, 'the moved sequence')])

@op('pop_tail', 'sequence::pop_tail(iterator)')
def _(ex, st, T):
    l = L(ex, st, 'A', T); p = pick(ex, st, l, 'p', True); r = Raw(ex, st)
    anywhere(ex, st, T, [('same', l.at), ('tail', lambda x: l.at(x + p.z))])
    return R('pop_tail', [l.p, p, r.p], l, p.z, l.at, others=[(r, l.n.z - p.z, lambda x: l.at(x + p.z), 'the tail')])

@op('pop_tail_len', 'sequence::pop_tail(len)')
def _(ex, st, T):
    l = L(ex, st, 'A', T); k = pick(ex, st, l, 'k', True); r = Raw(ex, st)
    h = l.n.z - k.z
    anywhere(ex, st, T, [('same', l.at), ('tail', lambda x: l.at(x + h))])
    return R('pop_tail_len', [l.p, k, r.p], l, h, l.at, others=[(r, k.z, lambda x: l.at(x + h), 'the tail')])

@op('subseq', 'sequence::subseq')
def _(ex, st, T):
    l = L(ex, st, 'A', T); p = pick(ex, st, l, 'p', True); q = pick(ex, st, l, 'q', True); r = Raw(ex, st)
    st.assume(p.z <= q.z)
    anywhere(ex, st, T, [('tail', lambda x: l.at(x + p.z))])
    return R('subseq', [l.p, p, q, r.p], l, l.n.z, l.at, others=[(r, q.z - p.z, lambda x: l.at(x + p.z), 'the result')])

@op('substr', 'sequence::substr(pos)')
def _(ex, st, T):
    l = L(ex, st, 'A', T); p = pick(ex, st, l, 'p', True); r = Raw(ex, st)
    anywhere(ex, st, T, [('tail', lambda x: l.at(x + p.z))])
    return R('substr', [l.p, p, r.p], l, l.n.z, l.at, others=[(r, l.n.z - p.z, lambda x: l.at(x + p.z), 'the result')])

@op('substr2', 'sequence::substr(pos, count)')
def _(ex, st, T):
    l = L(ex, st, 'A', T); p = pick(ex, st, l, 'p', True); q = pick(ex, st, l, 'q', True); r = Raw(ex, st)
    st.assume(p.z + q.z <= l.n.z)
    anywhere(ex, st, T, [('tail', lambda x: l.at(x + p.z))])
    return R('substr2', [l.p, p, q, r.p], l, l.n.z, l.at, others=[(r, q.z, lambda x: l.at(x + p.z), 'the result')])

def acc(nm, it, extra=0, lo=1):
    def f(ex, st, T):
        l = std(ex, st, T, lo=lo)
        i = [pick(ex, st, l) for _ in range(extra)]
        return R(nm, [l.p] + i, l, l.n.z, l.at, it=it(l, i))
    op(nm, 'sequence::' + nm)(f)
acc('at', lambda l, i: i[0], 1); acc('index', lambda l, i: i[0], 1)
acc('front', lambda l, i: Lin(0)); acc('back', lambda l, i: l.n - 1)
acc('begin', lambda l, i: Lin(0), lo=0); acc('end', lambda l, i: l.n, lo=0)

def cuts(nm, it, val, k):
    def f(ex, st, T):
        l = std(ex, st, T)
        i = [pick(ex, st, l, 'p', True) for _ in range(k)]
        if k == 2:
            st.assume(i[0].z <= i[1].z)
        return R(nm, [l.p] + i, l, l.n.z, l.at, it=it(l, i), val=val(l, i))
    op(nm, 'sequence::' + nm)(f)
cuts('cut', lambda l, i: i[0], lambda l, i: i[1].z - i[0].z, 2)
cuts('head', lambda l, i: Lin(0), lambda l, i: i[0].z, 1)
cuts('tail', lambda l, i: l.n - i[0], lambda l, i: i[0].z, 1)

@op('size', 'sequence::size, empty')
def _(ex, st, T):
    l = std(ex, st, T)
    return R('size', [l.p], l, l.n.z, l.at, val=l.n.z, flag=l.n.z == 0)

ONLY_U64 = set()
def unit(nm, T):
    return Unit(nm + ('' if T == 'u64' else '_lifetimes'), 'c03.cpp', '@vc_' + nm, run(nm, T), functions=[OPS[nm][1] + ('' if T == 'u64' else ' (tracked elements)')], lemmas=euclid_lemma(),
                extra=() if T == 'u64' else ('-DTRACKED',), options={'unroll_recursion': 2} if T == 'u64' else {'elems': {'T': (16, {0: 8, 8: 8})}, 'live_field': 8, 'unroll_recursion': 2})

UNITS = [unit(nm, 'u64') for nm in OPS]

def equality(neg):
    def f(ex, st, T):
        l, b = two(ex, st, T)
        for x in (l, b):
            st.mem[x.A].readonly = True; st.mem[x.A].opaque = False
        k = z3.Int('eq_k')
        eq = z3.And(l.n.z == b.n.z, z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < l.n.z), l.at(k) == b.at(k)), patterns=[l.at(k)]))
        return R('not_equal' if neg else 'equal', [l.p, b.p], l, l.n.z, l.at, flag=z3.Not(eq) if neg else eq)
    return f
OPS['equal'] = (equality(False), 'sequence::operator==, compare_equal')
OPS['not_equal'] = (equality(True), 'sequence::operator!=')

TRACKED = [unit(nm, 'T') for nm in OPS if nm not in ('equal', 'not_equal')]
