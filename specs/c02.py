"""C02: the work-stealing deque, rely/guarantee, bit-precise.

Ghost: E, one past the newest job that is still to be handed out; the jobs in the deque are those in the slots
[top, E).  A push that is complete extends E by one, the step that hands a job to the owner shortens it by one, the
step that hands a job to a thief raises top by one; no other step changes it.
Global invariant: top <= E, bot <= E < q_size.
Every step of a thief: age unchanged, or top raised by one while top < E.
Every step of the owner: if age is unchanged then a job at top stays where it is and stays in the deque (unless it
pops it, which changes age); if age changes, its tag grows.
Hence what a thief knows after reading age and bot -- as long as age does not change its job is in slot top -- is
stable, and its compare-exchange takes exactly that job; the age never takes a value again (tags do not wrap around).
Assumed: sequential consistency of the atomic operations; fewer than 2^32 resets (tag does not wrap)."""
from bvlib import *

W = 32
b32 = lambda k: z3.BitVecVal(k, 32)

def layout(ex, st):
    got = []
    ex.ghost_fns['gh_val'] = lambda ex, s, a: got.append(z3.simplify(a[0]).as_long())
    ex.run_function(st.fork(), '@vc_layout', [])
    if len(got) != 8:
        raise Unsupported('layout')
    return got

class Deque:
    """shared state, kept in st.ghost: bot, tag, top (32 bit), E (32 bit), q: slot -> job"""
    def __init__(self, ex, st, owner):
        self.bo, self.ao, self.qo, self.jw, self.tago, self.topo, self.cap, self.size = layout(ex, st)
        if {self.tago, self.topo} != {0, 4}:
            raise Unsupported('layout of age')
        self.ex, self.owner = ex, owner
        self.D = ex.region(st, 'deque', self.size, {})
        g = st.ghost
        for n in ('bot', 'tag', 'top', 'E'):
            g[n] = ex.fresh(n, 32)
        g['q'] = z3.Array('q!0', z3.BitVecSort(64), z3.BitVecSort(64))
        self.n = 0
        st.assume(self.inv(g))
        self.orig_load, self.orig_store = ex.load, ex.store
        ex.load, ex.store = self.load, self.store
        ex.ghost_fns['cas'] = self.cas

    def inv(self, g):
        return z3.And(z3.ULE(g['top'], g['E']), z3.ULE(g['bot'], g['E']), z3.ULT(g['E'], b32(self.cap)))
    def tagsane(self, g):
        return g['tag'] != b32(0xffffffff)

    def others(self, s):
        """what the other threads may do before the next step of this one"""
        g = s.ghost
        s.ghost = g2 = dict(g)
        if self.owner:
            # thieves
            t = self.ex.fresh('top', 32)
            s.assume(z3.And(z3.UGE(t, g['top']), z3.ULE(t, g['E'])))
            g2['top'] = t
        else:
            for n in ('bot', 'tag', 'top', 'E'):
                g2[n] = self.ex.fresh(n, 32)
            self.n += 1
            g2['q'] = z3.Array('q!%d' % self.n, z3.BitVecSort(64), z3.BitVecSort(64))
            s.assume(self.inv(g2))
            same = z3.And(g2['tag'] == g['tag'], g2['top'] == g['top'])
            s.assume(z3.Or(same, z3.UGT(g2['tag'], g['tag']), z3.And(g2['tag'] == g['tag'], z3.UGT(g2['top'], g['top']))))
            at = z3.ZeroExt(32, g['top'])
            s.assume(z3.Implies(z3.And(same, z3.ULT(g['top'], g['E'])), z3.And(z3.ULT(g2['top'], g2['E']), z3.Select(g2['q'], at) == z3.Select(g['q'], at))))

    def slot(self, s, off, size):
        """the slot accessed, or None for bot and age"""
        if isinstance(off, int):
            if off < self.qo:
                return None
            off = bv(off)
        d = z3.simplify(off - bv(self.qo))
        i = z3.simplify(z3.UDiv(d, bv(self.jw)))
        if not self.ex.proves(s, z3.And(z3.UGE(off, bv(self.qo)), z3.URem(d, bv(self.jw)) == 0)) or size != 8:
            # the index may have wrapped: the access is outside
            self.ex.oblige(s, 'access to a slot of the deque', z3.And(z3.UGE(off, bv(self.qo)), z3.URem(d, bv(self.jw)) == 0, z3.ULT(i, bv(self.cap))), 'memory')
            raise End()
        self.ex.oblige(s, 'the slot exists', z3.ULT(i, bv(self.cap)), 'memory')
        return i

    def age(self, g):
        return z3.Concat(g['top'], g['tag']) if self.topo == 4 else z3.Concat(g['tag'], g['top'])
    def parts(self, a):
        lo, hi = z3.simplify(z3.Extract(31, 0, a)), z3.simplify(z3.Extract(63, 32, a))
        return (lo, hi) if self.topo == 4 else (hi, lo)      # tag, top

    def load(self, s, t, p, atomic=False):
        if not isinstance(p, P) or p.rid != self.D:
            return self.orig_load(s, t, p, atomic)
        t = self.ex.mod.types.resolve(t)
        size = (t[1] + 7) // 8 if t[0] == 'i' else self.ex.mod.types.size(t)
        if not atomic:
            raise Unsupported('plain read of shared memory')
        i = self.slot(s, p.off, size)
        self.others(s)
        g = s.ghost
        if i is not None:
            if t[0] == 'i':
                return z3.Select(g['q'], i)
            return P('int', z3.Select(g['q'], i))
        if p.off == self.bo and size == 4:
            return g['bot']
        if p.off == self.ao and size == 8:
            if self.owner:
                # the owner sees that its slot is below every slot a thief can reach: from here on the job is its own
                take = z3.And(g['E'] == g['bot'] + 1, z3.ULT(g['top'], g['bot']))
                s.ghost = g2 = dict(g)
                g2['got'] = z3.If(take, z3.Select(g['q'], z3.ZeroExt(32, g['bot'])), g['got'])
                s.assume(z3.Implies(take, g2['got'] != 0))      # every job pushed is a pointer to a job
                g2['taken'] = g['taken'] + z3.If(take, bv(1, 8), bv(0, 8))
                g2['E'] = z3.If(take, g['bot'], g['E'])
            return self.age(g)
        raise Unsupported('access to the deque')

    def store(self, s, t, v, p, atomic=False):
        if not isinstance(p, P) or p.rid != self.D:
            return self.orig_store(s, t, v, p, atomic)
        t = self.ex.mod.types.resolve(t)
        size = (t[1] + 7) // 8 if t[0] == 'i' else self.ex.mod.types.size(t)
        i = self.slot(s, p.off, size)
        if s.ghost.pop('cas_done', None):
            return
        if not self.owner:
            self.ex.oblige(s, 'a thief changes the deque by compare-exchange of age only', z3.BoolVal(False), 'frame')
            return
        self.others(s)
        g = s.ghost
        s.ghost = g2 = dict(g)
        if i is not None:
            b = v.off if isinstance(v, P) else v
            if isinstance(v, P) and v.rid != 'int':
                self.ex.oblige(s, 'a job is stored', z3.BoolVal(False), 'post'); return
            b = bv(b) if isinstance(b, int) else b
            self.ex.oblige(s, 'no slot that holds a job still in the deque is written', z3.Or(z3.ULT(i, z3.ZeroExt(32, g['top'])), z3.UGE(i, z3.ZeroExt(32, g['E']))), 'guarantee')
            g2['q'] = z3.Store(g['q'], i, b)
        elif p.off == self.bo and size == 4:
            grow = z3.And(v == g['E'] + 1, g['todo'] != bv(0, 8)) if 'todo' in g else z3.BoolVal(False)
            if 'todo' in g:
                self.ex.oblige(s, 'what is pushed is the job given', z3.Implies(grow, z3.Select(g['q'], z3.ZeroExt(32, g['E'])) == g['job']), 'guarantee')
                g2['todo'] = z3.If(grow, g['todo'] - 1, g['todo'])
            g2['E'] = z3.If(grow, v, g['E'])
            g2['bot'] = v
            self.ex.oblige(s, 'bot never shows more than the jobs in the deque', self.inv(g2), 'guarantee')
        elif p.off == self.ao and size == 8:
            tg, tp = self.parts(v)
            self.change_age(s, g, g2, tg, tp, False)
        else:
            raise Unsupported('access to the deque')

    def change_age(self, s, g, g2, tg, tp, cas):
        """the owner resets the deque, taking the last job if there is one (compare-exchange)"""
        ex = self.ex
        s.assume(self.tagsane(g))
        last = g['E'] == g['top'] + 1
        ex.oblige(s, 'the tag grows with every reset', z3.UGT(tg, g['tag']), 'guarantee')
        if cas:
            ex.oblige(s, 'the deque is reset when its last job is taken', last, 'guarantee')
            g2['got'] = z3.Select(g['q'], z3.ZeroExt(32, g['top']))
            s.assume(g2['got'] != 0)
            g2['taken'] = g['taken'] + bv(1, 8)
        else:
            ex.oblige(s, 'the deque is reset unconditionally only if no job is left', g['top'] == g['E'], 'guarantee')
        ex.oblige(s, 'no slot is offered by bot during a reset', g['bot'] == 0, 'guarantee')
        ex.oblige(s, 'the deque starts again at slot 0', tp == 0, 'guarantee')
        g2['tag'], g2['top'], g2['E'] = tg, tp, b32(0)

    def cas(self, ex, s, a):
        p, old, new = a
        if p.rid != self.D:
            return
        if p.off != self.ao:
            raise Unsupported('compare-exchange elsewhere')
        g = s.ghost
        s.ghost = g2 = dict(g)
        tg, tp = self.parts(new)
        if self.owner:
            self.change_age(s, g, g2, tg, tp, True)
        else:
            ex.oblige(s, 'a steal raises top by one', z3.And(tg == g['tag'], tp == g['top'] + 1), 'guarantee')
            ex.oblige(s, 'only a job that is in the deque is stolen', z3.ULT(g['top'], g['E']), 'guarantee')
            g2['got'] = z3.Select(g['q'], z3.ZeroExt(32, g['top']))
            s.assume(g2['got'] != 0)
            g2['taken'] = g['taken'] + bv(1, 8)
            g2['top'] = tp
        g2['cas_done'] = True

def is_job(s, v, d):
    """(null?, job)"""
    if isinstance(v, P):
        if v.rid is None:
            return z3.BoolVal(True), bv(0)
        if v.rid == 'int':
            o = bv(v.off) if isinstance(v.off, int) else v.off
            return o == 0, o
    raise Unsupported('result %r' % (v,))

def push(ex, st):
    d = Deque(ex, st, True)
    g = st.ghost
    st.assume(z3.And(g['bot'] == g['E'], z3.ULT(g['bot'], b32(d.cap - 1))))      # the deque never overflows (the code aborts otherwise)
    j = ex.fresh('job', 64)
    st.assume(j != 0)
    g.update({'todo': bv(1, 8), 'job': j, 'got': bv(0), 'taken': bv(0, 8)})
    e0, tag0 = g['E'], g['tag']
    seen = []
    def done(ex, s, a):
        seen.append(1)
        g = s.ghost
        ex.oblige(s, 'the job is in the deque, once, as the newest', z3.And(g['todo'] == 0, g['E'] == e0 + 1, z3.Select(g['q'], z3.ZeroExt(32, e0)) == j), 'post')
        ex.oblige(s, 'no job was taken and bot is exact again', z3.And(g['taken'] == 0, g['bot'] == g['E'], g['tag'] == tag0), 'post')
        k = ex.fresh('k', 64)
        ex.oblige(s, 'the other jobs are where they were', z3.Implies(z3.And(z3.ULE(z3.ZeroExt(32, g['top']), k), z3.ULT(k, z3.ZeroExt(32, e0))), z3.Select(g['q'], k) == z3.Select(q0, k)), 'post')
    q0 = g['q']
    ex.ghost_fns['gh_pushed'] = done
    ex.run_function(st, '@vc_push', [P(d.D, 0), P('int', j)])
    need(seen)

def pop_bottom(ex, st):
    d = Deque(ex, st, True)
    g = st.ghost
    st.assume(g['bot'] == g['E'])
    g.update({'got': bv(0), 'taken': bv(0, 8)})
    e0, q0 = g['E'], g['q']
    seen = []
    def done(ex, s, a):
        seen.append(1)
        g = s.ghost
        null, job = is_job(s, a[0], d)
        ex.oblige(s, 'a job is returned exactly if it was taken out of the deque, once', g['taken'] == z3.If(null, bv(0, 8), bv(1, 8)), 'post')
        ex.oblige(s, 'it is the newest job', z3.Or(null, z3.And(job == g['got'], job == z3.Select(q0, z3.ZeroExt(32, e0 - 1)))), 'post')
        ex.oblige(s, 'nothing is returned only if no job is left', z3.Implies(null, g['E'] == g['top']), 'post')
        ex.oblige(s, 'bot is exact again', g['bot'] == g['E'], 'post')
        k = ex.fresh('k', 64)
        ex.oblige(s, 'the other jobs are where they were', z3.Implies(z3.And(z3.ULE(z3.ZeroExt(32, g['top']), k), z3.ULT(k, z3.ZeroExt(32, g['E']))), z3.Select(g['q'], k) == z3.Select(q0, k)), 'post')
        ex.oblige(s, 'no other job is lost', z3.Or(g['E'] == e0 - 1, g['E'] == e0, g['E'] == 0), 'post')
    ex.ghost_fns['gh_owner'] = done
    ex.run_function(st, '@vc_pop_bottom', [P(d.D, 0)])
    need(seen)

def pop_top(ex, st):
    d = Deque(ex, st, False)
    st.ghost.update({'got': bv(0), 'taken': bv(0, 8)})
    seen = []
    def done(ex, s, a):
        seen.append(1)
        g = s.ghost
        null, job = is_job(s, a[0], d)
        ex.oblige(s, 'a job is returned exactly if it was taken out of the deque, once', g['taken'] == z3.If(null, bv(0, 8), bv(1, 8)), 'post')
        ex.oblige(s, 'it is the job that was taken, the oldest of the deque', z3.Or(null, job == g['got']), 'post')
    ex.ghost_fns['gh_thief'] = done
    ex.run_function(st, '@vc_pop_top', [P(d.D, 0)])
    need(seen)

def make(ex, st):
    L = layout(ex, st)
    D = ex.region(st, 'deque', L[7], {})
    outs = ex.run_function(st, '@vc_make', [P(D, 0)])
    for s, _ in outs:
        c = s.mem[D].cells
        g = {}
        rd = lambda o, w: ex.conv(s, ex.load(s, ('i', w), P(D, o)), ('i', w))
        ex.oblige(s, 'a new deque is empty', z3.And(rd(L[0], 32) == 0, rd(L[1] + L[5], 32) == 0), 'post')
    need(outs)

def stable():
    """what an owner step and a thief step guarantee implies what the others rely on"""
    tag, top, E, tag2, top2, E2 = (z3.BitVec('st_' + n, 32) for n in ('tag', 'top', 'E', 'tag2', 'top2', 'E2'))
    lex = lambda a, b, c, d: z3.Or(z3.UGT(c, a), z3.And(c == a, z3.UGT(d, b)))
    same = z3.And(tag2 == tag, top2 == top)
    live = z3.ULT(top, E); live2 = z3.ULT(top2, E2)
    rely = z3.Or(same, lex(tag, top, tag2, top2))
    keep = z3.Implies(z3.And(same, live), live2)
    capz = z3.ULT(E, b32(1000))
    q = [('a steal is what a thief and the owner rely on', [live, capz, tag2 == tag, top2 == top + 1, E2 == E], z3.And(rely, keep, z3.ULE(top2, E2))),
         ('taking the newest job above top keeps the job at top', [z3.ULT(top, E - 1), E != 0, same, E2 == E - 1], z3.And(rely, keep)),
         ('a reset changes age upwards', [z3.UGT(tag2, tag), top2 == 0, E2 == 0], z3.And(rely, keep)),
         ('a push keeps the job at top', [same, E2 == E + 1, z3.ULT(E, b32(999))], z3.And(rely, keep))]
    a, b, c, d, e, f = (z3.BitVec('st_%s' % n, 32) for n in 'abcdef')
    q.append(('the order of ages is transitive', [z3.Or(z3.And(a == c, b == d), lex(a, b, c, d)), z3.Or(z3.And(c == e, d == f), lex(c, d, e, f))], z3.Or(z3.And(a == e, b == f), lex(a, b, e, f))))
    q.append(('an age that was passed never returns', [lex(a, b, c, d), z3.Or(z3.And(c == e, d == f), lex(c, d, e, f))], z3.Not(z3.And(a == e, b == f))))
    return q

LEM = [Lemma('guarantees imply the rely conditions', stable)]
U = lambda n, e, r, f: BVUnit(n, 'c02.cpp', '@' + e, r, functions=f, lemmas=LEM)
UNITS = [
    U('push_bottom', 'vc_push', push, ['Deque::push_bottom (under interference)']),
    U('pop_bottom', 'vc_pop_bottom', pop_bottom, ['Deque::pop_bottom (under interference)']),
    U('pop_top', 'vc_pop_top', pop_top, ['Deque::pop_top (under interference)']),
    U('constructor', 'vc_make', make, ['Deque::Deque']),
]
