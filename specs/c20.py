"""C20: tokens and split_at partition the text.  A piece is what the function applied to it sees: its first position
and its length."""
import re
from count import *

pF = z3.Function('uf_p', I, B)
pos = z3.Function('pos', I, I)              # pos(j): the j-th selected position
piece = z3.Function('piece', I, I, I)

def pos_axioms(selp, n):
    j, k = z3.Ints('pj pk')
    return [z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < C(n)), z3.And(0 <= pos(j), pos(j) < n, selp(pos(j)), C(pos(j)) == j)), patterns=[pos(j)]),
            z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n, selp(k)), pos(C(k)) == k), patterns=[C(k)]),
            z3.ForAll([j, k], z3.Implies(z3.And(0 <= j, j < k, k < C(n)), pos(j) < pos(k)), patterns=[z3.MultiPattern(pos(j), pos(k))])]

def pos_lemmas():
    j, k, n = z3.Ints('lj lk ln')
    selp = z3.Function('lem_p', I, B)
    mono = lambda a, b: z3.Implies(z3.And(0 <= a, a <= b), C(a) <= C(b))
    strict = lambda a, b: z3.Implies(z3.And(0 <= a, a < b, selp(a)), C(a) + 1 <= C(b))
    at = lambda j: z3.And(0 <= pos(j), pos(j) < n, selp(pos(j)), C(pos(j)) == j)
    def q():
        return [('the j-th selected position is unique', [0 <= k, selp(k), at(j), C(k) == j, strict(k, pos(j)), strict(pos(j), k)], k == pos(j)),
                ('positions increase', [0 <= j, j < k, at(j), at(k), mono(pos(k), pos(j))], pos(j) < pos(k))]
    return [Lemma('positions of the selected elements', q)]

def split_lemma():
    """what pos says about split_at: the pieces cover the text and end exactly at the flagged positions"""
    j, k, n, m = z3.Ints('lj lk ln lm')
    f = z3.Function('lem_p', I, B)
    at = lambda j: z3.And(0 <= pos(j), pos(j) < n, f(pos(j)), C(pos(j)) == j)
    start = lambda j: z3.If(j == 0, 0, pos(j - 1) + 1)
    end = lambda j: z3.If(j == m, n, pos(j) + 1)
    strict = lambda a, b: z3.Implies(z3.And(0 <= a, a < b, f(a)), C(a) + 1 <= C(b))
    mono = lambda a, b: z3.Implies(z3.And(0 <= a, a <= b), C(a) <= C(b))
    inst = lambda j: z3.Implies(z3.And(0 <= j, j < m), at(j))
    def q():
        hy = [0 <= j, j <= m, m == C(n), inst(j), inst(j - 1), n >= 0]
        return [('first piece begins at 0', [], start(z3.IntVal(0)) == 0),
                ('pieces are adjacent', hy + [j < m], end(j) == start(j + 1)),
                ('the last piece ends at n', [], end(m) == n),
                ('a piece but the last ends at a flagged position', hy + [j < m], f(end(j) - 1)),
                ('no flagged position inside a piece', hy + [start(j) <= k, k < z3.If(j == m, n, end(j) - 1), k >= 0, f(k), strict(k, pos(j)), strict(pos(j - 1), k), strict(k, n), C(k) >= 0], z3.BoolVal(False))]
    return [Lemma('split_at: pieces partition the text', q)]

def token_lemma():
    j, k, n = z3.Ints('lj lk ln')
    sp = z3.Function('lem_sp', I, B)
    word = lambda k: z3.And(0 <= k, k < n, z3.Not(sp(k)))
    bnd = lambda k: word(k - 1) != word(k)
    odd = lambda t: t % 2 == 1
    d = lambda k: C(k + 1) == C(k) + z3.If(bnd(k), 1, 0)
    par = lambda k: odd(C(k + 1)) == word(k)
    at = lambda j: z3.And(0 <= pos(j), pos(j) <= n, bnd(pos(j)), C(pos(j)) == j)
    mono = lambda a, b: z3.Implies(z3.And(0 <= a, a <= b), C(a) <= C(b))
    strict = lambda a, b: z3.Implies(z3.And(0 <= a, a < b, bnd(a)), C(a) + 1 <= C(b))
    def q():
        m = C(n + 1)
        hy = [n >= 0, 0 <= j, 2 * j + 1 < m, at(2 * j), at(2 * j + 1)]
        return [('parity base', [C(Z) == 0, d(z3.IntVal(0)), n >= 0], par(z3.IntVal(0))),
                ('parity step', [0 <= k, k < n, par(k), d(k + 1)], par(k + 1)),
                ('boundaries pair up', [par(n), n >= 0], z3.Not(odd(m))),
                ('inside a token', hy + [pos(2 * j) <= k, k < pos(2 * j + 1), par(k), strict(pos(2 * j), k + 1), mono(k + 1, pos(2 * j + 1))], word(k)),
                ('a token is not empty', hy + [mono(pos(2 * j + 1), pos(2 * j))], pos(2 * j) < pos(2 * j + 1)),
                ('before a token', hy + [C(Z) == 0, z3.Implies(pos(2 * j) > 0, par(pos(2 * j) - 1))], z3.Not(word(pos(2 * j) - 1))),
                ('after a token', hy + [d(pos(2 * j + 1)), par(pos(2 * j + 1))], z3.Not(word(pos(2 * j + 1)))),
                ('every word position is in a token', [0 <= k, k < n, word(k), par(k), C(k + 1) == 2 * j + 1, 0 <= j, 2 * j + 1 < m, at(2 * j), at(2 * j + 1),
                    z3.Implies(z3.And(0 <= k + 1, k + 1 <= pos(2 * j)), C(k + 1) <= C(pos(2 * j))), strict(pos(2 * j + 1), k + 1)], z3.And(pos(2 * j) <= k, k < pos(2 * j + 1)))]
    return [Lemma('tokens are the maximal runs of non-separators', q)]

def pack_index_contract(state):
    """parlay::pack_index(flags) = the positions of the flagged elements (proved under C06)"""
    def apply(ex, st, name, args, rett):
        out = args[0]
        # the flags: a slice passed by value (two pointers) or by reference
        n = state['n']
        got = [a for a in args[1:] if isinstance(a, Ptr)]
        if len(got) == 1 and st.mem[got[0].rid].kind == 'cell':
            got = [ex.load(st, ('ptr',), got[0]), ex.load(st, ('ptr',), Ptr(got[0].rid, got[0].off + 8))]
        if len(got) != 2:
            raise Unsupported('pack_index argument')
        b, e = got
        ex.oblige(st, 'the flags packed are all flags', z3.And(z3.BoolVal(b.rid == state['F'] and e.rid == state['F']), b.off.z == 0, e.off.z == n.z), 'pre')
        ex.log_access(st, 'R', state['F'], (Lin(0), n))
        rid = give_positions(ex, st, out, state['selp'], n)
        return [(st, None)]
    return SpecContract('parlay::pack_index (C06)', lambda n, d, b: b == 'parlay::pack_index', apply)

def give_positions(ex, st, out, selp, n):
    cn = ex.fresh_lin('cn', None, 0, MAXN - 1, st=st)
    st.assume(cn.z == C(n.z))
    rid = ex.new_array(st, 'Locations', cn)
    st.mem[rid].readonly = False
    na = arr(st, rid)
    j = z3.Int('gp_j')
    st.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < cn.z), z3.And(sel(na, j) == pos(j), 0 <= pos(j), pos(j) < n.z)), patterns=[sel(na, j)]), True)
    next(c for c in ex.contracts if isinstance(c, Storage)).put(ex, st, out, SeqVal(rid, cn))
    return rid

def results(ex, st, entry, args, A, length, elem):
    seen = []
    def gpiece(ex, s, a):
        p, l = a
        ln = ex.as_lin(s, l, 64)
        if p.rid is None:
            raise Unsupported('piece of no text')
        o = p.off.div_exact(8)[0]
        ex.oblige(s, 'a piece lies in the text', z3.And(z3.BoolVal(p.rid == A), 0 <= o.z, ln.z >= 0, o.z + ln.z <= s.mem[A].length.z), 'pre')
        r = piece(o.z, ln.z)
        s.assume(z3.And(0 <= r, r < 1 << 64))
        return Lin.of(r)
    ex.ghost_fns['gh_piece'] = gpiece
    def gout(ex, s, a):
        p, m = a
        seen.append(1)
        m = ex.as_lin(s, m, 64)
        L = length()
        ex.oblige(s, 'number of pieces', m.z == L, 'post')
        if p.rid is None:
            return
        x = ex.fresh('px')
        ex.oblige(s, 'every piece is the specified one', z3.Implies(z3.And(0 <= x, x < L), sel(arr(s, p.rid), x) == elem(x)), 'post')
    ex.ghost_fns['gh_out'] = gout
    ps = lambda ctx, s, rid, fo: [('piece', lambda w, a, k: sel(a, k) == elem(k))]
    ex.loop_cands.append(pointwise_loop(ps))
    ex.par_cands.append(pointwise_par(ps))
    ex.par_after.append(pointwise_after)
    ex.run_function(st, entry, args)
    if not seen:
        raise Unsupported('result not reached')

def run_split(ex, st):
    n = size(ex, st)
    A = ex.new_array(st, 'A', n); st.mem[A].readonly = True
    F = ex.new_array(st, 'F', n, 1, {0: 1}, ex.fresh_arr('F', B)); st.mem[F].readonly = True
    f0 = arr(st, F)
    selp = lambda k: sel(f0, k)
    ex.axioms += count_axioms(selp) + pos_axioms(selp, n.z)
    state = {'F': F, 'n': n, 'selp': selp}
    ex.contracts.insert(0, pack_index_contract(state))
    m = C(n.z)
    start = lambda j: z3.If(j == 0, 0, pos(j - 1) + 1)
    end = lambda j: z3.If(j == m, n.z, pos(j) + 1)
    results(ex, st, '@vc_map_split_at', [Ptr(A, 0), Ptr(F, 0), n], A, lambda: m + 1, lambda j: piece(start(j), end(j) - start(j)))

def filter_op_contract(state):
    """delayed::filter_op(iota, g) then delayed::to_sequence: the values g gives, in order of the index (C12).  g, the
    closure written in the function under contract, is executed for an arbitrary index."""
    def mk(ex, st, name, args, rett):
        d = ex.mod.dem[name]
        state['view'], state['clo'] = args[1], args[2]
        state['obj'] = args[0]
        lo, hi = (ex.as_lin(st, ex.load(st, ('i', 64), Ptr(args[1].rid, args[1].off + o)), 64) for o in (0, 8))
        ex.oblige(st, 'all positions of the text and its end are looked at', z3.And(lo.z == 0, hi.z == state['n'].z + 1), 'pre')
        return [(st, None)]
    def ts(ex, st, name, args, rett):
        n1 = state['n'] + 1
        selp = state['selp']
        lam = [f for f, fn in ex.mod.funcs.items() if re.match(r"(auto )?parlay::internal::map_tokens_small<[^']*('lambda'|\{lambda\(unsigned long\)#1\})(\(unsigned long\))?::operator\(\)\(unsigned long\) const$", ex.mod.dem.get(f, ''))]
        if len(lam) != 1 or args[1].rid != state['obj'].rid:
            raise Unsupported('closure of filter_op')
        s2 = st.fork()
        i = ex.fresh_lin('i', None, 0, MAXN, st=s2)
        s2.assume(z3.And(0 <= i.z, i.z < n1.z))
        rs = ex.run_function(s2, lam[0], [state['clo'], i])
        for s3, val in rs:
            v, has = val
            h = ex.as_lin(s3, has, 8)
            ex.oblige(s3, 'a position is kept exactly if a token begins or ends there', (h.z != 0) == selp(i.z), 'post')
            ex.oblige(s3, 'the value kept is the position', z3.Implies(selp(i.z), ex.as_lin(s3, v, 64).z == i.z), 'post')
        give_positions(ex, st, args[0], selp, n1)
        return [(st, None)]
    return [SpecContract('internal::delayed::filter_op', lambda n, d, b: b == 'parlay::internal::delayed::filter_op', mk),
            SpecContract('internal::delayed::to_sequence(filter_op) = the kept values in order (C12, bounded)', lambda n, d, b: b == 'parlay::internal::delayed::to_sequence', ts, assumed=True),
            SpecContract('~block_delayed_filter_op_t', lambda n, d, b: '::~block_delayed_filter_op_t' in d, lambda ex, st, name, a, r: [(st, None)])]

def run_tokens_small(ex, st):
    n = size(ex, st)
    A = ex.new_array(st, 'A', n); st.mem[A].readonly = True
    a0 = arr(st, A)
    word = lambda k: z3.And(0 <= k, k < n.z, z3.Not(pF(sel(a0, k))))
    selp = lambda k: word(k - 1) != word(k)
    cn = C(n.z + 1)
    ex.axioms += count_axioms(selp) + pos_axioms(selp, n.z + 1)
    st.assume(z3.And(cn >= 0, cn % 2 == 0))
    # an empty text has no boundary
    state = {'n': n, 'selp': selp}
    for c in reversed(filter_op_contract(state)):
        ex.contracts.insert(0, c)
    results(ex, st, '@vc_map_tokens_small', [Ptr(A, 0), n], A, lambda: z3.If(n.z == 0, 0, cn / 2), lambda j: piece(pos(2 * j), pos(2 * j + 1) - pos(2 * j)))

U = lambda name, run, *fs, **k: Unit(name, 'c20.cpp', '@vc_' + name, run, functions=list(fs), lemmas=count_lemmas() + pos_lemmas() + k.get('lemmas', []))
UNITS = [U('map_split_at', run_split, 'parlay::map_split_at', lemmas=split_lemma()),
         U('map_tokens_small', run_tokens_small, 'internal::map_tokens_small', lemmas=token_lemma())]
