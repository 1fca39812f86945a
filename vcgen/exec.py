"""Symbolic executor / verification condition generator over LLVM IR.

A function is executed on all inputs at once.  Loops are cut at their header with an
inductive invariant (the largest inductive subset of a candidate set, Houdini style, of
generic and specification-provided formulas), calls to functions under contract are
replaced by the contract, every other call is inlined.  Memory is a set of disjoint
regions.  Every load and store yields a bounds obligation.
"""
import z3, re, itertools, time
from ir import base_name, IRError
from val import *

class Unsupported(Exception):
    """the current source is outside the fragment the generator handles: undecided, never a violation"""

class Obligation:
    __slots__ = ('label', 'hyps', 'goal', 'fn', 'status', 'backend', 'time', 'model', 'kind')
    def __init__(self, label, hyps, goal, fn, kind):
        self.label, self.hyps, self.goal, self.fn, self.kind = label, hyps, goal, fn, kind
        self.status = None
        self.backend = None
        self.time = 0.0
        self.model = None

class State:
    __slots__ = ('pc', 'mem', 'ghost')
    def __init__(self):
        self.pc = []
        self.mem = {}
        self.ghost = {}
    def fork(self):
        s = State()
        s.pc = list(self.pc)
        s.mem = dict(self.mem)
        s.ghost = dict(self.ghost)
        return s
    def assume(self, f, q=False):
        if f is True:
            return
        if f is False:
            f = z3.BoolVal(False)
        self.pc.append((f, q))
    def m(self, rid):
        return self.mem[rid]
    def mw(self, rid):
        c = self.mem[rid].copy()
        self.mem[rid] = c
        return c

class Item:
    __slots__ = ('st', 'env', 'block', 'prev', 'active')
    def __init__(self, st, env, block, prev, active):
        self.st, self.env, self.block, self.prev, self.active = st, env, block, prev, active

def has_quant(f):
    seen = set()
    st = [f]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            return True
        st.extend(x.children())
    return False

def has_ite(t):
    stack, seen = [t], set()
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app_of(x, z3.Z3_OP_ITE) or z3.is_quantifier(x) or (z3.is_bool(x) and x.num_args() and not z3.is_select(x) and x.decl().kind() != z3.Z3_OP_UNINTERPRETED):
            return True
        stack.extend(x.children())
    return False

def zb(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x

def And(*xs):
    xs = [x for x in xs if x is not True]
    if any(x is False for x in xs):
        return False
    if not xs:
        return True
    return xs[0] if len(xs) == 1 else z3.And(*[zb(x) for x in xs])

def Or(*xs):
    xs = [x for x in xs if x is not False]
    if any(x is True for x in xs):
        return True
    if not xs:
        return False
    return xs[0] if len(xs) == 1 else z3.Or(*[zb(x) for x in xs])

def Not(x):
    if isinstance(x, bool):
        return not x
    if z3.is_not(x):
        return x.children()[0]
    return z3.Not(x)

TOMB = CellMem(0, {}, 'an object whose scope has ended')
TOMB.alive = False

class Sink:
    """memory accesses of one parallel task to objects that exist outside of it"""
    def __init__(self, pre):
        self.pre = pre          # the memory (regions) at the fork
        self.items = []
        self.copies = []        # (destination, source, shift of the index) of range copies
    def add(self, kind, rid, idx, st, ex):
        self.items.append((kind, rid, idx, [f for f, q in st.pc], st))

class View:
    """what an invariant candidate may talk about: loop variables and memory at one point"""
    def __init__(self, ex, st, phis, entry):
        self.ex, self.st, self.phis, self.entry = ex, st, phis, entry
    def int(self, name):
        return self.phis[name]
    def z(self, name):
        v = self.phis[name]
        return v.z if isinstance(v, Lin) else v
    def arr(self, rid, field=0):
        return self.st.mem[rid].fields[field][1]
    def cell(self, rid, off=0):
        return self.st.mem[rid].cells[off][1]

def old_z3(txt, rlimit, extra=()):
    """second opinion: the z3 4.8.12 binary, E-matching only"""
    import subprocess
    try:
        r = subprocess.run(['z3', '-in', '-T:60', 'auto_config=false', 'smt.mbqi=false', 'rlimit=%d' % rlimit] + list(extra), input=txt, capture_output=True, text=True, timeout=70)
    except subprocess.TimeoutExpired:
        return 'unknown'
    return (r.stdout.strip().split('\n') or [''])[0]

class Executor:
    def __init__(self, module, contracts=None, options=None):
        self.mod = module
        self.contracts = contracts or []
        self.obls = []
        self.quiet = 0
        self.fresh_n = 0
        self.range = {}             # atom id -> (lo, hi, term)
        self.rid_n = 0
        self.base = {}
        self.axioms = []            # global quantified hypotheses for obligations
        self.qf_axioms = []
        self.loop_cands = []        # callables (loopctx) -> [(label, fn(View))]
        self.opt = dict(rlimit_qf=400000, rlimit_cand=8000000, maxpaths=3000, maxdepth=60, unroll=0, time_limit=None)
        self.opt.update(options or {})
        self.fn_seen = {}           # functions whose real body was executed
        self.contract_used = {}
        self.loops_done = []
        self.depth = 0
        self.globals = {}
        self.trace = False
        self.assumed_notes = set()
        self.t0 = time.time()
        self.par = []               # stack of parallel contexts
        self.qcount = 0
        self.fn_stack = []
        self.name_of_rid = {}
        self.inline_cache = {}
        self.dropped = []
        self.find_contract_cache = {}
        self.unsat_cache = {}
        self.path_ct = 0
        self.mods_cache = {}
        self.drop_cache = {}
        self.discover = 0
        self.houdini_ok = 0
        self.sinks = []
        self.icmp_log = None
        self.mul_seen = {}
        self.info_cache = {}
        self.ghost_fns = {}
        self.frame_allocas = set()
        self.uninit_terms = set()     # contents of stack objects nobody has written yet
        self.name_stack = []
        self.unfolding = []
        self.par_cands = []
        self.foot_cands = []
        self.pars_done = []
        self.par_assume = []
        self.par_after = []

    # ------------------------------------------------------------ fresh symbols
    def fresh(self, name, lo=None, hi=None):
        self.fresh_n += 1
        t = z3.Int('%s!%d' % (name, self.fresh_n))
        self.range[t.get_id()] = (lo, hi, t)
        return t

    def fresh_lin(self, name, w=None, lo=None, hi=None, st=None):
        if w is not None:
            lo, hi = 0, (1 << w) - 1
        t = self.fresh(name, lo, hi)
        if st is not None:
            if lo is not None:
                st.assume(t >= lo)
            if hi is not None:
                st.assume(t <= hi)
        return Lin.atom(t)

    def fresh_ghost(self, name, v):
        self.fresh_n += 1
        return z3.Const('g_%s!%d' % (name, self.fresh_n), v.sort())

    def fresh_bool(self, name):
        self.fresh_n += 1
        return z3.Bool('%s!%d' % (name, self.fresh_n))

    def fresh_arr(self, name, rng=None):
        self.fresh_n += 1
        return z3.Array('%s!%d' % (name, self.fresh_n), z3.IntSort(), rng if rng is not None else z3.IntSort())

    def new_rid(self, name):
        self.rid_n += 1
        rid = '%s#%d' % (name, self.rid_n)
        self.name_of_rid[rid] = name
        return rid

    def base_of(self, rid):
        if rid not in self.base:
            k = z3.Int('base_%s' % rid)
            self.range[k.get_id()] = (1, (1 << 40), k)
            self.base[rid] = k
        return Lin.atom(self.base[rid]).scale(128)

    def new_array(self, st, name, length, stride=8, fields=None, init=None):
        rid = self.new_rid(name)
        fl = {}
        for off, w in (fields or {0: 8}).items():
            fl[off] = (w, init if init is not None else self.fresh_arr(name + '_%d' % off))
        st.mem[rid] = ArrMem(stride, fl, length, name)
        return rid

    # ------------------------------------------------------------ solver queries
    def interval(self, l):
        lo = hi = l.c
        for k, (t, c) in l.d.items():
            a, b = self.range.get(k, (None, None, None))[:2]
            if c > 0:
                lo = None if lo is None or a is None else lo + c * a
                hi = None if hi is None or b is None else hi + c * b
            else:
                lo = None if lo is None or b is None else lo + c * b
                hi = None if hi is None or a is None else hi + c * a
        return lo, hi

    def term_info(self, t):
        """(atoms that may carry a range, products) occurring in one formula; cached"""
        i = t.get_id()
        c = self.info_cache.get(i)
        if c is not None:
            return c[1], c[2]
        atoms, prods, seen, stk = {}, {}, set(), [t]
        while stk:
            x = stk.pop()
            k = x.get_id()
            if k in seen:
                continue
            seen.add(k)
            if z3.is_quantifier(x):
                continue
            if z3.is_app(x):
                if x.num_args() == 0 or x.decl().kind() in (z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_SELECT):
                    atoms[k] = x
                    if x.decl().eq(mulF):
                        prods[k] = x
                elif k in self.range:
                    atoms[k] = x
            stk.extend(x.children())
        self.info_cache[i] = (t, atoms, prods)
        return atoms, prods

    def range_facts(self, terms):
        """range facts of the atoms occurring in the terms"""
        out = []
        seen = set()
        for t in terms:
            for k in self.term_info(t)[0]:
                if k in seen:
                    continue
                seen.add(k)
                r = self.range.get(k)
                if r is not None:
                    if r[0] is not None:
                        out.append(r[2] >= r[0])
                    if r[1] is not None:
                        out.append(r[2] <= r[1])
        return out

    def mul_facts(self, terms):
        """ground facts of integer multiplication for the products occurring in the terms"""
        prods = {}
        for t in terms:
            prods.update(self.term_info(t)[1])
        if not prods:
            return []
        key = tuple(sorted(prods))
        if key in self.mul_seen:
            return self.mul_seen[key]
        out = []
        ps = list(prods.values())
        for p in ps:
            a, b = p.arg(0), p.arg(1)
            out.append(z3.Implies(z3.And(a >= 0, b >= 0), p >= 0))
            for u, v in ((a, b), (b, a)):
                out.append(z3.Implies(u == 0, p == 0))
                out.append(z3.Implies(u == 1, p == v))
                out.append(z3.Implies(z3.And(u >= 1, v >= 0), p >= v))
        for n in range(len(ps)):
            for m in range(n + 1, len(ps)):
                p, q = ps[n], ps[m]
                for a, b in ((p.arg(0), p.arg(1)), (p.arg(1), p.arg(0))):
                    for c, d in ((q.arg(0), q.arg(1)), (q.arg(1), q.arg(0))):
                        if b.eq(d):
                            out.append(z3.Implies(b >= 0, z3.And(z3.Implies(a <= c, p <= q), z3.Implies(c <= a, q <= p),
                                                                 z3.Implies(a + 1 <= c, p + b <= q), z3.Implies(c + 1 <= a, q + b <= p))))
                            out.append(z3.Implies(a + 1 == c, p + b == q))
                            out.append(z3.Implies(c + 1 == a, q + b == p))
        self.mul_seen[key] = out
        return out

    def qf_check(self, st, extra):
        """unsat / sat / unknown for pc(quantifier free part) and extra"""
        if self.opt['time_limit'] and time.time() - self.t0 > self.opt['time_limit']:
            raise Unsupported('time limit')
        fs = [f for f, q in st.pc if not q] + [e for e in extra]
        s = z3.SolverFor('QF_AUFLIA') if False else z3.Solver()
        s.set('rlimit', self.opt['rlimit_qf'])
        s.add(*fs)
        s.add(*self.range_facts(fs))
        s.add(*self.mul_facts(fs))
        if self.qf_axioms:
            s.add(*self.qf_axioms)
        self.qcount += 1
        return s.check()

    def proves(self, st, f):
        """quick check: does the quantifier-free path condition imply f?"""
        if isinstance(f, bool):
            return f
        f = z3.simplify(f)
        if z3.is_true(f):
            return True
        if z3.is_false(f):
            return self.qf_check(st, []) == z3.unsat
        return self.qf_check(st, [z3.Not(f)]) == z3.unsat

    def full_check(self, hyps, goal, rlimit):
        if isinstance(goal, bool):
            if goal:
                return True
            goal = z3.BoolVal(False)
        fs = list(hyps)
        al = fs + self.range_facts(fs + [goal]) + self.mul_facts(fs + [goal]) + list(self.axioms) + [z3.Not(goal)]
        s = z3.Solver()
        s.set('rlimit', rlimit)
        s.set('auto_config', False)
        s.set('smt.mbqi', False)
        s.add(*al)
        self.qcount += 1
        r = s.check()
        if r == z3.unknown:
            # the default solver may have rewritten array symbols into lambdas: ask again without preprocessing
            s = z3.SimpleSolver()
            s.set('rlimit', rlimit)
            s.set('auto_config', False)
            s.set('smt.mbqi', False)
            s.add(*al)
            txt = s.to_smt2()
            if s.check() == z3.unsat:
                return True
            return old_z3(txt, rlimit) == 'unsat'
        return r == z3.unsat

    def feasible(self, st, cond=None):
        if cond is False:
            return False
        if cond is True or cond is None:
            return True
        c = z3.simplify(cond)
        if z3.is_false(c):
            return False
        if z3.is_true(c):
            return True
        return self.qf_check(st, [c]) != z3.unsat

    # ------------------------------------------------------------ obligations
    def oblige(self, st, label, goal, kind='assert'):
        if goal is True or self.quiet:
            return
        if goal is False:
            goal = z3.BoolVal(False)
        g = z3.simplify(goal) if not z3.is_quantifier(goal) else goal
        hyps = [f for f, q in st.pc]
        self.obls.append(Obligation(label, hyps, g, self.fn_stack[-1] if self.fn_stack else '', kind))

    # ------------------------------------------------------------ integer normal forms
    def unsigned(self, st, l, w):
        m = 1 << w
        if l.is_const():
            return Lin(l.c % m)
        lo, hi = self.interval(l)
        if lo is not None and hi is not None and lo >= 0 and hi < m:
            return l
        if self.proves(st, z3.And(l.z >= 0, l.z < m)):
            return l
        if l.c >= m or l.c < -m:
            l = Lin(l.c % m if l.c >= 0 else -((-l.c) % m), l.d)
        for k in (1, -1):
            l2 = l + k * m
            if self.proves(st, z3.And(l2.z >= 0, l2.z < m)):
                return l2
        if not l.d or all(c % m == 0 for _, c in l.d.values()):
            return Lin(l.c % m)
        # congruent representative
        q = self.fresh('wrap')
        r = self.fresh('mod', 0, m - 1)
        st.assume(l.z == q * m + r)
        st.assume(z3.And(r >= 0, r < m))
        return Lin.atom(r)

    def signed(self, st, l, w):
        h = 1 << (w - 1)
        m = 1 << w
        if l.is_const():
            v = l.c % m
            return Lin(v - m if v >= h else v)
        lo, hi = self.interval(l)
        if lo is not None and hi is not None and lo >= -h and hi < h:
            return l
        for k in (0, -1, 1):
            l2 = l + k * m
            if self.proves(st, z3.And(l2.z >= -h, l2.z < h)):
                return l2
        u = self.unsigned(st, l, w)
        r = self.fresh('sgn', -h, h - 1)
        st.assume(r == z3.If(u.z >= h, u.z - m, u.z))
        return Lin.atom(r)

    # ------------------------------------------------------------ operand evaluation
    def const_int(self, w, v):
        if w == 1:
            return bool(v & 1)
        return Lin(v)

    def zero_of(self, t):
        t = self.mod.types.resolve(t)
        if t[0] == 'i':
            return self.const_int(t[1], 0)
        if t[0] == 'ptr':
            return NULL
        if t[0] == 'f':
            return Opaque('fp0')
        if t[0] == 'st':
            return [self.zero_of(x) for x in t[1]]
        if t[0] == 'arr':
            return [self.zero_of(t[2]) for _ in range(t[1])]
        if t[0] == 'vec':
            return [self.zero_of(t[2]) for _ in range(t[1])]
        raise Unsupported('zero of %r' % (t,))

    def ev(self, st, env, ty, o):
        k = o[0]
        if k == 'loc':
            if o[1] not in env:
                raise Unsupported('use of undefined %s' % o[1])
            return env[o[1]]
        if k == 'c':
            t = self.mod.types.resolve(ty)
            return self.const_int(t[1], o[1])
        if k == 'null':
            return NULL
        if k == 'g':
            return self.global_value(st, o[1])
        if k == 'zero':
            return self.zero_of(ty)
        if k == 'undef':
            t = self.mod.types.resolve(ty)
            if t[0] == 'st':
                return [UNDEF for _ in t[1]]
            if t[0] == 'arr':
                return [UNDEF for _ in range(t[1])]
            return UNDEF
        if k == 'fp':
            return Opaque('fp' + o[1])
        if k == 'ce':
            if o[1] == 'gep':
                vals = [(t, self.ev(st, env, t, v)) for t, v in o[3]]
                return self.gep(st, o[2], vals)
            if o[1] in ('bitcast', 'addrspacecast'):
                return self.ev(st, env, o[2], o[3])
            v = self.ev(st, env, o[2], o[3])
            return self.cast(st, o[1], o[2], v, o[4])
        if k == 'agg':
            return [self.ev(st, env, t, v) for t, v in o[1]]
        if k == 'meta':
            return Opaque('meta')
        if k == 'str':
            return Opaque('str')
        raise Unsupported('operand %r' % (o,))

    def global_value(self, st, name):
        if name in self.mod.funcs or name in self.mod.decls:
            return FnPtr(name)
        rid = '@' + name
        if rid not in st.mem:
            txt = self.mod.globals.get(name, '')
            st.mem[rid] = self.init_global(name, txt)
        return Ptr(rid, 0)

    def init_global(self, name, txt):
        from ir import P, tokenize
        m = re.search(r'\b(?:constant|global) (.*)$', txt)
        size = 8
        cells = {}
        if m:
            body = re.sub(r', (align \d+|comdat.*|section.*)', '', m.group(1))
            try:
                p = P(tokenize(body))
                t = p.type()
                size = self.mod.types.size(t)
                isconst = ' constant ' in ' ' + txt
                if p.i < len(p.t) and (isconst or True):
                    o = p.operand(t)
                    if isconst:
                        v = self.ev(State(), {}, t, o)
                        self.flatten(t, v, 0, cells)
            except (IRError, Unsupported, IndexError, ValueError):
                cells = {}
        return CellMem(size, cells, name)

    def flatten(self, t, v, off, cells):
        t = self.mod.types.resolve(t)
        if t[0] in ('st', 'arr'):
            n = len(t[1]) if t[0] == 'st' else t[1]
            if isinstance(v, (Undef, Opaque)):
                return
            for i in range(n):
                fo, ft = self.mod.types.field(t, i)
                self.flatten(ft, v[i], off + fo, cells)
            return
        if isinstance(v, Undef):
            return
        cells[off] = (self.mod.types.size(t), v)

    # ------------------------------------------------------------ pointers
    def gep(self, st, bt, vals):
        p = vals[0][1]
        if isinstance(p, (Opaque, Undef, FnPtr)):
            raise Unsupported('gep on %r' % p)
        off = p.off
        t = bt
        for n, (ty, v) in enumerate(vals[1:]):
            w = self.mod.types.resolve(ty)[1]
            if n == 0:
                s = self.mod.types.size(t)
                off = off + self.signed(st, self.as_lin(st, v, w), w) * s
            else:
                t2 = self.mod.types.resolve(t)
                if t2[0] == 'st':
                    fo, t = self.mod.types.field(t2, v.c)
                    off = off + fo
                else:
                    s = self.mod.types.size(t2[2])
                    off = off + self.signed(st, self.as_lin(st, v, w), w) * s
                    t = t2[2]
        return Ptr(p.rid, off)

    def as_lin(self, st, v, w):
        if isinstance(v, Lin):
            return v
        if isinstance(v, bool):
            return Lin(1 if v else 0)
        if isinstance(v, z3.BoolRef):
            return self.bool_to_lin(v)
        if isinstance(v, Undef):
            return self.fresh_lin('undef', w)
        if isinstance(v, Opaque):
            return self.fresh_lin('opq', w, st=st)
        if isinstance(v, Ptr):
            if v.rid is None:
                return v.off
            return self.base_of(v.rid) + v.off
        raise Unsupported('int value %r' % (v,))

    def bool_to_lin(self, b):
        b2 = z3.simplify(b)
        if z3.is_true(b2):
            return Lin(1)
        if z3.is_false(b2):
            return Lin(0)
        t = z3.If(b2, z3.IntVal(1), z3.IntVal(0))
        self.range[t.get_id()] = (0, 1, t)
        return Lin.atom(t)

    def as_bool(self, st, v):
        if isinstance(v, (bool, z3.BoolRef)):
            return v
        if isinstance(v, (Undef, Opaque)):
            return self.fresh_bool('ub')
        if isinstance(v, Lin):
            if v.is_const():
                return bool(v.c & 1)
            u = self.unsigned(st, v, 64) if False else v
            lo, hi = self.interval(u)
            if lo is not None and lo >= 0 and hi is not None and hi <= 1:
                # If(b,1,0) pattern
                if u.c == 0 and len(u.d) == 1:
                    t, c = next(iter(u.d.values()))
                    if c == 1 and z3.is_app_of(t, z3.Z3_OP_ITE) and z3.is_int_value(t.arg(1)) and t.arg(1).as_long() == 1 and z3.is_int_value(t.arg(2)):
                        return t.arg(0)
                return u.z == 1
            return u.z % 2 == 1
        raise Unsupported('bool %r' % (v,))

    def ptr_from_int(self, st, l):
        for rid, k in self.base.items():
            i = k.get_id()
            if i in l.d and l.d[i][1] == 128:
                return Ptr(rid, l - Lin.atom(k).scale(128))
        if l.is_const() and l.c == 0:
            return NULL
        return Ptr('int', l)

    # ------------------------------------------------------------ memory access
    def region(self, st, p, what, label):
        if not isinstance(p, Ptr):
            raise Unsupported('%s through %r' % (what, p))
        if p.rid is None:
            self.oblige(st, 'null dereference: ' + label, False, 'memory')
            raise PathEnd()
        if p.rid not in st.mem:
            raise Unsupported('%s of unknown region %s' % (what, p.rid))
        m = st.mem[p.rid]
        if not m.alive:
            self.oblige(st, 'use after lifetime of %s: %s' % (m.name, label), False, 'memory')
            raise PathEnd()
        return m

    def arr_index(self, st, m, p, size, what):
        if not p.off.divisible(m.stride):
            raise Unsupported('unaligned %s of %s at %s' % (what, m.name, p.off))
        idx, r = p.off.div_exact(m.stride)
        if r in m.fields and m.fields[r][0] == size:
            return idx, r
        raise Unsupported('%s of %d bytes at field %d of %s' % (what, size, r, m.name))

    def bounds(self, st, m, idx, what, p):
        g = And(self.ge(idx, 0), self.lt(idx, m.length))
        if g is True:
            return
        if not self.quiet:
            if not self.proves(st, g):
                self.oblige(st, '%s in bounds of %s' % (what, m.name), g, 'memory')
            else:
                self.count_quick('bounds')
        st.assume(g)

    interfere_arr = None
    quick = 0
    def count_quick(self, kind):
        self.quick += 1

    def ge(self, a, b):
        d = Lin.of(a) - Lin.of(b)
        if d.is_const():
            return d.c >= 0
        return d.z >= 0

    def lt(self, a, b):
        d = Lin.of(a) - Lin.of(b)
        if d.is_const():
            return d.c < 0
        return d.z < 0

    def log_access(self, st, kind, rid, idx):
        for sk in self.sinks:
            if rid in sk.pre:
                sk.add(kind, rid, idx, st, self)

    def load(self, st, ty, p, label=''):
        t = self.mod.types.resolve(ty)
        if t[0] == 'st':
            out = []
            for i in range(len(t[1])):
                fo, ft = self.mod.types.field(t, i)
                out.append(self.load(st, ft, Ptr(p.rid, p.off + fo), label))
            return out
        m = self.region(st, p, 'load', label)
        size = self.mod.types.size(t)
        if m.kind == 'cell':
            if not p.off.is_const():
                raise Unsupported('symbolic offset into %s' % m.name)
            self.log_access(st, 'r', p.rid, p.off)
            return self.cell_load(st, m, p.rid, p.off.c, size, t)
        idx, f = self.arr_index(st, m, p, size, 'load')
        self.bounds(st, m, idx, 'read', p)
        self.log_access(st, 'r', p.rid, idx)
        if self.interfere_arr is not None:
            m = self.interfere_arr(self, st, p.rid, idx) or m
        v = z3.Select(m.fields[f][1], idx.z)
        if m.ghost is not None:
            self.oblige(st, 'read of a constructed element of %s' % m.name, z3.Select(m.ghost, idx.z), 'lifetime')
        return self.from_elem(st, m, v, size, t)

    def from_elem(self, st, m, v, size, t):
        if t[0] == 'f':
            return Opaque('fpelem')
        if t[0] == 'ptr':
            raise Unsupported('pointer element')
        w = t[1]
        if z3.is_bool(v):
            return v if w == 1 else self.bool_to_lin(v)
        if w == 1:
            return v % 2 == 1
        i = v.get_id()
        if i not in self.range:
            self.range[i] = (0, (1 << (8 * size)) - 1, v)
        return Lin.atom(v)

    def cell_load(self, st, m, rid, off, size, t):
        c = m.cells.get(off)
        if c is not None and c[0] == size:
            v = c[1]
            if isinstance(v, SeqVal):
                raise Unsupported('raw access to a sequence object')
            if t[0] == 'i':
                w = t[1]
                if w == 1:
                    return self.as_bool(st, v)
                if isinstance(v, (bool, z3.BoolRef)):
                    return self.as_lin(st, v, w)
                if isinstance(v, Ptr):
                    return self.as_lin(st, v, 64)
            if t[0] == 'ptr' and isinstance(v, Lin):
                return self.ptr_from_int(st, v)
            return v
        # part of a larger cell, or several smaller cells
        for o, (s, v) in m.cells.items():
            if o <= off and off + size <= o + s and isinstance(v, Lin):
                u = self.unsigned(st, v, 8 * s)
                sh = 1 << (8 * (off - o))
                x = self.udivc(st, u, sh)
                x = self.umodc(st, x, 1 << (8 * size))
                return x if t[0] != 'i' or t[1] != 1 else self.as_bool(st, x)
        parts = sorted((o, s, v) for o, (s, v) in m.cells.items() if o >= off and o + s <= off + size) if all(True for _ in ()) else []
        parts = sorted([(o, s) for o, (s, v) in m.cells.items() if o >= off and o + s <= off + size])
        if parts and sum(s for _, s in parts) == size and all(isinstance(m.cells[o][1], Lin) for o, s in parts):
            r = Lin(0)
            for o, s in parts:
                r = r + self.unsigned(st, m.cells[o][1], 8 * s) * (1 << (8 * (o - off)))
            return r
        if parts or any(o < off + size and off < o + s for o, (s, v) in m.cells.items()):
            raise Unsupported('mixed access to %s at %d' % (m.name, off))
        if off < 0 or off + size > m.size:
            self.oblige(st, 'read inside %s' % m.name, False, 'memory')
            raise PathEnd()
        # uninitialised or unknown content
        if t[0] == 'i':
            v = self.fresh_bool('init') if t[1] == 1 else self.fresh_lin('init_%s_%d' % (m.name, off), t[1])
            if m.name == 'local' and isinstance(v, Lin):
                self.uninit_terms |= set(v.d)
        elif t[0] == 'ptr':
            raise Unsupported('unknown pointer in %s at %d' % (m.name, off))
        else:
            v = Opaque('init')
        if rid is not None:
            m2 = st.mw(rid)
            m2.cells[off] = (size, v)
        return v

    def store(self, st, ty, v, p, label=''):
        t = self.mod.types.resolve(ty)
        if t[0] in ('st',):
            for i in range(len(t[1])):
                fo, ft = self.mod.types.field(t, i)
                self.store(st, ft, v[i] if isinstance(v, list) else v, Ptr(p.rid, p.off + fo), label)
            return
        if t[0] in ('arr', 'vec') and isinstance(v, list):
            for i in range(t[1]):
                fo, ft = self.mod.types.field(t, i)
                self.store(st, ft, v[i], Ptr(p.rid, p.off + fo), label)
            return
        m = self.region(st, p, 'store', label)
        size = self.mod.types.size(t)
        if m.kind == 'cell':
            if not p.off.is_const():
                raise Unsupported('symbolic offset into %s' % m.name)
            off = p.off.c
            if off < 0 or off + size > max(m.size, size if m.size == 0 else m.size):
                self.oblige(st, 'write inside %s' % m.name, False, 'memory')
                raise PathEnd()
            self.log_access(st, 'w', p.rid, p.off)
            m2 = st.mw(p.rid)
            self.cell_store(st, m2, off, size, v)
            return
        idx, f = self.arr_index(st, m, p, size, 'store')
        if m.readonly:
            self.oblige(st, 'no write to the input %s' % m.name, False, 'frame')
        self.bounds(st, m, idx, 'write', p)
        self.log_access(st, 'w', p.rid, idx)
        if m.ghost is not None:
            self.oblige(st, 'assignment to a constructed element of %s' % m.name, z3.Select(m.ghost, idx.z), 'lifetime')
        self.arr_store(st, p.rid, f, idx, v, size, t)

    def arr_store(self, st, rid, f, idx, v, size, t):
        m2 = st.mw(rid)
        w, a = m2.fields[f]
        if a.sort().range() == z3.BoolSort():
            val = self.as_bool(st, v)
            val = zb(val)
        else:
            val = self.to_elem(st, v, size)
        if z3.is_app(val) and val.num_args() and has_ite(val):
            # name the value: terms stored in arrays occur in quantifier patterns
            if z3.is_bool(val):
                nv = self.fresh_bool('stored')
            else:
                nv = self.fresh('stored', 0, (1 << (8 * size)) - 1)
            st.assume(nv == val)
            val = nv
        m2.fields[f] = (w, z3.Store(a, idx.z, val))

    def to_elem(self, st, v, size):
        if isinstance(v, (Ptr, FnPtr)):
            raise Unsupported('pointer stored in an array')
        l = self.as_lin(st, v, 8 * size)
        if isinstance(v, Opaque):
            return l.z
        return self.unsigned(st, l, 8 * size).z

    def cell_store(self, st, m, off, size, v):
        if size == 8 and isinstance(v, Lin) and v.d:
            # an address kept as an integer (coerced argument) is the pointer it came from
            q = self.ptr_from_int(st, v)
            if q.rid != 'int' and q.rid in st.mem and not any(t.get_id() in {k.get_id() for k in self.base.values()} for t, c in q.off.d.values()):
                v = q
        for o in list(m.cells):
            s, old = m.cells[o]
            if o < off + size and off < o + s and not (o == off and s == size):
                if o >= off and o + s <= off + size:
                    del m.cells[o]
                elif isinstance(old, Lin):
                    # keep the untouched bytes
                    del m.cells[o]
                    u = self.unsigned(st, old, 8 * s)
                    if o < off:
                        m.cells[o] = (off - o, self.umodc(st, u, 1 << (8 * (off - o))))
                    if o + s > off + size:
                        k = off + size - o
                        m.cells[off + size] = (o + s - off - size, self.udivc(st, u, 1 << (8 * k)))
                else:
                    del m.cells[o]
                    if not (o >= off and o + s <= off + size):
                        pass
        m.cells[off] = (size, v)

    # ------------------------------------------------------------ arithmetic
    def udivc(self, st, l, k):
        """l / k for constant k, l unsigned normal"""
        if k == 1:
            return l
        if l.is_const():
            return Lin(l.c // k)
        if l.divisible(k):
            q, r = l.div_exact(k)
            return q
        lo, hi = self.interval(l)
        if lo is not None and hi is not None and lo >= 0 and hi < k:
            return Lin(0)
        t = l.z / z3.IntVal(k)
        self.range[t.get_id()] = (0 if lo is None else max(0, lo // k), None if hi is None else hi // k, t)
        return Lin.atom(t)

    def umodc(self, st, l, k):
        if l.is_const():
            return Lin(l.c % k)
        lo, hi = self.interval(l)
        if lo is not None and hi is not None and lo >= 0 and hi < k:
            return l
        d = {i: (t, c % k) for i, (t, c) in l.d.items() if c % k}
        if not d:
            return Lin(l.c % k)
        if self.proves(st, z3.And(l.z >= 0, l.z < k)):
            return l
        t = l.z % z3.IntVal(k)
        self.range[t.get_id()] = (0, k - 1, t)
        return Lin.atom(t)

    def ibin(self, st, op, w, a, b, flags):
        if w == 1:
            x, y = self.as_bool(st, a), self.as_bool(st, b)
            if op == 'and' or op == 'mul':
                return And(x, y)
            if op == 'or':
                return Or(x, y)
            if op in ('xor', 'add', 'sub'):
                if isinstance(y, bool):
                    return Not(x) if y else x
                if isinstance(x, bool):
                    return Not(y) if x else y
                return z3.Xor(x, y)
            raise Unsupported('i1 ' + op)
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return self.fresh_lin('opq', w, st=st)
        x, y = self.as_lin(st, a, w), self.as_lin(st, b, w)
        if op == 'add':
            return self.shrink(x + y, w)
        if op == 'sub':
            return self.shrink(x - y, w)
        if op == 'mul':
            if x.is_const() or y.is_const():
                return self.shrink(x * y if y.is_const() and True else y * x, w) if not (x.is_const() and y.is_const()) else Lin((x.c * y.c) % (1 << w))
            x, y = self.unsigned(st, x, w), self.unsigned(st, y, w)
            return nlmul(x, y)
        if op == 'shl':
            if y.is_const():
                return self.shrink(x * (1 << y.c), w)
            yl, yh = self.interval(y)
            if yl is not None and yl >= 0 and yh is not None and yh <= 1:
                # x << b for a boolean b
                xu = self.unsigned(st, x, w)
                xl, xh = self.interval(xu)
                r = self.fresh('shl', xl, None if xh is None else 2 * xh)
                st.assume(r == z3.If(y.z == 1, 2 * xu.z, xu.z))
                return Lin.atom(r)
            if x.is_const() and x.c > 0:
                # a power of two; the shift must be smaller than the width
                yu = self.unsigned(st, y, w)
                self.oblige(st, 'shift amount below the width', yu.z < w, 'arith')
                t = z3.Function('pow2', z3.IntSort(), z3.IntSort())(yu.z)
                self.range[t.get_id()] = (1, 1 << (w - 1), t)
                return Lin.atom(t) if x.c == 1 else self.shrink(Lin.atom(t) * x.c, w)
            raise Unsupported('shl by symbolic')
        if op in ('udiv', 'urem', 'lshr'):
            x, y = self.unsigned(st, x, w), self.unsigned(st, y, w)
            if op == 'lshr':
                if y.is_const():
                    return self.udivc(st, x, 1 << y.c)
                raise Unsupported('lshr by symbolic')
            if y.is_const():
                if y.c == 0:
                    self.oblige(st, 'division by zero', False, 'arith')
                    raise PathEnd()
                return self.udivc(st, x, y.c) if op == 'udiv' else self.umodc(st, x, y.c)
            if not self.proves(st, y.z > 0):
                self.oblige(st, 'divisor is not zero', y.z > 0, 'arith')
            st.assume(y.z > 0)
            q = self.fresh_lin('quo', None, 0, (1 << w) - 1)
            r = self.fresh_lin('rem', None, 0, (1 << w) - 1)
            prod = nlmul(q, y)
            st.assume(x.z == (prod + r).z)
            st.assume(And(r.z >= 0, r.z < y.z, q.z >= 0, q.z <= x.z))
            return q if op == 'udiv' else r
        if op in ('sdiv', 'srem', 'ashr'):
            sx, sy = self.signed(st, x, w), self.signed(st, y, w)
            if op == 'ashr':
                if not sy.is_const():
                    raise Unsupported('ashr by symbolic')
                k = 1 << sy.c
                if sx.divisible(k) and sx.c % k == 0:
                    return sx.div_exact(k)[0]
                if sx.is_const():
                    return Lin(sx.c >> sy.c)
                t = sx.z / z3.IntVal(k)     # floor division: z3 div with positive divisor
                lo, hi = self.interval(sx)
                self.range[t.get_id()] = (None if lo is None else lo // k, None if hi is None else hi // k, t)
                return Lin.atom(t)
            if not sy.is_const():
                raise Unsupported('sdiv by symbolic')
            k = sy.c
            if k == 0:
                self.oblige(st, 'division by zero', False, 'arith')
                raise PathEnd()
            if sx.is_const():
                q = abs(sx.c) // abs(k) * (1 if (sx.c >= 0) == (k > 0) else -1)
                return Lin(q) if op == 'sdiv' else Lin(sx.c - q * k)
            if k > 0 and sx.divisible(k) and sx.c % k == 0:
                return sx.div_exact(k)[0] if op == 'sdiv' else Lin(0)
            if k > 0 and self.proves(st, sx.z >= 0):
                return self.udivc(st, sx, k) if op == 'sdiv' else self.umodc(st, sx, k)
            raise Unsupported('sdiv')
        if op in ('and', 'or', 'xor'):
            return self.bitop(st, op, w, x, y)
        raise Unsupported(op)

    def bitop(self, st, op, w, x, y):
        m = (1 << w) - 1
        if x.is_const() and y.is_const():
            a, b = x.c & m, y.c & m
            return Lin({'and': a & b, 'or': a | b, 'xor': a ^ b}[op])
        if x.is_const():
            x, y = y, x
        if y.is_const():
            k = y.c & m
            u = self.unsigned(st, x, w)
            if op == 'and':
                if k == m:
                    return u
                if k == 0:
                    return Lin(0)
                if (k & (k + 1)) == 0:
                    return self.umodc(st, u, k + 1)
                # high mask  ~(2^j - 1)
                low = (~k) & m
                if (low & (low + 1)) == 0:
                    return u - self.umodc(st, u, low + 1)
                # contiguous mask in the middle
                tz = (k & -k).bit_length() - 1
                if ((k >> tz) & ((k >> tz) + 1)) == 0:
                    q = self.udivc(st, u, 1 << tz)
                    return self.umodc(st, q, (k >> tz) + 1) * (1 << tz)
            if op == 'or':
                if k == 0:
                    return u
                lo, hi = self.interval(u)
                tz = (k & -k)
                if hi is not None and hi < tz:
                    return u + k
                # u multiple of a power of two above k
                p2 = 1 << k.bit_length()
                if u.c % p2 == 0 and u.divisible(p2):
                    return u + k
                if (k & (k - 1)) == 0:
                    bit = self.umodc(st, self.udivc(st, u, k), 2)
                    return u + k - bit * k
            if op == 'xor':
                if k == 0:
                    return u
                if k == m:
                    return Lin(m) - u
                if (k & (k - 1)) == 0:
                    bit = self.umodc(st, self.udivc(st, u, k), 2)
                    return u + k - bit * (2 * k)
        if op == 'or':
            u, v = self.unsigned(st, x, w), self.unsigned(st, y, w)
            # disjoint bits: one multiple of 2^k, other < 2^k
            for a, b in ((u, v), (v, u)):
                lo, hi = self.interval(b)
                if hi is not None:
                    p2 = 1 << hi.bit_length()
                    if a.c % p2 == 0 and a.divisible(p2):
                        return a + b
        f = z3.Function('bit_%s_%d' % (op, w), z3.IntSort(), z3.IntSort(), z3.IntSort())
        t = f(self.unsigned(st, x, w).z, self.unsigned(st, y, w).z)
        self.range[t.get_id()] = (0, m, t)
        if op == 'and':
            st.assume(z3.And(t <= self.unsigned(st, x, w).z, t <= self.unsigned(st, y, w).z))
        return Lin.atom(t)

    def shrink(self, l, w):
        # keep constants small: congruence modulo 2^w
        m = 1 << w
        if l.is_const():
            return Lin(l.c % m)
        c = l.c % m
        if c >= m // 2:
            c -= m
        return Lin(c, l.d) if c != l.c else l

    def icmp(self, st, pred, t, a, b):
        t = self.mod.types.resolve(t)
        if t[0] == 'ptr':
            return self.pcmp(st, pred, a, b)
        w = t[1]
        if w == 1:
            x, y = self.as_bool(st, a), self.as_bool(st, b)
            if pred == 'eq':
                return x == y if isinstance(x, bool) and isinstance(y, bool) else zb(x) == zb(y)
            if pred == 'ne':
                return x != y if isinstance(x, bool) and isinstance(y, bool) else zb(x) != zb(y)
            a, b = self.as_lin(st, a, 1), self.as_lin(st, b, 1)
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return self.fresh_bool('ocmp')
        x, y = self.as_lin(st, a, w), self.as_lin(st, b, w)
        if self.icmp_log is not None:
            self.icmp_log.append(('int', None, x)); self.icmp_log.append(('int', None, y))
        if pred in ('eq', 'ne'):
            # difference congruent to zero modulo 2^w
            d = self.shrink(x - y, w)
            if d.is_const():
                r = d.c == 0
            else:
                m = 1 << w
                lo, hi = self.interval(d)
                if lo is not None and hi is not None and lo > -m and hi < m:
                    r = d.z == 0
                else:
                    x2, y2 = self.unsigned(st, x, w), self.unsigned(st, y, w)
                    d = x2 - y2
                    r = (d.c == 0) if d.is_const() else d.z == 0
            return r if pred == 'eq' else Not(r)
        if pred[0] == 'u':
            x, y = self.unsigned(st, x, w), self.unsigned(st, y, w)
        else:
            x, y = self.signed(st, x, w), self.signed(st, y, w)
        op = pred[1:]
        if op == 'lt':
            return self.lt(x, y)
        if op == 'le':
            return Not(self.lt(y, x))
        if op == 'gt':
            return self.lt(y, x)
        if op == 'ge':
            return Not(self.lt(x, y))
        raise Unsupported('icmp ' + pred)

    def pcmp(self, st, pred, a, b):
        if isinstance(a, FnPtr) or isinstance(b, FnPtr):
            if isinstance(a, FnPtr) and isinstance(b, FnPtr):
                r = a.name == b.name
            else:
                r = False
            return r if pred == 'eq' else (not r)
        if isinstance(a, (Opaque, Undef)) or isinstance(b, (Opaque, Undef)):
            return self.fresh_bool('pcmp')
        if self.icmp_log is not None:
            self.icmp_log.append(('ptr', a.rid, a)); self.icmp_log.append(('ptr', b.rid, b))
        if a.rid == b.rid:
            d = a.off - b.off
            if pred in ('eq', 'ne'):
                r = d.c == 0 if d.is_const() else d.z == 0
                return r if pred == 'eq' else Not(r)
            z = Lin(0)
            return {'ult': lambda: self.lt(d, z), 'ule': lambda: Not(self.lt(z, d)),
                    'ugt': lambda: self.lt(z, d), 'uge': lambda: Not(self.lt(d, z))}[pred]()
        if pred in ('eq', 'ne'):
            if a.rid is None or b.rid is None or True:
                r = False
            return r if pred == 'eq' else (not r)
        raise Unsupported('order of pointers into different objects')

    def cast(self, st, op, t1, v, t2):
        t1 = self.mod.types.resolve(t1)
        t2 = self.mod.types.resolve(t2)
        if op in ('bitcast', 'addrspacecast'):
            if t1 == t2 or t1[0] == t2[0]:
                return v
            return Opaque('bitcast') if t2[0] == 'f' else self.fresh_lin('bc', t2[1], st=st)
        if op == 'ptrtoint':
            if isinstance(v, Ptr):
                return self.as_lin(st, v, 64)
            raise Unsupported('ptrtoint %r' % v)
        if op == 'inttoptr':
            return self.ptr_from_int(st, self.as_lin(st, v, 64))
        if op in ('uitofp', 'sitofp', 'fpext', 'fptrunc'):
            return Opaque(op)
        if op in ('fptoui', 'fptosi') and isinstance(v, Opaque) and v.why == 'sqrt' and t2[1] >= 64:
            # square root of a 64-bit unsigned integer, rounded: at most 2^32
            self.assumed_notes.add('libm: 0 <= ceil(sqrt(n)) <= 2^32 for a 64-bit n')
            return self.fresh_lin('sqrt', None, 0, 1 << 32, st=st)
        if op in ('fptoui', 'fptosi'):
            return self.fresh_lin('fp2int', t2[1], st=st)
        w1, w2 = t1[1], t2[1]
        if op == 'trunc':
            if w2 == 1:
                return self.as_bool(st, v)
            return v if not isinstance(v, (bool, z3.BoolRef)) else self.as_lin(st, v, w2)
        if op == 'zext':
            if w1 == 1:
                v = self.as_bool(st, v)
                if isinstance(v, bool):
                    return Lin(1 if v else 0)
                return self.bool_to_lin(v)
            return self.unsigned(st, self.as_lin(st, v, w1), w1)
        if op == 'sext':
            if w1 == 1:
                v = self.as_bool(st, v)
                return -self.as_lin(st, v, 1)
            return self.signed(st, self.as_lin(st, v, w1), w1)
        raise Unsupported(op)

    # ------------------------------------------------------------ calls
    def find_contract(self, name):
        if name in self.find_contract_cache:
            return self.find_contract_cache[name]
        d = self.mod.dem.get(name, name)
        b = base_name(d)
        r = None
        for c in self.contracts:
            if c.matches(name, d, b):
                r = c
                break
        self.find_contract_cache[name] = r
        return r

    def call(self, st, name, args, argtypes, rett):
        """-> list of (state, value)"""
        r = self.intrinsic(st, name, args, argtypes, rett)
        if r is not None:
            return r
        c = self.find_contract(name)
        if c is not None and c.title in self.opt.get('unfold', ()) and c.title not in self.unfolding:
            # the function under verification: its body is executed, further calls use the contract
            self.unfolding.append(c.title)
            try:
                return self.run_function(st, name, args)
            finally:
                self.unfolding.pop()
        if c is not None:
            self.contract_used.setdefault(c.title, 0)
            self.contract_used[c.title] += 1
            return c.apply(self, st, name, args, rett)
        if name in self.mod.funcs:
            return self.run_function(st, name, args)
        r = self.external(st, name, args, argtypes, rett)
        if r is not None:
            return r
        raise Unsupported('call of external %s' % self.mod.dem.get(name, name))

    def external(self, st, name, args, argtypes, rett):
        n = name[1:]
        if n == '__assert_fail':
            self.oblige(st, 'the assert in the code holds', False, 'assert')
            return []
        if n in ('_ZSt9terminatev', 'abort', '__cxa_pure_virtual'):
            self.oblige(st, 'no abort', False, 'assert')
            return []
        if n in ('sqrt', 'ceil', 'floor', 'log2', 'pow', 'log', 'sqrtf', 'ceilf'):
            if n in ('ceil', 'floor') and isinstance(args[0], Opaque) and args[0].why in ('sqrt', 'log2'):
                return [(st, args[0])]
            return [(st, Opaque(n))]
        if n in ('__cxa_guard_acquire',):
            return [(st, Lin(0))]
        if n.startswith('gh_'):
            return self.ghost_call(st, n, args, rett)
        if n.startswith('uf_'):
            return [(st, self.uf(st, n, args, argtypes, rett))]
        return None

    def ghost_call(self, st, n, args, rett):
        fn = self.ghost_fns.get(n)
        if fn is None:
            raise Unsupported('ghost function ' + n)
        r = fn(self, st, args)
        return [(st, r)]

    def uf(self, st, n, args, argtypes, rett):
        sorts = []
        zs = []
        for a, t in zip(args, argtypes):
            t = self.mod.types.resolve(t)
            if t[0] == 'i' and t[1] == 1:
                zs.append(zb(self.as_bool(st, a))); sorts.append(z3.BoolSort())
            elif t[0] == 'i':
                zs.append(self.unsigned(st, self.as_lin(st, a, t[1]), t[1]).z); sorts.append(z3.IntSort())
            else:
                raise Unsupported('uf arg')
        rt = self.mod.types.resolve(rett)
        if rt[0] == 'void':
            return None
        if rt[1] == 1:
            return z3.Function(n, *sorts, z3.BoolSort())(*zs)
        t = z3.Function(n, *sorts, z3.IntSort())(*zs)
        self.range[t.get_id()] = (0, (1 << rt[1]) - 1, t)
        return Lin.atom(t)

    def intrinsic(self, st, name, args, argtypes, rett):
        n = name[1:]
        if not n.startswith('llvm.'):
            return None
        if n.startswith('llvm.lifetime.') or n.startswith('llvm.dbg') or n.startswith('llvm.experimental.noalias') or n.startswith('llvm.prefetch'):
            return [(st, None)]
        if n.startswith('llvm.assume'):
            return [(st, None)]
        if n.startswith('llvm.expect'):
            return [(st, args[0])]
        if n.startswith('llvm.memcpy') or n.startswith('llvm.memmove'):
            self.memcpy(st, args[0], args[1], args[2], 'memmove' in n)
            return [(st, None)]
        if n.startswith('llvm.memset'):
            self.memset(st, args[0], args[1], args[2])
            return [(st, None)]
        if n.startswith('llvm.sqrt'):
            return [(st, Opaque('sqrt'))]
        if n.startswith(('llvm.ceil', 'llvm.floor')) and isinstance(args[0], Opaque) and args[0].why in ('sqrt', 'log2'):
            return [(st, args[0])]
        if n.startswith(('llvm.ceil', 'llvm.sqrt', 'llvm.floor', 'llvm.fmuladd', 'llvm.fabs', 'llvm.pow', 'llvm.log')):
            return [(st, Opaque(n))]
        m = re.match(r'llvm\.(umin|umax|smin|smax)\.i(\d+)', n)
        if m:
            w = int(m.group(2))
            k = m.group(1)
            a, b = self.as_lin(st, args[0], w), self.as_lin(st, args[1], w)
            if k[0] == 'u':
                a, b = self.unsigned(st, a, w), self.unsigned(st, b, w)
            else:
                a, b = self.signed(st, a, w), self.signed(st, b, w)
            c = self.lt(a, b)
            return self.ite_lin(st, c, a if k.endswith('min') else b, b if k.endswith('min') else a)
        m = re.match(r'llvm\.usub\.sat\.i(\d+)', n)
        if m:
            w = int(m.group(1))
            a, b = self.unsigned(st, self.as_lin(st, args[0], w), w), self.unsigned(st, self.as_lin(st, args[1], w), w)
            return self.ite_lin(st, self.lt(a, b), Lin(0), a - b)
        m = re.match(r'llvm\.(umul|uadd|usub)\.with\.overflow\.i(\d+)', n)
        if m:
            w = int(m.group(2))
            a, b = self.unsigned(st, self.as_lin(st, args[0], w), w), self.unsigned(st, self.as_lin(st, args[1], w), w)
            r = {'umul': lambda: nlmul(a, b), 'uadd': lambda: a + b, 'usub': lambda: a - b}[m.group(1)]()
            ok = And(self.ge(r, 0), self.lt(r, Lin(1 << w)))
            return [(st, [self.shrink(r, w), Not(ok)])]
        if n.startswith('llvm.trap'):
            self.oblige(st, 'no trap', False, 'assert')
            return []
        return None

    def ite_lin(self, st, c, a, b):
        """fork instead of building if-then-else"""
        if c is True:
            return [(st, a)]
        if c is False:
            return [(st, b)]
        out = []
        if self.feasible(st, c):
            s1 = st.fork(); s1.assume(c); out.append((s1, a))
        nc = Not(c)
        if self.feasible(st, nc):
            s2 = st.fork(); s2.assume(nc); out.append((s2, b))
        return out

    def memcpy(self, st, d, s, n, move):
        n = self.unsigned(st, self.as_lin(st, n, 64), 64)
        if n.is_const() and n.c == 0:
            return
        md = self.region(st, d, 'memcpy to', '')
        ms = self.region(st, s, 'memcpy from', '')
        if md.kind == 'cell' and ms.kind == 'cell':
            if not (n.is_const() and d.off.is_const() and s.off.is_const()):
                raise Unsupported('memcpy of small objects, symbolic')
            k = n.c
            if s.off.c + k > ms.size or d.off.c + k > md.size:
                self.oblige(st, 'memcpy inside %s' % md.name, False, 'memory')
                raise PathEnd()
            so, do = s.off.c, d.off.c
            cells = [(o, sz, v) for o, (sz, v) in ms.cells.items() if o >= so and o + sz <= so + k]
            self.log_access(st, 'r', s.rid, s.off)
            self.log_access(st, 'w', d.rid, d.off)
            m2 = st.mw(d.rid)
            for o in list(m2.cells):
                sz = m2.cells[o][0]
                if o < do + k and do < o + sz:
                    if o >= do and o + sz <= do + k:
                        del m2.cells[o]
                    else:
                        raise Unsupported('memcpy over part of a cell')
            for o, sz, v in cells:
                m2.cells[o - so + do] = (sz, v)
            return
        if md.kind == 'arr' and ms.kind == 'arr':
            if md.stride != ms.stride or not n.divisible(md.stride) or n.c % md.stride or not d.off.divisible(md.stride) or not s.off.divisible(ms.stride):
                raise Unsupported('memcpy between different element sizes')
            k, _ = n.div_exact(md.stride)
            di, r1 = d.off.div_exact(md.stride)
            si, r2 = s.off.div_exact(ms.stride)
            if r1 or r2:
                raise Unsupported('memcpy offset')
            self.range_copy(st, d.rid, di, s.rid, si, k)
            return
        # one element between an array and a small object
        if n.is_const():
            if md.kind == 'arr' and n.c == md.stride and d.off.divisible(md.stride):
                idx, r = d.off.div_exact(md.stride)
                if r == 0:
                    for fo, (w, a) in md.fields.items():
                        v = self.cell_load(st, ms, s.rid, s.off.c + fo, w, ('i', 8 * w))
                        self.store(st, ('i', 8 * w), v, Ptr(d.rid, d.off + fo))
                    return
            if ms.kind == 'arr' and n.c == ms.stride and s.off.divisible(ms.stride):
                for fo, (w, a) in ms.fields.items():
                    v = self.load(st, ('i', 8 * w), Ptr(s.rid, s.off + fo))
                    self.store(st, ('i', 8 * w), v, Ptr(d.rid, d.off + fo))
                return
        raise Unsupported('memcpy %s <- %s' % (md.kind, ms.kind))

    def range_copy(self, st, drid, di, srid, si, k):
        md, ms = st.mem[drid], st.mem[srid]
        for m, i, w in ((md, di, 'copy destination'), (ms, si, 'copy source')):
            g = And(self.ge(i, 0), self.ge(m.length, i + k))
            if not self.quiet and not self.proves(st, zb(g)):
                self.oblige(st, '%s in bounds of %s' % (w, m.name), g, 'memory')
            st.assume(g)
        self.log_access(st, 'R', srid, (si, si + k))
        self.log_access(st, 'W', drid, (di, di + k))
        for sk in self.sinks:
            sk.copies.append((drid, srid, di - si))
        m2 = st.mw(drid)
        for f, (w, a) in list(m2.fields.items()):
            src = ms.fields[f][1]
            na = self.fresh_arr(md.name)
            x = z3.Int('x')
            st.assume(z3.ForAll([x], z3.Select(na, x) == z3.If(z3.And(di.z <= x, x < (di + k).z),
                      z3.Select(src, x - di.z + si.z), z3.Select(a, x)), patterns=[z3.Select(na, x)]), True)
            m2.fields[f] = (w, na)

    def memset(self, st, d, v, n):
        n = self.unsigned(st, self.as_lin(st, n, 64), 64)
        md = self.region(st, d, 'memset', '')
        v = self.as_lin(st, v, 8)
        if md.kind == 'cell' and n.is_const() and d.off.is_const():
            m2 = st.mw(d.rid)
            if v.is_const() and v.c == 0:
                for o in list(m2.cells):
                    if d.off.c <= o and o + m2.cells[o][0] <= d.off.c + n.c:
                        del m2.cells[o]
                o = d.off.c
                while o < d.off.c + n.c:
                    s = 8 if o + 8 <= d.off.c + n.c and o % 8 == 0 else 1
                    m2.cells[o] = (s, Lin(0))
                    o += s
                return
        if md.kind == 'arr' and v.is_const() and v.c == 0 and n.divisible(md.stride) and n.c % md.stride == 0 and d.off.divisible(md.stride):
            k, _ = n.div_exact(md.stride)
            di, r = d.off.div_exact(md.stride)
            if r == 0:
                g = And(self.ge(di, 0), self.ge(md.length, di + k))
                if not self.quiet and not self.proves(st, zb(g)):
                    self.oblige(st, 'memset in bounds of %s' % md.name, g, 'memory')
                self.log_access(st, 'W', d.rid, (di, di + k))
                m2 = st.mw(d.rid)
                for f, (w, a) in list(m2.fields.items()):
                    na = self.fresh_arr(md.name)
                    x = z3.Int('x')
                    zero = z3.BoolVal(False) if a.sort().range() == z3.BoolSort() else z3.IntVal(0)
                    st.assume(z3.ForAll([x], z3.Select(na, x) == z3.If(z3.And(di.z <= x, x < (di + k).z), zero, z3.Select(a, x)),
                              patterns=[z3.Select(na, x)]), True)
                    m2.fields[f] = (w, na)
                return
        raise Unsupported('memset')

    # ------------------------------------------------------------ functions
    def run_function(self, st, name, args):
        if self.depth > self.opt['maxdepth']:
            raise Unsupported('inlining depth')
        f = self.mod.body(self.mod.funcs[name])
        d = self.mod.dem.get(name, name)
        self.fn_seen[name] = self.fn_seen.get(name, 0) + 1
        env = {}
        for (t, n), a in zip(f.params, args):
            env[n] = a
        if name in self.name_stack and self.name_stack.count(name) > self.opt.get('unroll_recursion', 0) - 1:
            raise Unsupported('recursion without a contract: ' + d[:80])
        self.depth += 1
        self.fn_stack.append(d)
        self.name_stack.append(name)
        saved = self.frame_allocas
        self.frame_allocas = set()
        try:
            res = self.explore(f, [Item(st, env, f.order[0], None, frozenset())], None)
        finally:
            self.depth -= 1
            self.fn_stack.pop()
            self.name_stack.pop()
            mine = self.frame_allocas
            self.frame_allocas = saved
        for s, v in res['rets']:
            for rid in mine:
                if rid in s.mem:
                    s.mem[rid] = TOMB
        return res['rets']

    def explore(self, f, items, loop):
        """run until return / leaving the loop / back at the loop header"""
        work = list(items)
        rets, exits, backs = [], [], []
        first = True
        while work:
            it = work.pop()
            self.path_ct += 1
            if self.path_ct > self.opt['maxpaths'] * 50:
                raise Unsupported('too many paths')
            if loop is not None and not (first and it.block == loop[0]):
                if it.block == loop[0]:
                    backs.append(it); continue
                if it.block not in loop[1]:
                    exits.append(Item(it.st, it.env, it.block, it.prev, it.active - {loop[0]})); continue
            isfirst = first and loop is not None
            first = False if loop is not None and len(items) == 1 else first
            if it.block in f.loops and it.block not in it.active:
                if self.opt['unroll']:
                    pass
                else:
                    try:
                        ex_items, ex_rets = self.do_loop(f, it)
                    except PathEnd:
                        continue
                    work.extend(ex_items)
                    rets.extend(ex_rets)
                    continue
            try:
                for nx in self.step_block(f, it, rets):
                    work.append(nx)
            except PathEnd:
                pass
        return {'rets': rets, 'exits': exits, 'backs': backs}

    def step_block(self, f, it, rets):
        """execute one basic block; yields successor items; appends to rets"""
        ins = f.blocks[it.block]
        # phis first (parallel)
        states = [(it.st, it.env)]
        k = 0
        if ins and ins[0].op == 'phi':
            if it.prev is not None:
                new = {}
                while ins[k].op == 'phi':
                    i = ins[k]
                    for v, b in i.a:
                        if b == it.prev:
                            new[i.res] = self.ev(it.st, it.env, i.ty, v)
                            break
                    else:
                        raise Unsupported('phi')
                    k += 1
                env = dict(it.env); env.update(new)
                states = [(it.st, env)]
            else:
                while ins[k].op == 'phi':
                    k += 1
        out = []
        todo = [(it.st, states[0][1], k)]
        while todo:
            st, env, k = todo.pop()
            try:
                while True:
                    i = ins[k]
                    op = i.op
                    if op in ('call', 'invoke'):
                        callee, args, normal = i.a
                        vals = [self.ev(st, env, t, o) for t, o in args]
                        if callee[0] == 'g':
                            name = callee[1]
                        else:
                            fp = self.ev(st, env, ('ptr',), callee)
                            if not isinstance(fp, FnPtr):
                                raise Unsupported('indirect call')
                            name = fp.name
                        rs = self.call(st, name, vals, [t for t, _ in args], i.ty)
                        nxt = []
                        for s2, v in rs:
                            e2 = env
                            if i.res is not None:
                                e2 = dict(env); e2[i.res] = v
                            if op == 'invoke':
                                out.append(Item(s2, e2, normal, it.block, it.active))
                            else:
                                nxt.append((s2, e2, k + 1))
                        if op == 'invoke' or not nxt:
                            break
                        todo.extend(nxt[1:])
                        st, env, k = nxt[0]
                        continue
                    if op == 'br':
                        if i.a[0] is None:
                            out.append(Item(st, env, i.a[1], it.block, it.active)); break
                        c = self.as_bool(st, self.ev(st, env, ('i', 1), i.a[0]))
                        self.branch(st, env, it, [(c, i.a[1]), (Not(c), i.a[2])], out)
                        break
                    if op == 'switch':
                        v = self.ev(st, env, i.ty, i.a[0])
                        w = i.ty[1]
                        conds = []
                        neg = []
                        for cv, lb in i.a[2]:
                            c = self.icmp(st, 'eq', i.ty, v, self.const_int(w, cv))
                            conds.append((c, lb)); neg.append(Not(c))
                        conds.append((And(*neg), i.a[1]))
                        self.branch(st, env, it, conds, out)
                        break
                    if op == 'ret':
                        rets.append((st, None if i.a is None else self.ev(st, env, i.ty, i.a)))
                        break
                    if op == 'unreachable':
                        break
                    if op == 'select':
                        c = self.as_bool(st, self.ev(st, env, ('i', 1), i.a[0]))
                        a = self.ev(st, env, i.ty, i.a[1])
                        b = self.ev(st, env, i.ty, i.a[2])
                        t = self.mod.types.resolve(i.ty)
                        if t == ('i', 1):
                            x, y = self.as_bool(st, a), self.as_bool(st, b)
                            r = Or(And(c, x), And(Not(c), y))
                            env = dict(env); env[i.res] = r
                            k += 1; continue
                        opts = self.ite_lin(st, c, a, b)
                        if not opts:
                            break
                        nx = []
                        for s2, v in opts:
                            e2 = dict(env); e2[i.res] = v
                            nx.append((s2, e2, k + 1))
                        todo.extend(nx[1:])
                        st, env, k = nx[0]
                        continue
                    v = self.simple(st, env, i, f)
                    if i.res is not None:
                        env = dict(env); env[i.res] = v
                    k += 1
            except PathEnd:
                pass
        return out

    def branch(self, st, env, it, conds, out):
        live = []
        for c, lb in conds:
            if c is False:
                continue
            if c is True:
                live = [(True, lb)]
                break
            live.append((c, lb))
        if len(live) == 1:
            if live[0][0] is not True:
                st.assume(live[0][0])
            out.append(Item(st, env, live[0][1], it.block, it.active))
            return
        feas = [(c, lb) for c, lb in live if self.feasible(st, c)]
        for n, (c, lb) in enumerate(feas):
            s2 = st.fork() if n < len(feas) - 1 else st
            if True:
                s2.assume(c)
            out.append(Item(s2, env, lb, it.block, it.active))

    def alloca(self, st, i, env, f):
        t = self.mod.types.resolve(i.ty)
        rid = self.new_rid('alloca')
        self.frame_allocas.add(rid)
        size = self.mod.types.size(t)
        if i.a[0] is not None and i.a[0] != ('c', 1):
            n = self.unsigned(st, self.ev(st, env, ('i', 64), i.a[0]), 64)
            if size in (1, 2, 4, 8):
                st.mem[rid] = ArrMem(size, {0: (size, self.fresh_arr('stack'))}, n, 'stack')
                return Ptr(rid, 0)
            raise Unsupported('alloca array')
        # big arrays become array regions
        inner = t
        while True:
            inner = self.mod.types.resolve(inner)
            if inner[0] == 'st' and len(inner[1]) == 1:
                inner = inner[1][0]
            else:
                break
        if inner[0] == 'arr' and inner[1] >= 4:
            et = self.mod.types.resolve(inner[2])
            while et[0] == 'st' and len(et[1]) == 1:
                et = self.mod.types.resolve(et[1][0])
            if et[0] == 'i':
                s = self.mod.types.size(et)
                st.mem[rid] = ArrMem(s, {0: (s, self.fresh_arr('stack'))}, Lin(inner[1]), 'stack')
                st.mem[rid].opaque = False
                return Ptr(rid, 0)
        st.mem[rid] = CellMem(size, {}, 'local')
        return Ptr(rid, 0)

    def simple(self, st, env, i, f):
        op = i.op
        from ir import BIN, CAST
        if op in BIN:
            t = self.mod.types.resolve(i.ty)
            if t[0] != 'i':
                raise Unsupported('vector op')
            return self.ibin(st, op, t[1], self.ev(st, env, t, i.a[0]), self.ev(st, env, t, i.a[1]), i.flags)
        if op == 'icmp':
            t = i.ty
            return self.icmp(st, i.a[0], t, self.ev(st, env, t, i.a[1]), self.ev(st, env, t, i.a[2]))
        if op in CAST:
            return self.cast(st, op, i.a[0], self.ev(st, env, i.a[0], i.a[1]), i.ty)
        if op == 'alloca':
            return self.alloca(st, i, env, f)
        if op == 'load':
            return self.load(st, i.ty, self.ev(st, env, ('ptr',), i.a[0]), i.txt)
        if op == 'store':
            self.store(st, i.ty, self.ev(st, env, i.ty, i.a[0]), self.ev(st, env, ('ptr',), i.a[1]), i.txt)
            return None
        if op == 'getelementptr':
            return self.gep(st, i.ty, [(t, self.ev(st, env, t, o)) for t, o in i.a])
        if op == 'extractvalue':
            v = self.ev(st, env, i.ty, i.a[0])
            for x in i.a[1]:
                if isinstance(v, (Undef, Opaque)):
                    return v
                v = v[x]
            return v
        if op == 'insertvalue':
            v = self.ev(st, env, i.ty, i.a[0])
            t = self.mod.types.resolve(i.ty)
            if not isinstance(v, list):
                v = [UNDEF] * len(t[1])
            x = self.ev(st, env, i.a[1], i.a[2])
            def ins(v, idx, t):
                t = self.mod.types.resolve(t)
                v = list(v) if isinstance(v, list) else [UNDEF] * len(t[1])
                if len(idx) == 1:
                    v[idx[0]] = x
                else:
                    v[idx[0]] = ins(v[idx[0]], idx[1:], t[1][idx[0]])
                return v
            return ins(v, i.a[3], t)
        if op == 'freeze':
            return self.ev(st, env, i.ty, i.a[0])
        if op in ('fbin', 'fneg'):
            return Opaque('fp')
        if op == 'fcmp':
            return self.fresh_bool('fcmp')
        if op == 'fence':
            return None
        if op == 'cmpxchg':
            return self.cmpxchg(st, env, i)
        if op == 'atomicrmw':
            return self.atomicrmw(st, env, i)
        raise Unsupported('instruction ' + i.txt[:80])

    def cmpxchg(self, st, env, i):
        p = self.ev(st, env, ('ptr',), i.a[0])
        c = self.ev(st, env, i.ty, i.a[1])
        n = self.ev(st, env, i.ty, i.a[2])
        old = self.load(st, i.ty, p, i.txt)
        eq = self.icmp(st, 'eq', i.ty, old, c)
        if eq is True:
            self.store(st, i.ty, n, p)
            return [old, True]
        if eq is False:
            return [old, False]
        raise Unsupported('symbolic compare-exchange')

    def atomicrmw(self, st, env, i):
        p = self.ev(st, env, ('ptr',), i.a[1])
        v = self.ev(st, env, i.ty, i.a[2])
        old = self.load(st, i.ty, p, i.txt)
        w = i.ty[1] if i.ty[0] == 'i' else 64
        if i.a[0] == 'xchg':
            nv = v
        elif i.a[0] in ('add', 'sub', 'and', 'or', 'xor'):
            nv = self.ibin(st, i.a[0], w, old, v, [])
        else:
            raise Unsupported('atomicrmw')
        self.store(st, i.ty, nv, p)
        return old

    # ------------------------------------------------------------ loops
    def do_loop(self, f, it):
        from loops import run_loop
        return run_loop(self, f, it)

class PathEnd(Exception):
    pass
