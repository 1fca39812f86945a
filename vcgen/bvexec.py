"""Bit-precise verification condition generator for scalar code (LLVM IR, machine integers and IEEE floats).

Every path of the function under contract is executed symbolically on all inputs; loops are unrolled until no
further iteration is feasible (a loop that does not end within the limit makes the unit undecided, it is never
truncated), calls are inlined or replaced by contracts.  Assertions in the code, memory bounds, undefined
shifts and divisions, and the postconditions of the specification are obligations.
"""
import z3, re, struct, time
from ir import base_name, IRError, BIN, CAST
from exec import Unsupported, Obligation

class P:
    """pointer: region and byte offset (python int or BV64)"""
    __slots__ = ('rid', 'off')
    def __init__(self, rid, off=0):
        if z3.is_bv(off):
            off = z3.simplify(off)
            if z3.is_bv_value(off):
                off = off.as_signed_long()
        self.rid, self.off = rid, off
    def __repr__(self):
        return 'P(%s,%s)' % (self.rid, self.off)

NULLP = P(None, 0)

class Fn:
    def __init__(self, name):
        self.name = name

class Und:
    pass
UND = Und()

class Reg:
    """cells: concrete offset -> (size, value); or bytes: z3 array BV64 -> BV8; or elems: (width, z3 array BV64 -> BV(8*width))"""
    __slots__ = ('name', 'size', 'cells', 'arr', 'width', 'alive', 'readonly', 'lazy', 'align', 'ptr_to')
    def __init__(self, name, size, cells=None, arr=None, width=1, readonly=False, lazy=None, align=16):
        self.ptr_to = None          # elements of arr are pointers into that region (offsets; the sentinel of a nullable region is null)
        self.name, self.size, self.cells, self.arr, self.width, self.readonly, self.alive, self.lazy, self.align = name, size, cells, arr, width, readonly, True, lazy, align
    def copy(self):
        r = Reg(self.name, self.size, dict(self.cells) if self.cells is not None else None, self.arr, self.width, self.readonly, self.lazy, self.align)
        r.alive = self.alive
        r.ptr_to = self.ptr_to
        return r

class BState:
    __slots__ = ('pc', 'mem', 'ghost')
    def __init__(self):
        self.pc, self.mem, self.ghost = [], {}, {}
    def fork(self):
        s = BState()
        s.pc, s.mem, s.ghost = list(self.pc), dict(self.mem), dict(self.ghost)
        return s
    def assume(self, f):
        if f is True:
            return
        self.pc.append(z3.BoolVal(False) if f is False else f)
    def mw(self, rid):
        r = self.mem[rid].copy()
        self.mem[rid] = r
        return r

class End(Exception):
    pass

def bv(v, w=64):
    return z3.BitVecVal(v, w)

def asbool(b):
    if z3.is_bool(b):
        return b
    return b == z3.BitVecVal(1, 1)

def b2i(c):
    """Bool -> i1"""
    c = z3.simplify(c)
    if z3.is_true(c):
        return bv(1, 1)
    if z3.is_false(c):
        return bv(0, 1)
    return z3.If(c, bv(1, 1), bv(0, 1))

def i2b(v):
    if z3.is_bv_value(v):
        return z3.BoolVal(v.as_long() == 1)
    if z3.is_app_of(v, z3.Z3_OP_ITE) and z3.is_bv_value(v.arg(1)) and z3.is_bv_value(v.arg(2)) and v.arg(1).as_long() == 1 and v.arg(2).as_long() == 0:
        return v.arg(0)
    return v == bv(1, 1)

def tofp(b, bits):
    if z3.is_app(b) and b.decl().kind() in (z3.Z3_OP_FPA_TO_IEEE_BV,) and b.size() == bits:
        return b.arg(0)
    return z3.fpBVToFP(b, FS[bits])

RM = z3.RNE()
FS = {32: z3.Float32(), 64: z3.Float64()}

def fuf(name, sort, *a):
    """a floating-point operation as an uninterpreted function (option opaque_fp: only equality of the operands counts)"""
    return z3.Function('fp_%s_%s' % (name, sort.sexpr().replace(' ', '')), *([x.sort() for x in a] + [sort]))(*a)

class BVExecutor:
    is_bv = True
    def __init__(self, module, contracts=None, options=None):
        self.mod = module
        self.contracts = contracts or []
        self.opt = dict(maxunroll=70, maxpaths=20000, rlimit=3000000, ob_rlimit=60000000, feas=True)
        self.opt.update(options or {})
        self.obls = []
        self.fresh_n = 0
        self.rid_n = 0
        self.fn_seen = {}
        self.contract_used = {}
        self.fn_stack = []
        self.name_stack = []
        self.ghost_fns = {}
        self.loops_done = []
        self.pars_done = []
        self.houdini_ok = 0
        self.quick = 0
        self.axioms = []
        self.qf_axioms = []
        self.base = {}
        self.paths = 0
        self.unroll_seen = {}
        self.find_cache = {}
        self.interfere = None       # called before every atomic access: fn(ex, st, ptr, size)
        self.trace = False
        self.cutting = set()
        self.loop_inv = None
        self.nullable = {}
        self.loop_cands = None
        self.ufs = {}
        self.depth = 0
        self.unfolding = []
        self.assume_call = None

    # ---------------------------------------------------------------- symbols
    def fresh(self, name, w=64):
        self.fresh_n += 1
        return z3.BitVec('%s!%d' % (name, self.fresh_n), w)

    def fresh_fp(self, name, bits):
        self.fresh_n += 1
        return z3.FP('%s!%d' % (name, self.fresh_n), FS[bits])

    def fresh_of(self, t, name='any'):
        t = self.mod.types.resolve(t)
        if t[0] == 'i':
            return self.fresh(name, t[1])
        if t[0] == 'f':
            return self.fresh_fp(name, t[1])
        raise Unsupported('fresh %r' % (t,))

    def region(self, st, name, size, cells=None, **k):
        self.rid_n += 1
        rid = '%s#%d' % (name, self.rid_n)
        if cells is None and 'arr' not in k:
            cells = {}
        st.mem[rid] = Reg(name, size, cells, **k)
        return rid

    def bytes_region(self, st, name, size, arr=None, width=1, **k):
        self.fresh_n += 1
        if arr is None:
            arr = z3.Array('%s!%d' % (name, self.fresh_n), z3.BitVecSort(64), z3.BitVecSort(8 * width))
        return self.region(st, name, size, arr=arr, width=width, **k)

    def base_of(self, st, rid):
        if rid is None:
            return bv(0)
        if rid not in self.base:
            b = z3.BitVec('addr_' + rid, 64)
            self.base[rid] = b
        b = self.base[rid]
        f = z3.And(z3.URem(b, bv(self.mem_align(st, rid))) == 0, b != 0)
        if not any(f.eq(x) for x in st.pc):
            st.assume(f)
        return b

    def mem_align(self, st, rid):
        return st.mem[rid].align if rid in st.mem else 16

    # ---------------------------------------------------------------- solver
    def check(self, fs, rlimit):
        s = z3.Solver()
        s.set('rlimit', rlimit)
        s.add(*fs)
        s.add(*self.qf_axioms)
        return s.check()

    def feasible(self, st, c):
        if c is True:
            return True
        if c is False:
            return False
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        return self.check(st.pc + [c], self.opt['rlimit']) != z3.unsat

    def proves(self, st, g):
        g = z3.simplify(g)
        if z3.is_true(g):
            return True
        return self.check(st.pc + [z3.Not(g)], self.opt['rlimit']) == z3.unsat

    def oblige(self, st, label, goal, kind='assert'):
        if goal is True:
            return
        if goal is False:
            goal = z3.BoolVal(False)
        g = z3.simplify(goal)
        if z3.is_true(g):
            self.quick += 1
            return
        self.obls.append(Obligation(label, list(st.pc), g, self.fn_stack[-1] if self.fn_stack else '', kind))

    # ---------------------------------------------------------------- values
    def const(self, t, v):
        return bv(v, t[1])

    def fpconst(self, txt, bits):
        if txt.startswith('0x'):
            b = struct.pack('>Q', int(txt[2:], 16))
            d = struct.unpack('>d', b)[0]
            raw = int(txt[2:], 16)
            x = z3.fpBVToFP(bv(raw, 64), FS[64])
            if bits == 64:
                return z3.simplify(x)
            return z3.simplify(z3.fpFPToFP(RM, x, FS[32]))
        return z3.FPVal(float(txt), FS[bits])

    def zero_of(self, t):
        t = self.mod.types.resolve(t)
        if t[0] == 'i':
            return bv(0, t[1])
        if t[0] == 'ptr':
            return NULLP
        if t[0] == 'f':
            return z3.fpPlusZero(FS[t[1]])
        if t[0] == 'st':
            return [self.zero_of(x) for x in t[1]]
        if t[0] in ('arr', 'vec'):
            return [self.zero_of(t[2]) for _ in range(t[1])]
        raise Unsupported('zero of %r' % (t,))

    def ev(self, st, env, ty, o):
        k = o[0]
        if k == 'loc':
            if o[1] not in env:
                raise Unsupported('use of undefined ' + o[1])
            return env[o[1]]
        t = self.mod.types.resolve(ty)
        if k == 'c':
            return bv(o[1], t[1])
        if k == 'null':
            return NULLP
        if k == 'zero':
            return self.zero_of(t)
        if k == 'fp':
            return self.fpconst(o[1], t[1])
        if k == 'undef':
            if t[0] == 'st':
                return [UND for _ in t[1]]
            if t[0] == 'arr':
                return [UND for _ in range(t[1])]
            return UND
        if k == 'g':
            return self.glob(st, o[1])
        if k == 'agg':
            return [self.ev(st, env, tt, v) for tt, v in o[1]]
        if k == 'ce':
            if o[1] == 'gep':
                return self.gep(st, o[2], [(tt, self.ev(st, env, tt, v)) for tt, v in o[3]])
            if o[1] in ('bitcast', 'addrspacecast'):
                return self.ev(st, env, o[2], o[3])
            return self.cast(st, o[1], o[2], self.ev(st, env, o[2], o[3]), o[4])
        if k in ('meta', 'str'):
            return UND
        raise Unsupported('operand %r' % (o,))

    def glob(self, st, name):
        if name in self.mod.funcs or name in self.mod.decls:
            return Fn(name)
        rid = '@' + name
        if rid not in st.mem:
            from ir import P as Parser, tokenize
            txt = self.mod.globals.get(name, '')
            size, cells, ro, arr = 8, {}, False, None
            m = re.search(r'\b(constant|global) (.*)$', txt)
            if m:
                body = re.sub(r', (align \d+|comdat.*|section.*)', '', m.group(2))
                ro = m.group(1) == 'constant'
                try:
                    p = Parser(tokenize(body))
                    t = p.type()
                    size = self.mod.types.size(t)
                    tr = self.mod.types.resolve(t)
                    mm = re.match(r'\[\d+ x i8\] c"(.*)"', body)
                    if ro and mm:
                        raw = bytearray()
                        s = mm.group(1); i = 0
                        while i < len(s):
                            if s[i] == '\\':
                                if s[i + 1] == '\\':
                                    raw.append(92); i += 2
                                else:
                                    raw.append(int(s[i + 1:i + 3], 16)); i += 3
                            else:
                                raw.append(ord(s[i])); i += 1
                        a = z3.K(z3.BitVecSort(64), bv(0, 8))
                        for i, c in enumerate(raw):
                            a = z3.Store(a, bv(i), bv(c, 8))
                        st.mem[rid] = Reg(name, size, None, a, 1, True)
                        return P(rid, 0)
                    if ro and p.i < len(p.t):
                        o = p.operand(t)
                        v = self.ev(st, {}, t, o)
                        self.flatten(t, v, 0, cells)
                except (IRError, Unsupported, IndexError, ValueError):
                    cells = {}
            st.mem[rid] = Reg(name, size, cells, readonly=ro)
        return P(rid, 0)

    def flatten(self, t, v, off, cells):
        t = self.mod.types.resolve(t)
        if t[0] in ('st', 'arr'):
            for i in range(len(t[1]) if t[0] == 'st' else t[1]):
                fo, ft = self.mod.types.field(t, i)
                if not isinstance(v, Und):
                    self.flatten(ft, v[i], off + fo, cells)
            return
        if not isinstance(v, Und):
            cells[off] = (self.mod.types.size(t), v)

    def gep(self, st, bt, vals):
        p = vals[0][1]
        if not isinstance(p, P):
            raise Unsupported('gep on %r' % (p,))
        off = p.off
        def add(a, b):
            if isinstance(a, int) and isinstance(b, int):
                return a + b
            a = bv(a) if isinstance(a, int) else a
            b = bv(b) if isinstance(b, int) else b
            return z3.simplify(a + b)
        def idx(v, s):
            v = z3.simplify(v)
            if z3.is_bv_value(v):
                return v.as_signed_long() * s
            if v.size() < 64:
                v = z3.SignExt(64 - v.size(), v)
            return z3.simplify(v * bv(s)) if s != 1 else v
        t = bt
        for n, (ty, v) in enumerate(vals[1:]):
            if n == 0:
                off = add(off, idx(v, self.mod.types.size(t)))
            else:
                t2 = self.mod.types.resolve(t)
                if t2[0] == 'st':
                    fo, t = self.mod.types.field(t2, z3.simplify(v).as_long())
                    off = add(off, fo)
                else:
                    off = add(off, idx(v, self.mod.types.size(t2[2])))
                    t = t2[2]
        return P(p.rid, off)

    def toint(self, st, v, w=64):
        if isinstance(v, P):
            o = v.off if not isinstance(v.off, int) else bv(v.off)
            if v.rid == 'int':
                return o
            return z3.simplify(self.base_of(st, v.rid) + o)
        if isinstance(v, Und):
            return self.fresh('undef', w)
        return v

    def ptr_from_int(self, st, x):
        x = z3.simplify(x)
        if z3.is_bv_value(x):
            if x.as_long() == 0:
                return NULLP
            return P('int', x.as_long())
        for rid, b in self.base.items():
            d = z3.simplify(x - b)
            if not mentions_sym(d, b):
                return P(rid, d)
        m = [(rid, b) for rid, b in self.base.items() if mentions_sym(x, b)]
        if len(m) == 1:
            return P(m[0][0], z3.simplify(x - m[0][1]))      # derived from (and checked against) that object
        return P('int', x)

    # ---------------------------------------------------------------- memory
    def acc(self, st, p, size, write):
        if not isinstance(p, P):
            raise Unsupported('memory access through %r' % (p,))
        if p.rid is None:
            self.oblige(st, 'no null dereference', False, 'memory')
            raise End()
        if p.rid not in st.mem:
            raise Unsupported('access to unknown memory %s' % p.rid)
        m = st.mem[p.rid]
        if not m.alive:
            self.oblige(st, 'no use of %s after its lifetime' % m.name, False, 'memory')
            raise End()
        if write and m.readonly:
            self.oblige(st, 'no write to %s' % m.name, False, 'frame')
            raise End()
        o = p.off
        if isinstance(o, int) and isinstance(m.size, int):
            if o < 0 or o + size > m.size:
                self.oblige(st, 'access inside %s' % m.name, False, 'memory')
                raise End()
        else:
            ob = bv(o) if isinstance(o, int) else o
            sz = bv(m.size) if isinstance(m.size, int) else m.size
            g = z3.And(z3.ULE(ob, sz), z3.ULE(bv(size), sz - ob))
            if self.proves(st, g):
                self.quick += 1
            else:
                self.oblige(st, 'access inside %s' % m.name, g, 'memory')
            st.assume(g)
        return m

    def load(self, st, t, p, atomic=False):
        t = self.mod.types.resolve(t)
        if t[0] == 'st':
            return [self.load(st, ft, padd(p, fo)) for fo, ft in (self.mod.types.field(t, i) for i in range(len(t[1])))]
        if t[0] in ('arr', 'vec'):
            return [self.load(st, ft, padd(p, fo)) for fo, ft in (self.mod.types.field(t, i) for i in range(t[1]))]
        size = (t[1] + 7) // 8 if t[0] == 'i' else self.mod.types.size(t)
        if atomic and self.interfere:
            self.interfere(self, st, p, size)
        m = self.acc(st, p, size, False)
        if m.arr is not None and m.ptr_to is not None and t[0] == 'ptr':
            return P(m.ptr_to, self.arr_load(st, m, p.off, size))
        if m.arr is not None:
            return self.from_bits(self.arr_load(st, m, p.off, size), t)
        if not isinstance(p.off, int):
            return self.sym_cells(st, m, p, size, t)
        c = m.cells.get(p.off)
        if c is not None and c[0] == size:
            v = c[1]
            return self.conv(st, v, t)
        ov = [(o, s, v) for o, (s, v) in m.cells.items() if o < p.off + size and p.off < o + s]
        if not ov:
            v = m.lazy(p.off, t) if m.lazy else (UND if t[0] == 'ptr' else self.fresh_of(t, 'uninit'))
            m2 = st.mw(p.rid)
            m2.cells[p.off] = (size, v)
            return v
        if t[0] in ('i', 'f') :
            parts = []
            for k in range(size):
                b = None
                for o, s, v in ov:
                    if o <= p.off + k < o + s:
                        x = self.bits(st, v)
                        j = p.off + k - o
                        b = z3.Extract(8 * j + 7, 8 * j, x)
                if b is None:
                    b = self.fresh('uninit', 8)
                parts.append(b)
            r = parts[0] if size == 1 else z3.Concat(*reversed(parts))
            return z3.simplify(self.from_bits(r, t))
        raise Unsupported('mixed access')

    def sym_cells(self, st, m, p, size, t):
        """read at a symbolic offset from an object with known cells of one size (constant tables)"""
        cs = sorted((o, v) for o, (s, v) in m.cells.items() if s == size)
        if not cs or len(cs) > 600 or not (t[0] == 'i' and all(z3.is_bv(v) for _, v in cs) or t[0] == 'f' and all(z3.is_fp(v) for _, v in cs)):
            raise Unsupported('symbolic offset into ' + m.name)
        r = cs[-1][1]
        for o, v in cs[:-1]:
            r = z3.If(p.off == bv(o), v, r)
        al = z3.Or(*[p.off == bv(o) for o, _ in cs])
        if not self.proves(st, al):
            raise Unsupported('symbolic offset into ' + m.name)
        return r

    def bits(self, st, v):
        if isinstance(v, P):
            return self.toint(st, v)
        if z3.is_fp(v):
            return z3.fpToIEEEBV(v)
        if isinstance(v, Und):
            raise Unsupported('undefined bits')
        w = v.size()
        if w % 8:
            return z3.ZeroExt(8 - w % 8, v)
        return v

    def from_bits(self, b, t):
        if t[0] == 'i':
            return b if b.size() == t[1] else z3.Extract(t[1] - 1, 0, b)
        if t[0] == 'f':
            return tofp(b, t[1])
        if t[0] == 'ptr':
            raise Unsupported('pointer in a byte array')

    def conv(self, st, v, t):
        if isinstance(v, Und):
            return v
        if t[0] == 'i':
            if isinstance(v, P):
                return self.toint(st, v)
            if z3.is_fp(v):
                return z3.fpToIEEEBV(v)
            if v.size() > t[1]:
                return z3.Extract(t[1] - 1, 0, v)
            return v
        if t[0] == 'f' and z3.is_bv(v):
            return tofp(v, t[1])
        if t[0] == 'ptr' and z3.is_bv(v):
            return self.ptr_from_int(st, v)
        return v

    def arr_load(self, st, m, off, size):
        o = bv(off) if isinstance(off, int) else off
        if m.width == size:
            if size > 1:
                i = z3.simplify(z3.UDiv(o, bv(size)))
                if not self.proves(st, z3.URem(o, bv(size)) == 0):
                    raise Unsupported('misaligned element access')
            else:
                i = o
            return z3.Select(m.arr, i)
        if m.width == 1:
            parts = [z3.Select(m.arr, o + bv(k)) for k in range(size)]
            return z3.Concat(*reversed(parts))
        raise Unsupported('element width')

    def store(self, st, t, v, p, atomic=False):
        t = self.mod.types.resolve(t)
        if t[0] in ('st', 'arr', 'vec') and isinstance(v, list):
            for i in range(len(v)):
                fo, ft = self.mod.types.field(t, i)
                if not isinstance(v[i], Und):
                    self.store(st, ft, v[i], padd(p, fo))
            return
        size = (t[1] + 7) // 8 if t[0] == 'i' else self.mod.types.size(t)
        if atomic and self.interfere:
            self.interfere(self, st, p, size)
        m = self.acc(st, p, size, True)
        m2 = st.mw(p.rid)
        if m.arr is not None:
            o = bv(p.off) if isinstance(p.off, int) else p.off
            if m.ptr_to is not None and isinstance(v, P):
                if v.rid is None:
                    b = self.nullable[m.ptr_to]
                elif v.rid == m.ptr_to:
                    b = bv(v.off) if isinstance(v.off, int) else v.off
                else:
                    raise Unsupported('pointer to %s stored in %s' % (v.rid, m.name))
            else:
                b = self.bits(st, v)
            if m.width == size:
                if size > 1 and not self.proves(st, z3.URem(o, bv(size)) == 0):
                    raise Unsupported('misaligned element access')
                m2.arr = z3.Store(m.arr, o if size == 1 else z3.simplify(z3.UDiv(o, bv(size))), b)
            elif m.width == 1:
                a = m.arr
                for k in range(size):
                    a = z3.Store(a, z3.simplify(o + bv(k)), z3.Extract(8 * k + 7, 8 * k, b))
                m2.arr = a
            else:
                raise Unsupported('element width')
            return
        if not isinstance(p.off, int):
            raise Unsupported('symbolic offset into ' + m.name)
        for o in list(m2.cells):
            s, old = m2.cells[o]
            if o < p.off + size and p.off < o + s and not (o == p.off and s == size):
                del m2.cells[o]
                if not (o >= p.off and o + s <= p.off + size):
                    x = self.bits(st, old)
                    for k in range(s):
                        if not (p.off <= o + k < p.off + size):
                            m2.cells[o + k] = (1, z3.Extract(8 * k + 7, 8 * k, x))
        m2.cells[p.off] = (size, v)

    def memcpy(self, st, d, s, n):
        n = z3.simplify(n)
        if not z3.is_bv_value(n):
            raise Unsupported('memcpy of symbolic length')
        n = n.as_long()
        if n == 0:
            return
        ms = self.acc(st, s, n, False)
        md = self.acc(st, d, n, True)
        if ms.arr is None and md.arr is None and isinstance(s.off, int) and isinstance(d.off, int):
            items = [(o, sz, v) for o, (sz, v) in ms.cells.items() if o >= s.off and o + sz <= s.off + n]
            m2 = st.mw(d.rid)
            for o in list(m2.cells):
                sz = m2.cells[o][0]
                if o < d.off + n and d.off < o + sz:
                    if o < d.off or o + sz > d.off + n:
                        raise Unsupported('memcpy over part of a cell')
                    del m2.cells[o]
            for o, sz, v in items:
                m2.cells[o - s.off + d.off] = (sz, v)
            return
        if n <= 64:
            vals = [self.load(st, ('i', 8), padd(s, k)) for k in range(n)]
            for k, v in enumerate(vals):
                self.store(st, ('i', 8), v, padd(d, k))
            return
        raise Unsupported('memcpy')

    # ---------------------------------------------------------------- arithmetic
    def picked(self, st, env, f, i, depth=0):
        """an overflowing instruction yields poison, which does harm only where it is used: if (through pure
        arithmetic) every use is an operand of a select of the same block, the condition under which one picks it"""
        for b in f.order or f.blocks:
            blk = f.blocks[b]
            if any(x is i for x in blk):
                break
        else:
            return None
        pos = {x.res: n for n, x in enumerate(blk) if x.res}
        pat = re.compile(re.escape(i.res) + r'(?![\w.$-])')
        uses = [x for bb in f.blocks for x in f.blocks[bb] if x is not i and pat.search(x.txt.split('=', 1)[1] if x.res else x.txt)]
        if not uses or depth > 3:
            return None
        conds = []
        for u in uses:
            if not any(x is u for x in blk):
                return None
            if u.op == 'select':
                cname = u.a[0]
                m = re.search(r'select (?:\w+ )*?i1 (%[\w.$-]+),', u.txt)
                if not m or (pos.get(m.group(1), -1) >= pos[i.res] or (depth and pos.get(m.group(1), -1) >= pos[i.res])) or u.a[1] == u.a[2]:
                    return None
                if pat.search(m.group(1)):
                    return None
                t = re.search(r'select (?:\w+ )*?i1 %[\w.$-]+, \w+ ([^,]+), \w+ ([^,]+)', u.txt)
                if not t:
                    return None
                c = i2b(self.toint(st, self.ev(st, env, ('i', 1), cname), 1))
                conds.append(c if t.group(1).strip() == i.res else z3.Not(c))
            elif u.op in ('add', 'sub', 'mul'):
                # the value is needed where the result of u is needed
                g = self.picked_at(st, env, f, u, depth + 1, pos[i.res], pos)
                if g is None:
                    return None
                conds.append(g)
            else:
                return None
        return z3.Or(conds)

    def picked_at(self, st, env, f, u, depth, limit, pos):
        g = self.picked(st, env, f, u, depth)
        if g is None:
            return None
        # conditions computed after the first instruction are not known yet
        for b in f.blocks:
            blk = f.blocks[b]
            if any(x is u for x in blk):
                pat = re.compile(re.escape(u.res) + r'(?![\w.$-])')
                for x in blk:
                    if x.op == 'select' and pat.search(x.txt.split('=', 1)[1]):
                        m = re.search(r'select (?:\w+ )*?i1 (%[\w.$-]+),', x.txt)
                        if not m or pos.get(m.group(1), -1) >= limit:
                            return None
        return g

    def bin(self, st, op, w, a, b, flags, picked=None):
        if isinstance(a, (Und, P)):
            a = self.toint(st, a, w)
        if isinstance(b, (Und, P)):
            b = self.toint(st, b, w)
        S = z3.simplify
        if op in ('add', 'sub', 'mul'):
            if 'nsw' in flags and self.opt.get('signed_overflow', True):
                w2 = w + 2 if op != 'mul' else 2 * w
                x, y = z3.SignExt(w2 - w, a), z3.SignExt(w2 - w, b)
                r = {'add': x + y, 'sub': x - y, 'mul': x * y}[op]
                g = z3.SignExt(w2 - w, z3.Extract(w - 1, 0, r)) == r
                if picked is not None:
                    g = z3.Implies(picked, g)
                if not self.proves(st, g):
                    self.oblige(st, 'no signed overflow', g, 'arith')
            return S({'add': a + b, 'sub': a - b, 'mul': a * b}[op])
        if op in ('and', 'or', 'xor'):
            return S({'and': a & b, 'or': a | b, 'xor': a ^ b}[op])
        if op in ('shl', 'lshr', 'ashr'):
            if not z3.is_bv_value(b):
                g = z3.ULT(b, bv(w, w))
                if not self.proves(st, g):
                    self.oblige(st, 'shift by less than the width', g, 'arith')
                st.assume(g)
            return S({'shl': lambda: a << b, 'lshr': lambda: z3.LShR(a, b), 'ashr': lambda: a >> b}[op]())
        g = b != bv(0, w)
        if not z3.is_bv_value(b):
            if not self.proves(st, g):
                self.oblige(st, 'divisor is not zero', g, 'arith')
            st.assume(g)
        if op in ('sdiv', 'srem') :
            g2 = z3.Not(z3.And(a == bv(1 << (w - 1), w), b == bv(-1, w)))
            if not self.proves(st, g2):
                self.oblige(st, 'no overflow in signed division', g2, 'arith')
        return S({'udiv': lambda: z3.UDiv(a, b), 'urem': lambda: z3.URem(a, b), 'sdiv': lambda: a / b, 'srem': lambda: z3.SRem(a, b)}[op]())

    def icmp(self, st, pred, t, a, b):
        t = self.mod.types.resolve(t)
        if isinstance(a, Fn) or isinstance(b, Fn):
            same = isinstance(a, Fn) and isinstance(b, Fn) and a.name == b.name
            return bv(1 if same == (pred == 'eq') else 0, 1)
        if isinstance(a, P) and isinstance(b, P) and a.rid != b.rid and (a.rid is None and b.rid in self.nullable or b.rid is None and a.rid in self.nullable) and pred in ('eq', 'ne'):
            x = a if b.rid is None else b
            c = (bv(x.off) if isinstance(x.off, int) else x.off) == self.nullable[x.rid]
            return b2i(c if pred == 'eq' else z3.Not(c))
        if isinstance(a, P) and isinstance(b, P):
            if a.rid == b.rid:
                a, b = (bv(x.off) if isinstance(x.off, int) else x.off for x in (a, b))
            elif pred in ('eq', 'ne') and (a.rid is None or b.rid is None or (a.rid != 'int' and b.rid != 'int')):
                return bv(1 if pred == 'ne' else 0, 1)
            else:
                a, b = self.toint(st, a), self.toint(st, b)
        a, b = self.toint(st, a, t[1] if t[0] == 'i' else 64), self.toint(st, b, t[1] if t[0] == 'i' else 64)
        c = {'eq': lambda: a == b, 'ne': lambda: a != b, 'ult': lambda: z3.ULT(a, b), 'ule': lambda: z3.ULE(a, b), 'ugt': lambda: z3.UGT(a, b), 'uge': lambda: z3.UGE(a, b),
             'slt': lambda: a < b, 'sle': lambda: a <= b, 'sgt': lambda: a > b, 'sge': lambda: a >= b}[pred]()
        return b2i(c)

    def fcmp(self, pred, a, b):
        nan = z3.Or(z3.fpIsNaN(a), z3.fpIsNaN(b))
        base = {'eq': lambda: z3.fpEQ(a, b), 'ne': lambda: z3.Not(z3.fpEQ(a, b)), 'lt': lambda: z3.fpLT(a, b), 'le': lambda: z3.fpLEQ(a, b), 'gt': lambda: z3.fpGT(a, b), 'ge': lambda: z3.fpGEQ(a, b)}
        if pred == 'true':
            return bv(1, 1)
        if pred == 'false':
            return bv(0, 1)
        if pred == 'ord':
            return b2i(z3.Not(nan))
        if pred == 'uno':
            return b2i(nan)
        c = base[pred[1:]]()
        return b2i(z3.And(z3.Not(nan), c) if pred[0] == 'o' else z3.Or(nan, c))

    def cast(self, st, op, t1, v, t2):
        t1, t2 = self.mod.types.resolve(t1), self.mod.types.resolve(t2)
        if isinstance(v, Und):
            return v if t2[0] == 'ptr' else self.fresh_of(t2)
        if op == 'zext':
            return z3.simplify(z3.ZeroExt(t2[1] - t1[1], v))
        if op == 'sext':
            return z3.simplify(z3.SignExt(t2[1] - t1[1], v))
        if op == 'trunc':
            return z3.simplify(z3.Extract(t2[1] - 1, 0, v))
        if op == 'ptrtoint':
            return self.toint(st, v)
        if op == 'inttoptr':
            return self.ptr_from_int(st, v)
        if op == 'bitcast':
            if t1[0] == t2[0]:
                return v
            if t2[0] == 'i':
                return z3.fpToIEEEBV(v)
            return tofp(v, t2[1])
        if op == 'uitofp':
            return fuf('uitofp%d' % v.size(), FS[t2[1]], v) if self.opt.get('opaque_fp') else z3.fpToFPUnsigned(RM, v, FS[t2[1]])
        if op == 'sitofp':
            return z3.fpSignedToFP(RM, v, FS[t2[1]])
        if op in ('fpext', 'fptrunc'):
            return z3.fpFPToFP(RM, v, FS[t2[1]])
        if op == 'fptoui':
            return z3.fpToUBV(z3.RTZ(), v, z3.BitVecSort(t2[1]))
        if op == 'fptosi':
            return z3.fpToSBV(z3.RTZ(), v, z3.BitVecSort(t2[1]))
        raise Unsupported(op)

    # ---------------------------------------------------------------- calls
    def find_contract(self, name):
        if name not in self.find_cache:
            d = self.mod.dem.get(name, name)
            b = base_name(d)
            self.find_cache[name] = next((c for c in self.contracts if c.matches(name, d, b)), None)
        return self.find_cache[name]

    def call(self, st, name, args, argtypes, rett):
        n = name[1:].strip('"')
        if n.startswith('llvm.'):
            return self.intrinsic(st, n, args, argtypes, rett)
        c = self.find_contract(name)
        if c is not None and c.title in self.opt.get('unfold', ()) and c.title not in self.unfolding:
            self.unfolding.append(c.title)
            try:
                return self.run_function(st, name, args)
            finally:
                self.unfolding.pop()
        if c is not None:
            self.contract_used[c.title] = self.contract_used.get(c.title, 0) + 1
            return c.apply(self, st, name, args, rett)
        if name in self.mod.funcs:
            return self.run_function(st, name, args)
        if n == '__assert_fail':
            self.oblige(st, 'the assert in the code holds', False, 'assert')
            return []
        if n in ('_ZSt9terminatev', 'abort', '__cxa_pure_virtual', 'exit', '_Exit'):
            self.oblige(st, 'no abort', False, 'assert')
            return []
        if n == '__cxa_guard_acquire':
            return [(st, bv(0, 32))]
        if n.startswith('gh_'):
            if n not in self.ghost_fns:
                raise Unsupported('ghost function ' + n)
            return [(st, self.ghost_fns[n](self, st, args))]
        if n.startswith('uf_'):
            zs = [self.toint(st, a) for a in args]
            if n in self.ufs:
                return [(st, self.ufs[n](*zs))]
            rt = self.mod.types.resolve(rett)
            return [(st, z3.Function(n, *([z.sort() for z in zs] + [z3.BitVecSort(rt[1])]))(*zs))]
        if n in ('memcmp', 'bcmp', 'strlen', 'memchr'):
            raise Unsupported(n)
        raise Unsupported('call of external %s' % self.mod.dem.get(name, name))

    def fork2(self, st, c, a, b):
        out = []
        if self.feasible(st, c):
            s = st.fork(); s.assume(c); out.append((s, a))
        nc = z3.Not(c)
        if self.feasible(st, nc):
            s = st.fork(); s.assume(nc); out.append((s, b))
        return out

    def intrinsic(self, st, n, args, argtypes, rett):
        if n.startswith(('llvm.lifetime', 'llvm.dbg', 'llvm.experimental.noalias', 'llvm.prefetch', 'llvm.invariant', 'llvm.assume')):
            return [(st, None)]
        if n.startswith('llvm.expect'):
            return [(st, args[0])]
        if n.startswith(('llvm.memcpy', 'llvm.memmove')):
            self.memcpy(st, args[0], args[1], self.toint(st, args[2]))
            return [(st, None)]
        if n.startswith('llvm.memset'):
            k = z3.simplify(self.toint(st, args[2]))
            if not z3.is_bv_value(k) or k.as_long() > 256:
                raise Unsupported('memset')
            for j in range(k.as_long()):
                self.store(st, ('i', 8), args[1], padd(args[0], j))
            return [(st, None)]
        m = re.match(r'llvm\.(umin|umax|smin|smax)\.i(\d+)', n)
        if m:
            a, b = args[0], args[1]
            c = {'umin': lambda: z3.ULT(a, b), 'umax': lambda: z3.UGT(a, b), 'smin': lambda: a < b, 'smax': lambda: a > b}[m.group(1)]()
            return [(st, z3.simplify(z3.If(c, a, b)))]
        m = re.match(r'llvm\.(uadd|usub|umul|sadd|ssub|smul)\.with\.overflow\.i(\d+)', n)
        if m:
            w = int(m.group(2)); op = m.group(1)
            e = z3.ZeroExt if op[0] == 'u' else z3.SignExt
            x, y = e(w, args[0]), e(w, args[1])
            r = {'add': x + y, 'sub': x - y, 'mul': x * y}[op[1:]]
            lo = z3.Extract(w - 1, 0, r)
            return [(st, [z3.simplify(lo), b2i(e(w, lo) != r)])]
        m = re.match(r'llvm\.(ctlz|cttz|ctpop)\.i(\d+)', n)
        if m:
            w = int(m.group(2)); x = args[0]
            if m.group(1) == 'ctpop':
                r = bv(0, w)
                for k in range(w):
                    r = r + z3.ZeroExt(w - 1, z3.Extract(k, k, x))
                return [(st, r)]
            r = bv(w, w)
            rng = range(w) if m.group(1) == 'ctlz' else range(w - 1, -1, -1)
            for k in rng:
                r = z3.If(z3.Extract(k, k, x) == bv(1, 1), bv(w - 1 - k if m.group(1) == 'ctlz' else k, w), r)
            return [(st, r)]
        m = re.match(r'llvm\.(usub|uadd)\.sat\.i(\d+)', n)
        if m:
            a, b = args
            if m.group(1) == 'usub':
                return [(st, z3.If(z3.ULT(a, b), bv(0, a.size()), a - b))]
            return [(st, z3.If(z3.ULT(a + b, a), bv(-1, a.size()), a + b))]
        m = re.match(r'llvm\.(fshl|fshr)\.i(\d+)', n)
        if m:
            w = int(m.group(2)); a, b, c = args
            k = z3.URem(c, bv(w, w))
            cc = z3.Concat(a, b); kk = z3.ZeroExt(w, k)
            r = z3.Extract(2 * w - 1, w, cc << kk) if m.group(1) == 'fshl' else z3.Extract(w - 1, 0, z3.LShR(cc, kk))
            return [(st, z3.simplify(r))]
        m = re.match(r'llvm\.bswap\.i(\d+)', n)
        if m:
            w = int(m.group(1)); x = args[0]
            return [(st, z3.Concat(*[z3.Extract(8 * k + 7, 8 * k, x) for k in range(w // 8)]))]
        m = re.match(r'llvm\.abs\.i(\d+)', n)
        if m:
            x = args[0]
            return [(st, z3.If(x < 0, -x, x))]
        if n.startswith('llvm.fabs'):
            return [(st, z3.fpAbs(args[0]))]
        if n.startswith('llvm.sqrt'):
            return [(st, z3.fpSqrt(RM, args[0]))]
        if n.startswith('llvm.fmuladd'):
            return [(st, z3.fpAdd(RM, z3.fpMul(RM, args[0], args[1]), args[2]))]
        if n.startswith('llvm.trap'):
            self.oblige(st, 'no trap', False, 'assert')
            return []
        if n.startswith('llvm.is.constant'):
            return [(st, bv(0, 1))]
        if n.startswith('llvm.stacksave'):
            return [(st, NULLP)]
        if n.startswith('llvm.stackrestore'):
            return [(st, None)]
        raise Unsupported('intrinsic ' + n)

    # ---------------------------------------------------------------- control
    def run_function(self, st, name, args):
        if self.depth > 60:
            raise Unsupported('inlining depth')
        if self.name_stack.count(name) > self.opt.get('recursion', 0):
            raise Unsupported('recursion without a contract: ' + self.mod.dem.get(name, name)[:80])
        f = self.mod.body(self.mod.funcs[name])
        d = self.mod.dem.get(name, name)
        self.fn_seen[name] = self.fn_seen.get(name, 0) + 1
        env = {n: a for (t, n), a in zip(f.params, args)}
        self.depth += 1
        self.fn_stack.append(d); self.name_stack.append(name)
        rets = []
        mine = []
        try:
            work = [(st, env, f.order[0], None, {})]
            while work:
                s, e, b, prev, cnt = work.pop()
                self.paths += 1
                if self.paths > self.opt['maxpaths']:
                    raise Unsupported('too many paths')
                if b in f.loops and self.cut_here(d) and not isinstance(prev, tuple):
                    if (name, b) not in self.cutting:
                        work.extend(self.cut(f, name, s, e, b, prev, cnt, rets, mine))
                        continue
                    raise Unsupported('nested cut')
                if b in f.loops and not isinstance(prev, tuple):
                    if prev in f.loops[b]:
                        cnt = dict(cnt); cnt[b] = cnt.get(b, 0) + 1
                        if cnt[b] > self.opt['maxunroll']:
                            raise Unsupported('loop does not end within %d iterations in %s' % (self.opt['maxunroll'], d[:60]))
                        self.unroll_seen[(d[:80], b)] = max(self.unroll_seen.get((d[:80], b), 0), cnt[b])
                    else:
                        cnt = dict(cnt); cnt[b] = 0
                try:
                    work.extend(self.step(f, s, e, b, prev, cnt, rets, mine))
                except End:
                    pass
        finally:
            self.depth -= 1
            self.fn_stack.pop(); self.name_stack.pop()
        for s, v in rets:
            for rid in mine:
                if rid in s.mem:
                    s.mw(rid).alive = False
        return rets

    def cut_here(self, d):
        c = self.opt.get('cut')
        return bool(c) and any(x in d for x in c)

    def fresh_like(self, v):
        if z3.is_fp(v):
            return self.fresh_fp('loop', 32 if v.sort() == FS[32] else 64)
        self.fresh_n += 1
        return z3.Const('loop!%d' % self.fresh_n, v.sort())

    def same(self, st, a, b):
        if a is b:
            return True
        if isinstance(a, P) and isinstance(b, P):
            if a.rid == b.rid and isinstance(a.off, int) and isinstance(b.off, int):
                return a.off == b.off
            if a.rid != b.rid:
                return False
            x, y = (bv(t.off) if isinstance(t.off, int) else t.off for t in (a, b))
            return self.proves(st, x == y)
        if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
            if a.sort() != b.sort():
                return False
            return a.eq(b) or self.proves(st, a == b)
        return type(a) == type(b) and isinstance(a, Und)

    def cut(self, f, name, st, env, b, prev, cnt, rets, mine):
        """loop rule: an invariant holds on entry, is preserved by one arbitrary iteration, and is all that is known
        afterwards.  loop_inv gives invariants that must hold (obligations); loop_cands gives candidates over the loop
        variables, of which the inductive ones are kept; unchanged values are inferred"""
        ins = f.blocks[b]
        phis = []
        for i in ins:
            if i.op != 'phi':
                break
            for v, bb in i.a:
                if bb == prev:
                    phis.append((i, self.ev(st, env, i.ty, v)))
        body = f.loops[b]
        inv = self.loop_inv or (lambda ex, s: [])
        for lab, g in inv(self, st):
            self.oblige(st, 'loop invariant on entry: ' + lab, g, 'loop')
        keep = {('phi', i.res) for i, _ in phis}
        for rid, m in st.mem.items():
            if m.readonly or not m.alive:
                continue
            if m.arr is not None:
                keep.add(('arr', rid))
            else:
                keep |= {('cell', rid, o) for o in m.cells}
        keep |= {('ghost', k) for k in st.ghost}
        def candidates():
            out = []
            if self.loop_cands:
                for lab, fn in self.loop_cands(self, st, [(i.res, v) for i, v in phis], env):
                    try:
                        if self.proves(st, fn(st, {i.res: v for i, v in phis})):
                            out.append((lab, fn))
                    except (KeyError, Unsupported):
                        pass
            return out
        cands = candidates()
        while True:
            n_obl, n_ret, n_mine = len(self.obls), len(rets), len(mine)
            s0 = st.fork()
            vals = {}
            for i, v in phis:
                if ('phi', i.res) in keep or isinstance(v, Und):
                    vals[i.res] = v
                elif isinstance(v, P):
                    vals[i.res] = P(v.rid, self.fresh('loopoff', 64))
                elif isinstance(v, Fn):
                    raise Unsupported('loop changes a function pointer')
                else:
                    vals[i.res] = self.fresh_like(v)
            for rid, m in list(st.mem.items()):
                if m.readonly or not m.alive:
                    continue
                if m.arr is not None:
                    if ('arr', rid) not in keep:
                        s0.mw(rid).arr = self.fresh_like(m.arr)
                    continue
                for o, (sz, v) in m.cells.items():
                    if ('cell', rid, o) not in keep and not isinstance(v, Und):
                        m2 = s0.mw(rid)
                        if isinstance(v, P):
                            m2.cells[o] = (sz, UND)
                        else:
                            m2.cells[o] = (sz, self.fresh_like(v))
            for k, v in st.ghost.items():
                if ('ghost', k) not in keep:
                    s0.ghost[k] = self.fresh_like(v)
            for lab, g in inv(self, s0):
                s0.assume(g)
            for lab, fn in cands:
                s0.assume(fn(s0, vals))
            exits, backs = [], []
            self.cutting.add((name, b))
            try:
                work = [(s0, env, b, ('cut', vals), cnt)]
                while work:
                    s, e, blk, pv, c = work.pop()
                    self.paths += 1
                    if self.paths > self.opt['maxpaths']:
                        raise Unsupported('too many paths')
                    if blk not in body:
                        exits.append((s, e, blk, pv, c)); continue
                    if blk == b and not isinstance(pv, tuple):
                        backs.append((s, e, pv)); continue
                    if blk in f.loops and blk != b and not isinstance(pv, tuple):
                        work.extend(self.cut(f, name, s, e, blk, pv, c, rets, mine)); continue
                    try:
                        work.extend(self.step(f, s, e, blk, pv, c, rets, mine))
                    except End:
                        pass
            finally:
                self.cutting.discard((name, b))
            bad, badc, widen = set(), [], {}
            for s, e, pv in backs:
                nvals = {}
                for i, v in phis:
                    nvals[i.res] = nv = next(self.ev(s, e, i.ty, x) for x, bb in i.a if bb == pv)
                    if isinstance(nv, P) and isinstance(v, P) and nv.rid != v.rid:
                        if nv.rid is None and v.rid in self.nullable:
                            nvals[i.res] = nv = P(v.rid, self.nullable[v.rid])
                        elif v.rid is None and nv.rid in self.nullable:
                            widen[i.res] = P(nv.rid, self.nullable[nv.rid])
                        else:
                            raise Unsupported('loop changes the object a pointer points to')
                    if ('phi', i.res) in keep and not self.same(s, nv, v):
                        bad.add(('phi', i.res))
                for k in keep:
                    if k[0] == 'cell':
                        c0, c1 = st.mem[k[1]].cells.get(k[2]), s.mem[k[1]].cells.get(k[2])
                        if c1 is None or c0[0] != c1[0] or not self.same(s, c0[1], c1[1]):
                            bad.add(k)
                    elif k[0] == 'arr' and not st.mem[k[1]].arr.eq(s.mem[k[1]].arr):
                        bad.add(k)
                    elif k[0] == 'ghost' and not self.same(s, st.ghost[k[1]], s.ghost[k[1]]):
                        bad.add(k)
                for c in cands:
                    if c not in badc and not self.proves(s, c[1](s, nvals)):
                        badc.append(c)
            if not bad and not badc:
                for s, e, pv in backs:
                    for lab, g in inv(self, s):
                        self.oblige(s, 'loop invariant preserved: ' + lab, g, 'loop')
                self.quick += 2 * len(cands)
                self.loops_done.append((self.fn_stack[-1], [c[0] for c in cands] + ['%s unchanged' % (k[1] if k[0] == 'ghost' else k[0]) for k in sorted(keep, key=str)], None))
                return exits
            keep -= bad
            cands = [c for c in cands if c not in badc]
            if widen:
                # null on entry, a block later: the same pointer as an offset of the nullable object
                phis = [(i, widen.get(i.res, v)) for i, v in phis]
                keep -= {('phi', r) for r in widen}
                cands = candidates()
            del self.obls[n_obl:]; del rets[n_ret:]; del mine[n_mine:]

    def step(self, f, st, env, b, prev, cnt, rets, mine):
        ins = f.blocks[b]
        k = 0
        if isinstance(prev, tuple):
            env = dict(env); env.update(prev[1])
            while ins[k].op == 'phi':
                k += 1
        elif ins[0].op == 'phi':
            new = {}
            while ins[k].op == 'phi':
                i = ins[k]
                for v, bb in i.a:
                    if bb == prev:
                        new[i.res] = self.ev(st, env, i.ty, v)
                        break
                else:
                    raise Unsupported('phi')
                k += 1
            env = dict(env); env.update(new)
        out = []
        todo = [(st, env, k)]
        while todo:
            st, env, k = todo.pop()
            try:
                while True:
                    i = ins[k]
                    op = i.op
                    if op in ('call', 'invoke'):
                        callee, args, normal = i.a
                        vals = [self.ev(st, env, t, o) for t, o in args]
                        if callee[0] == 'g':
                            name = callee[1]
                        else:
                            fp = self.ev(st, env, ('ptr',), callee)
                            if not isinstance(fp, Fn):
                                raise Unsupported('indirect call')
                            name = fp.name
                        rs = self.call(st, name, vals, [t for t, _ in args], i.ty)
                        nxt = []
                        for s2, v in rs:
                            e2 = env
                            if i.res is not None:
                                e2 = dict(env); e2[i.res] = v
                            if op == 'invoke':
                                out.append((s2, e2, normal, b, cnt))
                            else:
                                nxt.append((s2, e2, k + 1))
                        if op == 'invoke' or not nxt:
                            break
                        todo.extend(nxt[1:])
                        st, env, k = nxt[0]
                        continue
                    if op == 'br':
                        if i.a[0] is None:
                            out.append((st, env, i.a[1], b, cnt)); break
                        c = i2b(self.toint(st, self.ev(st, env, ('i', 1), i.a[0]), 1))
                        self.branch(st, env, b, cnt, [(c, i.a[1]), (z3.Not(c), i.a[2])], out)
                        break
                    if op == 'switch':
                        v = self.toint(st, self.ev(st, env, i.ty, i.a[0]), i.ty[1])
                        conds = [(v == bv(cv, i.ty[1]), lb) for cv, lb in i.a[2]]
                        conds.append((z3.And(*[z3.Not(c) for c, _ in conds]) if conds else z3.BoolVal(True), i.a[1]))
                        self.branch(st, env, b, cnt, conds, out)
                        break
                    if op == 'ret':
                        rets.append((st, None if i.a is None else self.ev(st, env, i.ty, i.a)))
                        break
                    if op == 'unreachable':
                        break
                    v = None
                    if op == 'select':
                        c = i2b(self.toint(st, self.ev(st, env, ('i', 1), i.a[0]), 1))
                        x, y = self.ev(st, env, i.ty, i.a[1]), self.ev(st, env, i.ty, i.a[2])
                        c = z3.simplify(c)
                        if z3.is_true(c) or z3.is_false(c):
                            v = x if z3.is_true(c) else y
                        elif isinstance(x, z3.ExprRef) and isinstance(y, z3.ExprRef):
                            v = z3.simplify(z3.If(c, x, y))
                        else:
                            opts = self.fork2(st, c, x, y)
                            nx = []
                            for s2, vv in opts:
                                e2 = dict(env); e2[i.res] = vv
                                nx.append((s2, e2, k + 1))
                            if not nx:
                                break
                            todo.extend(nx[1:])
                            st, env, k = nx[0]
                            continue
                    elif op == 'cmpxchg':
                        p = self.ev(st, env, ('ptr',), i.a[0])
                        cv = self.ev(st, env, i.ty, i.a[1]); nv = self.ev(st, env, i.ty, i.a[2])
                        old = self.load(st, i.ty, p, True)
                        eq = i2b(self.icmp(st, 'eq', i.ty, old, cv))
                        nx = []
                        if 'weak' in i.flags:
                            eq = z3.And(eq, self.fresh('spurious', 1) == bv(0, 1))      # a weak exchange may fail spuriously
                        for s2, won in self.fork2(st, eq, True, False):
                            if won:
                                if 'cas' in self.ghost_fns:
                                    self.ghost_fns['cas'](self, s2, (p, old, nv))
                                self.store(s2, i.ty, nv, p)
                            e2 = dict(env); e2[i.res] = [old, bv(1 if won else 0, 1)]
                            nx.append((s2, e2, k + 1))
                        todo.extend(nx[1:])
                        st, env, k = nx[0]
                        continue
                    else:
                        v = self.simple(st, env, i, f, mine)
                    if i.res is not None:
                        env = dict(env); env[i.res] = v
                    k += 1
            except End:
                pass
        return out

    def branch(self, st, env, b, cnt, conds, out):
        conds = [(z3.simplify(c), lb) for c, lb in conds]
        for c, lb in conds:
            if z3.is_true(c):
                out.append((st, env, lb, b, cnt)); return
        live = [(c, lb) for c, lb in conds if not z3.is_false(c)]
        feas = [(c, lb) for c, lb in live if self.feasible(st, c)]
        for n, (c, lb) in enumerate(feas):
            s2 = st.fork() if n < len(feas) - 1 else st
            s2.assume(c)
            out.append((s2, env, lb, b, cnt))

    def simple(self, st, env, i, f, mine):
        op = i.op
        E = lambda t, o: self.ev(st, env, t, o)
        if op in BIN:
            t = self.mod.types.resolve(i.ty)
            if t[0] != 'i':
                raise Unsupported('vector op')
            return self.bin(st, op, t[1], E(t, i.a[0]), E(t, i.a[1]), i.flags, self.picked(st, env, f, i) if 'nsw' in i.flags else None)
        if op == 'icmp':
            return self.icmp(st, i.a[0], i.ty, E(i.ty, i.a[1]), E(i.ty, i.a[2]))
        if op == 'fcmp':
            return self.fcmp(i.a[0], E(i.ty, i.a[1]), E(i.ty, i.a[2]))
        if op == 'fbin':
            a, b = E(i.ty, i.a[1]), E(i.ty, i.a[2])
            if self.opt.get('opaque_fp'):
                return fuf(i.a[0], a.sort(), a, b)
            return {'fadd': lambda: z3.fpAdd(RM, a, b), 'fsub': lambda: z3.fpSub(RM, a, b), 'fmul': lambda: z3.fpMul(RM, a, b), 'fdiv': lambda: z3.fpDiv(RM, a, b)}[i.a[0]]()
        if op == 'fneg':
            v = E(i.ty, i.a[0])
            return fuf('fneg', v.sort(), v) if self.opt.get('opaque_fp') else z3.fpNeg(v)
        if op in CAST:
            return self.cast(st, op, i.a[0], E(i.a[0], i.a[1]), i.ty)
        if op == 'alloca':
            size = self.mod.types.size(i.ty)
            if i.a[0] is not None and i.a[0] != ('c', 1):
                raise Unsupported('variable alloca')
            t = self.mod.types.resolve(i.ty)
            while t[0] == 'st' and len(t[1]) == 1:
                t = self.mod.types.resolve(t[1][0])
            if t[0] == 'arr' and self.mod.types.resolve(t[2]) == ('i', 8):
                rid = self.bytes_region(st, 'local', size)
            else:
                rid = self.region(st, 'local', size)
            mine.append(rid)
            return P(rid, 0)
        if op == 'load':
            return self.load(st, i.ty, E(('ptr',), i.a[0]), 'atomic' in i.flags)
        if op == 'store':
            self.store(st, i.ty, E(i.ty, i.a[0]), E(('ptr',), i.a[1]), 'atomic' in i.flags)
            return None
        if op == 'getelementptr':
            return self.gep(st, i.ty, [(t, E(t, o)) for t, o in i.a])
        if op == 'extractvalue':
            v = E(i.ty, i.a[0])
            for x in i.a[1]:
                v = UND if isinstance(v, Und) else v[x]
            return v
        if op == 'insertvalue':
            t = self.mod.types.resolve(i.ty)
            v = E(i.ty, i.a[0])
            x = E(i.a[1], i.a[2])
            def ins(v, idx, t):
                t = self.mod.types.resolve(t)
                v = list(v) if isinstance(v, list) else [UND] * (len(t[1]) if t[0] == 'st' else t[1])
                if len(idx) == 1:
                    v[idx[0]] = x
                else:
                    v[idx[0]] = ins(v[idx[0]], idx[1:], t[1][idx[0]] if t[0] == 'st' else t[2])
                return v
            return ins(v, i.a[3], t)
        if op == 'insertelement':
            v = E(i.ty, i.a[0])
            t = self.mod.types.resolve(i.ty)
            v = list(v) if isinstance(v, list) else [UND] * t[1]
            k = z3.simplify(E(i.a[3], i.a[4]))
            if not z3.is_bv_value(k):
                raise Unsupported('symbolic vector index')
            v[k.as_long()] = E(i.a[1], i.a[2])
            return v
        if op == 'extractelement':
            v = E(i.ty, i.a[0])
            k = z3.simplify(E(i.a[1], i.a[2]))
            if not z3.is_bv_value(k):
                raise Unsupported('symbolic vector index')
            return UND if isinstance(v, Und) else v[k.as_long()]
        if op == 'freeze':
            v = E(i.ty, i.a[0])
            return self.fresh_of(i.ty) if isinstance(v, Und) else v
        if op == 'fence':
            return None
        if op == 'atomicrmw':
            p = E(('ptr',), i.a[1]); v = E(i.ty, i.a[2])
            old = self.load(st, i.ty, p, True)
            w = i.ty[1] if i.ty[0] == 'i' else 64
            if i.a[0] == 'xchg':
                nv = v
            elif i.a[0] in ('add', 'sub', 'and', 'or', 'xor'):
                nv = self.bin(st, i.a[0], w, old, v, [])
            else:
                raise Unsupported('atomicrmw')
            self.store(st, i.ty, nv, p)
            return old
        raise Unsupported('instruction ' + i.txt[:80])

def padd(p, k):
    if k == 0:
        return p
    if isinstance(p.off, int):
        return P(p.rid, p.off + k)
    return P(p.rid, z3.simplify(p.off + bv(k)))

def mentions_sym(t, b):
    seen, stack = set(), [t]
    i = b.get_id()
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.get_id() == i:
            return True
        stack.extend(x.children())
    return False

def discharge_bv(ex, ob):
    import subprocess, tempfile, os
    t = time.time()
    st, m = 'unknown', None
    for cfg in (1, 0):
        s = z3.Then('simplify', 'solve-eqs', 'simplify', 'smt').solver() if cfg else z3.Solver()
        s.set('rlimit', ex.opt['ob_rlimit'] // (5 if cfg else 1))
        s.add(*ob.hyps)
        s.add(*ex.qf_axioms)
        s.add(z3.Not(ob.goal))
        r = s.check()
        if r == z3.unsat:
            st = 'proved'; ob.backend = 'z3'
        elif r == z3.sat:
            st, m = 'refuted', s.model()
        if r != z3.unknown:
            break
    if st == 'unknown':
        s = z3.Solver(); s.add(*ob.hyps); s.add(*ex.qf_axioms); s.add(z3.Not(ob.goal))
        with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
            f.write('(set-logic ALL)\n' + s.to_smt2())
        try:
            o = subprocess.run(['cvc5', '--tlimit=60000', '--fp-exp', f.name], capture_output=True, text=True, timeout=70).stdout.strip().split('\n')[0]
        except subprocess.TimeoutExpired:
            o = ''
        os.unlink(f.name)
        if o == 'unsat':
            st = 'proved'; ob.backend = 'cvc5'
        elif o == 'sat':
            st = 'refuted'; ob.backend = 'cvc5'
    ob.status, ob.model, ob.time = st, m, time.time() - t
    return st
