"""C13: parsing a decimal text gives the number it denotes; formatting writes the whole decimal text."""
from bvlib import *
from contracts import SpecContract

CH = z3.BitVecSort(8)
def isdig(c): return z3.And(z3.UGE(c, bv(48, 8)), z3.ULE(c, bv(57, 8)))
def isspc(c): return z3.Or(c == bv(32, 8), z3.And(z3.UGE(c, bv(9, 8)), z3.ULE(c, bv(13, 8))))

def ctype(what, pred):
    def f(ex, st, name, a, rett):
        c = z3.Extract(7, 0, a[0])
        ex.oblige(st, '%s is given an unsigned char' % what, z3.ULT(a[0], bv(256, a[0].size())), 'pre')
        r = ex.fresh(what, rett[1])
        st.assume((r != 0) == pred(c))
        return [(st, r)]
    return SpecContract(what, lambda n, d, b: n.lstrip('@') == what or d in ('std::' + what, what), f)

def anyworkers(ex, st, name, a, rett):
    return [(st, ex.fresh('workers', rett[1]))]
CT = lambda: [ctype('isdigit', isdig), ctype('isspace', isspc),
              SpecContract('num_workers (some number; starting the scheduler has no effect on data)', lambda n, d, b: b == 'parlay::num_workers', anyworkers)]

class Digits:
    """the number written in the characters [lo, hi): V(lo) = first, V(j+1) = 10 V(j) + digit j, as a mathematical
    integer of w bits (bounds are part of the precondition); facts are instantiated where they are used"""
    def __init__(self, ex, name, arr, lo, hi, w, first, limit=None):
        self.V = z3.Function(name, z3.BitVecSort(64), z3.BitVecSort(w))
        self.arr, self.lo, self.hi, self.w, self.limit = arr, lo, hi, w, limit
        self.start = self.V(lo) == first
    def inst(self, st, j):
        c = z3.Select(self.arr, j)
        d = z3.ZeroExt(self.w - 8, c - bv(48, 8))
        st.assume(self.start)
        st.assume(z3.Implies(z3.And(z3.ULE(self.lo, j), z3.ULT(j, self.hi)), z3.And(isdig(c), self.V(j + 1) == self.V(j) * bv(10, self.w) + d)))
        if self.limit is not None:
            for k in (j, j + 1):
                st.assume(z3.Implies(z3.And(z3.ULE(self.lo, k), z3.ULE(k, self.hi)), z3.ULE(self.V(k), self.limit)))

def allvars(st, phis):
    out = [('phi ' + r, (lambda s, v, r=r: v[r]), v.size()) for r, v in phis if z3.is_bv(v)]
    for rid, m in st.mem.items():
        if m.alive and not m.readonly and m.cells:
            for o, (sz, v) in m.cells.items():
                if z3.is_bv(v):
                    out.append(('%s+%d' % (rid, o), (lambda s, v, rid=rid, o=o: s.mem[rid].cells[o][1]), v.size()))
    return out

def digit_cands(segs):
    """segs: Digits with the relation value(w bits of program) -> bool"""
    def cands(ex, st, phis, env):
        out = []
        vs = allvars(st, phis)
        for n, x, w in vs:
            if w != 64:
                continue
            for sgi, (D, neg, k) in [(i, (D, neg, k)) for i, (D, neg) in enumerate(segs) for k in (0, 1)]:
                a = (lambda s, v, x=x, k=k: x(s, v) + bv(k))
                out.append(('%s+%d in segment %d' % (n, k, sgi), lambda s, v, a=a, D=D: (D.inst(s, a(s, v)), z3.And(z3.ULE(D.lo, a(s, v)), z3.ULE(a(s, v), D.hi)))[1]))
                for m, b, w2 in vs:
                    if m != n and w2 in (16, 32, 64):
                        def rel(s, v, a=a, b=b, D=D, neg=neg, w2=w2):
                            x = D.V(a(s, v))
                            y = b(s, v)
                            y = z3.SignExt(D.w - w2, y) if D.w > w2 else (z3.Extract(D.w - 1, 0, y) if D.w < w2 else y)
                            return y == (-x if neg else x)
                        out.append(('%s is the value of segment %d up to %s+%d' % (m, sgi, n, k), rel))
        return out
    return cands

def text(ex, st, name='text'):
    n = ex.fresh('n')
    st.assume(z3.And(z3.UGE(n, bv(1)), z3.ULE(n, bv(1 << 40))))
    T = ex.bytes_region(st, name, n, width=1, readonly=True)
    return T, n, st.mem[T].arr

def run_parse(entry, bits, signed):
    def r(ex, st):
        T, n, arr = text(ex, st)
        c0 = z3.Select(arr, bv(0))
        neg = c0 == bv(45, 8)
        lo = z3.If(z3.Or(neg, c0 == bv(43, 8)), bv(1), bv(0))
        hi = z3.BitVec('end', 64)
        st.assume(z3.And(z3.ULE(lo, hi), z3.ULE(hi, n), z3.Or(hi == n, z3.Not(isdig(z3.Select(arr, hi))))))
        W = bits + 8 if signed else bits
        lim = z3.If(neg, bv(1 << (bits - 1), W), bv((1 << (bits - 1)) - 1, W)) if signed else None
        D = Digits(ex, 'value', arr, lo, hi, W, bv(0, W), lim)
        D.inst(st, lo); D.inst(st, hi)
        ex.loop_cands = digit_cands([(D, signed)])
        for s, v in ex.run_function(st, '@' + entry, [P(T, 0), n]):
            ex.fn_stack.append('chars_to_int_t')
            V = D.V(hi)
            V = z3.Extract(63, 0, V) if W > 64 else (z3.ZeroExt(64 - W, V) if W < 64 else V)
            if signed:
                ex.oblige(s, 'the result is the signed number denoted by the text', v == z3.If(neg, -V, V), 'post')
            else:
                m = z3.If(neg, -D.V(hi), D.V(hi))
                ex.oblige(s, 'the result is the number denoted by the text modulo 2^%d (its negation after a minus sign)' % bits, v == (z3.ZeroExt(64 - bits, m) if bits < 64 else m), 'post')
            ex.fn_stack.pop()
    return r

# ---------------------------------------------------------------- wrappers: chars_to_int etc. pass the whole text on
def run_wrap(entry):
    def r(ex, st):
        T, n, arr = text(ex, st)
        S = ex.region(st, 'chars', 16, {}, readonly=True)
        seen = []
        def ms(ex, st, name, a, rett):
            ex.oblige(st, 'the view is made of the argument', z3.BoolVal(a[0].rid == S and a[0].off == 0), 'pre')
            return [(st, [P(T, 0), P(T, n)])]
        def parse(ex, st, name, a, rett):
            seen.append(1)
            o = lambda p: bv(p.off) if isinstance(p.off, int) else p.off
            ex.oblige(st, 'the whole text is parsed', z3.And(z3.BoolVal(a[0].rid == T and a[1].rid == T), o(a[0]) == 0, o(a[1]) == n), 'post')
            v = ex.fresh('parsed', rett[1])
            st.ghost['v'] = v
            return [(st, v)]
        ex.contracts = [SpecContract('make_slice of a character sequence (its storage)', lambda n_, d, b: 'parlay::make_slice<parlay::sequence<char' in d, ms),
                        SpecContract('chars_to_int_t (unit parse_*)', lambda n_, d, b: 'chars_to_int_t<' in d and 'lambda' not in d, parse)] + ex.contracts
        for s, v in ex.run_function(st, '@' + entry, [P(S, 0)]):
            ex.fn_stack.append(entry)
            ex.oblige(s, 'the parsed number is returned', v == s.ghost['v'], 'post')
            ex.fn_stack.pop()
        need(seen)
    return r

def run_float(entry, bits, man, maxexp):
    def r(ex, st):
        T, n, arr = text(ex, st)
        S = ex.region(st, 'chars', 16, {}, readonly=True)
        ch = lambda j: z3.Select(arr, j)
        i0, a, b = (z3.BitVec(x, 64) for x in ('first', 'point', 'last'))
        isn = lambda c, *k: z3.Or(*[c == bv(ord(x), 8) for x in k])
        neg = ch(i0) == bv(45, 8)
        s0 = i0 + z3.If(isn(ch(i0), '-', '+'), bv(1), bv(0))
        word = isn(ch(s0), 'i', 'n')
        E_a, E_b = isn(ch(a), 'e', 'E'), isn(ch(b), 'e', 'E')
        whole, expo_only, point = a == n, z3.And(z3.ULT(a, n), E_a), z3.And(z3.ULT(a, n), isn(ch(a), '.', ','))
        st.assume(z3.And(z3.ULT(i0, n), z3.Not(isspc(ch(i0))), z3.ULT(s0, n)))
        st.assume(z3.And(z3.ULE(s0, a), z3.ULE(a, n), z3.Or(word, whole, expo_only, point)))
        st.assume(z3.Or(a == n, z3.Not(isdig(ch(a)))))
        st.assume(z3.And(z3.ULE(a, b), z3.ULE(b, n), z3.Implies(z3.ULT(a, n), z3.ULT(a, b)), z3.Or(b == n, z3.And(E_b, z3.Not(isdig(ch(b)))))))
        Dv = Digits(ex, 'digits', arr, s0, a, 64, bv(0))
        Dw = Digits(ex, 'digits_after_point', arr, a + 1, b, 64, Dv.V(a))
        hasE = z3.Or(expo_only, z3.And(point, z3.ULT(b, n)))
        epos = z3.If(expo_only, a + 1, b + 1)
        expo = z3.BitVec('written_exponent', 64)
        st.assume(z3.And(expo < bv(1 << 40), expo > bv(-(1 << 40))))       # a text that denotes a number with an exponent of sane size
        fb = z3.FP('value_of_strtod', FS[bits])
        ob = lambda p: bv(p.off) if isinstance(p.off, int) else p.off
        def ms(ex, st, name, x, rett):
            ex.oblige(st, 'the view is made of the argument', z3.BoolVal(x[0].rid == S and x[0].off == 0), 'pre')
            return [(st, [P(T, 0), P(T, n)])]
        def parse(ex, st, name, x, rett):
            ex.oblige(st, 'the exponent is read from the characters after e', z3.And(z3.BoolVal(x[0].rid == T and x[1].rid == T), ob(x[0]) == epos, ob(x[1]) == n, hasE), 'pre')
            return [(st, expo)]
        def fall(ex, st, name, x, rett):
            ex.oblige(st, 'strtod gets the whole text', z3.BoolVal(x[-1].rid == S and x[-1].off == 0), 'pre')
            st.ghost['fb'] = 1
            return [(st, fb)]
        ex.contracts = [SpecContract('make_slice of a character sequence (its storage)', lambda n_, d, b: 'parlay::make_slice<parlay::sequence<char' in d, ms),
                        SpecContract('chars_to_int_t (unit parse_ulong)', lambda n_, d, b: 'chars_to_int_t<' in d and 'lambda' not in d, parse),
                        SpecContract('fallback: std::strtof/strtod of the same text', lambda n_, d, b: 'chars_to_' in d and 'lambda' in d and b.endswith('operator()') and d.startswith(('auto parlay::chars_to_', 'float parlay::chars_to', 'double parlay::chars_to')), fall)] + ex.contracts
        def seg(ex, st0, phis, env):
            out = digit_cands([(Dv, False), (Dw, False)])(ex, st0, phis, env)
            for nm, x, w in allvars(st0, phis):
                if w == 64:
                    def sp(s, v, x=x):
                        j = x(s, v)
                        s.assume(z3.Implies(z3.ULT(j, i0), isspc(ch(j))))
                        return z3.ULE(j, i0)
                    out.append(('%s in the leading space' % nm, sp))
            return out
        ex.loop_cands = seg
        for j in (s0, a):
            Dv.inst(st, j)
        for j in (a + 1, b):
            Dw.inst(st, j)
        R = z3.If(point, Dw.V(b), Dv.V(a))
        frac = z3.If(point, -(b - (a + 1)), bv(0))
        E = frac + z3.If(hasE, expo, bv(0))
        x = fuf('uitofp64', FS[bits], R)
        tab = [z3.FPVal(float('1e%d' % k), FS[bits]) for k in range(maxexp + 1)]
        def pick(e):
            t = tab[maxexp]
            for k in range(maxexp - 1, -1, -1):
                t = z3.If(e == bv(k), tab[k], t)
            return t
        for s, v in ex.run_function(st, '@' + entry, [P(S, 0)]):
            ex.fn_stack.append(entry)
            if s.ghost.get('fb'):
                ex.oblige(s, 'the value of strtod is returned', v == fb, 'post')
            else:
                ex.oblige(s, 'only numbers are handled by the fast path', z3.Not(word), 'post')
                ex.oblige(s, 'the digits fit in the accumulator', z3.ULE(n, bv(19)), 'post')
                ex.oblige(s, 'the digits are exactly representable', z3.ULT(R, bv(1 << man)), 'post')
                ex.oblige(s, 'the power of ten is exactly representable', z3.And(E <= bv(maxexp), E >= bv(-maxexp)), 'post')
                sg = lambda y: z3.If(neg, fuf('fneg', FS[bits], y), y)
                F = lambda o, *q: fuf(o, FS[bits], *q)
                # the product is commutative; multiplying or dividing the (finite) digits by one is exact
                for cond, ys in ((E == 0, [x, F('fmul', x, tab[0]), F('fmul', tab[0], x), F('fdiv', x, tab[0])]),
                                (E < 0, [F('fdiv', x, pick(-E))]), (E > 0, [F('fmul', x, pick(E)), F('fmul', pick(E), x)])):
                    s2 = s.fork()
                    s2.assume(cond)
                    if ex.check(s2.pc, 3000000) == z3.unsat:
                        continue
                    ex.oblige(s2, 'the result is the digits scaled by the power of ten, correctly rounded once', z3.Or(*[v == sg(y) for y in ys]), 'post')
            ex.fn_stack.pop()
    return r

# ---------------------------------------------------------------- formatting
FMT = {'%ld': ('i', 64, 20), '%lu': ('i', 64, 20), '%lld': ('i', 64, 20), '%llu': ('i', 64, 20), '%d': ('i', 32, 11), '%u': ('i', 32, 10), '%.11le': ('f', 64, 19)}
#  longest outputs: -9223372036854775808, 18446744073709551615, -d.ddddddddddde+ddd (19); inf, nan are shorter

def cstr(ex, st, p):
    m = st.mem[p.rid]
    out = ''
    k = p.off
    while True:
        c = z3.simplify(z3.Select(m.arr, bv(k)))
        if not z3.is_bv_value(c):
            raise Unsupported('format string')
        if c.as_long() == 0:
            return out
        out += chr(c.as_long()); k += 1

def run_fmt(entry, bits, conv, want, single=None):
    """the value handed to snprintf with its conversion is the argument (widened), and the text it writes is kept whole"""
    def r(ex, st):
        [v] = params(ex, st, entry)
        seen = []
        def snp(ex, st, name, a, rett):
            f = cstr(ex, st, a[2])
            ex.oblige(st, 'the conversion %r is the one for the argument' % f, z3.BoolVal(f in conv), 'pre')
            if f not in FMT:
                raise Unsupported('format ' + f)
            k, w, mx = FMT[f]
            x = a[3]
            ok = (z3.is_bv(x) and x.size() == w) if k == 'i' else (z3.is_fp(x) and x.sort() == FS[64])
            ex.oblige(st, 'the argument has the type of the conversion', z3.BoolVal(ok), 'pre')
            ex.oblige(st, 'the argument is the value', x == want(v), 'pre')
            lim = a[1]
            m = st.mem[a[0].rid]
            ex.oblige(st, 'the buffer has the announced size', z3.ULE(lim, bv(m.size - a[0].off)), 'pre')
            ex.oblige(st, 'the buffer holds the longest output and its terminator', z3.UGT(lim, bv(mx)), 'pre')
            l = ex.fresh('written', rett[1])
            st.assume(z3.And(z3.UGE(l, bv(1, rett[1])), z3.ULE(l, bv(mx, rett[1]))))
            st.ghost['len'], st.ghost['buf'] = l, a[0]
            return [(st, l)]
        def ctor(ex, st, name, a, rett):
            seen.append(1)
            buf, l = st.ghost['buf'], st.ghost['len']
            ob = lambda p: bv(p.off) if isinstance(p.off, int) else p.off
            ex.oblige(st, 'the result starts at the first character written', z3.BoolVal(a[1].rid == buf.rid and a[1].off == buf.off), 'post')
            ex.oblige(st, 'the result ends after the last character written', z3.And(z3.BoolVal(a[2].rid == buf.rid), ob(a[2]) == ob(buf) + z3.SignExt(64 - l.size(), l)), 'post')
            return [(st, None)]
        def one(ex, st, name, a, rett):
            seen.append(1)
            ex.oblige(st, 'one character is written', a[1] == 1, 'post')
            ex.oblige(st, 'it is the right character', (ex.arr_load(st, st.mem[a[2].rid], a[2].off, 1) if st.mem[a[2].rid].arr is not None else ex.load(st, ('i', 8), a[2])) == single(v), 'post') if single else None
            return [(st, None)]
        ex.contracts = [SpecContract('snprintf', lambda n_, d, b: n_.lstrip('@') == 'snprintf', snp),
                        SpecContract('sequence<char>(first, last)', lambda n_, d, b: re.search(r'sequence<char.*::sequence<char\*[^>]*>\(char\*, char\*\)', d) is not None, ctor),
                        SpecContract('sequence<char>(n, c)', lambda n_, d, b: re.search(r'sequence<char.*::sequence\(unsigned long, char const&\)', d) is not None, one),
                        SpecContract('sequence destructor', lambda n_, d, b: '::~sequence' in d, lambda ex, st, n_, a, r: [(st, None)])] + ex.contracts
        ex.ghost_fns['gh_text'] = lambda ex, s, a: None
        ex.run_function(st, '@' + entry, [v])
        need(seen)
    return r

def U(name, entry, run, fns, **o):
    return BVUnit(name, 'c13.cpp', '@' + entry, run, functions=fns, contracts=CT, options=dict(cut=['chars_to_int_t', 'chars_to_float_t'], rlimit=30000000, **o))

se = lambda v: z3.SignExt(64 - v.size(), v) if v.size() < 64 else v
ze = lambda v: z3.ZeroExt(64 - v.size(), v) if v.size() < 64 else v
LD, LU, LE = ('%ld', '%lld'), ('%lu', '%llu'), ('%.11le',)
UNITS = [U('parse_' + n, 'vc_parse_' + n, run_parse('vc_parse_' + n, b, s), ['chars_to_int_t<%s>' % t]) for n, t, b, s in
         [('int', 'int', 32, 1), ('long', 'long', 64, 1), ('llong', 'long long', 64, 1), ('short', 'short', 16, 1), ('uint', 'unsigned', 32, 0), ('ulong', 'unsigned long', 64, 0), ('ullong', 'unsigned long long', 64, 0)]] + \
        [U('chars_to_' + n, 'vc_to_' + e, run_wrap('vc_to_' + e), ['chars_to_' + n]) for n, e in [('int', 'int'), ('long', 'long'), ('long_long', 'llong'), ('uint', 'uint'), ('ulong', 'ulong'), ('ulong_long', 'ullong')]] + \
        [U('chars_to_float', 'vc_to_float', run_float('vc_to_float', 32, 24, 10), ['chars_to_float', 'chars_to_float_t<float>'], weight=5, opaque_fp=True),
         U('chars_to_double', 'vc_to_double', run_float('vc_to_double', 64, 53, 22), ['chars_to_double', 'chars_to_float_t<double>'], weight=5, opaque_fp=True),
         U('format_int', 'vc_fmt_int', run_fmt('vc_fmt_int', 32, LD, se), ['to_chars(int)']),
         U('format_uint', 'vc_fmt_uint', run_fmt('vc_fmt_uint', 32, LU, ze), ['to_chars(unsigned)']),
         U('format_long', 'vc_fmt_long', run_fmt('vc_fmt_long', 64, LD, se), ['to_chars(long)']),
         U('format_ulong', 'vc_fmt_ulong', run_fmt('vc_fmt_ulong', 64, LU, ze), ['to_chars(unsigned long)']),
         U('format_llong', 'vc_fmt_llong', run_fmt('vc_fmt_llong', 64, LD, se), ['to_chars(long long)']),
         U('format_ullong', 'vc_fmt_ullong', run_fmt('vc_fmt_ullong', 64, LU, ze), ['to_chars(unsigned long long)']),
         U('format_double', 'vc_fmt_double', run_fmt('vc_fmt_double', 64, LE, lambda v: v), ['to_chars(double)']),
         U('format_float', 'vc_fmt_float', run_fmt('vc_fmt_float', 32, LE, lambda v: z3.fpFPToFP(RM, v, FS[64])), ['to_chars(float)']),
         U('format_char', 'vc_fmt_char', run_fmt('vc_fmt_char', 8, (), se, lambda v: v), ['to_chars(char)']),
         U('format_bool', 'vc_fmt_bool', run_fmt('vc_fmt_bool', 1, (), se, lambda v: z3.If(i2b(v), bv(49, 8), bv(48, 8))), ['to_chars(bool)']),
         ]
