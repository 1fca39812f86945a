"""Values of the symbolic executor: linear integer terms, pointers, memory regions."""
import z3

_INF = None

class Lin:
    """c0 + sum ci * atom_i over mathematical integers; atoms are z3 Int terms."""
    __slots__ = ('c', 'd', '_z')

    def __init__(self, c, d=None):
        self.c = c
        self.d = d or {}
        self._z = None

    @staticmethod
    def atom(t):
        return Lin(0, {t.get_id(): (t, 1)})

    @staticmethod
    def of(x):
        if isinstance(x, Lin):
            return x
        if isinstance(x, int):
            return Lin(x)
        return from_z3(x)

    def is_const(self):
        return not self.d

    def __add__(self, o):
        o = Lin.of(o)
        if not o.d:
            return Lin(self.c + o.c, self.d)
        d = dict(self.d)
        for k, (t, c) in o.d.items():
            if k in d:
                n = d[k][1] + c
                if n == 0:
                    del d[k]
                else:
                    d[k] = (t, n)
            else:
                d[k] = (t, c)
        return Lin(self.c + o.c, d)

    __radd__ = __add__

    def scale(self, k):
        if k == 0:
            return Lin(0)
        return Lin(self.c * k, {i: (t, c * k) for i, (t, c) in self.d.items()})

    def __neg__(self):
        return self.scale(-1)

    def __sub__(self, o):
        return self + (-Lin.of(o))

    def __rsub__(self, o):
        return Lin.of(o) - self

    def __mul__(self, k):
        if isinstance(k, int):
            return self.scale(k)
        return nlmul(self, Lin.of(k))

    def same(self, o):
        o = Lin.of(o)
        return self.c == o.c and len(self.d) == len(o.d) and all(k in o.d and o.d[k][1] == c for k, (t, c) in self.d.items())

    def divisible(self, s):
        return all(c % s == 0 for _, c in self.d.values())

    def div_exact(self, s):
        """(self - r)/s, r with 0 <= r < s; requires divisible"""
        r = self.c % s
        return Lin((self.c - r) // s, {i: (t, c // s) for i, (t, c) in self.d.items()}), r

    @property
    def z(self):
        if self._z is None:
            ts = []
            for t, c in self.d.values():
                ts.append(t if c == 1 else z3.IntVal(c) * t)
            if self.c or not ts:
                ts.append(z3.IntVal(self.c))
            self._z = ts[0] if len(ts) == 1 else z3.Sum(ts)
        return self._z

    def __repr__(self):
        return 'L(%s)' % self.z

mulF = z3.Function('mulF', z3.IntSort(), z3.IntSort(), z3.IntSort())

def _atmul(a, b):
    if a.get_id() > b.get_id():
        a, b = b, a
    # keep a stable order by textual form so that refactorings do not matter
    if str(a) > str(b):
        a, b = b, a
    return mulF(a, b)

def nlmul(x, y):
    if x.is_const():
        return y.scale(x.c)
    if y.is_const():
        return x.scale(y.c)
    r = Lin(x.c * y.c)
    for t, c in x.d.values():
        if y.c:
            r = r + Lin(0, {t.get_id(): (t, c * y.c)})
        for u, e in y.d.values():
            r = r + Lin.atom(_atmul(t, u)).scale(c * e)
    if x.c:
        for u, e in y.d.values():
            r = r + Lin(0, {u.get_id(): (u, e * x.c)})
    return r

def from_z3(t):
    if z3.is_int_value(t):
        return Lin(t.as_long())
    if z3.is_app_of(t, z3.Z3_OP_ADD):
        r = Lin(0)
        for ch in t.children():
            r = r + from_z3(ch)
        return r
    if z3.is_app_of(t, z3.Z3_OP_SUB):
        ch = t.children()
        r = from_z3(ch[0])
        for x in ch[1:]:
            r = r - from_z3(x)
        return r
    if z3.is_app_of(t, z3.Z3_OP_UMINUS):
        return -from_z3(t.children()[0])
    if z3.is_app_of(t, z3.Z3_OP_MUL):
        ch = t.children()
        r = from_z3(ch[0])
        for x in ch[1:]:
            r = nlmul(r, from_z3(x))
        return r
    return Lin.atom(t)

class Ptr:
    __slots__ = ('rid', 'off')
    def __init__(self, rid, off):
        self.rid = rid
        self.off = Lin.of(off)
    def __repr__(self):
        return 'Ptr(%s,%s)' % (self.rid, self.off)

class FnPtr:
    def __init__(self, name):
        self.name = name
    def __repr__(self):
        return 'Fn(%s)' % self.name

NULL = Ptr(None, 0)

class Undef:
    def __repr__(self):
        return 'undef'
UNDEF = Undef()

class Opaque:
    """a value the engine does not interpret (floating point, hidden state)"""
    def __init__(self, why=''):
        self.why = why
    def __repr__(self):
        return 'Opaque(%s)' % self.why

class SeqVal:
    """ghost content of a parlay::sequence object handled by contract: element region and length"""
    def __init__(self, rid, n):
        self.rid = rid
        self.n = n
    def __repr__(self):
        return 'Seq(%s,%s)' % (self.rid, self.n)

class CellMem:
    """small object: values at concrete byte offsets"""
    kind = 'cell'
    def __init__(self, size, cells=None, name=''):
        self.size = size
        self.cells = cells if cells is not None else {}
        self.name = name
        self.alive = True
    def copy(self):
        c = CellMem(self.size, dict(self.cells), self.name)
        c.alive = self.alive
        return c

class ArrMem:
    """array of structs: one SMT array per field; symbolic length"""
    kind = 'arr'
    def __init__(self, stride, fields, length, name='', lo=0):
        self.stride = stride
        self.fields = fields       # {off: (bytes, z3 array)}
        self.length = Lin.of(length)
        self.name = name
        self.alive = True
        self.opaque = True         # element values carry no machine range
        self.ghost = None          # optional ghost 'constructed' array Int -> Bool
        self.readonly = False
    def copy(self):
        c = ArrMem(self.stride, dict(self.fields), self.length, self.name)
        c.alive = self.alive
        c.opaque = self.opaque
        c.ghost = self.ghost
        c.readonly = self.readonly
        return c
