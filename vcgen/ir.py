"""Parser for the subset of textual LLVM 18 IR that clang emits for the harness TUs."""
import re, subprocess

class IRError(Exception):
    pass

# ---------------------------------------------------------------- types
# int: ('i', n) | ptr: ('ptr',) | fp: ('f', bits) | void: ('void',)
# array: ('arr', n, T) | struct: ('st', [T], packed) | named: ('nm', name) | vec: ('vec', n, T)

class Types:
    def __init__(self):
        self.named = {}
        self.cache = {}

    def resolve(self, t):
        while t[0] == 'nm':
            t = self.named[t[1]]
        return t

    def size_align(self, t):
        k = id(t) if False else repr(t)
        r = self.cache.get(k)
        if r is None:
            r = self._sa(t)
            self.cache[k] = r
        return r

    def _sa(self, t):
        t = self.resolve(t)
        k = t[0]
        if k == 'i':
            n = t[1]
            b = (n + 7) // 8
            p = 1
            while p < b:
                p *= 2
            return (p, min(p, 16))
        if k == 'ptr':
            return (8, 8)
        if k == 'f':
            return (t[1] // 8, t[1] // 8)
        if k == 'arr':
            s, a = self.size_align(t[2])
            return (s * t[1], a)
        if k == 'vec':
            s, a = self.size_align(t[2])
            return (s * t[1], s * t[1])
        if k == 'st':
            off = 0
            al = 1
            for f in t[1]:
                s, a = self.size_align(f)
                if t[2]:
                    a = 1
                off = (off + a - 1) // a * a
                off += s
                al = max(al, a)
            off = (off + al - 1) // al * al
            return (off, al)
        if k == 'void' or k == 'opaque':
            return (0, 1)
        raise IRError('size of ' + repr(t))

    def size(self, t):
        return self.size_align(t)[0]

    def field(self, t, i):
        t = self.resolve(t)
        if t[0] == 'st':
            off = 0
            for j, f in enumerate(t[1]):
                s, a = self.size_align(f)
                if t[2]:
                    a = 1
                off = (off + a - 1) // a * a
                if j == i:
                    return off, f
                off += s
        if t[0] in ('arr', 'vec'):
            return i * self.size(t[2]), t[2]
        raise IRError('field of ' + repr(t))

TOK = re.compile(r'''\s*(?:
   (?P<str>c?"(?:[^"\\]|\\.)*")
 | (?P<loc>%(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<comdat>\$(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<glob>@(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<meta>![-a-zA-Z$._0-9]*)
 | (?P<attr>\#\d+)
 | (?P<num>-?\d+\.\d+(?:e[+-]?\d+)?|0x[0-9A-Fa-fKLMHR]+|-?\d+)
 | (?P<id>[a-zA-Z_][-a-zA-Z$._0-9]*)
 | (?P<p>\.\.\.|[][(){}<>,=*|:])
)''', re.X)

def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == '' or s[i:].lstrip().startswith(';'):
                break
            raise IRError('tokenize: ' + s[i:i + 60])
        k = m.lastgroup
        out.append((k, m.group(k)))
        i = m.end()
    return out

PARAM_ATTRS = {'noundef', 'nonnull', 'noalias', 'nocapture', 'readonly', 'writeonly', 'readnone', 'returned',
               'zeroext', 'signext', 'inreg', 'immarg', 'writable', 'dead_on_unwind', 'swiftself', 'allocptr', 'nest',
               'allocalign', 'noalias', 'nofree', 'inalloca'}
CALL_FLAGS = {'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'tail', 'musttail', 'notail',
              'fastcc', 'ccc', 'coldcc'}

class P:
    def __init__(self, toks):
        self.t = toks
        self.i = 0

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else (None, None)

    def next(self):
        r = self.t[self.i]
        self.i += 1
        return r

    def eat(self, v):
        if self.peek()[1] == v:
            self.i += 1
            return True
        return False

    def expect(self, v):
        if not self.eat(v):
            raise IRError('expected %s got %s at %s' % (v, self.peek(), self.t[max(0, self.i - 5):self.i + 5]))

    def type(self):
        k, v = self.next()
        if k == 'id':
            if v == 'ptr':
                t = ('ptr',)
                if self.peek()[1] == 'addrspace':
                    self.next(); self.expect('('); self.next(); self.expect(')')
            elif re.fullmatch(r'i\d+', v):
                t = ('i', int(v[1:]))
            elif v == 'double':
                t = ('f', 64)
            elif v == 'float':
                t = ('f', 32)
            elif v == 'x86_fp80':
                t = ('f', 128)
            elif v == 'fp128':
                t = ('f', 128)
            elif v == 'void':
                t = ('void',)
            elif v == 'opaque':
                t = ('opaque',)
            elif v == 'metadata':
                t = ('meta',)
            elif v in ('token', 'label'):
                t = (v,)
            else:
                raise IRError('type ' + v)
        elif k == 'loc':
            t = ('nm', v)
        elif v == '[':
            n = int(self.next()[1]); self.expect('x')
            e = self.type(); self.expect(']')
            t = ('arr', n, e)
        elif v == '{':
            fs = []
            if not self.eat('}'):
                while True:
                    fs.append(self.type())
                    if self.eat('}'):
                        break
                    self.expect(',')
            t = ('st', tuple(fs), False)
        elif v == '<':
            if self.peek()[1] == '{':
                self.next()
                fs = []
                if not self.eat('}'):
                    while True:
                        fs.append(self.type())
                        if self.eat('}'):
                            break
                        self.expect(',')
                self.expect('>')
                t = ('st', tuple(fs), True)
            else:
                n = int(self.next()[1]); self.expect('x')
                e = self.type(); self.expect('>')
                t = ('vec', n, e)
        else:
            raise IRError('type tok %r' % (v,))
        while True:
            if self.peek()[1] == '(':
                # function type
                self.next()
                args = []
                if not self.eat(')'):
                    while True:
                        if self.eat('...'):
                            pass
                        else:
                            args.append(self.type())
                        if self.eat(')'):
                            break
                        self.expect(',')
                t = ('fn', t, tuple(args))
                continue
            break
        return t

    def attrs(self):
        while True:
            k, v = self.peek()
            if k == 'id' and v in PARAM_ATTRS:
                self.next(); continue
            if k == 'id' and v == 'align':
                self.next(); self.next(); continue
            if k == 'id' and v in ('dereferenceable', 'dereferenceable_or_null', 'byval', 'sret', 'elementtype', 'nofpclass', 'captures', 'range', 'initializes', 'align'):
                self.next(); self.skip_parens(); continue
            break

    def skip_parens(self):
        self.expect('(')
        d = 1
        while d:
            v = self.next()[1]
            if v == '(':
                d += 1
            elif v == ')':
                d -= 1

    # operands: ('c', int) ('loc', name) ('g', name) ('null',) ('undef',) ('zero',) ('fp', txt) ('ce', op, ...) ('agg', [(T,op)])
    def operand(self, ty):
        k, v = self.next()
        if k == 'num':
            if ty[0] == 'f':
                return ('fp', v)
            return ('c', int(v))
        if k == 'loc':
            return ('loc', v)
        if k == 'glob':
            return ('g', v)
        if k == 'str':
            return ('str', v)
        if k == 'meta':
            return ('meta', v)
        if k == 'id':
            if v == 'true':
                return ('c', 1)
            if v == 'false':
                return ('c', 0)
            if v == 'null':
                return ('null',)
            if v in ('undef', 'poison'):
                return ('undef',)
            if v == 'zeroinitializer':
                return ('zero',)
            if v == 'none':
                return ('undef',)
            if v == 'getelementptr':
                while self.peek()[1] in ('inbounds', 'inrange', 'nuw', 'nusw'):
                    self.next()
                    if self.peek()[1] == '(' and self.t[self.i - 1][1] == 'inrange':
                        self.skip_parens()
                self.expect('(')
                bt = self.type(); self.expect(',')
                args = self.tvlist(')')
                return ('ce', 'gep', bt, args)
            if v in ('bitcast', 'ptrtoint', 'inttoptr', 'trunc', 'zext', 'sext', 'addrspacecast'):
                self.expect('(')
                t1 = self.type(); o = self.operand(t1); self.expect('to'); t2 = self.type(); self.expect(')')
                return ('ce', v, t1, o, t2)
            if v in ('add', 'sub', 'mul', 'icmp', 'select', 'xor', 'and', 'or', 'shl'):
                while self.peek()[0] == 'id':
                    self.next()
                self.skip_parens()
                return ('undefce', v)
        if v == '{' or v == '[' or v == '<':
            close = {'{': '}', '[': ']', '<': '>'}[v]
            if v == '<' and self.peek()[1] == '{':
                self.next()
                r = self.tvlist('}')
                self.expect('>')
                return ('agg', r)
            return ('agg', self.tvlist(close))
        raise IRError('operand %r %r' % (k, v))

    def tvlist(self, close):
        out = []
        if self.eat(close):
            return out
        while True:
            while self.peek()[1] in ('inrange',):
                self.next()
                if self.peek()[1] == '(':
                    self.skip_parens()
            t = self.type()
            self.attrs()
            if t == ('meta',):
                # metadata operand: skip until , or close at depth 0
                d = 0
                while not (d == 0 and self.peek()[1] in (',', close)):
                    v = self.next()[1]
                    if v in '([{':
                        d += 1
                    if v in ')]}':
                        d -= 1
                out.append((t, ('meta', '')))
            else:
                out.append((t, self.operand(t)))
            if self.eat(close):
                return out
            self.expect(',')

class Instr:
    __slots__ = ('op', 'res', 'ty', 'a', 'flags', 'txt')
    def __init__(self, op, res, ty=None, a=None, flags=(), txt=''):
        self.op, self.res, self.ty, self.a, self.flags, self.txt = op, res, ty, a, flags, txt
    def __repr__(self):
        return 'I(%s)' % self.txt

class Func:
    def __init__(self, name):
        self.name = name
        self.params = []      # (type, name)
        self.ret = None
        self.lines = []
        self.blocks = None
        self.order = None
        self.attrs = ''
        self.sret = False

BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'}
FBIN = {'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CAST = {'zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'fpext', 'fptrunc', 'addrspacecast'}

def parse_instr(line):
    txt = line.strip()
    # strip trailing metadata
    txt = re.sub(r'(, ![a-zA-Z_.]+ ![0-9]+)+\s*$', '', txt)
    toks = tokenize(txt)
    p = P(toks)
    res = None
    if p.peek()[0] == 'loc' and p.peek(1)[1] == '=':
        res = p.next()[1]; p.next()
    k, op = p.next()
    flags = []
    def getflags(allowed):
        while p.peek()[0] == 'id' and p.peek()[1] in allowed:
            flags.append(p.next()[1])
    if op in ('tail', 'musttail', 'notail'):
        k, op = p.next()
    if op in BIN:
        getflags(('nuw', 'nsw', 'exact', 'disjoint'))
        t = p.type(); a = p.operand(t); p.expect(','); b = p.operand(t)
        return Instr(op, res, t, (a, b), flags, txt)
    if op in FBIN:
        getflags(CALL_FLAGS)
        t = p.type(); a = p.operand(t); p.expect(','); b = p.operand(t)
        return Instr('fbin', res, t, (op, a, b), flags, txt)
    if op == 'fneg':
        getflags(CALL_FLAGS)
        t = p.type(); a = p.operand(t)
        return Instr('fneg', res, t, (a,), flags, txt)
    if op in CAST:
        getflags(('nneg', 'nuw', 'nsw'))
        t = p.type(); a = p.operand(t); p.expect('to'); t2 = p.type()
        return Instr(op, res, t2, (t, a), flags, txt)
    if op in ('icmp', 'fcmp'):
        getflags(CALL_FLAGS)
        pred = p.next()[1]
        t = p.type(); a = p.operand(t); p.expect(','); b = p.operand(t)
        return Instr(op, res, t, (pred, a, b), flags, txt)
    if op == 'alloca':
        getflags(('inalloca',))
        t = p.type()
        n = None
        if p.eat(',') and p.peek()[1] != 'align':
            tn = p.type(); n = p.operand(tn)
        return Instr(op, res, t, (n,), flags, txt)
    if op == 'load':
        getflags(('atomic', 'volatile'))
        t = p.type(); p.expect(','); pt = p.type(); a = p.operand(pt)
        return Instr(op, res, t, (a,), flags, txt)
    if op == 'store':
        getflags(('atomic', 'volatile'))
        t = p.type(); v = p.operand(t); p.expect(','); pt = p.type(); a = p.operand(pt)
        return Instr(op, res, t, (v, a), flags, txt)
    if op == 'getelementptr':
        getflags(('inbounds', 'nuw', 'nusw'))
        t = p.type(); p.expect(',')
        args = []
        while True:
            ty = p.type(); args.append((ty, p.operand(ty)))
            if not p.eat(','):
                break
        return Instr(op, res, t, args, flags, txt)
    if op in ('call', 'invoke'):
        while p.peek()[0] == 'id' and (p.peek()[1] in CALL_FLAGS):
            p.next()
        p.attrs()
        t = p.type()
        if t[0] == 'fn':
            t = t[1]
        k, v = p.peek()
        if k == 'id' and v == 'asm':
            return Instr('asm', res, t, None, flags, txt)
        callee = p.operand(('ptr',))
        p.expect('(')
        args = p.tvlist(')')
        normal = None
        if op == 'invoke':
            while p.peek()[1] != 'to':
                p.next()
            p.expect('to'); p.expect('label'); normal = p.next()[1]
        return Instr(op, res, t, (callee, args, normal), flags, txt)
    if op == 'phi':
        getflags(CALL_FLAGS)
        t = p.type()
        inc = []
        while True:
            p.expect('['); v = p.operand(t); p.expect(','); b = p.next()[1]; p.expect(']')
            inc.append((v, b))
            if not p.eat(','):
                break
        return Instr(op, res, t, inc, flags, txt)
    if op == 'select':
        getflags(CALL_FLAGS)
        ct = p.type(); c = p.operand(ct); p.expect(',')
        t = p.type(); a = p.operand(t); p.expect(',')
        t2 = p.type(); b = p.operand(t2)
        return Instr(op, res, t, (c, a, b), flags, txt)
    if op == 'br':
        if p.peek()[1] == 'label':
            p.next()
            return Instr('br', None, None, (None, p.next()[1]), flags, txt)
        t = p.type(); c = p.operand(t); p.expect(','); p.expect('label'); a = p.next()[1]
        p.expect(','); p.expect('label'); b = p.next()[1]
        return Instr('br', None, None, (c, a, b), flags, txt)
    if op == 'switch':
        t = p.type(); c = p.operand(t); p.expect(','); p.expect('label'); d = p.next()[1]
        p.expect('[')
        cases = []
        while not p.eat(']'):
            tt = p.type(); v = p.operand(tt); p.expect(','); p.expect('label'); cases.append((v[1], p.next()[1]))
        return Instr('switch', None, t, (c, d, cases), flags, txt)
    if op == 'ret':
        t = p.type()
        if t == ('void',):
            return Instr('ret', None, t, None, flags, txt)
        return Instr('ret', None, t, p.operand(t), flags, txt)
    if op == 'unreachable':
        return Instr(op, None, None, None, flags, txt)
    if op == 'extractvalue':
        t = p.type(); a = p.operand(t)
        idx = []
        while p.eat(','):
            idx.append(int(p.next()[1]))
        return Instr(op, res, t, (a, idx), flags, txt)
    if op == 'insertvalue':
        t = p.type(); a = p.operand(t); p.expect(',')
        t2 = p.type(); b = p.operand(t2)
        idx = []
        while p.eat(','):
            idx.append(int(p.next()[1]))
        return Instr(op, res, t, (a, t2, b, idx), flags, txt)
    if op == 'freeze':
        t = p.type(); a = p.operand(t)
        return Instr(op, res, t, (a,), flags, txt)
    if op == 'cmpxchg':
        getflags(('weak', 'volatile'))
        pt = p.type(); a = p.operand(pt); p.expect(',')
        t = p.type(); c = p.operand(t); p.expect(',')
        t2 = p.type(); n = p.operand(t2)
        return Instr(op, res, t, (a, c, n), flags, txt)
    if op == 'atomicrmw':
        getflags(('volatile',))
        rop = p.next()[1]
        pt = p.type(); a = p.operand(pt); p.expect(',')
        t = p.type(); v = p.operand(t)
        return Instr(op, res, t, (rop, a, v), flags, txt)
    if op == 'fence':
        return Instr(op, None, None, None, flags, txt)
    if op == 'insertelement':
        t = p.type(); a = p.operand(t); p.expect(',')
        t2 = p.type(); b = p.operand(t2); p.expect(',')
        t3 = p.type(); i = p.operand(t3)
        return Instr(op, res, t, (a, t2, b, t3, i), flags, txt)
    if op == 'extractelement':
        t = p.type(); a = p.operand(t); p.expect(',')
        t3 = p.type(); i = p.operand(t3)
        return Instr(op, res, t, (a, t3, i), flags, txt)
    return Instr('unknown', res, None, (op,), flags, txt)

class Module:
    def __init__(self, text):
        self.types = Types()
        self.funcs = {}
        self.decls = {}
        self.globals = {}
        self.dem = {}
        self._parse(text)

    def _parse(self, text):
        cur = None
        for line in text.split('\n'):
            if cur is not None:
                if line.startswith('}'):
                    cur = None
                else:
                    cur.lines.append(line)
                continue
            if not line or line[0] == ';':
                continue
            if line.startswith('define '):
                cur = self._header(line)
                self.funcs[cur.name] = cur
            elif line.startswith('declare '):
                f = self._header(line)
                self.decls[f.name] = f
            elif line[0] == '%':
                m = re.match(r'(%(?:"[^"]*"|[-a-zA-Z$._0-9]+)) = type (.*)$', line)
                if m:
                    self.types.named[m.group(1)] = P(tokenize(m.group(2))).type()
            elif line[0] == '@':
                m = re.match(r'(@(?:"[^"]*"|[-a-zA-Z$._0-9]+)) = (.*)$', line)
                if m:
                    self.globals[m.group(1)] = m.group(2)
        names = [n for n in list(self.funcs) + list(self.decls)]
        raw = [n[1:].strip('"') for n in names]
        out = subprocess.run(['llvm-cxxfilt'], input='\n'.join(raw), capture_output=True, text=True).stdout.split('\n')
        for n, d in zip(names, out):
            self.dem[n] = d

    def _header(self, line):
        m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', line)
        f = Func('@' + m.group(1))
        pre = line[:m.start()]
        toks = tokenize(line[m.end():])
        p = P(toks)
        anon = 0
        if not p.eat(')'):
            while True:
                if p.eat('...'):
                    pass
                else:
                    i0 = p.i
                    t = p.type()
                    p.attrs()
                    f.sret = f.sret or any(x == ('id', 'sret') for x in p.t[i0:p.i])
                    name = None
                    if p.peek()[0] == 'loc':
                        name = p.next()[1]
                        anon = anon + 1
                    else:
                        name = '%' + str(anon); anon += 1
                    f.params.append((t, name))
                if p.eat(')'):
                    break
                p.expect(',')
        f.attrs = ' '.join(v for _, v in p.t[p.i:])
        # return type: last type in pre
        f.ret_txt = pre
        return f

    def body(self, f):
        if f.blocks is not None:
            return f
        blocks = {}
        order = []
        cur = None
        # entry label is the next unnamed number
        nump = len(f.params)
        lines = []
        acc = None
        for l in f.lines:
            s = l.strip()
            if not s or s.startswith(';'):
                continue
            if acc is not None:
                acc += ' ' + s
                if s.startswith(']'):
                    lines.append(acc); acc = None
                continue
            if s.startswith('switch') and s.endswith('['):
                acc = s
                continue
            lines.append(l)
        first = True
        for l in lines:
            m = re.match(r'^("[^"]*"|[-a-zA-Z$._0-9]+):', l)
            if m:
                cur = '%' + m.group(1)
                blocks[cur] = []
                order.append(cur)
                first = False
                continue
            if first:
                cur = '%' + str(nump)
                blocks[cur] = []
                order.append(cur)
                first = False
            if '#dbg_' in l:
                continue
            if blocks[cur] and blocks[cur][-1].op in ('invoke',) and l.strip().startswith('to label'):
                continue
            if re.match(r'^\s*(%[^ ]+ = )?invoke ', l):
                l2 = l
                blocks[cur].append(('inv', l2))
                continue
            if l.strip().startswith('to label'):
                _, l2 = blocks[cur].pop()
                blocks[cur].append(parse_instr(l2 + ' ' + l.strip()))
                continue
            blocks[cur].append(parse_instr(l))
        f.blocks = blocks
        f.order = order
        self._loops(f)
        return f

    def succs(self, f, b):
        t = f.blocks[b][-1]
        if t.op == 'br':
            return list(t.a[1:])
        if t.op == 'switch':
            return [t.a[1]] + [x[1] for x in t.a[2]]
        if t.op == 'invoke':
            return [t.a[2]]
        return []

    def _loops(self, f):
        # dominators (simple iterative), natural loops
        entry = f.order[0]
        succ = {b: self.succs(f, b) for b in f.order}
        reach = [entry]
        seen = {entry}
        for b in reach:
            for s in succ[b]:
                if s not in seen:
                    seen.add(s); reach.append(s)
        preds = {b: [] for b in f.order}
        for b in reach:
            for s in succ[b]:
                preds[s].append(b)
        dom = {b: set(reach) for b in reach}
        dom[entry] = {entry}
        ch = True
        while ch:
            ch = False
            for b in reach:
                if b == entry:
                    continue
                ps = [dom[p] for p in preds[b]]
                n = set.intersection(*ps) if ps else set()
                n = n | {b}
                if n != dom[b]:
                    dom[b] = n; ch = True
        loops = {}
        for b in reach:
            for s in succ[b]:
                if s in dom[b]:
                    body = loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x)
                            st.extend(preds[x])
        f.loops = loops
        f.preds = preds

def base_name(d):
    """strip template arguments and parameter list of a demangled name, keep the qualified name"""
    d = d.replace('operator()', 'operator@call').replace('operator<<', 'operator@shl').replace('operator>>', 'operator@shr')
    d = d.replace('operator->', 'operator@arrow').replace('operator<=', 'operator@le').replace('operator>=', 'operator@ge')
    d = d.replace('operator<', 'operator@lt').replace('operator>', 'operator@gt')
    out = []
    depth = 0
    i = 0
    n = len(d)
    par = 0
    while i < n:
        c = d[i]
        if c == '<':
            depth += 1
        elif c == '>':
            depth -= 1
        elif depth == 0:
            out.append(c)
        i += 1
    s = ''.join(out)
    # now cut parameter lists: find top-level '(' groups; keep those inside {lambda(...)}
    res = []
    d2 = 0
    br = 0
    for c in s:
        if c == '{':
            br += 1
        if c == '(':
            if br == 0:
                d2 += 1
                continue
        if c == ')':
            if br == 0:
                d2 -= 1
                continue
        if c == '}':
            br -= 1
        if d2 == 0:
            res.append(c)
    s = ''.join(res)
    s = s.replace(' const', '').replace('&&', '').replace('&', '').strip()
    s = re.sub(r'\{lambda\([^}]*\)#(\d+)\}', r'{lambda#\1}', s)
    # drop the return type
    parts = s.split(' ')
    return parts[-1].replace('operator@call', 'operator()') if parts else s
