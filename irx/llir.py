"""LLVM-IR (textual, clang-18 -O1) -> Python translator used by the symbolic
executor.  Every function body is turned into one Python function; integers
and pointers are concrete Python ints (masked to their width), doubles are
either concrete Python floats (IEEE double) or symbolic reals (sym.Sym)."""
import re, struct

class IRError(Exception):
    pass

TOK = re.compile(r'''
  (?P<ws>\s+)
 |(?P<cstr>c"[^"]*")
 |(?P<str>"[^"]*")
 |(?P<loc>%(?:"[^"]*"|[-\w.$]+))
 |(?P<glob>@(?:"[^"]*"|[-\w.$]+))
 |(?P<meta>![\w.]*(?:\([^)]*\))?)
 |(?P<attr>\#\d+)
 |(?P<hex>0x[KLMHR]?[0-9A-Fa-f]+)
 |(?P<num>-?\d+(?:\.\d+)?(?:[eE][-+]?\d+)?)
 |(?P<dots>\.\.\.)
 |(?P<word>[A-Za-z_][\w.]*)
 |(?P<p>[()\[\]{},=*<>:|])
''', re.X)

def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        if s[i] == ';':
            break
        m = TOK.match(s, i)
        if not m:
            raise IRError('tokenize: %r' % s[i:i+60])
        if m.lastgroup != 'ws':
            out.append((m.lastgroup, m.group()))
        i = m.end()
    return out

# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ('k', 'a', 'b', 'size', 'align', 'offs')
    def __init__(self, k, a=None, b=None):
        self.k = k; self.a = a; self.b = b; self.size = None; self.align = None; self.offs = None
    def __repr__(self):
        return '%s(%r,%r)' % (self.k, self.a, self.b)

I1 = Ty('int', 1); I8 = Ty('int', 8); I32 = Ty('int', 32); I64 = Ty('int', 64)
DBL = Ty('double'); PTR = Ty('ptr'); VOID = Ty('void')

class Parser:
    """recursive-descent over a token list"""
    def __init__(self, toks, mod):
        self.t = toks; self.i = 0; self.mod = mod
    def peek(self, k=0):
        j = self.i + k
        return self.t[j][1] if j < len(self.t) else None
    def pk(self, k=0):
        j = self.i + k
        return self.t[j][0] if j < len(self.t) else None
    def next(self):
        v = self.t[self.i]; self.i += 1
        return v
    def acc(self, s):
        if self.i < len(self.t) and self.t[self.i][1] == s:
            self.i += 1
            return True
        return False
    def exp(self, s):
        if not self.acc(s):
            raise IRError('expected %s at %r' % (s, self.t[self.i:self.i+8]))
    def ty(self):
        kind, v = self.next()
        if kind == 'word':
            if v[0] == 'i' and v[1:].isdigit():
                t = Ty('int', int(v[1:]))
            elif v == 'ptr':
                t = PTR
            elif v == 'double':
                t = DBL
            elif v == 'float':
                t = Ty('float')
            elif v == 'x86_fp80':
                t = Ty('fp80')
            elif v == 'void':
                t = VOID
            elif v in ('metadata', 'label', 'token', 'opaque'):
                t = Ty(v)
            else:
                raise IRError('type? %s' % v)
        elif kind == 'loc':
            t = Ty('named', v, self.mod)
        elif v == '[':
            n = int(self.next()[1]); self.exp('x'); e = self.ty(); self.exp(']')
            t = Ty('array', n, e)
        elif v == '<':
            if self.peek() == '{':
                self.next()
                els = self._tylist('}'); self.exp('>')
                t = Ty('struct', els, True)
            else:
                n = int(self.next()[1]); self.exp('x'); e = self.ty(); self.exp('>')
                t = Ty('vector', n, e)
        elif v == '{':
            els = self._tylist('}')
            t = Ty('struct', els, False)
        else:
            raise IRError('type? %r' % v)
        while True:
            if self.peek() == '(':      # function type
                self.next()
                args = []
                while not self.acc(')'):
                    if self.acc('...'):
                        pass
                    else:
                        args.append(self.ty())
                        self.skip_attrs()
                    self.acc(',')
                t = Ty('func', t, args)
            elif self.peek() == '*':
                self.next(); t = PTR
            else:
                return t
    def _tylist(self, end):
        els = []
        while not self.acc(end):
            els.append(self.ty()); self.acc(',')
        return els
    ATTRS = {'noundef', 'nonnull', 'nocapture', 'readonly', 'writeonly', 'readnone', 'signext',
             'zeroext', 'inreg', 'noalias', 'returned', 'immarg', 'noreturn', 'swiftself', 'nofree',
             'allocptr', 'allocalign', 'dead_on_unwind', 'writable', 'inrange', 'noext'}
    def skip_attrs(self):
        while True:
            v = self.peek()
            if v in self.ATTRS:
                self.next()
            elif v in ('align', ):
                self.next()
                if self.acc('('):
                    while not self.acc(')'):
                        self.next()
                else:
                    self.next()
            elif v in ('dereferenceable', 'dereferenceable_or_null', 'byval', 'sret', 'allocsize', 'memory', 'nofpclass', 'range', 'elementtype', 'byref', 'initializes', 'captures'):
                self.next()
                if self.acc('('):
                    d = 1
                    while d:
                        x = self.next()[1]
                        if x == '(':
                            d += 1
                        elif x == ')':
                            d -= 1
            else:
                return

def resolve(t):
    while t.k == 'named':
        t = t.b.typedef(t.a)
    return t

def sizeof(t):
    if t.size is not None:
        return t.size
    r = resolve(t)
    layout(r)
    t.size = r.size; t.align = r.align
    return t.size

def alignof(t):
    sizeof(t)
    return t.align

def layout(t):
    if t.size is not None:
        return
    k = t.k
    if k == 'int':
        b = (t.a + 7)//8
        s = 1
        while s < b:
            s *= 2
        t.size = s; t.align = min(s, 16)
    elif k == 'double':
        t.size = t.align = 8
    elif k == 'float':
        t.size = t.align = 4
    elif k == 'fp80':
        t.size = t.align = 16
    elif k == 'ptr':
        t.size = t.align = 8
    elif k == 'array':
        t.size = t.a*sizeof(t.b); t.align = alignof(t.b)
    elif k == 'vector':
        t.size = t.a*sizeof(t.b); t.align = t.size
    elif k == 'struct':
        off = 0; al = 1; offs = []
        for e in t.a:
            s = sizeof(e); a = 1 if t.b else alignof(e)
            off = (off + a-1)//a*a
            offs.append(off); off += s; al = max(al, a)
        off = (off + al-1)//al*al
        t.size = off; t.align = al; t.offs = offs
    elif k in ('void', 'func', 'opaque'):
        t.size = 0; t.align = 1
    else:
        raise IRError('layout %r' % t)

# ---------------------------------------------------------------- module
class Module:
    def __init__(self, path, name):
        self.path = path; self.name = name
        self.types = {}; self.tycache = {}
        self.globals = {}     # name -> text
        self.funcs = {}       # name -> (header line, [body lines])
        self.decls = set()
        self.internal = set()
        self._scan(open(path).read().split('\n'))

    def _scan(self, lines):
        i = 0; n = len(lines)
        while i < n:
            l = lines[i]
            if l.startswith('%') and ' = type ' in l:
                nm, r = l.split(' = type ', 1)
                self.types[nm] = r
            elif l.startswith('@'):
                m = re.match(r'@("[^"]*"|[-\w.$]+) = ', l)
                nm = m.group(1).strip('"')
                self.globals[nm] = l[m.end():]
                if re.match(r'(private|internal) ', l[m.end():]):
                    self.internal.add(nm)
            elif l.startswith('define'):
                m = re.search(r'@("[^"]*"|[-\w.$]+)\(', l)
                nm = m.group(1).strip('"')
                j = i+1
                while lines[j] != '}':
                    j += 1
                self.funcs[nm] = (l, lines[i+1:j])
                if re.match(r'define (internal|private) ', l):
                    self.internal.add(nm)
                i = j
            elif l.startswith('declare'):
                m = re.search(r'@("[^"]*"|[-\w.$]+)\(', l)
                self.decls.add(m.group(1).strip('"'))
            i += 1

    def typedef(self, nm):
        t = self.tycache.get(nm)
        if t is None:
            p = Parser(tokenize(self.types[nm]), self)
            t = p.ty()
            self.tycache[nm] = t
        return t

def hexdbl(s):
    if s[2] in 'KLMHR':
        if s[2] == 'K':
            v = int(s[3:], 16)
            sign = v >> 79; e = (v >> 64) & 0x7fff; m = v & ((1 << 64)-1)
            if e == 0 and m == 0:
                return -0.0 if sign else 0.0
            if e == 0x7fff:
                return float('inf') if not (m << 1) & ((1 << 64)-1) else float('nan')
            r = float(m)*2.0**(e-16383-63) if -1000 < e-16383-63 < 900 else __import__('math').ldexp(float(m), e-16383-63)
            return -r if sign else r
        raise IRError('hexfp '+s)
    return struct.unpack('>d', int(s[2:], 16).to_bytes(8, 'big'))[0]

def pyfloat(v):
    if v != v:
        return 'NAN'
    if v in (float('inf'), float('-inf')):
        return 'INF' if v > 0 else '(-INF)'
    return '(%r)' % v if v < 0 or str(v)[0] == '-' else repr(v)

CASTS = {'sext', 'zext', 'trunc', 'fptosi', 'fptoui', 'sitofp', 'uitofp', 'fpext', 'fptrunc', 'bitcast', 'ptrtoint', 'inttoptr', 'addrspacecast'}

class FuncTranslator:
    """translates one function body to python source"""
    def __init__(self, ex, mod, name):
        self.ex = ex; self.mod = mod; self.name = name
        self.names = {}
    def v(self, loc):
        r = self.names.get(loc)
        if r is None:
            r = 'v' + re.sub(r'\W', '_', loc[1:])
            self.names[loc] = r
        return r
    # ---- operands -> python expression
    def operand(self, p, t):
        k, s = p.next()
        if k == 'loc':
            return self.v(s)
        if k == 'glob':
            return str(self.ex.global_addr(self.mod, s[1:].strip('"')))
        if k in ('num', 'hex'):
            return self.const_num(s, t)
        if k == 'word':
            if s == 'true':
                return '1'
            if s == 'false':
                return '0'
            if s == 'null':
                return '0'
            if s in ('undef', 'poison'):
                return self.undef(t)
            if s == 'zeroinitializer':
                return self.zero(t)
            # constant expressions
            p.i -= 1
            return str(self.ex.constexpr(p, t, self.mod))
        if s == '<':  # vector constant
            els = []
            while not p.acc('>'):
                et = p.ty(); els.append(self.operand(p, et)); p.acc(',')
            return '(' + ','.join(els) + ',)'
        if s == '{' or s == '[':
            end = {'{': '}', '[': ']'}[s]
            els = []
            while not p.acc(end):
                et = p.ty(); els.append(self.operand(p, et)); p.acc(',')
            return '(' + ','.join(els) + ',)'
        raise IRError('operand %r in %s' % (s, self.name))
    def undef(self, t):
        t = resolve(t)
        if t.k == 'struct':
            return '(' + ','.join(self.undef(e) for e in t.a) + ',)'
        if t.k in ('array', 'vector'):
            return '(' + ','.join(self.undef(t.b) for _ in range(t.a)) + ',)'
        if t.k in ('double', 'float', 'fp80'):
            return 'undef_double()'
        return 'UNDEF'
    def zero(self, t):
        t = resolve(t)
        if t.k == 'struct':
            return '(' + ','.join(self.zero(e) for e in t.a) + ',)'
        if t.k in ('array', 'vector'):
            return '(' + ','.join(self.zero(t.b) for _ in range(t.a)) + ',)'
        if t.k in ('double', 'float', 'fp80'):
            return '0.0'
        return '0'
    def const_num(self, s, t):
        t = resolve(t)
        if t.k in ('double', 'float', 'fp80'):
            if s.startswith('0x'):
                return pyfloat(hexdbl(s))
            return pyfloat(float(s))
        v = int(s)
        if t.k == 'int':
            v &= (1 << t.a)-1
        return str(v)
    def load_expr(self, t, p):
        t = resolve(t)
        if t.k == 'double':
            return 'ldd(%s)' % p
        if t.k == 'int':
            if t.a == 1:
                return '(ldi(%s,1)&1)' % p
            return 'ldi(%s,%d)' % (p, t.a//8)
        if t.k == 'ptr':
            return 'ldi(%s,8)' % p
        if t.k == 'float':
            return 'ldf(%s)' % p
        if t.k == 'fp80':
            return 'ldx(%s)' % p
        if t.k == 'struct':
            sizeof(t)
            return '(' + ','.join(self.load_expr(e, '((%s)+%d)' % (p, o)) for e, o in zip(t.a, t.offs)) + ',)'
        if t.k in ('vector', 'array'):
            s = sizeof(t.b)
            return '(' + ','.join(self.load_expr(t.b, '((%s)+%d)' % (p, o*s)) for o in range(t.a)) + ',)'
        raise IRError('load %r' % t)
    def store_stmt(self, t, val, p):
        t = resolve(t)
        if t.k == 'double':
            return ['std(%s,%s)' % (p, val)]
        if t.k == 'int':
            return ['sti(%s,%s,%d)' % (p, val, max(1, t.a//8))]
        if t.k == 'ptr':
            return ['sti(%s,%s,8)' % (p, val)]
        if t.k == 'float':
            return ['stf(%s,%s)' % (p, val)]
        if t.k == 'fp80':
            return ['stx(%s,%s)' % (p, val)]
        if t.k == 'struct':
            sizeof(t)
            r = []
            for i, (e, o) in enumerate(zip(t.a, t.offs)):
                r += self.store_stmt(e, '%s[%d]' % (val, i), '((%s)+%d)' % (p, o))
            return r
        if t.k in ('vector', 'array'):
            s = sizeof(t.b); r = []
            for i in range(t.a):
                r += self.store_stmt(t.b, '%s[%d]' % (val, i), '((%s)+%d)' % (p, i*s))
            return r
        raise IRError('store %r' % t)

    def translate(self):
        hdr, body = self.mod.funcs[self.name]
        # header
        i = hdr.index('@')
        # find return type: parse tokens before @name
        toks = tokenize(hdr[:hdr.rindex('{')])
        # locate glob token
        gi = next(j for j, t in enumerate(toks) if t[0] == 'glob' and t[1][1:].strip('"') == self.name)
        p = Parser(toks, self.mod)
        p.i = gi+1
        p.exp('(')
        params = []; vararg = False; n = 0
        while not p.acc(')'):
            if p.acc('...'):
                vararg = True
            else:
                t = p.ty(); p.skip_attrs()
                if p.pk() == 'loc':
                    params.append((t, self.v(p.next()[1])))
                else:
                    params.append((t, self.v('%%%d' % n)))
                n += 1
            p.acc(',')
        # blocks
        blocks = []; cur = None
        # the entry label: first block's implicit number
        nparam_unnamed = sum(1 for t, v in params if re.fullmatch(r'v\d+', v))
        for l in body:
            if not l.strip():
                continue
            m = re.match(r'^("[^"]*"|[-\w.$]+):', l)
            if m and not l.startswith(' '):
                cur = [m.group(1).strip('"'), []]
                blocks.append(cur)
                continue
            if cur is None:
                cur = ['%d' % nparam_unnamed, []]
                blocks.append(cur)
            s = l.strip()
            if cur[1] and cur[1][-1].startswith('switch') and not cur[1][-1].rstrip().endswith(']'):
                cur[1][-1] += ' ' + s
            else:
                cur[1].append(s)
        idx = {b[0]: k for k, b in enumerate(blocks)}
        # phis
        phis = {}   # label -> list of (var, {pred: expr})
        for lab, ins in blocks:
            lst = []
            for s in ins:
                m = re.match(r'(%[-\w.$"]+) = phi ', s)
                if not m:
                    break
                p = Parser(tokenize(s), self.mod)
                dst = p.next()[1]; p.exp('='); p.exp('phi')
                while p.peek() in ('fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'):
                    p.next()
                t = p.ty()
                inc = {}
                while p.acc('['):
                    e = self.operand(p, t); p.exp(',')
                    inc[p.next()[1][1:].strip('"')] = e
                    p.exp(']')
                    if not p.acc(','):
                        break
                lst.append((self.v(dst), inc))
            phis[lab] = lst
        self.phis = phis; self.idx = idx
        out = []
        bodies = []
        for lab, ins in blocks:
            code = []
            for s in ins[len(phis[lab]):]:
                code += self.instr(s, lab)
            bodies.append(code)
        hasalloca = any('stack_alloc(' in c for b in bodies for c in b)
        fn = 'F_' + re.sub(r'\W', '_', self.name)
        args = ','.join(v for t, v in params) + (',*va' if vararg else '')
        src = ['def %s(%s):' % (fn, args)]
        ind = ' '
        if hasalloca:
            src.append(' stk=[]'); src.append(' try:'); ind = '  '
        if len(blocks) == 1:
            for c in bodies[0]:
                src.append(ind + c)
        else:
            src.append(ind + 'bb=0')
            src.append(ind + 'while 1:')
            def emit(lo, hi, depth):
                pre = ind + ' '*(1+depth)
                if hi-lo == 1:
                    for c in bodies[lo]:
                        src.append(pre + c)
                    return
                mid = (lo+hi)//2
                src.append(pre + 'if bb<%d:' % mid)
                emit(lo, mid, depth+1)
                src.append(pre + 'else:')
                emit(mid, hi, depth+1)
            emit(0, len(blocks), 0)
        if hasalloca:
            src.append(' finally:'); src.append('  stack_free(stk)')
        return fn, '\n'.join(src), params, vararg

    def jump(self, frm, to):
        ph = self.phis.get(to, [])
        r = []
        if ph:
            pairs = [(v, inc[frm]) for v, inc in ph if inc[frm] != v]
            if pairs:
                if len(pairs) == 1:
                    r.append('%s=%s' % pairs[0])
                else:
                    r.append(','.join(v for v, e in pairs) + '=' + ','.join(e for v, e in pairs))
        r.append('bb=%d;continue' % self.idx[to] if True else '')
        return r

    def instr(self, s, lab):
        p = Parser(tokenize(s), self.mod)
        dst = None
        if p.pk() == 'loc' and p.peek(1) == '=':
            dst = self.v(p.next()[1]); p.next()
        op = p.next()[1]
        if op in ('tail', 'musttail', 'notail'):
            op = p.next()[1]
        m = getattr(self, 'i_' + op, None)
        if m is None:
            if op in CASTS:
                self.flags(p)
                t = p.ty(); a = self.operand(p, t); p.exp('to'); t2 = p.ty()
                return ['%s=%s' % (dst, self.cast(op, a, t, t2))]
            raise IRError('unsupported instruction %s: %s' % (op, s))
        return m(p, dst, lab)

    def cast(self, op, a, t, t2):
        t = resolve(t); t2 = resolve(t2)
        if op == 'sext':
            if t.a == 1:
                return '(%d if %s else 0)' % ((1 << t2.a)-1, a)
            return 'sext(%s,%d,%d)' % (a, t.a, t2.a)
        if op == 'zext':
            return '(%s|0)' % a
        if op == 'trunc':
            return '(%s&%d)' % (a, (1 << t2.a)-1)
        if op == 'sitofp':
            return 'sitofp(%s,%d)' % (a, t.a)
        if op == 'uitofp':
            return 'float(%s)' % a
        if op in ('fptosi', 'fptoui'):
            return 'fptosi(%s,%d)' % (a, t2.a)
        if op == 'fpext':
            return a
        if op == 'fptrunc':
            return 'fptrunc(%s)' % a if t2.k == 'float' else a
        if op in ('ptrtoint', 'inttoptr'):
            return a
        if op == 'bitcast':
            if t.k == 'double' and t2.k == 'int':
                return 'd2i(%s)' % a
            if t.k == 'int' and t2.k == 'double':
                return 'i2d(%s)' % a
            if t.k == 'float' and t2.k == 'int':
                return 'f2i(%s)' % a
            if t.k == 'int' and t2.k == 'float':
                return 'i2f(%s)' % a
            if t.k == 'vector' and t2.k == 'vector':
                return 'vcast(%s,%r,%r)' % (a, self.tstr(t), self.tstr(t2))
            if t.k == 'vector' and t2.k in ('double', 'int'):
                return 'vcast(%s,%r,%r)' % (a, self.tstr(t), self.tstr(t2))
            if t.k in ('double', 'int') and t2.k == 'vector':
                return 'vcast(%s,%r,%r)' % (a, self.tstr(t), self.tstr(t2))
        raise IRError('cast %s' % op)
    def tstr(self, t):
        return (t.a, t.b.k, t.b.a) if t.k == 'vector' else (0, t.k, t.a)

    def i_phi(self, p, dst, lab):
        raise IRError('phi not at head')
    def flags(self, p):
        while p.peek() in ('nsw', 'nuw', 'exact', 'disjoint', 'nneg', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'inbounds', 'volatile', 'nusw', 'samesign'):
            p.next()
    def bin(self, p, dst, f):
        self.flags(p)
        t = p.ty(); a = self.operand(p, t); p.exp(','); b = self.operand(p, t)
        rt = resolve(t)
        if rt.k == 'vector':
            n = rt.a
            return ['%s=(%s,)' % (dst, ','.join(f(rt.b, '%s[%d]' % (a, i), '%s[%d]' % (b, i)) for i in range(n)))]
        return ['%s=%s' % (dst, f(rt, a, b))]
    def i_add(self, p, d, l): return self.bin(p, d, lambda t, a, b: '(%s+%s)&%d' % (a, b, (1 << t.a)-1))
    def i_sub(self, p, d, l): return self.bin(p, d, lambda t, a, b: '(%s-%s)&%d' % (a, b, (1 << t.a)-1))
    def i_mul(self, p, d, l): return self.bin(p, d, lambda t, a, b: '(%s*%s)&%d' % (a, b, (1 << t.a)-1))
    def i_sdiv(self, p, d, l): return self.bin(p, d, lambda t, a, b: 'sdiv(%s,%s,%d)' % (a, b, t.a))
    def i_srem(self, p, d, l): return self.bin(p, d, lambda t, a, b: 'srem(%s,%s,%d)' % (a, b, t.a))
    def i_udiv(self, p, d, l): return self.bin(p, d, lambda t, a, b: 'udiv(%s,%s)' % (a, b))
    def i_urem(self, p, d, l): return self.bin(p, d, lambda t, a, b: 'urem(%s,%s)' % (a, b))
    def i_shl(self, p, d, l): return self.bin(p, d, lambda t, a, b: '(%s<<%s)&%d' % (a, b, (1 << t.a)-1))
    def i_lshr(self, p, d, l): return self.bin(p, d, lambda t, a, b: '(%s>>%s)' % (a, b))
    def i_ashr(self, p, d, l): return self.bin(p, d, lambda t, a, b: 'ashr(%s,%s,%d)' % (a, b, t.a))
    def i_and(self, p, d, l): return self.bin(p, d, lambda t, a, b: '(%s&%s)' % (a, b))
    def i_or(self, p, d, l): return self.bin(p, d, lambda t, a, b: '(%s|%s)' % (a, b))
    def i_xor(self, p, d, l): return self.bin(p, d, lambda t, a, b: '(%s^%s)' % (a, b))
    def i_fadd(self, p, d, l): return self.bin(p, d, lambda t, a, b: '%s+%s' % (a, b) if t.k == 'double' else 'fr(%s+%s)' % (a, b) if t.k == 'float' else '%s+%s' % (a, b))
    def i_fsub(self, p, d, l): return self.bin(p, d, lambda t, a, b: '%s-%s' % (a, b) if t.k != 'float' else 'fr(%s-%s)' % (a, b))
    def i_fmul(self, p, d, l): return self.bin(p, d, lambda t, a, b: '%s*%s' % (a, b) if t.k != 'float' else 'fr(%s*%s)' % (a, b))
    def i_fdiv(self, p, d, l): return self.bin(p, d, lambda t, a, b: 'fdiv(%s,%s)' % (a, b) if t.k != 'float' else 'fr(fdiv(%s,%s))' % (a, b))
    def i_frem(self, p, d, l): return self.bin(p, d, lambda t, a, b: 'X_fmod(%s,%s)' % (a, b))
    def i_fneg(self, p, d, l):
        self.flags(p); t = p.ty(); a = self.operand(p, t)
        rt = resolve(t)
        if rt.k == 'vector':
            return ['%s=(%s,)' % (d, ','.join('-%s[%d]' % (a, i) for i in range(rt.a)))]
        return ['%s=-%s' % (d, a)]
    def i_freeze(self, p, d, l):
        t = p.ty(); a = self.operand(p, t)
        return ['%s=%s' % (d, a)]
    def icmp_expr(self, pred, t, a, b):
        if t.k == 'ptr' and pred in ('eq', 'ne'):
            return '(%s%s%s)' % (a, '==' if pred == 'eq' else '!=', b)
        if pred == 'eq': return '(%s==%s)' % (a, b)
        if pred == 'ne': return '(%s!=%s)' % (a, b)
        op = {'lt': '<', 'le': '<=', 'gt': '>', 'ge': '>='}[pred[1:]]
        if pred[0] == 'u':
            return '(%s%s%s)' % (a, op, b)
        h = 1 << ((64 if t.k == 'ptr' else t.a)-1)
        return '((%s^%d)%s(%s^%d))' % (a, h, op, b, h)
    def i_icmp(self, p, d, l):
        self.flags(p)
        pred = p.next()[1]; t = p.ty(); a = self.operand(p, t); p.exp(','); b = self.operand(p, t)
        rt = resolve(t)
        if rt.k == 'vector':
            return ['%s=(%s,)' % (d, ','.join(self.icmp_expr(pred, rt.b, '%s[%d]' % (a, i), '%s[%d]' % (b, i)) for i in range(rt.a)))]
        return ['%s=%s' % (d, self.icmp_expr(pred, rt, a, b))]
    def i_fcmp(self, p, d, l):
        self.flags(p)
        pred = p.next()[1]; t = p.ty(); a = self.operand(p, t); p.exp(','); b = self.operand(p, t)
        rt = resolve(t)
        if rt.k == 'vector':
            return ['%s=(%s,)' % (d, ','.join('fcmp_%s(%s[%d],%s[%d])' % (pred, a, i, b, i) for i in range(rt.a)))]
        return ['%s=fcmp_%s(%s,%s)' % (d, pred, a, b)]
    def i_select(self, p, d, l):
        self.flags(p)
        t = p.ty(); c = self.operand(p, t); p.exp(',')
        t1 = p.ty(); a = self.operand(p, t1); p.exp(',')
        t2 = p.ty(); b = self.operand(p, t2)
        rt = resolve(t)
        if rt.k == 'vector':
            return ['%s=(%s,)' % (d, ','.join('(%s[%d] if %s[%d] else %s[%d])' % (a, i, c, i, b, i) for i in range(rt.a)))]
        return ['%s=(%s if %s else %s)' % (d, a, c, b)]
    def i_load(self, p, d, l):
        self.flags(p); p.acc('atomic'); self.flags(p)
        t = p.ty(); p.exp(','); pt = p.ty(); a = self.operand(p, pt)
        return ['%s=%s' % (d, self.load_expr(t, a))]
    def i_store(self, p, d, l):
        self.flags(p); p.acc('atomic'); self.flags(p)
        t = p.ty(); v = self.operand(p, t); p.exp(','); pt = p.ty(); a = self.operand(p, pt)
        return self.store_stmt(t, v, a)
    def i_alloca(self, p, d, l):
        p.acc('inalloca')
        t = p.ty(); n = '1'
        if p.acc(',') and p.pk() == 'word' and p.peek()[0] == 'i':
            nt = p.ty(); n = self.operand(p, nt)
        return ['%s=stack_alloc(%d*%s,stk)' % (d, sizeof(t), n)]
    def gep_expr(self, p):
        self.flags(p)
        t = p.ty(); p.exp(',')
        pt = p.ty(); base = self.operand(p, pt)
        idx = []
        while p.acc(','):
            if p.pk() == 'meta':
                break
            p.acc('inrange')
            it = p.ty(); idx.append((it, self.operand(p, it)))
        const = 0; terms = []
        cur = t
        for k, (it, e) in enumerate(idx):
            if k == 0:
                sz = sizeof(t)
            else:
                r = resolve(cur)
                if r.k == 'struct':
                    sizeof(r)
                    const += r.offs[int(e)]
                    cur = r.a[int(e)]
                    continue
                cur = r.b
                sz = sizeof(cur)
            w = resolve(it).a
            if re.fullmatch(r'\d+', e):
                iv = int(e)
                if iv >= 1 << (w-1):
                    iv -= 1 << w
                const += iv*sz
            else:
                if w < 64:
                    e = 'sext(%s,%d,64)' % (e, w)
                terms.append('%s*%d' % (e, sz) if sz != 1 else e)
        return base, terms, const
    def i_getelementptr(self, p, d, l):
        base, terms, const = self.gep_expr(p)
        ex = '+'.join([base] + terms + ([str(const)] if const else []))
        if not terms and const == 0:
            return ['%s=%s' % (d, base)]
        return ['%s=(%s)&0xffffffffffffffff' % (d, ex)]
    def i_extractvalue(self, p, d, l):
        t = p.ty(); a = self.operand(p, t)
        while p.acc(','):
            if p.pk() != 'num':
                break
            a += '[%s]' % p.next()[1]
        return ['%s=%s' % (d, a)]
    def i_insertvalue(self, p, d, l):
        t = p.ty(); a = self.operand(p, t); p.exp(',')
        t2 = p.ty(); b = self.operand(p, t2); p.exp(',')
        k = p.next()[1]
        return ['%s=tupset(%s,%s,%s)' % (d, a, k, b)]
    def i_extractelement(self, p, d, l):
        t = p.ty(); a = self.operand(p, t); p.exp(','); t2 = p.ty(); k = self.operand(p, t2)
        return ['%s=%s[%s]' % (d, a, k)]
    def i_insertelement(self, p, d, l):
        t = p.ty(); a = self.operand(p, t); p.exp(','); t2 = p.ty(); b = self.operand(p, t2); p.exp(',')
        t3 = p.ty(); k = self.operand(p, t3)
        return ['%s=tupset(%s,%s,%s)' % (d, a, k, b)]
    def i_shufflevector(self, p, d, l):
        t = p.ty(); a = self.operand(p, t); p.exp(','); t2 = p.ty(); b = self.operand(p, t2); p.exp(',')
        t3 = p.ty(); m = self.operand(p, t3)
        return ['%s=shuf(%s,%s,%s)' % (d, a, b, m)]
    def i_br(self, p, d, l):
        if p.acc('label'):
            return self.jump(l, p.next()[1][1:].strip('"'))
        t = p.ty(); c = self.operand(p, t); p.exp(','); p.exp('label'); a = p.next()[1][1:].strip('"'); p.exp(',')
        p.exp('label'); b = p.next()[1][1:].strip('"')
        return ['if %s:' % c] + [' '+x for x in self.jump(l, a)] + self.jump(l, b)
    def i_switch(self, p, d, l):
        t = p.ty(); c = self.operand(p, t); p.exp(','); p.exp('label'); dflt = p.next()[1][1:].strip('"')
        p.exp('[')
        r = []
        while not p.acc(']'):
            ct = p.ty(); cv = self.operand(p, ct); p.exp(','); p.exp('label'); lb = p.next()[1][1:].strip('"')
            r += ['if %s==%s:' % (c, cv)] + [' '+x for x in self.jump(l, lb)]
        return r + self.jump(l, dflt)
    def i_ret(self, p, d, l):
        if p.peek() == 'void':
            return ['return']
        t = p.ty(); a = self.operand(p, t)
        return ['return %s' % a]
    def i_unreachable(self, p, d, l):
        return ['raise Unreachable(%r)' % self.name]
    def i_call(self, p, d, l):
        self.flags(p)
        # calling conv / ret attrs
        while p.peek() in ('fastcc', 'ccc', 'coldcc'):
            p.next()
        p.skip_attrs()
        t = p.ty()
        k, callee = p.next()
        if k == 'word' and callee == 'asm':
            return ['%s=UNDEF' % d] if d else ['pass']
        p.exp('(')
        args = []
        while not p.acc(')'):
            at = p.ty(); p.skip_attrs()
            if at.k == 'metadata':
                while p.peek() not in (',', ')'):
                    p.next()
                args.append('None')
            else:
                args.append(self.operand(p, at))
            p.acc(',')
        pre = '%s=' % d if d else ''
        if k == 'glob':
            nm = callee[1:].strip('"')
            if nm.startswith('llvm.lifetime') or nm.startswith('llvm.dbg') or nm.startswith('llvm.experimental.noalias') or nm == 'llvm.assume' or nm.startswith('llvm.prefetch'):
                return ['pass']
            h = self.ex.call_ref(self.mod, nm)
            return ['%s%s(%s)' % (pre, h, ','.join(args))]
        return ['%scall_ptr(%s%s)' % (pre, self.v(callee) if k == 'loc' else callee, ''.join(','+a for a in args))]
