"""Symbolic executor for the translated IR: object memory model, C library
models, path exploration by re-execution, harness API."""
import math, struct, re, os, sys, pickle, hashlib, time
from . import sym, si
from .sym import Sym, CTX, SymError
from .si import SI
from .llir import Module, FuncTranslator, Parser, tokenize, sizeof, alignof, resolve, IRError, hexdbl

SH = 36
OM = (1 << SH)-1
M64 = (1 << 64)-1
UNI = b'\xeb'
UNI_D = struct.unpack('<d', UNI*8)[0]
NAN = float('nan'); INF = float('inf')

class MemErr(Exception):
    pass
class Unreachable(Exception):
    pass
class SgridExit(Exception):
    pass
class PathEnd(Exception):
    pass
class Infeasible(Exception):
    pass
class Budget(Exception):
    pass

class Obj:
    __slots__ = ('b', 's', 'n', 'name', 'kind', 'si')
    def __init__(self, n, name, kind, fill=UNI):
        self.n = n; self.name = name; self.kind = kind
        self.b = bytearray(fill*n) if fill != b'\0' else bytearray(n)
        self.s = None; self.si = None

class Exec:
    def __init__(self, paths, solver, floatmode=False, vlibc=None):
        self.vlibc = vlibc; self.hmod = None
        """paths: list of .ll files (harness first)"""
        self.solver = solver
        self.mods = {}
        self.index = {}
        self.paths = paths
        self.gaddr = {}
        self.ginit = {}
        self.faddr = {}
        self.fname_of = {}
        self.modid = {}
        self.nglob = 1
        self.objs = {}
        self.ns = {}
        self.used = set()
        self.setup_index()
        self.make_rt()
        self.fs0 = {}
        self.fn_calls = 0
        self.stop_at = None

    # ---------------------------------------------------------- modules
    def setup_index(self):
        for p in self.paths:
            cf = p + '.idx'
            try:
                defs = pickle.load(open(cf, 'rb'))
            except Exception:
                defs = []
                for l in open(p):
                    if l[0] == '@':
                        m = re.match(r'@("[^"]*"|[-\w.$]+) = (.*)', l)
                        if m and not re.match(r'(private|internal|external)\b', m.group(2)):
                            defs.append(m.group(1).strip('"'))
                    elif l.startswith('define'):
                        m = re.search(r'@("[^"]*"|[-\w.$]+)\(', l)
                        if not re.match(r'define (internal|private)', l):
                            defs.append(m.group(1).strip('"'))
                try:
                    t = cf + '.%d' % os.getpid()
                    pickle.dump(defs, open(t, 'wb')); os.rename(t, cf)
                except OSError:
                    pass
            for d in defs:
                self.index.setdefault(d, p)
    def mod(self, p):
        m = self.mods.get(p)
        if m is None:
            m = Module(p, os.path.basename(p)[:-3])
            self.mods[p] = m
            self.modid[m] = len(self.modid)
        return m
    def find(self, mod, name):
        """(module, name) defining the symbol, or None if external"""
        if name in mod.internal or name in mod.funcs:
            return mod
        p = self.index.get(name)
        if p is None:
            return None
        return self.mod(p)

    # ---------------------------------------------------------- globals
    def global_addr(self, mod, name):
        d = self.find(mod, name)
        key = (d.path if d is not None and (name in d.internal) else None, name)
        a = self.gaddr.get(key)
        if a is not None:
            return a
        if d is not None and name in d.funcs or d is None and (name in mod.decls):
            a = self.func_addr(d, mod, name)
            self.gaddr[key] = a
            return a
        oid = self.nglob; self.nglob += 1
        a = oid << SH
        self.gaddr[key] = a
        if d is None:   # external data (stdout, stderr, ...)
            o = Obj(64, name, 'global', b'\0')
            o.b[0:8] = (a).to_bytes(8, 'little')
            self.ginit[oid] = (bytes(o.b), name)
            self.objs[oid] = o
            return a
        text = d.globals[name]
        toks = tokenize(text)
        p = Parser(toks, d)
        const = False
        while True:
            v = p.peek()
            if v in ('global', 'constant'):
                const = v == 'constant'
                p.next(); break
            p.next()
            if v in ('thread_local', 'addrspace') and p.acc('('):
                while not p.acc(')'): p.next()
        t = p.ty()
        n = sizeof(t)
        o = Obj(n, name, 'global', b'\0')
        self.objs[oid] = o
        if p.i < len(toks) and p.peek() not in (',', ):
            self.const_init(o, 0, t, p, d)
        self.ginit[oid] = (bytes(o.b), name)
        return a
    def func_addr(self, d, mod, name):
        key = (d.path if d is not None and name in d.internal else None, name)
        a = self.faddr.get(key)
        if a is None:
            oid = self.nglob; self.nglob += 1
            a = oid << SH
            self.faddr[key] = a
            o = Obj(1, name, 'func', b'\0')
            self.objs[oid] = o
            self.ginit[oid] = (b'\0', name)
            self.fname_of[oid] = self.call_ref(d or mod, name)
            o.kind = 'func'
        return a
    def const_init(self, o, off, t, p, mod):
        rt = resolve(t)
        k, s = p.next()
        if s == 'zeroinitializer' or s == 'null' or s in ('undef', 'poison'):
            return
        if k == 'cstr':
            b = s[2:-1]
            out = bytearray(); i = 0
            while i < len(b):
                if b[i] == '\\':
                    out.append(int(b[i+1:i+3], 16)); i += 3
                else:
                    out += b[i].encode('latin1', 'replace') if ord(b[i]) < 256 else b[i].encode(); i += 1
            o.b[off:off+len(out)] = out
            return
        if s in ('[', '{') or (s == '<'):
            end = {'[': ']', '{': '}', '<': '>'}[s]
            if s == '<' and p.peek() == '{':
                p.next(); end = '}'
            j = 0
            if rt.k == 'struct':
                sizeof(rt)
            while not p.acc(end):
                et = p.ty()
                eo = rt.offs[j] if rt.k == 'struct' else j*sizeof(rt.b)
                self.const_init(o, off+eo, et, p, mod)
                j += 1
                p.acc(',')
            if s == '<' and end == '}':
                p.acc('>')
            return
        if k in ('num', 'hex'):
            if rt.k == 'double':
                o.b[off:off+8] = struct.pack('<d', hexdbl(s) if s.startswith('0x') else float(s))
            elif rt.k == 'float':
                o.b[off:off+4] = struct.pack('<f', hexdbl(s) if s.startswith('0x') else float(s))
            elif rt.k == 'fp80':
                pass
            else:
                n = sizeof(rt)
                o.b[off:off+n] = (int(s) & ((1 << (8*n))-1)).to_bytes(n, 'little')
            return
        if s in ('true', 'false'):
            o.b[off] = 1 if s == 'true' else 0
            return
        p.i -= 1
        v = self.constexpr(p, t, mod) if k != 'glob' else self.global_addr(mod, p.next()[1][1:].strip('"'))
        n = sizeof(rt)
        o.b[off:off+n] = v.to_bytes(n, 'little')
    def constexpr(self, p, t, mod):
        k, s = p.next()
        if k == 'glob':
            return self.global_addr(mod, s[1:].strip('"'))
        if k == 'num':
            return int(s) & M64
        if s == 'null' or s == 'zeroinitializer':
            return 0
        if s == 'getelementptr':
            while p.peek() in ('inbounds', 'nuw', 'nusw', 'inrange'):
                if p.next()[1] == 'inrange' and p.acc('('):
                    while not p.acc(')'): p.next()
            p.exp('(')
            bt = p.ty(); p.exp(',')
            pt = p.ty(); base = self.constexpr(p, pt, mod)
            cur = bt; n = 0
            while p.acc(','):
                p.acc('inrange')
                it = p.ty(); i = int(self.constexpr(p, it, mod))
                w = resolve(it).a
                if i >= 1 << (w-1): i -= 1 << 64 if i >= 1 << 63 else 1 << w
                if n == 0:
                    base += i*sizeof(bt)
                else:
                    r = resolve(cur)
                    if r.k == 'struct':
                        sizeof(r); base += r.offs[i]; cur = r.a[i]
                    else:
                        cur = r.b; base += i*sizeof(cur)
                n += 1
            p.exp(')')
            return base & M64
        if s in ('bitcast', 'inttoptr', 'ptrtoint', 'addrspacecast', 'trunc', 'zext'):
            p.exp('('); t1 = p.ty(); v = self.constexpr(p, t1, mod); p.exp('to'); p.ty(); p.exp(')')
            return v
        if s in ('sub', 'add'):
            while p.peek() in ('nuw', 'nsw'): p.next()
            p.exp('('); t1 = p.ty(); a = self.constexpr(p, t1, mod); p.exp(','); t2 = p.ty(); b = self.constexpr(p, t2, mod); p.exp(')')
            return (a-b if s == 'sub' else a+b) & M64
        raise IRError('constexpr %s' % s)

    def reset(self):
        self.lastout = []
        objs = self.objs
        objs.clear()
        for oid, (b, name) in self.ginit.items():
            o = Obj(0, name, 'func' if oid in self.fname_of else 'global')
            o.n = len(b); o.b = bytearray(b)
            objs[oid] = o
        self.nheap = 1 << 20
        self.steps = 0
        self.fs = {k: bytearray(v) for k, v in self.fs0.items()}
        self.files = {}
        self.dirs = set()
        self.errno_addr = None
        self.exit_ok = False
        self.out = []
        self.symtab = []
        self.strtok_save = 0
        self.events = []
        self.notes = {}
        self.fssi = {}
        si._ctx[0] = self
        self.plans = {}
        self.symtab = []

    # ---------------------------------------------------------- functions
    def call_ref(self, mod, name):
        hm = self.hmod
        if hm is not None and name in hm.funcs and (mod is hm or name not in hm.internal and name not in mod.internal):
            d = hm            # stand-ins defined by the harness
        else:
            ov = self.overrides.get(name)
            if ov is not None:
                return ov
            d = self.find(mod, name)
        if d is not None and name in d.funcs:
            fn = 'F%d_%s' % (self.modid[d], re.sub(r'\W', '_', name))
            if fn not in self.ns:
                self.ns[fn] = self.stub(d, name, fn)
            return fn
        fn = 'X_' + re.sub(r'\W', '_', name)
        base = name
        if fn not in self.ns:
            # intrinsics with type suffixes
            m = re.match(r'llvm\.(\w+)', name)
            if m and 'XI_' + m.group(1) in self.ns:
                return 'XI_' + m.group(1)
            def missing(*a, **k):
                raise IRError('external function not modelled: %s' % name)
            self.ns[fn] = missing
        return fn
    def stub(self, d, name, fn):
        def tramp(*a):
            return self.compile(d, name, fn)(*a)
        return tramp
    def compile(self, d, name, fn):
        tr = FuncTranslator(self, d, name)
        f0, src, params, va = tr.translate()
        src = src.replace('def %s(' % f0, 'def %s(' % fn, 1)
        self.used.add((d.name, name))
        try:
            code = compile(src, '<%s:%s>' % (d.name, name), 'exec')
        except SyntaxError as e:
            raise IRError('translation of %s: %s\n%s' % (name, e, src[:3000]))
        exec(code, self.ns)
        return self.ns[fn]

    # ---------------------------------------------------------- memory helpers
    def alloc(self, n, name='heap', fill=UNI, kind='heap'):
        n = int(n)
        oid = self.nheap; self.nheap += 1
        self.objs[oid] = Obj(n, name, kind, fill)
        return oid << SH
    def obj(self, p, n=0):
        if type(p) is SI: p = p.conc()
        if type(n) is SI: n = n.conc()
        o = self.objs.get(p >> SH)
        off = p & OM
        if o is None:
            self.bad(p, n, None)
        if off+n > o.n:
            self.bad(p, n, o)
        return o, off
    def bad(self, p, n, o):
        if p >> SH == 0:
            raise MemErr('null pointer access (address 0x%x)' % p)
        if o is None:
            raise MemErr('access to a freed or invalid object (address 0x%x)' % p)
        raise MemErr('access of %d bytes at offset %d of %s object %s of size %d' % (n, p & OM, o.kind, o.name, o.n))
    def symbytes(self, p):
        """does the object behind p hold symbolic bytes"""
        p = int(p)
        o = self.objs.get(p >> SH)
        return o is not None and bool(o.si)
    def cstr(self, p):
        if type(p) is SI: p = p.conc()
        o, off = self.obj(p, 1)
        if o.si:
            for i in range(off, o.n):
                x = o.si.pop(i, None)
                if x is not None: o.b[i] = int(si.byte(*x)) & 255
                if o.b[i] == 0: break
        e = o.b.find(0, off)
        if e < 0:
            self.bad((p >> SH << SH)+o.n, 1, o)
        return o.b[off:e].decode('latin1')
    def cstr_n(self, p, n):
        """at most n characters: the string need not end before"""
        if n <= 0: return ''
        if type(p) is SI: p = p.conc()
        o, off = self.obj(p, 1)
        if n <= o.n-off and o.b.find(0, off, off+n) < 0 and not (o.si and any(off <= k < off+n for k in o.si)):
            return o.b[off:off+n].decode('latin1')
        return self.cstr(p)[:n]
    def put_str(self, p, s, nul=True):
        b = s.encode('latin1', 'replace') + (b'\0' if nul else b'')
        o, off = self.obj(int(p), len(b))
        if o.si:
            for i in range(off, off+len(b)): o.si.pop(i, None)
        o.b[off:off+len(b)] = b

    # ---------------------------------------------------------- symbolic branch
    def decide(self, diff, op):
        """truth of  diff op 0  on this path (op: '<','<=','==')"""
        return self.solver.decide(diff, op)

    # ---------------------------------------------------------- runtime namespace
    def make_rt(self):
        ns = self.ns
        objs = self.objs
        unpack_d = struct.Struct('<d').unpack_from
        pack_d = struct.Struct('<d').pack_into
        unpack_f = struct.Struct('<f').unpack_from
        pack_f = struct.Struct('<f').pack_into
        frb = int.from_bytes
        bad = self.bad
        ex = self
        def ldd(p):
            if type(p) is SI: p = p.conc()
            o = objs.get(p >> SH)
            off = p & OM
            if o is None or off+8 > o.n:
                bad(p, 8, o)
            s = o.s
            if s is not None:
                v = s.get(off)
                if v is not None:
                    return v
            if o.si: concbytes(o, off, 8)
            v = unpack_d(o.b, off)[0]
            if v == UNI_D:
                v = ex.uninit(o, off)
            return v
        def concbytes(o, off, n):
            for i in range(off, off+n):
                x = o.si.pop(i, None)
                if x is not None: o.b[i] = int(si.byte(*x)) & 255
        def std(p, v):
            if type(p) is SI: p = p.conc()
            o = objs.get(p >> SH)
            off = p & OM
            if o is None or off+8 > o.n:
                bad(p, 8, o)
            if o.si:
                for i in range(off, off+8): o.si.pop(i, None)
            if type(v) is Sym:
                if o.s is None: o.s = {}
                o.s[off] = v
            else:
                if o.s is not None: o.s.pop(off, None)
                try:
                    pack_d(o.b, off, v)
                except OverflowError:
                    pack_d(o.b, off, INF)
        def ldi(p, n):
            if type(p) is SI: p = p.conc()
            o = objs.get(p >> SH)
            off = p & OM
            if o is None or off+n > o.n:
                bad(p, n, o)
            if o.si:
                g = o.si.get(off)
                if g is not None and g[1] == 0 and g[2] == n and (n == 1 or all((lambda h: h is not None and h[0] is g[0] and h[1] == i and h[2] == n)(o.si.get(off+i)) for i in range(1, n))):
                    return g[0]
                if any(off+i in o.si for i in range(n)):
                    return si.join([si.byte(*o.si[off+i]) if off+i in o.si else o.b[off+i] for i in range(n)])
            if o.s is not None and n == 8:
                v = o.s.get(off)
                if v is not None:
                    return v
            return frb(o.b[off:off+n], 'little')
        def sti(p, v, n):
            if type(p) is SI: p = p.conc()
            o = objs.get(p >> SH)
            off = p & OM
            if o is None or off+n > o.n:
                bad(p, n, o)
            if type(v) is SI:
                if v.cv is not None: v = v.cv & ((1 << 8*n)-1)
                else:
                    if o.si is None: o.si = {}
                    for i in range(n): o.si[off+i] = (v, i, n)
                    if o.s: o.s.pop(off, None)
                    return
            if o.si:
                for i in range(off, off+n): o.si.pop(i, None)
            if type(v) is Sym:
                if o.s is None: o.s = {}
                o.s[off] = v
                return
            if o.s: o.s.pop(off, None)
            o.b[off:off+n] = int(v).to_bytes(n, 'little')
        def ldf(p):
            o, off = ex.obj(p, 4)
            return unpack_f(o.b, off)[0]
        def stf(p, v):
            o, off = ex.obj(p, 4)
            if type(v) is Sym: raise SymError('float store of symbolic')
            pack_f(o.b, off, v)
        def ldx(p):
            o, off = ex.obj(p, 16)
            if o.s and off in o.s: return o.s[off]
            return unpack_d(o.b, off)[0]
        def stx(p, v):
            o, off = ex.obj(p, 16)
            if type(v) is Sym:
                o.s = o.s or {}; o.s[off] = v
            else:
                if o.s: o.s.pop(off, None)
                pack_d(o.b, off, v)
        def sext(a, w1, w2):
            if type(a) is SI: return si.sext(a, w1, w2)
            return a | (((1 << w2)-1) ^ ((1 << w1)-1)) if a >> (w1-1) & 1 else a
        def sitofp(a, w):
            if type(a) is SI: a = a.conc()
            return float(a-(1 << w)) if a >> (w-1) & 1 else float(a)
        def fptosi(a, w):
            if type(a) is Sym:
                c = sym.const_of(a)
                if c is None:
                    return ex.fptosi_sym(a, w)
                a = c
            if a != a or abs(a) == INF or abs(a) >= 2.0**(w-1)*1.5:
                return 1 << (w-1)
            return int(a) & ((1 << w)-1)
        def s_(a, w):
            return a-(1 << w) if a >> (w-1) & 1 else a
        def sdiv(a, b, w):
            if type(a) is SI or type(b) is SI:
                if b == 0: raise MemErr('integer division by zero')
                return si.div(a, b, w, False)
            a = s_(a, w); b = s_(b, w)
            if b == 0: raise MemErr('integer division by zero')
            q = abs(a)//abs(b)
            return (q if (a < 0) == (b < 0) else -q) & ((1 << w)-1)
        def srem(a, b, w):
            if type(a) is SI or type(b) is SI:
                if b == 0: raise MemErr('integer remainder by zero')
                return si.div(a, b, w, True)
            a = s_(a, w); b = s_(b, w)
            if b == 0: raise MemErr('integer remainder by zero')
            r = abs(a) % abs(b)
            return (-r if a < 0 else r) & ((1 << w)-1)
        def udiv(a, b):
            if b == 0: raise MemErr('integer division by zero')
            if type(a) is SI or type(b) is SI: return si.mk(si.z3.UDiv(si.v(a), si.v(b)))
            return a//b
        def urem(a, b):
            if b == 0: raise MemErr('integer remainder by zero')
            if type(a) is SI or type(b) is SI: return si.mk(si.z3.URem(si.v(a), si.v(b)))
            return a % b
        def ashr(a, b, w):
            if type(a) is SI or type(b) is SI: return si.ashr(a, b, w)
            return (s_(a, w) >> b) & ((1 << w)-1)
        def fdiv(a, b):
            if type(a) is Sym or type(b) is Sym:
                if type(b) is not Sym:
                    if b == 0: raise PathEnd('division of a symbolic value by zero')
                    if abs(b) == INF: return 0.0
                return sym.vdiv(a, b)
            try:
                return a/b
            except ZeroDivisionError:
                if a == 0 or a != a: return NAN
                return INF if (a > 0) == (math.copysign(1, b) > 0) else -INF
        def mkcmp(pred):
            un = pred[0] == 'u'
            op = pred[1:]
            def f(a, b):
                if type(a) is Sym or type(b) is Sym:
                    if pred == 'ord': return True
                    if pred == 'uno': return False
                    if type(a) is not Sym and (a != a) or type(b) is not Sym and (b != b):
                        return un
                    for x, sgn in ((a, 1), (b, -1)):
                        if type(x) is not Sym and abs(x) == INF:
                            s = sgn*x   # sign of a-b
                            return {'lt': s < 0, 'le': s < 0, 'gt': s > 0, 'ge': s > 0, 'eq': False, 'ne': True}[op]
                    d = a-b
                    if type(d) is not Sym:
                        return {'lt': d < 0, 'le': d <= 0, 'gt': d > 0, 'ge': d >= 0, 'eq': d == 0, 'ne': d != 0}[op]
                    if op == 'lt': return ex.decide(d, '<')
                    if op == 'le': return ex.decide(d, '<=')
                    if op == 'gt': return not ex.decide(d, '<=')
                    if op == 'ge': return not ex.decide(d, '<')
                    if op == 'eq': return ex.decide(d, '==')
                    return not ex.decide(d, '==')
                nan = a != a or b != b
                if pred == 'ord': return not nan
                if pred == 'uno': return nan
                if nan: return un
                return (a < b if op == 'lt' else a <= b if op == 'le' else a > b if op == 'gt' else a >= b if op == 'ge' else a == b if op == 'eq' else a != b)
            return f
        for pr in ('oeq', 'one', 'olt', 'ole', 'ogt', 'oge', 'ueq', 'une', 'ult', 'ule', 'ugt', 'uge', 'ord', 'uno'):
            ns['fcmp_' + pr] = mkcmp(pr)
        def undef_double():
            return ex.fresh('undef')
        def stack_alloc(n, stk):
            n = s_(int(n) & M64, 64)
            if n < 0: raise MemErr('negative VLA size')
            oid = ex.nheap; ex.nheap += 1
            objs[oid] = Obj(n, 'local', 'stack')
            stk.append(oid)
            return oid << SH
        def stack_free(stk):
            for o in stk:
                objs.pop(o, None)
        def tupset(t, v, k):
            l = list(t); l[int(k)] = v
            return tuple(l)
        def shuf(a, b, m):
            c = tuple(a)+tuple(b)
            return tuple(c[i] for i in m)
        def call_ptr(a, *args):
            if type(a) is SI: a = a.conc()
            fn = ex.fname_of.get(a >> SH)
            if fn is None:
                raise MemErr('call through invalid function pointer 0x%x' % a)
            f = ns[fn]
            try:
                return f(*args)
            except TypeError as e:
                n = f.__code__.co_argcount
                if len(args) > n and f.__code__.co_name[0] == 'F':
                    return f(*args[:n])
                raise
        def d2i(a):
            if type(a) is Sym: return a
            return frb(struct.pack('<d', a), 'little')
        def i2d(a):
            if type(a) is Sym: return a
            return struct.unpack('<d', a.to_bytes(8, 'little'))[0]
        def f2i(a):
            if type(a) is Sym: return a
            return frb(struct.pack('<f', a), 'little')
        def i2f(a):
            if type(a) is Sym: return a
            return struct.unpack('<f', (a & 0xffffffff).to_bytes(4, 'little'))[0]
        def fr(a):
            if type(a) is Sym: return a
            return struct.unpack('<f', struct.pack('<f', a))[0]
        def vcast(a, t1, t2):
            bs = b''
            els = a if t1[0] else (a,)
            for e in els:
                bs += struct.pack('<d', e) if t1[1] == 'double' else int(e).to_bytes(t1[2]//8, 'little')
            n = t2[0] or 1
            sz = len(bs)//n; r = []
            for i in range(n):
                x = bs[i*sz:(i+1)*sz]
                r.append(struct.unpack('<d', x)[0] if t2[1] == 'double' else frb(x, 'little'))
            return tuple(r) if t2[0] else r[0]
        ns.update(f2i=f2i, i2f=i2f, ldd=ldd, std=std, ldi=ldi, sti=sti, ldf=ldf, stf=stf, ldx=ldx, stx=stx, sext=sext, sitofp=sitofp,
                  fptosi=fptosi, sdiv=sdiv, srem=srem, udiv=udiv, urem=urem, ashr=ashr, fdiv=fdiv, undef_double=undef_double,
                  UNDEF=0, NAN=NAN, INF=INF, stack_alloc=stack_alloc, stack_free=stack_free, tupset=tupset, shuf=shuf,
                  call_ptr=call_ptr, d2i=d2i, i2d=i2d, fr=fr, fptrunc=fr, vcast=vcast, Unreachable=Unreachable, math=math, Sym=Sym)
        self.overrides = {}
        from . import clib
        clib.install(self)

    def fresh(self, nm):
        v = CTX.new('%s%d' % (nm, len(CTX.vars)), 'uninit')
        return sym.var(v)
    def uninit(self, o, off):
        v = self.fresh('uninit_%s_%d_' % (o.name, off))
        if o.s is None: o.s = {}
        o.s[off] = v
        return v
    def fptosi_sym(self, a, w):
        """(int) of a symbolic double: truncation; enumerate feasible values within a small range"""
        if self.decide(a, '<'):
            raise SymError('conversion of negative symbolic value to int')
        for k in range(0, 4096):
            if self.decide(a-float(k+1), '<'):
                return k
        raise SymError('symbolic to int out of range')
