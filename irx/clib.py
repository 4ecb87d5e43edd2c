"""Models of the C library, LLVM intrinsics, FFTW3 (by its documented
transform definitions) and the harness API, for the symbolic executor."""
import math, re
from . import sym, si
from .sym import Sym, CTX, SymError, atom
from .si import SI

def install(ex):
    from .symex import MemErr, SgridExit, PathEnd, IRError, Obj, SH, OM, M64, UNI, NAN, INF
    ns = ex.ns
    objs = ex.objs
    def s32(a): return si.sgn(a, 32) if type(a) is SI else a-(1 << 32) if a >> 31 & 1 else a
    def s64(a): return si.sgn(a, 64) if type(a) is SI else a-(1 << 64) if a >> 63 & 1 else a
    def X(name):
        def d(f):
            ns['X_'+name] = f
            ex.overrides.setdefault(name, 'X_'+name)
            return f
        return d
    def XI(name):
        def d(f):
            ns['XI_'+name] = f
            return f
        return d
    # ------------------------------------------------------------ math
    def m1(name, f):
        def g(a):
            try:
                return f(a)
            except (ValueError, ZeroDivisionError):
                return NAN
            except OverflowError:
                return INF
        ns['X_'+name] = g; ex.overrides[name] = 'X_'+name
        ns['XI_'+name] = g
    def fsqrt(a):
        if type(a) is Sym:
            if ex.decide(a, '<'): raise PathEnd('sqrt of negative symbolic value')
            return sqrt_abs(a)
        return math.sqrt(a)
    def sqrt_abs(a):
        # sqrt(c*x^2) = |x|*sqrt(c)
        if len(a.p) == 1:
            (m, c), = a.p.items()
            if m and all(e % 2 == 0 for v, e in m) and type(c) is not float and sym.isqrt_rat(c) is not None:
                r = sym.Sym({tuple((v, e//2) for v, e in m): sym.isqrt_rat(c)})
                return fabs(r)
        if type(next(iter(a.p.values()))) is not float:
            k, mon, q = sym.content(a.p)
            if mon and all(e % 2 == 0 for v, e in mon):
                half = fabs(sym.Sym({tuple((v, e//2) for v, e in mon): 1}))
                return half*sym.vsqrt(sym.simp({m: c*k for m, c in q.items()}))
        return sym.vsqrt(a)
    def fabs(a):
        if type(a) is Sym:
            if nonneg(a): return a
            return -a if ex.decide(a, '<') else a
        return abs(a)
    def nonneg(a):
        for m, c in a.p.items():
            if c < 0: return False
            for v, e in m:
                if e % 2 and not (CTX.vars[v].lo is not None and CTX.vars[v].lo >= 0): return False
        return True
    m1('sqrt', fsqrt)
    ns['X_fabs'] = ns['XI_fabs'] = fabs; ex.overrides['fabs'] = 'X_fabs'
    for nm, f in (('sin', sym.vsin), ('cos', sym.vcos), ('tan', sym.vtan), ('atan', sym.vatan), ('acos', sym.vacos), ('asin', sym.vasin),
                  ('exp', sym.vexp), ('log', sym.vlog), ('sinh', sym.vsinh), ('cosh', sym.vcosh), ('tanh', sym.vtanh), ('erf', sym.verf)):
        m1(nm, f)
    def log10(a):
        if type(a) is Sym: return sym.vlog(a)*(1.0/math.log(10.0))
        return math.log10(a) if a > 0 else -INF if a == 0 else NAN
    m1('log10', log10)
    m1('log2', lambda a: math.log2(a) if a > 0 else -INF)
    def atan2(y, x):
        return sym.vatan2(y, x)
    ns['X_atan2'] = atan2; ex.overrides['atan2'] = 'X_atan2'
    def power(a, b):
        if type(a) is Sym or type(b) is Sym:
            if type(a) is Sym and type(b) is not Sym and b != int(b):
                if ex.decide(a, '<'): raise PathEnd('pow of negative symbolic value')
            return sym.vpow(a, b)
        try: return math.pow(a, b)
        except ZeroDivisionError: return INF
        except ValueError: return NAN if a != 0 else INF
        except OverflowError: return INF
    ns['X_pow'] = ns['XI_pow'] = power; ex.overrides['pow'] = 'X_pow'
    ns['XI_powi'] = lambda a, n: power(a, float(s32(n)))
    def fmod(a, b):
        if type(a) is Sym or type(b) is Sym: raise SymError('fmod of symbolic')
        return math.fmod(a, b)
    ns['X_fmod'] = fmod; ex.overrides['fmod'] = 'X_fmod'
    def fmax(a, b): return b if ns['fcmp_olt'](a, b) else a
    def fmin(a, b): return a if ns['fcmp_olt'](a, b) else b
    for n, f in (('fmax', fmax), ('fmin', fmin)):
        ns['X_'+n] = f; ex.overrides[n] = 'X_'+n
    ns['XI_maxnum'] = fmax; ns['XI_minnum'] = fmin
    ns['XI_fmuladd'] = lambda a, b, c: a*b+c
    ns['XI_fma'] = lambda a, b, c: a*b+c
    def floor(a):
        if type(a) is Sym: raise SymError('floor of symbolic')
        return float(math.floor(a)) if abs(a) < 1e300 else a
    def ceil(a):
        if type(a) is Sym: raise SymError('ceil of symbolic')
        return float(math.ceil(a)) if abs(a) < 1e300 else a
    m1('floor', floor); m1('ceil', ceil)
    def trunc(a):
        if type(a) is Sym: raise SymError('trunc of symbolic')
        return float(math.trunc(a))
    m1('trunc', trunc)
    m1('rint', lambda a: float(round(a)))
    m1('round', lambda a: math.floor(abs(a)+0.5)*math.copysign(1, a))
    ns['XI_copysign'] = lambda a, b: (math.copysign(a, b) if type(a) is not Sym and type(b) is not Sym else (lambda x: -x if ex.decide(b, '<') else x)(fabs(a)) if type(b) is Sym else fabs(a)*(math.copysign(1, b)))
    # Bessel functions etc. are not modelled on symbolic arguments
    def iop(f):
        return f
    def w_of(a): return a
    XI('smax')(lambda a, b: a if s32(a) > s32(b) else b) 
    XI('smin')(lambda a, b: a if s32(a) < s32(b) else b)
    XI('umax')(lambda a, b: max(a, b))
    XI('umin')(lambda a, b: min(a, b))
    def iabs(a, f=0): return (-s32(a)) & 0xffffffff if s32(a) < 0 else a
    XI('abs')(iabs)
    XI('is')(lambda a, k: 0)          # is.fpclass / is.constant
    XI('expect')(lambda a, b: a)
    XI('objectsize')(lambda *a: M64)
    XI('stacksave')(lambda *a: 0)
    XI('stackrestore')(lambda *a: None)
    XI('trap')(lambda *a: (_ for _ in ()).throw(MemErr('trap')))
    XI('threadlocal')(lambda a: a)
    XI('fshl')(lambda a, b, c: ((a << (c & 31)) | (b >> (32-(c & 31)))) & 0xffffffff)
    XI('bswap')(lambda a: a)
    XI('ctpop')(lambda a: bin(a).count('1'))
    ns['X_abs'] = iabs; ex.overrides['abs'] = 'X_abs'
    # distinguish 64-bit smax etc.
    base_ref = ex.call_ref
    def call_ref(mod, name):
        m = re.match(r'llvm\.(smax|smin|abs)\.i64', name)
        if m: return 'XJ_' + m.group(1)
        m = re.match(r'llvm\.bswap\.i(\d+)', name)
        if m: return 'XB_' + m.group(1)
        m = re.match(r'llvm\.fsh([lr])\.i(\d+)', name)
        if m: return 'XS_%s%s' % m.groups()
        if re.match(r'llvm\.usub\.sat\.i(32|64)', name): return 'XJ_usubsat'
        return base_ref(mod, name)
    ex.call_ref = call_ref
    ns['XJ_smax'] = lambda a, b: a if s64(a) > s64(b) else b
    ns['XJ_usubsat'] = lambda a, b: a-b if a > b else 0
    ns['XJ_smin'] = lambda a, b: a if s64(a) < s64(b) else b
    ns['XJ_abs'] = lambda a, f=0: (-s64(a)) & M64 if s64(a) < 0 else a
    for w in (16, 32, 64):
        ns['XB_%d' % w] = lambda a, w=w: int.from_bytes(a.to_bytes(w//8, 'little'), 'big')
        ns['XS_l%d' % w] = lambda a, b, c, w=w: ((a << (c % w)) | (b >> (w-(c % w)))) & ((1 << w)-1)
    # ------------------------------------------------------------ memory
    @X('malloc')
    def malloc(n): return ex.alloc(n)
    @X('calloc')
    def calloc(a, b): return ex.alloc(a*b, 'heap', b'\0')
    @X('free')
    def free(p):
        p = int(p)
        if p == 0: return
        o = objs.get(p >> SH)
        if o is None: raise MemErr('free() of an invalid or already freed pointer')
        if o.kind != 'heap' or p & OM: raise MemErr('free() of a non-heap pointer (%s %s)' % (o.kind, o.name))
        del objs[p >> SH]
    @X('realloc')
    def realloc(p, n):
        p = int(p); n = int(n)
        if p == 0: return ex.alloc(n)
        o = objs.get(p >> SH)
        if o is None or o.kind != 'heap' or p & OM: raise MemErr('realloc() of an invalid pointer')
        q = ex.alloc(n)
        q_ = objs[q >> SH]
        k = min(n, o.n)
        q_.b[:k] = o.b[:k]
        if o.s: q_.s = {f: v for f, v in o.s.items() if f+8 <= k}
        if o.si: q_.si = {f: v for f, v in o.si.items() if f < k}
        del objs[p >> SH]
        return q
    @X('memcpy')
    def memcpy(d, s, n, *a):
        n = int(n); d = int(d); s = int(s)
        if n == 0: return d
        so, sf = ex.obj(s, n); do, df = ex.obj(d, n)
        data = bytes(so.b[sf:sf+n])
        sy = {f-sf+df: v for f, v in so.s.items() if sf <= f < sf+n} if so.s else None
        sb = {f-sf+df: v for f, v in so.si.items() if sf <= f < sf+n} if so.si else None
        do.b[df:df+n] = data
        if do.si:
            for f in [f for f in do.si if df <= f < df+n]: del do.si[f]
        if sb:
            if do.si is None: do.si = {}
            do.si.update(sb)
        if do.s:
            for f in [f for f in do.s if df <= f < df+n]: del do.s[f]
        if sy:
            if do.s is None: do.s = {}
            do.s.update(sy)
        return d
    ns['XI_memcpy'] = ns['XI_memmove'] = memcpy
    ns['X_memmove'] = memcpy; ex.overrides['memmove'] = 'X_memmove'
    ns['X___memcpy_chk'] = memcpy; ex.overrides['__memcpy_chk'] = 'X___memcpy_chk'
    @X('memset')
    def memset(d, c, n, *a):
        n = int(n); d = int(d); c = int(c)
        if n == 0: return d
        o, f = ex.obj(d, n)
        o.b[f:f+n] = bytes([c & 255])*n
        if o.si:
            for k in [k for k in o.si if f <= k < f+n]: del o.si[k]
        if o.s:
            for k in [k for k in o.s if f <= k < f+n]: del o.s[k]
        return d
    ns['XI_memset'] = memset
    @X('memcmp')
    def memcmp(a, b, n):
        ao, af = ex.obj(a, n); bo, bf = ex.obj(b, n)
        x = bytes(ao.b[af:af+n]); y = bytes(bo.b[bf:bf+n])
        return 0 if x == y else 1 if x > y else 0xffffffff
    # ------------------------------------------------------------ strings
    cstr = ex.cstr; put = ex.put_str
    @X('strlen')
    def strlen(p): return len(cstr(p))
    def sgn(x): return x & 0xffffffff
    @X('strcmp')
    def strcmp(a, b):
        x = cstr(a); y = cstr(b)
        return 0 if x == y else 1 if x > y else 0xffffffff
    @X('strncmp')
    def strncmp(a, b, n):
        x = ex.cstr_n(a, n); y = ex.cstr_n(b, n)
        return 0 if x == y else 1 if x > y else 0xffffffff
    @X('strcasecmp')
    def strcasecmp(a, b):
        x = cstr(a).lower(); y = cstr(b).lower()
        return 0 if x == y else 1 if x > y else 0xffffffff
    @X('strcpy')
    def strcpy(d, s): put(d, cstr(s)); return d
    @X('stpcpy')
    def stpcpy(d, s): t = cstr(s); put(d, t); return d+len(t)
    @X('strncpy')
    def strncpy(d, s, n):
        t = ex.cstr_n(s, n)
        put(d, t + '\0'*(n-len(t)), False); return d
    @X('strcat')
    def strcat(d, s): put(d+len(cstr(d)), cstr(s)); return d
    @X('strncat')
    def strncat(d, s, n): put(d+len(cstr(d)), ex.cstr_n(s, n)); return d
    @X('strchr')
    def strchr(p, c):
        t = cstr(p)+'\0'
        i = t.find(chr(c & 255))
        return p+i if i >= 0 else 0
    @X('strrchr')
    def strrchr(p, c):
        t = cstr(p)+'\0'
        i = t.rfind(chr(c & 255))
        return p+i if i >= 0 else 0
    @X('strstr')
    def strstr(p, q):
        i = cstr(p).find(cstr(q))
        return p+i if i >= 0 else 0
    @X('strspn')
    def strspn(p, q):
        s = cstr(p); t = cstr(q); n = 0
        while n < len(s) and s[n] in t: n += 1
        return n
    @X('strcspn')
    def strcspn(p, q):
        s = cstr(p); t = cstr(q); n = 0
        while n < len(s) and s[n] not in t: n += 1
        return n
    @X('strdup')
    def strdup(p):
        t = cstr(p); q = ex.alloc(len(t)+1); put(q, t); return q
    def tok(s, d, get, setv):
        if s == 0: s = get()
        if s == 0: return 0
        delim = cstr(d); t = cstr(s); i = 0
        while i < len(t) and t[i] in delim: i += 1
        if i == len(t): setv(s+i); return 0
        j = i
        while j < len(t) and t[j] not in delim: j += 1
        if j < len(t):
            o, f = ex.obj(s+j, 1); o.b[f] = 0
            setv(s+j+1)
        else:
            setv(s+j)
        return s+i
    @X('strtok_r')
    def strtok_r(s, d, sv):
        return tok(s, d, lambda: ns['ldi'](sv, 8), lambda v: ns['sti'](sv, v, 8))
    ns['X___strtok_r'] = strtok_r; ex.overrides['__strtok_r'] = 'X___strtok_r'
    @X('strtok')
    def strtok(s, d):
        def setv(v): ex.strtok_save = v
        return tok(s, d, lambda: ex.strtok_save, setv)
    NUM = re.compile(r'[ \t\n\r\f\v]*([+-]?(?:(?:inf(?:inity)?|nan)|(?:\d+\.?\d*|\.\d+)(?:[eE][+-]?\d+)?))', re.I)
    SYMT = re.compile(r'\s*@S(\d+)@')
    def parse_d(t):
        m = SYMT.match(t)
        if m: return ex.symtab[int(m.group(1))], m.end()
        m = NUM.match(t)
        if not m: return 0.0, 0
        return float(m.group(1)), m.end()
    def parse_i(t, base=10):
        m = re.match(r'[ \t\n\r\f\v]*([+-]?\d+)', t)
        if not m: return 0, 0
        return int(m.group(1)), m.end()
    @X('atof')
    def atof(p):
        if ex.symbytes(p) and not ns[ex.call_ref(ex.mod(ex.vlibc), 'vs_numstart')](p): return 0.0
        return parse_d(cstr(p))[0]
    @X('atoi')
    def atoi(p): return parse_i(cstr(p))[0] & 0xffffffff
    @X('atol')
    def atol(p): return parse_i(cstr(p))[0] & M64
    @X('strtod')
    def strtod(p, e):
        v, n = parse_d(cstr(p))
        if e: ns['sti'](e, p+n, 8)
        return v
    @X('strtol')
    def strtol(p, e, b):
        v, n = parse_i(cstr(p))
        if e: ns['sti'](e, p+n, 8)
        return v & M64
    @X('toupper')
    def toupper(c): return ord(chr(c).upper()) if c < 128 else c
    @X('tolower')
    def tolower(c): return ord(chr(c).lower()) if c < 128 else c
    for nm, f in (('isspace', str.isspace), ('isdigit', str.isdigit), ('isalpha', str.isalpha), ('isalnum', str.isalnum), ('isupper', str.isupper), ('islower', str.islower)):
        ns['X_'+nm] = lambda c, f=f: int(c < 128 and f(chr(c))); ex.overrides[nm] = 'X_'+nm
    # strings with symbolic bytes: the C models of harness/vlibc.c are executed
    def wrap(nm, ptrs, f):
        def g(*a):
            for i in ptrs:
                if type(a[i]) is SI or a[i] and ex.symbytes(a[i]): return ns[ex.call_ref(ex.mod(ex.vlibc), 'vs_'+nm)](*a)
            return f(*a)
        ns['X_'+nm] = g; ex.overrides[nm] = 'X_'+nm
        return g
    for nm, ptrs in (('strlen', (0,)), ('strcmp', (0, 1)), ('strncmp', (0, 1)), ('strcasecmp', (0, 1)), ('memcmp', (0, 1)), ('strcpy', (1,)), ('stpcpy', (1,)),
                     ('strncpy', (1,)), ('strcat', (0, 1)), ('strncat', (0, 1)), ('strchr', (0,)), ('strrchr', (0,)), ('strstr', (0, 1)), ('strspn', (0, 1)),
                     ('strcspn', (0, 1)), ('strdup', (0,)), ('atol', (0,)), ('atoi', (0,))):
        wrap(nm, ptrs, ns['X_'+nm])
    strtok_r0 = ns['X_strtok_r']
    def strtok_r1(s, d, sv):
        s_ = int(s) or ns['ldi'](sv, 8)
        if s_ and ex.symbytes(s_): return ns[ex.call_ref(ex.mod(ex.vlibc), 'vs_strtok_r')](s, d, sv)
        return strtok_r0(s, d, sv)
    ns['X_strtok_r'] = ns['X___strtok_r'] = strtok_r1
    strdup0 = ns['X_strdup']
    ns['X___strdup'] = strdup0; ex.overrides['__strdup'] = 'X___strdup'
    for nm in ('isspace', 'isdigit', 'isalpha', 'isalnum', 'isupper', 'islower', 'tolower', 'toupper'):
        def mkc(nm, f):
            def g(c):
                if type(c) is SI: return ns[ex.call_ref(ex.mod(ex.vlibc), 'vs_'+nm)](c)
                return f(c)
            return g
        ns['X_'+nm] = mkc(nm, ns['X_'+nm])
    def ctype_b():
        a = ex.notes.get('ctype_b')
        if a is None:
            o = ex.alloc(768*2 + 8, 'ctype', b'\0', 'global'); a = ex.alloc(8, 'ctypep', b'\0', 'global')
            for c in range(128):
                ch = chr(c); v = 0
                if ch.isupper(): v |= 256
                if ch.islower(): v |= 512
                if ch.isalpha(): v |= 1024
                if ch.isdigit(): v |= 2048
                if ch in '0123456789abcdefABCDEF': v |= 4096
                if ch in ' \t\n\r\f\v': v |= 8192
                if 32 <= c < 127: v |= 16384
                if 32 < c < 127: v |= 32768
                if ch.isalnum(): v |= 8
                if 32 < c < 127 and not ch.isalnum(): v |= 4
                ns['sti'](o+(128+c)*2, v, 2)
            ns['sti'](a, o+256, 8)
            ex.notes['ctype_b'] = a
        return a
    ns['X___ctype_b_loc'] = ctype_b; ex.overrides['__ctype_b_loc'] = 'X___ctype_b_loc'
    def ctype_low():
        a = ex.notes.get('ctype_l')
        if a is None:
            o = ex.alloc(384*4, 'ctypel', b'\0', 'global'); a = ex.alloc(8, 'ctypelp', b'\0', 'global')
            for c in range(256):
                ns['sti'](o+(128+c)*4, ord(chr(c).lower()) if c < 128 else c, 4)
            ns['sti'](a, o+512, 8)
            ex.notes['ctype_l'] = a
        return a
    ns['X___ctype_tolower_loc'] = ctype_low; ex.overrides['__ctype_tolower_loc'] = 'X___ctype_tolower_loc'
    def errno_loc():
        a = ex.notes.get('errno')
        if a is None: a = ex.notes['errno'] = ex.alloc(8, 'errno', b'\0', 'global')
        return a
    ns['X___errno_location'] = errno_loc; ex.overrides['__errno_location'] = 'X___errno_location'
    @X('strerror')
    def strerror(e):
        q = ex.alloc(8, 'strerror', b'\0'); put(q, 'error'); return q
    # ------------------------------------------------------------ printf family
    def rounded(a, c, pr):
        """the value a decimal text with few digits stands for: any value within the rounding error"""
        if c in 'fF':
            v = atom('free', (a, 'f%d' % pr), -0.5*10.0**-pr, 0.5*10.0**-pr)
            return a + sym.var(v)
        sig = max(pr, 1) if c in 'gG' else pr+1
        if sig >= 17: return a
        v = atom('free', (a, 'g%d' % sig), -0.5*10.0**(1-sig), 0.5*10.0**(1-sig))
        return a + a*sym.var(v)
    FMT = re.compile(r'%([-+ #0]*)(\*|\d+)?(?:\.(\*|\d+)?)?(hh|h|ll|l|L|z|j|t)?([diouxXcsfFeEgGpn%])')
    def fmt(f, args):
        args = list(args); out = []; i = 0
        for m in FMT.finditer(f):
            out.append(f[i:m.start()]); i = m.end()
            fl, w, pr, ln, c = m.groups()
            if c == '%': out.append('%'); continue
            if w == '*': w = str(s32(args.pop(0)))
            if pr == '*': pr = str(s32(args.pop(0)))
            hasdot = '.' in m.group(0)
            spec = '%' + fl + (w or '') + ('.'+(pr or '0') if hasdot else '')
            a = args.pop(0)
            if c in 'di':
                a = s64(a) if ln in ('l', 'll', 'z', 'j', 't') else s32(a & 0xffffffff)
                out.append((spec+'d') % a)
            elif c in 'uxXo':
                a = a if ln in ('l', 'll', 'z') else a & 0xffffffff
                out.append((spec+('d' if c == 'u' else c)) % a)
            elif c == 'c': out.append((spec+'c') % chr(a & 255))
            elif c == 's': out.append((spec+'s') % (cstr(a) if a else '(null)'))
            elif c in 'fFeEgG':
                if type(a) is Sym:
                    a = rounded(a, c, int(pr) if pr else 0 if hasdot else 6)
                    ex.symtab.append(a); out.append('@S%d@' % (len(ex.symtab)-1))
                elif a != a: out.append('nan')
                else: out.append((spec+c) % a)
            elif c == 'p': out.append('0x%x' % a)
            elif c == 'n': ns['sti'](a, len(''.join(out)), 4)
        out.append(f[i:])
        return ''.join(out)
    def va_list(ap):
        """arguments from a va_list set up by va_start below"""
        class It(list): pass
        area = ns['ldi'](ap+8, 8)
        o = objs[area >> SH]; off = area & OM
        k = ex.notes['va%d' % (area >> SH)]
        return list(k[off//8:])
    def va_start(ap, *va):
        pass
    ex.va_start_args = None
    def fmt_sym(f, a):
        """formatted output with symbolic strings: list of bytes"""
        out = []; a = list(a); pos = 0
        for m in re.finditer(r'%[-+ 0#]*\d*(?:\.\d+)?[hlL]*([a-zA-Z%])', f):
            out += list(f[pos:m.start()].encode('latin1')); pos = m.end()
            if m.group(1) == '%': out.append(37); continue
            x = a.pop(0)
            if m.group(0) == '%s' and x and ex.symbytes(x):
                x = int(x)
                while True:
                    b = ns['ldi'](x, 1)
                    if b == 0: break
                    out.append(b); x += 1
            else:
                out += list(fmt(m.group(0), [int(x) if type(x) is SI else x]).encode('latin1', 'replace'))
        return out + list(f[pos:].encode('latin1'))
    @X('printf')
    def printf(f, *a): return len_out(fmt_quiet(f, a)) if not any(type(x) is SI or type(x) is int and x >> SH and ex.symbytes(x) for x in a) else 0
    def fmt_quiet(f, a):
        ex.lastout.append((f, a))
        if len(ex.lastout) > 6: del ex.lastout[0]
        if ex.notes.get('capture'): 
            s = fmt(cstr(f), a); ex.out.append(s); return s
        return ''
    def len_out(s): return len(s)
    @X('puts')
    def puts(p):
        ex.lastout.append((p, ())); return 1
    @X('putchar')
    def putchar(c): return c
    @X('perror')
    def perror(p): return None
    @X('sprintf')
    def sprintf(d, f, *a):
        if any(type(x) is SI or type(x) is int and x >> SH and ex.symbytes(x) for x in a):
            bs = fmt_sym(cstr(f), a)
            for i, b in enumerate(bs): ns['sti'](d+i, b, 1)
            ns['sti'](d+len(bs), 0, 1)
            return len(bs)
        s = fmt(cstr(f), a); put(d, s); return len(s)
    @X('snprintf')
    def snprintf(d, n, f, *a):
        s = fmt(cstr(f), a)
        if n: put(d, s[:n-1])
        return len(s)
    def chk(n):
        pass
    @X('vsnprintf')
    def vsnprintf(d, n, f, ap): return snprintf(d, n, f, *va_list(ap))
    @X('vsprintf')
    def vsprintf(d, f, ap): return sprintf(d, f, *va_list(ap))
    @X('vprintf')
    def vprintf(f, ap): return 0
    @X('vfprintf')
    def vfprintf(fp, f, ap): return fprintf(fp, f, *va_list(ap))
    # ------------------------------------------------------------ sscanf
    SF = re.compile(r'%(\*)?(\d+)?(hh|h|ll|l|L)?([diufeEgGsc]|\[\^?\]?[^]]*\])')
    def scan(t, f, args):
        args = list(args); i = 0; j = 0; n = 0
        while j < len(f):
            c = f[j]
            if c.isspace():
                while i < len(t) and t[i].isspace(): i += 1
                j += 1; continue
            if c == '%' and f[j:j+2] != '%%':
                m = SF.match(f, j)
                if not m: raise IRError('scanf format %r' % f)
                j = m.end(); st, w, ln, k = m.groups()
                if k[0] != '[' and k != 'c':
                    while i < len(t) and t[i].isspace(): i += 1
                if i >= len(t) and k != 'c':
                    return (n if n else -1), i
                lim = int(w) if w else 1 << 60
                if k in 'di':
                    v, l = parse_i(t[i:i+lim] if w else t[i:])
                    if not l: return n, i
                    i += l
                    if not st: ns['sti'](args.pop(0), v & (M64 if ln in ('l', 'll') else 0xffffffff), 8 if ln in ('l', 'll') else 4); n += 1
                elif k in 'feEgG':
                    v, l = parse_d(t[i:])
                    if not l: return n, i
                    i += l
                    if not st:
                        (ns['std'] if ln == 'l' else ns['stf'])(args.pop(0), v); n += 1
                elif k == 's':
                    e = i
                    while e < len(t) and not t[e].isspace() and e-i < lim: e += 1
                    if not st: put(args.pop(0), t[i:e]); n += 1
                    i = e
                elif k == 'c':
                    l = int(w) if w else 1
                    if i+l > len(t): return (n if n else -1), i
                    if not st: put(args.pop(0), t[i:i+l], False); n += 1
                    i += l
                else:
                    cs = k[1:-1]; neg = cs[:1] == '^'
                    cs = cs[1:] if neg else cs
                    e = i
                    while e < len(t) and ((t[e] in cs) != neg) and e-i < lim: e += 1
                    if e == i: return n, i
                    if not st: put(args.pop(0), t[i:e]); n += 1
                    i = e
                continue
            if c == '%': j += 1
            if i < len(t) and t[i] == f[j]: i += 1; j += 1
            else: return (n if (n or i < len(t)) else -1), i
        return n, i
    @X('sscanf')
    def sscanf(s, f, *a): return scan(cstr(s), cstr(f), a)[0] & 0xffffffff
    ns['X___isoc99_sscanf'] = sscanf; ex.overrides['__isoc99_sscanf'] = 'X___isoc99_sscanf'
    # ------------------------------------------------------------ files (virtual file system)
    class File:
        def __init__(s, name, data, pos, mode): s.name = name; s.d = data; s.pos = pos; s.mode = mode; s.eof = False
    def fobj(fp):
        o = ex.files.get(fp)
        return o
    @X('fopen')
    def fopen(p, m):
        name = cstr(p); mode = cstr(m)
        if ex.notes.get('fopen_fail', lambda n, m: False)(name, mode): return 0
        if mode[0] == 'r' and name not in ex.fs: return 0
        if mode[0] == 'w': ex.fs[name] = bytearray(); ex.fssi.pop(name, None)
        d = ex.fs.setdefault(name, bytearray())
        fp = ex.alloc(16, 'FILE', b'\0', 'file')
        ex.files[fp] = File(name, d, len(d) if mode[0] == 'a' else 0, mode)
        return fp
    @X('fclose')
    def fclose(fp):
        if ex.files.pop(fp, None) is None:
            if fp == 0: raise MemErr('fclose(NULL)')
        return 0
    def fput(fp, b):
        f = fobj(fp)
        if f is None: return
        f.d[f.pos:f.pos+len(b)] = b; f.pos += len(b)
    def fput1(fp, b):
        f = fobj(fp)
        if type(b) is SI:
            ex.fssi.setdefault(f.name, {})[f.pos] = b; b = 63
        elif f.name in ex.fssi: ex.fssi[f.name].pop(f.pos, None)
        fput(fp, bytes([b & 255]))
    @X('fprintf')
    def fprintf(fp, f, *a):
        if fobj(fp) is None:
            if ex.hmod is not None and 'vh_fwrite' in ex.hmod.funcs and fp:      # files kept by the harness
                t = fmt(cstr(f), a).encode('latin1', 'replace')
                q = ex.alloc(len(t)+1, 'fprintf', b'\0'); put(q, t.decode('latin1'))
                return ns[ex.call_ref(ex.hmod, 'vh_fwrite')](q, len(t), fp)
            return 0
        if any(type(x) is SI or type(x) is int and x >> SH and ex.symbytes(x) for x in a):
            bs = fmt_sym(cstr(f), a)
            for b in bs: fput1(fp, b)
            return len(bs)
        s = fmt(cstr(f), a); fput(fp, s.encode('latin1', 'replace')); return len(s)
    @X('fputs')
    def fputs(s, fp):
        if ex.symbytes(s):
            for b in fmt_sym('%s', [s]): fput1(fp, b)
            return 1
        fput(fp, cstr(s).encode('latin1')); return 1
    @X('fputc')
    def fputc(c, fp): fput1(fp, c & 255); return c & 255
    ns['X_putc'] = fputc; ex.overrides['putc'] = 'X_putc'
    @X('fwrite')
    def fwrite(p, sz, n, fp):
        o, off = ex.obj(p, sz*n)
        if o.si and any(off <= k < off+sz*n for k in o.si):
            for q in range(sz*n): fput1(fp, ns['ldi'](p+q, 1))
            return n
        if o.s and any(off <= k < off+sz*n for k in o.s):
            for q in range(off, off+sz*n, 8):
                if o.s and q in o.s:
                    ex.symtab.append(o.s[q]); fput(fp, b'\xfe\xff\xfdS' + (len(ex.symtab)-1).to_bytes(4, 'little'))
                else: fput(fp, bytes(o.b[q:q+8]))
        else: fput(fp, bytes(o.b[off:off+sz*n]))
        return n
    @X('fread')
    def fread(p, sz, n, fp):
        f = fobj(fp)
        k = min(n, (len(f.d)-f.pos)//sz) if sz else 0
        if k < n: f.eof = True
        fpos = f.pos
        data = bytes(f.d[f.pos:f.pos+k*sz]); f.pos += k*sz
        if data:
            o, off = ex.obj(p, len(data))
            o.b[off:off+len(data)] = data
            if o.si:
                for q in range(off, off+len(data)): o.si.pop(q, None)
            if o.s:
                for q in [q for q in o.s if off <= q < off+len(data)]: del o.s[q]
            if sz == 8:
                for q in range(0, len(data), 8):
                    if data[q:q+4] == b'\xfe\xff\xfdS':
                        ns['std'](p+q, ex.symtab[int.from_bytes(data[q+4:q+8], 'little')])
        if f.name in ex.fssi:
            for q, b in ex.fssi[f.name].items():
                if fpos <= q < fpos+k*sz: ns['sti'](p+q-fpos, b, 1)
        return k
    @X('fgetc')
    def fgetc(fp):
        f = fobj(fp)
        if f.pos >= len(f.d): f.eof = True; return 0xffffffff
        c = f.d[f.pos]
        if f.name in ex.fssi: c = ex.fssi[f.name].get(f.pos, c)
        f.pos += 1
        return c
    ns['X_getc'] = fgetc; ex.overrides['getc'] = 'X_getc'
    @X('fgets')
    def fgets(p, n, fp):
        f = fobj(fp)
        if f.pos >= len(f.d): f.eof = True; return 0
        e = f.d.find(b'\n', f.pos)
        e = len(f.d) if e < 0 else e+1
        e = min(e, f.pos+n-1)
        put(p, f.d[f.pos:e].decode('latin1')); f.pos = e
        return p
    @X('fscanf')
    def fscanf(fp, f, *a):
        F = fobj(fp)
        r, i = scan(F.d[F.pos:].decode('latin1'), cstr(f), a); F.pos += i
        return r & 0xffffffff
    ns['X___isoc99_fscanf'] = fscanf; ex.overrides['__isoc99_fscanf'] = 'X___isoc99_fscanf'
    @X('feof')
    def feof(fp): return int(fobj(fp).eof)
    @X('ferror')
    def ferror(fp): return 0
    @X('fflush')
    def fflush(fp): return 0
    @X('fseek')
    def fseek(fp, off, wh):
        f = fobj(fp); o = s64(off)
        f.pos = o if wh == 0 else f.pos+o if wh == 1 else len(f.d)+o; f.eof = False
        return 0
    @X('ftell')
    def ftell(fp): return fobj(fp).pos
    @X('fgetpos')
    def fgetpos(fp, p): ns['sti'](p, fobj(fp).pos, 8); return 0
    @X('fsetpos')
    def fsetpos(fp, p): fobj(fp).pos = ns['ldi'](p, 8); return 0
    @X('rewind')
    def rewind(fp): fobj(fp).pos = 0
    @X('remove')
    def remove(p): return 0 if ex.fs.pop(cstr(p), None) is not None else 0xffffffff
    @X('rename')
    def rename(a, b):
        d = ex.fs.pop(cstr(a), None)
        if d is None: return 0xffffffff
        ex.fs[cstr(b)] = d
        ex.fssi.pop(cstr(b), None)
        x = ex.fssi.pop(cstr(a), None)
        if x is not None: ex.fssi[cstr(b)] = x
        return 0
    @X('mkdir')
    def mkdir(p, m): ex.dirs.add(cstr(p)); return 0
    @X('system')
    def system(p): return 0
    @X('freopen')
    def freopen(p, m, fp): return fp
    @X('fileno')
    def fileno(fp): return 3
    @X('lockf')
    def lockf(*a): return 0
    @X('setbuf')
    def setbuf(*a): return None
    # ------------------------------------------------------------ misc
    @X('exit')
    def exit_(c):
        t = ''
        for f, a in ex.lastout:
            try: t += fmt(cstr(f), a)
            except Exception: pass
        raise SgridExit('exit(%d) after output: %s' % (s32(c), t[-300:].strip().replace('\n', ' | ')))
    @X('abort')
    def abort_(): raise SgridExit('abort()')
    def assert_fail(*a): raise SgridExit('assertion failed')
    ns['X___assert_fail'] = assert_fail; ex.overrides['__assert_fail'] = 'X___assert_fail'
    @X('time')
    def time_(p): return 1700000000
    @X('clock')
    def clock_(): return 0
    @X('getpid')
    def getpid(): return 1234
    @X('gettimeofday')
    def gtod(p, q):
        ns['sti'](p, 1700000000, 8); ns['sti'](p+8, 0, 8); return 0
    @X('getTimeIn_s')
    def gettime(): return 0.0
    @X('rand')
    def rand_():
        ex.notes['rand'] = (ex.notes.get('rand', 12345)*1103515245+12345) & 0x7fffffff
        return ex.notes['rand']
    @X('srand')
    def srand_(s): return None
    @X('omp_get_thread_num')
    def otn(): return 0
    @X('omp_get_num_threads')
    def ont(): return 1
    @X('omp_get_max_threads')
    def omt(): return 1
    @X('qsort')
    def qsort(b, n, sz, cmp):
        import functools
        o, off = ex.obj(b, n*sz)
        tmp = [ex.alloc(sz) for _ in range(n)]
        for i, t in enumerate(tmp): memcpy(t, b+i*sz, sz)
        tmp.sort(key=functools.cmp_to_key(lambda x, y: s32(ns['call_ptr'](cmp, x, y) & 0xffffffff)))
        for i, t in enumerate(tmp): memcpy(b+i*sz, t, sz)
    # ------------------------------------------------------------ FFTW3 by contract
    def newplan(*a):
        p = ex.alloc(8, 'fftw_plan', b'\0', 'plan'); ex.plans[p] = a; return p
    @X('fftw_plan_dft_r2c_1d')
    def p1(n, i, o, f): return newplan('r2c', s32(n))
    @X('fftw_plan_dft_c2r_1d')
    def p2(n, i, o, f): return newplan('c2r', s32(n))
    @X('fftw_plan_r2r_1d')
    def p3(n, i, o, kind, f): return newplan({3: 'REDFT00', 5: 'REDFT10', 4: 'REDFT01', 6: 'REDFT11'}.get(kind, 'r2r%d' % kind), s32(n))
    @X('fftw_malloc')
    def fm(n): return ex.alloc(n)
    @X('fftw_free')
    def ff(p): return free(p)
    @X('fftw_destroy_plan')
    def fd(p):
        if ex.plans.pop(p, None) is None: raise MemErr('fftw_destroy_plan of invalid plan')
    def plan(p, k):
        v = ex.plans.get(p)
        if v is None or (k and v[0] != k): raise MemErr('FFTW: executing an invalid plan (%r)' % (v,))
        return v
    ld = ns.get('ldd')
    def ldv(p, n): return [ns['ldd'](p+8*i) for i in range(n)]
    def stv(p, v):
        for i, x in enumerate(v): ns['std'](p+8*i, x)
    def fsum(terms):
        """linear combination sum c*v"""
        acc = {}; cst = 0.0
        for c, v in terms:
            if type(v) is Sym:
                for m, k in v.p.items():
                    acc[m] = acc.get(m, 0) + c*float(k)
            else: cst += c*v
        if cst: acc[()] = acc.get((), 0)+cst
        acc = {m: (k if CTX.floatmode else sym.rat(k)) for m, k in acc.items() if k != 0}
        return sym.simp(acc) if acc else 0.0
    C = lambda a, n: math.cos(2*math.pi*(a % n)/n)
    S = lambda a, n: math.sin(2*math.pi*(a % n)/n)
    @X('fftw_execute_dft_r2c')
    def e1(p, i, o):
        _, n = plan(p, 'r2c')
        x = ldv(i, n); r = []
        for k in range(n//2+1):
            r.append(fsum((C(j*k, n), x[j]) for j in range(n)))
            r.append(fsum((-S(j*k, n), x[j]) for j in range(n)))
        stv(o, r)
    @X('fftw_execute_dft_c2r')
    def e2(p, i, o):
        _, n = plan(p, 'c2r')
        c = ldv(i, 2*(n//2+1)); r = []
        for j in range(n):
            t = [(1.0, c[0])]
            for k in range(1, (n+1)//2):
                t += [(2*C(j*k, n), c[2*k]), (-2*S(j*k, n), c[2*k+1])]
            if n % 2 == 0 and n > 1: t.append((1.0 if j % 2 == 0 else -1.0, c[n]))
            r.append(fsum(t))
        stv(o, r)
        # FFTW's c2r transform destroys its input
        for k in range(2*(n//2+1)): ns['std'](i+8*k, ex.fresh('fftw_clobbered'))
    @X('fftw_execute_r2r')
    def e3(p, i, o):
        k_, n = plan(p, None)
        x = ldv(i, n); r = []
        if k_ == 'REDFT00':
            if n < 2: raise MemErr('REDFT00 with n<2')
            for k in range(n):
                r.append(fsum([(1.0, x[0]), (1.0 if k % 2 == 0 else -1.0, x[n-1])] + [(2*C(j*k, 2*(n-1)), x[j]) for j in range(1, n-1)]))
        elif k_ == 'REDFT10':
            for k in range(n): r.append(fsum((2*C((2*j+1)*k, 4*n), x[j]) for j in range(n)))
        elif k_ == 'REDFT01':
            for k in range(n): r.append(fsum([(1.0, x[0])] + [(2*C(j*(2*k+1), 4*n), x[j]) for j in range(1, n)]))
        else: raise IRError('fftw kind '+k_)
        stv(o, r)
    # ------------------------------------------------------------ LAPACK / umfpack by contract: solve with exact elimination
    def solve_dense(n, getA, b):
        A = [[getA(i, j) for j in range(n)] + [b[i]] for i in range(n)]
        for c in range(n):
            pr = None
            for r in range(c, n):
                v = A[r][c]
                if type(v) is not Sym:
                    if v != 0 and (pr is None or type(A[pr][c]) is Sym or abs(v) > abs(A[pr][c])): pr = r
                elif pr is None: pr = r
            if pr is None: return None
            A[c], A[pr] = A[pr], A[c]
            for r in range(c+1, n):
                if type(A[r][c]) is not Sym and A[r][c] == 0: continue
                f = ns['fdiv'](A[r][c], A[c][c])
                for k in range(c, n+1): A[r][k] = A[r][k] - f*A[c][k]
        x = [0.0]*n
        for r in reversed(range(n)):
            t = A[r][n]
            for k in range(r+1, n): t = t - A[r][k]*x[k]
            x[r] = ns['fdiv'](t, A[r][r])
        return x
    @X('dgesv_')
    def dgesv(pn, pr, A, lda, ipiv, b, ldb, info):
        n = s32(ns['ldi'](pn, 4)); L = s32(ns['ldi'](lda, 4))
        x = solve_dense(n, lambda i, j: ns['ldd'](A+8*(i+j*L)), ldv(b, n))
        if x is None: ns['sti'](info, 1, 4); return 0
        stv(b, x); ns['sti'](info, 0, 4)
        return 0
    @X('cblas_dgemv')
    def dgemv(order, trans, m, n, alpha, A, lda, x, incx, beta, y, incy):
        m = s32(m); n = s32(n); lda = s32(lda); incx = s32(incx); incy = s32(incy)
        row = order == 101; tr = trans != 111
        M, N = (n, m) if tr else (m, n)
        for i in range(M):
            t = []
            acc = 0.0
            for j in range(N):
                a, b = (j, i) if tr else (i, j)
                v = ns['ldd'](A+8*((a*lda+b) if row else (a+b*lda)))
                acc = acc + v*ns['ldd'](x+8*j*incx)
            yv = 0.0 if (type(beta) is not Sym and beta == 0) else beta*ns['ldd'](y+8*i*incy)
            ns['std'](y+8*i*incy, alpha*acc + yv)
    def umf(sfx, isz):
        def rd(p, i): return ns['ldi'](p+isz*i, isz)
        def symbolic(nr, nc, Ap, Ai, Ax, Sy, ctl, info):
            ns['sti'](Sy, ex.alloc(8, 'umf', b'\0'), 8); return 0
        def numeric(Ap, Ai, Ax, Sy, Nu, ctl, info):
            ns['sti'](Nu, ex.alloc(8, 'umfn', b'\0'), 8); return 0
        def solve(sysk, Ap, Ai, Ax, xp, bp, Nu, ctl, info):
            n = ex.notes['umf_n']
            M = {}
            for c in range(n):
                last = -1
                for k in range(rd(Ap, c), rd(Ap, c+1)):
                    r = rd(Ai, k)
                    if r >= n or r <= last: raise MemErr('umfpack: row indices not sorted / out of range')
                    last = r
                    M[(r, c) if sysk == 0 else (c, r)] = ns['ldd'](Ax+8*k)
            x = solve_dense(n, lambda i, j: M.get((i, j), 0.0), ldv(bp, n))
            if x is None: return 1
            stv(xp, x); return 0
        def symb(nr, nc, *a):
            ex.notes['umf_n'] = s32(nr & 0xffffffff); return symbolic(nr, nc, *a)
        def fr(p):
            free(ns['ldi'](p, 8)); ns['sti'](p, 0, 8)
        for nm, f in (('symbolic', symb), ('numeric', numeric), ('solve', solve), ('free_symbolic', fr), ('free_numeric', fr)):
            k = 'umfpack_%s_%s' % (sfx, nm); ns['X_'+k] = f; ex.overrides[k] = 'X_'+k
        for nm in ('defaults', 'report_info', 'report_status', 'report_control'):
            k = 'umfpack_%s_%s' % (sfx, nm); ns['X_'+k] = lambda *a: 0; ex.overrides[k] = 'X_'+k
    umf('di', 4); umf('dl', 8)
    # ------------------------------------------------------------ harness API
    @X('in_d')
    def in_d(k, lo, hi):
        k = s32(k)
        sb = ex.solver.subst
        if k in sb: return sb[k]
        ex.solver.declare(k, lo, hi)
        if lo == hi: return lo
        return sym.input_var(k, lo, hi)
    @X('in_i')
    def in_i(k, lo, hi):
        lo = s32(int(lo)); hi = s32(int(hi))
        if lo == hi: ex.solver.box.setdefault(s32(k), (lo, hi)); return lo & 0xffffffff
        return ex.solver.int_input(s32(k), lo, hi)
    @X('v_symbolic')
    def v_symbolic(): return 1
    @X('v_assume')
    def v_assume(c):
        if not c: raise PathEnd('assume')
    @X('v_check')
    def v_check(name, a, b, tol): ex.solver.check(cstr(name), a, b, tol)
    @X('v_le')
    def v_le(name, a, b, tol): ex.solver.check_le(cstr(name), a, b, tol)
    @X('v_true')
    def v_true(name, c): ex.solver.check_true(cstr(name), c if type(c) is SI else bool(c))
    @X('v_deriv')
    def v_deriv(name, f, df, k, tol): ex.solver.check(cstr(name), df, sym.diff(f, s32(k)), tol, kind='deriv')
    @X('v_grad3')
    def v_grad3(name, a1, x1, a2, x2, a3, x3, i, tol):
        """sum_j a_j d x_j/d in_k == delta_ik for k=1,2,3"""
        i = s32(i)
        for k in (1, 2, 3):
            t = a1*sym.diff(x1, k) + a2*sym.diff(x2, k) + a3*sym.diff(x3, k)
            ex.solver.check('%s[k%d]' % (cstr(name), k), t, 1.0 if i == k else 0.0, tol, kind='grad')
    @X('v_chain3')
    def v_chain3(name, f, b1, x1, b2, x2, b3, x3, tol):
        """d f/d in_k == sum_j b_j d x_j/d in_k for k=1,2,3"""
        for k in (1, 2, 3):
            t = b1*sym.diff(x1, k) + b2*sym.diff(x2, k) + b3*sym.diff(x3, k)
            ex.solver.check('%s[k%d]' % (cstr(name), k), t, sym.diff(f, k), tol, kind='grad')
    @X('v_diff')
    def v_diff(f, k): return sym.diff(f, s32(k))
    @X('v_exit_ok')
    def v_exit_ok(f): ex.exit_ok = bool(f)
    @X('v_call_exits')
    def v_call_exits(f, arg):
        """1 if f(arg) terminates the program through exit/abort, else 0"""
        try:
            ns['call_ptr'](f, arg)
        except SgridExit:
            return 1
        return 0
    @X('v_reach')
    def v_reach(name): ex.solver.reach(cstr(name))
    @X('v_trunc')
    def v_trunc(k, deg):
        """series arithmetic: drop all powers > deg of input k (deg<0: off)"""
        if s32(deg) < 0: CTX.trunc = None
        else: CTX.trunc = ({CTX.inputs[s32(k)].id}, s32(deg))
    @X('v_coef')
    def v_coef(a, k, deg):
        """coefficient of (input k)^deg in the polynomial a"""
        k = s32(k); deg = s32(deg)
        if type(a) is not Sym: return a if deg == 0 else 0.0
        vid = CTX.inputs[k].id
        p = {}
        for m, c in a.p.items():
            e = dict(m).get(vid, 0)
            if e == deg: p[tuple(x for x in m if x[0] != vid)] = c
        return sym.simp(p) if p else 0.0
    @X('v_series')
    def v_series(name, a, b, k, deg):
        """a-b = O((input k)^(deg+1))"""
        d = a-b; nm = cstr(name)
        for q in range(0, s32(deg)+1):
            ex.solver.check('%s[order %d]' % (nm, q), v_coef(d, k, q), 0.0, 1e-12, kind='series')
    @X('v_is_const')
    def v_is_const(a): return int(type(a) is not Sym)
    @X('v_debug')
    def v_debug(name, a): print('DEBUG', cstr(name), a if type(a) is not Sym else sym.to_str(a))
    @X('v_file_put')
    def v_file_put(n, t):
        if ex.symbytes(t):
            bs = fmt_sym('%s', [t]); nm = cstr(n)
            ex.fs[nm] = bytearray(63 if type(b) is SI else b for b in bs)
            ex.fssi[nm] = {i: b for i, b in enumerate(bs) if type(b) is SI}
            return
        ex.fs[cstr(n)] = bytearray(cstr(t).encode('latin1'))
    @X('v_capture')
    def v_capture(f): ex.notes['capture'] = bool(f)
    ex.fmt = fmt
