"""Symbolic reals: Laurent polynomials over input variables and 'atoms'
(square roots, inverses, elementary functions) with exact rational or float
coefficients; exact differentiation; normal forms."""
import math
from fractions import Fraction

def vabs_hook(x):
    raise SymError('fabs by bits')

class SymError(Exception):
    pass

class VarInfo:
    __slots__ = ('id', 'name', 'kind', 'arg', 'lo', 'hi', 'idx')
    def __init__(self, id, name, kind, arg=None, lo=None, hi=None, idx=None):
        self.id = id; self.name = name; self.kind = kind; self.arg = arg; self.lo = lo; self.hi = hi; self.idx = idx

class AngleRefine(Exception):
    """an angle needs a finer base unit: the run starts again"""

class Ctx:
    """all variables of one symbolic run"""
    def __init__(self):
        self.reset()
        self.floatmode = False
        self.trunc = None        # (set of varids, maxdeg)
        self.trunc_all = None
        self.trig = False        # multiple-angle expansion of sin and cos
        self.angle_div = {}      # direction -> divisor of the base angle (kept over restarts)
    def reset(self):
        self.vars = []
        self.cache = {}
        self.inputs = {}
        self.dcache = {}
        self.angles = {}
        self.special = False     # True once an atom with an algebraic rewrite rule exists
    def new(self, name, kind, arg=None, lo=None, hi=None, idx=None):
        v = VarInfo(len(self.vars), name, kind, arg, lo, hi, idx)
        self.vars.append(v)
        return v
CTX = Ctx()

_rc = {}
def rat(c):
    """exact rational standing for a double constant: the simple fraction p/q
    (q<=10000) that rounds to this double if there is one, else its exact value"""
    r = _rc.get(c)
    if r is None:
        if c == int(c) if abs(c) < 1e300 else False:
            r = int(c)
        else:
            if c != c or c in (math.inf, -math.inf):
                raise SymError('non-finite constant %r in symbolic arithmetic' % c)
            f = Fraction(c)
            g = f.limit_denominator(10000)
            if g != 0 and float(g) == c:
                f = g
            else:
                # also small fractions with power-of-ten scaling, like 1e-7
                if abs(c) < 1e-3:
                    g = (1/f).limit_denominator(1000)
                    if g and float(1/g) == c:
                        f = 1/g
            r = int(f) if f.denominator == 1 else f
        _rc[c] = r
    return r

def conv(c):
    if CTX.floatmode:
        return c
    return rat(c) if type(c) is float else c

def norm_const(c):
    """constant coefficient -> python float if exactly representable else Sym"""
    if type(c) is float:
        return c
    try:
        f = float(c)
        if abs(f) != math.inf and rat(f) == c:
            return f
    except OverflowError:
        pass
    return Sym({(): c})

def simp(p):
    if not p:
        return 0.0
    if len(p) == 1 and () in p:
        return norm_const(p[()])
    return Sym(p)

def mono_mul(a, b):
    if not a: return b
    if not b: return a
    if len(a) == 1 and len(b) == 1:
        (v, e), (w, f) = a[0], b[0]
        if v < w: return (a[0], b[0])
        if v > w: return (b[0], a[0])
        e += f
        return ((v, e),) if e else ()
    i = j = 0; r = []
    while i < len(a) and j < len(b):
        x = a[i]; y = b[j]
        if x[0] < y[0]:
            r.append(x); i += 1
        elif x[0] > y[0]:
            r.append(y); j += 1
        else:
            e = x[1]+y[1]
            if e: r.append((x[0], e))
            i += 1; j += 1
    r.extend(a[i:]); r.extend(b[j:])
    return tuple(r)

def padd(p, q, s=1):
    r = dict(p)
    for m, c in q.items():
        o = r.get(m)
        if o is None:
            r[m] = c if s == 1 else -c
        else:
            o = o + c if s == 1 else o - c
            if o == 0:
                del r[m]
            else:
                r[m] = o
    return r

def pmul(p, q):
    if len(p) > len(q):
        p, q = q, p
    r = {}
    tr = CTX.trunc
    for m, c in p.items():
        for n, d in q.items():
            k = mono_mul(m, n)
            if tr is not None:
                deg = 0
                for v, e in k:
                    if v in tr[0]: deg += e*tr[2].get(v, 1) if len(tr) > 2 else e
                if deg > tr[1]:
                    continue
            o = r.get(k)
            if o is None:
                r[k] = c*d
            else:
                o = o + c*d
                if o == 0:
                    del r[k]
                else:
                    r[k] = o
    if CTX.special:
        r = reduce_rel(r)
    return r

def reduce_rel(p):
    """rewrite s^k (k>=2 or k<=-2) for sqrt atoms, sin^2 -> 1-cos^2, cosh^2 -> 1+sinh^2"""
    vs = CTX.vars
    bad = None
    for m in p:
        for v, e in m:
            if e >= 2 and vs[v].kind in ('sqrt', 'sin', 'cosh', 'root'):
                if vs[v].kind == 'root' and e < vs[v].idx:
                    continue
                bad = True
                break
        if bad: break
    if not bad:
        return p
    r = {}
    for m, c in p.items():
        fac = None
        for v, e in m:
            if e >= 2:
                k = vs[v].kind
                if k in ('sqrt', 'sin', 'cosh'):
                    h = e//2
                    rest = tuple((w, f) if w != v else (w, f-2*h) for w, f in m if w != v or f-2*h)
                    if k == 'sqrt':
                        base = vs[v].arg.p
                    elif k == 'sin':
                        base = {(): 1, ((vs[v].idx, 2),): -1}
                    else:
                        base = {(): 1, ((vs[v].idx, 2),): 1}
                    fac = (h, rest, base)
                    break
                if k == 'root' and e >= vs[v].idx:
                    n = vs[v].idx; h = e//n
                    rest = tuple((w, f) if w != v else (w, f-n*h) for w, f in m if w != v or f-n*h)
                    fac = (h, rest, vs[v].arg.p)
                    break
        if fac is None:
            t = {m: c}
        else:
            h, rest, base = fac
            t = {rest: c}
            for _ in range(h):
                t = pmul(t, base)
        r = padd(r, t) if r else t
    return r

class Sym:
    __slots__ = ('p',)
    def __init__(self, p):
        self.p = p
    def __repr__(self):
        return to_str(self)
    def __bool__(self):
        raise SymError('symbolic value used as a C integer / truth value')
    def __add__(self, o):
        if type(o) is Sym:
            return simp(padd(self.p, o.p))
        if o == 0: return self
        return simp(padd(self.p, {(): conv(o)}))
    __radd__ = __add__
    def __sub__(self, o):
        if type(o) is Sym:
            return simp(padd(self.p, o.p, -1))
        if o == 0: return self
        return simp(padd(self.p, {(): conv(o)}, -1))
    def __rsub__(self, o):
        return (-self) + o
    # bit patterns of symbolic reals (always finite)
    def __and__(self, o):
        if o == 0x7ff0000000000000: return 0x3ff0000000000000
        if o == 0x7fffffffffffffff: return vabs_hook(self)
        raise SymError('bitwise and of a symbolic real with %r' % (o,))
    __rand__ = __and__
    def __or__(self, o):
        if o == 0x800FFFFFFFFFFFFF: return 0xbfffffffffffffff
        raise SymError('bitwise or of a symbolic real')
    __ror__ = __or__
    def __neg__(self):
        return Sym({m: -c for m, c in self.p.items()})
    def __mul__(self, o):
        if type(o) is Sym:
            return simp(pmul(self.p, o.p))
        if o == 0: return 0.0
        if o == 1: return self
        o = conv(o)
        return simp({m: c*o for m, c in self.p.items()})
    __rmul__ = __mul__
    def __truediv__(self, o):
        if type(o) is Sym:
            return self*inv(o)
        o = conv(o)
        if o == 0:
            raise SymError('division of symbolic value by 0')
        if type(o) is float:
            return simp({m: c/o for m, c in self.p.items()})
        return simp({m: (c/o if type(c) is float else cdiv(c, o)) for m, c in self.p.items()})
    def __rtruediv__(self, o):
        return inv(self)*o
    def key(self):
        return frozenset(self.p.items())

def cdiv(a, b):
    f = Fraction(a)/b
    return f.numerator if f.denominator == 1 else f

def to_str(s, n=12):
    if type(s) is not Sym: return repr(s)
    out = []
    for m, c in list(s.p.items())[:n]:
        out.append('%s%s' % (c, ''.join('*%s%s' % (CTX.vars[v].name, '' if e == 1 else '^%d' % e) for v, e in m)))
    return ' + '.join(out) + (' + ...[%d terms]' % len(s.p) if len(s.p) > n else '')

def var(v):
    return Sym({((v.id, 1),): 1.0 if CTX.floatmode else 1})

def input_var(k, lo, hi, name=None):
    v = CTX.inputs.get(k)
    if v is None:
        v = CTX.new(name or 'in%d' % k, 'in', None, lo, hi, k)
        CTX.inputs[k] = v
    return var(v)

def atom(kind, arg, lo=None, hi=None, idx=None):
    key = (kind, arg.key() if type(arg) is Sym else tuple(a.key() if type(a) is Sym else a for a in arg) if type(arg) is tuple else arg)
    a = CTX.cache.get(key)
    if a is None:
        v = CTX.new('%s%d' % (kind, len(CTX.vars)), kind, arg, lo, hi, idx)
        a = v
        CTX.cache[key] = a
    return a

def const_of(s):
    """value if Sym is a constant"""
    if type(s) is not Sym: return s
    if len(s.p) == 1 and () in s.p: return s.p[()]
    return None

def content(p):
    """split p = c * m * q with q primitive and leading positive"""
    ms = list(p)
    # common monomial: minimum exponents
    mins = dict(ms[0])
    for m in ms[1:]:
        d = dict(m)
        for v in list(mins):
            e = d.get(v, 0)
            if e == 0:
                if mins[v] > 0: del mins[v]
                # negative exponent in some, 0 in others: keep min
            elif e < mins[v]: mins[v] = e
        for v, e in d.items():
            if v not in mins and e < 0: mins[v] = e
    mon = tuple(sorted((v, e) for v, e in mins.items() if e))
    lead = max(ms)
    c = p[lead]
    if mon:
        im = tuple((v, -e) for v, e in mon)
        q = {mono_mul(m, im): (cdiv(k, c) if type(k) is not float else k/c) for m, k in p.items()}
    else:
        q = {m: (cdiv(k, c) if type(k) is not float else k/c) for m, k in p.items()}
    return c, mon, q

def inv(s):
    if type(s) is not Sym:
        return 1.0/s
    if not s.p:
        raise SymError('1/0')
    if len(s.p) == 1:
        (m, c), = s.p.items()
        ic = 1/c if type(c) is float else cdiv(1, c)
        if CTX.trunc is not None and m:
            pass
        return simp({tuple((v, -e) for v, e in m): ic})
    c, mon, q = content(s.p)
    # note: content may break relations with special atoms; fine (values agree)
    ic = 1/c if type(c) is float else cdiv(1, c)
    im = tuple((v, -e) for v, e in mon)
    if len(q) == 1:
        return simp({im: ic})
    a = atom('inv', Sym(q))
    return simp({mono_mul(im, ((a.id, 1),)): ic})

def vdiv(a, b):
    if type(b) is Sym:
        if type(a) is not Sym and a == 0: return 0.0
        return inv(b)*a
    return a/b

def single_atom(s):
    """(coef, VarInfo) if s == coef*atom"""
    if type(s) is Sym and len(s.p) == 1:
        (m, c), = s.p.items()
        if len(m) == 1 and m[0][1] == 1:
            return c, CTX.vars[m[0][0]]
    return None, None

def isqrt_rat(c):
    c = Fraction(c)
    if c < 0: return None
    a = math.isqrt(c.numerator); b = math.isqrt(c.denominator)
    if a*a == c.numerator and b*b == c.denominator:
        f = Fraction(a, b)
        return f.numerator if f.denominator == 1 else f
    return None

def ibounds(s):
    """interval enclosing s, from the bounds of its variables (None: unbounded)"""
    if type(s) is not Sym: return float(s), float(s)
    lo = hi = 0.0
    for m, c in s.p.items():
        a = b = float(c)
        for v, e in m:
            x = CTX.vars[v]
            if x.lo is None or x.hi is None: return None, None
            l, h = float(x.lo), float(x.hi)
            if e < 0:
                if l <= 0 <= h: return None, None
                l, h = 1/h, 1/l
            for _ in range(abs(e)):
                q = (a*l, a*h, b*l, b*h); a, b = min(q), max(q)
        lo += a; hi += b
    return lo, hi

def vsqrt(s):
    """sqrt; caller guarantees s>=0 on this path.  Perfect even powers of
    atoms are pulled out as |x| (decided by the caller via fabs)"""
    if type(s) is not Sym:
        return math.sqrt(s)
    c = const_of(s)
    if c is not None and type(c) is not float:
        r = isqrt_rat(c)
        if r is not None: return norm_const(r)
    CTX.special = True
    if c is None and type(next(iter(s.p.values()))) is not float:
        k, mon, q = content(s.p)
        r = isqrt_rat(abs(k))
        if r is not None and not mon and r != 1 and k > 0:
            return vsqrt(Sym(q))*Sym({(): r})
        if CTX.trig and mon and k > 0 and all(e % 2 == 0 for v, e in mon):
            nn = [CTX.vars[v].lo is not None and CTX.vars[v].lo >= 0 for v, e in mon]
            if all(nn):
                f = r if r is not None else rat(math.sqrt(float(k)))
                return vsqrt(simp(q))*Sym({tuple((v, e//2) for v, e in mon): f})
    a = atom('sqrt', s, 0.0, None)
    return var(a)

def composed(fn, s):
    """sin/cos/tan of inverse functions"""
    c, a = single_atom(s)
    if a is None or abs(c) != 1: return None
    sg = 1 if c == 1 else -1
    k = a.kind; u = a.arg
    if k == 'atan':
        h = vsqrt(u*u+1.0)
        sn, cs = vdiv(u, h), vdiv(1.0, h)
    elif k == 'atan2':
        y, x = u
        h = vsqrt(x*x+y*y)
        sn, cs = vdiv(y, h), vdiv(x, h)
    elif k == 'asin':
        sn, cs = u, vsqrt(1.0-u*u)
    elif k == 'acos':
        sn, cs = vsqrt(1.0-u*u), u
    else:
        return None
    if fn == 'sin': return sn if sg == 1 else -sn
    return cs

def split_pi(s):
    """s = rest + n*pi/2 for a constant part that is a multiple of pi/2"""
    c = s.p.get(())
    if c is None: return s, 0
    n = float(c)/(math.pi/2)
    k = round(n)
    if k != 0 and abs(n-k) < 1e-12:
        p = dict(s.p); del p[()]
        return simp(p), k
    return s, 0

def sname(s):
    """name of an expression that is stable over restarts of a run"""
    if type(s) is tuple: return '(' + ','.join(sname(x) for x in s) + ')'
    if type(s) is not Sym: return repr(s)
    return '+'.join('%.9g*%s' % (float(c), '*'.join('%s^%d' % (vname(v), e) for v, e in m)) for m, c in sorted(s.p.items()))
def vname(v):
    i = CTX.vars[v]
    if i.arg is None: return '%s%s' % (i.kind, i.idx if i.kind == 'in' else v)
    return '%s(%s)' % (i.kind, sname(i.arg) if not isinstance(i.arg, (int, float)) else i.arg)

def multi_angle(s):
    """(sin,cos) of s written with those of a base angle of the same direction"""
    c0 = float(s.p.get((), 0))
    p = dict(s.p); p.pop((), None)
    lead = max(p); l = p[lead]
    dirn = simp({m: norm_const(rat(float(c)/float(l))) if c is not l else 1 for m, c in p.items()})
    key = sname(dirn)
    base = CTX.angles.get(key)
    if base is None:
        d = CTX.angle_div.get(key, 1)
        ca, a = single_atom(dirn)
        if a is not None and a.kind in ('acos', 'asin', 'atan', 'atan2'): unit, off = Fraction(1, d), 0.0   # inverse functions: their own value is the unit
        else: unit, off = abs(float(l))/d, c0/d*(1 if l > 0 else -1)
        base = CTX.angles[key] = (unit, d, off)
    unit, d, off = base
    r = float(l)/float(unit)
    fr = Fraction(r).limit_denominator(64)
    if abs(float(fr)-r) > 1e-9*max(1, abs(r)) or abs(fr) > 64:
        return trig_pair_signed(s)
    if fr.denominator != 1:
        CTX.angle_div[key] = d*fr.denominator
        raise AngleRefine(key)
    bs = dirn*float(unit) if d != 1 or type(unit) is float else dirn
    if off: bs = bs+off
    sn, cs = trig_pair_signed(bs)
    k = abs(fr.numerator)
    S, C = sn, cs
    for _ in range(k-1): S, C = S*cs+C*sn, C*cs-S*sn
    if fr < 0: S = -S
    c0 -= off*fr.numerator
    q = c0/(math.pi/2)
    if abs(q-round(q)) < 1e-12:
        q = round(q) % 4
        return (S, C) if q == 0 else (C, -S) if q == 1 else (-S, -C) if q == 2 else (-C, S)
    a, b = math.sin(c0), math.cos(c0)
    return S*b+C*a, C*b-S*a
def trig_pair_signed(s):
    a, b = composed('sin', s), composed('cos', s)
    if a is not None: return a, b
    if s.p[max(s.p)] < 0:
        a, b = trig_pair(-s)
        return -a, b
    return trig_pair(s)

def trig_bounds(a, b):
    """range of cos on [a,b], rounded outwards"""
    lo = -1.0 if math.floor((b-math.pi)/(2*math.pi)) >= math.ceil((a-math.pi)/(2*math.pi)) else min(math.cos(a), math.cos(b))
    hi = 1.0 if math.floor(b/(2*math.pi)) >= math.ceil(a/(2*math.pi)) else max(math.cos(a), math.cos(b))
    return max(-1.0, lo-1e-12), min(1.0, hi+1e-12)
def trig_pair(s):
    CTX.special = True
    cl = sl = -1.0; ch = sh = 1.0
    if CTX.trig:
        a, b = ibounds(s)
        if a is not None: (cl, ch), (sl, sh) = trig_bounds(a, b), trig_bounds(a-math.pi/2, b-math.pi/2)
    c = atom('cos', s, cl, ch)
    k = atom('sin', s, sl, sh, c.id)
    return var(k), var(c)

def vsin(s):
    if type(s) is not Sym: return math.sin(s)
    s, k = split_pi(s)
    if k:
        k %= 4
        return vsin(s) if k == 0 else vcos(s) if k == 1 else -vsin(s) if k == 2 else -vcos(s)
    r = composed('sin', s)
    if r is not None: return r
    if CTX.trig: return multi_angle(s)[0]
    # odd symmetry
    if s.p[max(s.p)] < 0: return -vsin(-s)
    return trig_pair(s)[0]
def vcos(s):
    if type(s) is not Sym: return math.cos(s)
    s, k = split_pi(s)
    if k:
        k %= 4
        return vcos(s) if k == 0 else -vsin(s) if k == 1 else -vcos(s) if k == 2 else vsin(s)
    r = composed('cos', s)
    if r is not None: return r
    if CTX.trig: return multi_angle(s)[1]
    if s.p[max(s.p)] < 0: s = -s
    return trig_pair(s)[1]
def vtan(s):
    if type(s) is not Sym: return math.tan(s)
    c, a = single_atom(s)
    if a is not None and c == 1:
        if a.kind == 'atan': return a.arg
        if a.kind == 'atan2': return vdiv(a.arg[0], a.arg[1])
    return vdiv(vsin(s), vcos(s))
def hyp_pair(s):
    CTX.special = True
    a, b = ibounds(s) if CTX.trig else (None, None)
    if a is not None and max(abs(a), abs(b)) < 50:
        k = atom('sinh', s, math.sinh(a), math.sinh(b))
        c = atom('cosh', s, 1.0, max(math.cosh(a), math.cosh(b)), k.id)
    else:
        k = atom('sinh', s)
        c = atom('cosh', s, 1.0, None, k.id)
    return var(k), var(c)
def vsinh(s):
    if type(s) is not Sym: return math.sinh(s)
    if s.p[max(s.p)] < 0: return -vsinh(-s)
    return hyp_pair(s)[0]
def vcosh(s):
    if type(s) is not Sym: return math.cosh(s)
    if s.p[max(s.p)] < 0: s = -s
    return hyp_pair(s)[1]
def vtanh(s):
    if type(s) is not Sym: return math.tanh(s)
    return vdiv(vsinh(s), vcosh(s))
def vexp(s):
    if type(s) is not Sym: return math.exp(s)
    c, a = single_atom(s)
    if a is not None and a.kind == 'log' and c == int(c): return ipow(a.arg, int(c))
    # exp(k*m + const): canonical sign
    k, mon, q = content(s.p)
    if k < 0: return inv(var(atom('exp', -s, 0.0, None)))
    return var(atom('exp', s, 0.0, None))
def vlog(s):
    if type(s) is not Sym: return math.log(s) if s > 0 else (-math.inf if s == 0 else math.nan)
    c, a = single_atom(s)
    if a is not None and a.kind == 'exp' and c == 1: return a.arg
    return var(atom('log', s))
def fn1(kind, lo=None, hi=None):
    f = getattr(math, kind)
    def g(s):
        if type(s) is not Sym: return f(s)
        return var(atom(kind, s, lo, hi))
    return g
vatan = fn1('atan', -1.5707963267948968, 1.5707963267948968)
vacos = fn1('acos', 0.0, 3.1415926535897936)
vasin = fn1('asin', -1.5707963267948968, 1.5707963267948968)
verf = fn1('erf', -1.0, 1.0)
def vatan2(y, x):
    if type(y) is not Sym and type(x) is not Sym: return math.atan2(y, x)
    return var(atom('atan2', (y, x), -3.1415926535897936, 3.1415926535897936))
def ipow(s, n):
    if type(s) is not Sym: return s**n
    if n == 0: return 1.0
    if n < 0: return inv(ipow(s, -n))
    r = s
    for _ in range(n-1): r = r*s
    return r
def vpow(s, e):
    if type(e) is Sym: return vexp(vlog(s)*e)
    if e == int(e) and abs(e) <= 64: return ipow(s, int(e))
    if type(s) is not Sym: return math.pow(s, e)
    if 2*e == int(2*e): return ipow(vsqrt(s), int(2*e))
    for n in (3, 4, 6, 12):
        k = round(n*e)
        if abs(n*e-k) < 1e-14:
            CTX.special = True
            a = atom('root', s, 0.0, None, n) if n != 12 else None
            if a is not None:
                # canonical: one root atom per (arg,n)
                return ipow(var(a), k)
    return var(atom('pow', (s, e), 0.0, None))

# ------------------------------------------------------------- derivative
def diff(s, k):
    """d s / d input k (exact)"""
    if type(s) is not Sym: return 0.0
    v = CTX.inputs.get(k)
    if v is None: return 0.0
    return diffv(s, v.id)

def diffv(s, vid):
    if type(s) is not Sym: return 0.0
    r = {}
    acc = 0.0
    by = {}
    for m, c in s.p.items():
        for i, (v, e) in enumerate(m):
            dv = datom(v, vid)
            if type(dv) is not Sym and dv == 0: continue
            rest = m[:i] + (((v, e-1),) if e != 1 else ()) + m[i+1:]
            q = by.setdefault(v, {})
            o = q.get(rest)
            q[rest] = c*e if o is None else o + c*e
    for v, q in by.items():
        q = {m: c for m, c in q.items() if c != 0}
        acc = acc + simp(q)*datom(v, vid)
    return acc

def datom(v, vid):
    if v == vid: return 1.0
    key = (v, vid)
    r = CTX.dcache.get(key)
    if r is not None: return r
    i = CTX.vars[v]; k = i.kind; a = i.arg
    if k in ('in', 'uninit', 'free'):
        r = 0.0
    elif k == 'inv':
        x = var(i); r = -(x*x)*diffv(a, vid)
    elif k == 'sqrt':
        r = diffv(a, vid)*inv(var(i))*0.5
    elif k == 'root':
        d = diffv(a, vid)
        r = d*var(i)*inv(a)/float(i.idx) if type(d) is Sym or d != 0 else 0.0
    elif k == 'sin':
        r = vcos(a)*diffv(a, vid)
    elif k == 'cos':
        r = -vsin(a)*diffv(a, vid) if type(vsin(a)) is Sym else -(vsin(a))*diffv(a, vid)
    elif k == 'exp':
        r = var(i)*diffv(a, vid)
    elif k == 'log':
        r = vdiv(diffv(a, vid), a)
    elif k == 'atan':
        r = vdiv(diffv(a, vid), a*a+1.0)
    elif k == 'atan2':
        y, x = a
        num = diffv(y, vid)*x - diffv(x, vid)*y
        r = vdiv(num, x*x+y*y)
    elif k == 'asin':
        r = vdiv(diffv(a, vid), vsqrt(1.0-a*a))
    elif k == 'acos':
        r = -vdiv(diffv(a, vid), vsqrt(1.0-a*a))
    elif k == 'sinh':
        r = vcosh(a)*diffv(a, vid)
    elif k == 'cosh':
        r = vsinh(a)*diffv(a, vid)
    elif k == 'erf':
        r = vexp(-(a*a))*diffv(a, vid)*(2.0/math.sqrt(math.pi))
    elif k == 'pow':
        s, e = a
        r = vdiv(var(i)*diffv(s, vid)*e, s)
    else:
        raise SymError('no derivative rule for ' + k)
    CTX.dcache[key] = r
    return r

# ------------------------------------------------------------- normal form
def denominators_cleared(s, limit=400000, factors=None):
    """polynomial numerator of s: multiplies by all denominators (nonzero where
    the expression is defined); appends (denominator, power) to factors"""
    if type(s) is not Sym: return s
    p = s.p
    while True:
        mx = -1; lo = 0; hi = 0
        # the youngest atom that is an inverse or occurs with negative power
        cand = {}
        for m in p:
            for v, e in m:
                if CTX.vars[v].kind == 'inv' or e < 0:
                    a, b = cand.get(v, (0, 0))
                    cand[v] = (min(a, e), max(b, e))
        if not cand: break
        v = max(cand); lo, hi = cand[v]
        if CTX.vars[v].kind == 'inv':
            d = CTX.vars[v].arg.p
            if factors is not None: factors.append((CTX.vars[v].arg, hi))
            # powers r^e -> d^(hi-e)
            groups = {}
            for m, c in p.items():
                e = dict(m).get(v, 0)
                rest = tuple(x for x in m if x[0] != v)
                groups.setdefault(hi-e, {})[rest] = c
            dp = {(): 1}
            out = {}
            for e in range(0, max(groups)+1):
                if e: dp = pmul(dp, d)
                if e in groups:
                    out = padd(out, pmul(groups[e], dp)) if out else pmul(groups[e], dp)
                if len(out) > limit or len(dp) > limit: raise SymError('expression too large')
            p = out
        else:
            mm = ((v, -lo),)
            if factors is not None: factors.append((var(CTX.vars[v]), -lo))
            p = {mono_mul(m, mm): c for m, c in p.items()}
            if CTX.special: p = reduce_rel(p)
        if len(p) > limit: raise SymError('expression too large')
    return simp(p)

def evaluate(s, env):
    """numeric value (float) for env: input idx -> float (memo in env['_m'])"""
    if type(s) is not Sym: return float(s)
    t = 0.0
    for m, c in s.p.items():
        x = float(c)
        for v, e in m:
            x *= eval_var(v, env)**e
        t += x
    return t
def eval_var(v, env):
    memo = env.setdefault('_m', {})
    r = memo.get(v)
    if r is not None: return r
    i = CTX.vars[v]; k = i.kind; a = i.arg
    if k in ('in',): r = env[i.idx]
    elif k in ('uninit', 'free'): r = env.get(('f', v), 0.12345)
    elif k == 'inv': r = 1.0/evaluate(a, env)
    elif k == 'sqrt': r = math.sqrt(max(0.0, evaluate(a, env)))
    elif k == 'root': r = evaluate(a, env)**(1.0/i.idx)
    elif k == 'atan2': r = math.atan2(evaluate(a[0], env), evaluate(a[1], env))
    elif k == 'pow': r = evaluate(a[0], env)**a[1]
    else: r = getattr(math, k)(evaluate(a, env))
    memo[v] = r
    return r
