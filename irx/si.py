"""Symbolic integers: bit vectors decided by Z3.  They behave like the Python
ints the translated code uses; a comparison used as a branch condition forks
the path, a symbolic address is split over its feasible values."""
import z3
W = 80
_ctx = [None]          # the executor
class SI:
    __slots__ = ('e', 'c', 'cv')
    def __init__(self, e, c=None):
        self.e = e; self.c = c; self.cv = None
    def __hash__(self): raise TypeError('symbolic integer used as a key')
    def __repr__(self): return 'SI(%s)' % self.e
    # ---- arithmetic
    def __add__(self, o): return mk(self.e+v(o))
    __radd__ = __add__
    def __sub__(self, o): return mk(self.e-v(o))
    def __rsub__(self, o): return mk(v(o)-self.e)
    def __mul__(self, o): return mk(self.e*v(o))
    __rmul__ = __mul__
    def __neg__(self): return mk(-self.e)
    def __and__(self, o):
        if self.cv is not None and type(o) is not SI: return self.cv & o
        if type(o) is int and o == 1 and self.c is not None: return self
        return mk(self.e & v(o))
    __rand__ = __and__
    def __or__(self, o):
        if type(o) is int and o == 0: return self
        return mk(self.e | v(o))
    __ror__ = __or__
    def __xor__(self, o):
        if type(o) is int and o == 1 and self.c is not None: return mkb(z3.Not(self.c))
        return mk(self.e ^ v(o))
    __rxor__ = __xor__
    def __lshift__(self, o): return mk(self.e << v(o))
    def __rlshift__(self, o): return mk(v(o) << self.e)
    def __rshift__(self, o):
        if type(o) is int and o == 36: return self.conc() >> 36
        return mk(z3.LShR(self.e, v(o)))
    def __rrshift__(self, o): return mk(z3.LShR(v(o), self.e))
    # ---- comparisons
    def __eq__(self, o):
        if not isinstance(o, (int, SI)): return False
        return mkb(self.e == v(o))
    def __ne__(self, o):
        if not isinstance(o, (int, SI)): return True
        return mkb(self.e != v(o))
    def __lt__(self, o): return mkb(self.e < v(o))
    def __le__(self, o): return mkb(self.e <= v(o))
    def __gt__(self, o): return mkb(self.e > v(o))
    def __ge__(self, o): return mkb(self.e >= v(o))
    def cond(self): return self.c if self.c is not None else self.e != z3.BitVecVal(0, W)
    def __bool__(self):
        if self.cv is not None: return self.cv != 0
        return _ctx[0].solver.decide_i(self.cond())
    def conc(self):
        if self.cv is None: self.cv = _ctx[0].solver.conc(self.e)
        return self.cv
    __index__ = conc; __int__ = conc
    def __float__(self): return float(self.conc())

def v(o):
    if type(o) is SI: return o.e
    return z3.BitVecVal(int(o), W)
def mk(e):
    e = z3.simplify(e)
    if z3.is_bv_value(e):
        x = e.as_signed_long()
        return x
    return SI(e)
ONE = z3.BitVecVal(1, W); ZERO = z3.BitVecVal(0, W)
def mkb(c):
    c = z3.simplify(c)
    if z3.is_true(c): return 1
    if z3.is_false(c): return 0
    return SI(z3.If(c, ONE, ZERO), c)
def sext(a, w1, w2):
    return mk(z3.ZeroExt(W-w2, z3.SignExt(w2-w1, z3.Extract(w1-1, 0, a.e))) if w2 < W else a.e)
def sgn(a, w):
    """signed value"""
    if type(a) is not SI: return a-(1 << w) if a >> (w-1) & 1 else a
    return mk(z3.SignExt(W-w, z3.Extract(w-1, 0, a.e)))
def div(a, b, w, rem):
    x = v(sgn(a, w)); y = v(sgn(b, w))
    return mk((z3.SRem(x, y) if rem else x/y) & z3.BitVecVal((1 << w)-1, W))
def ashr(a, b, w):
    return mk((v(sgn(a, w)) >> v(b)) & z3.BitVecVal((1 << w)-1, W))
def byte(val, i, n):
    """byte i of an n byte value"""
    if type(val) is not SI: return (val >> 8*i) & 255
    return mk(z3.ZeroExt(W-8, z3.Extract(8*i+7, 8*i, val.e)))
def join(bs):
    """little endian value of a list of bytes (ints or SI)"""
    return mk(z3.ZeroExt(W-8*len(bs), z3.Concat(*[z3.Extract(7, 0, v(b)) for b in reversed(bs)])) if len(bs) > 1 else v(bs[0]))
def input_int(k, lo, hi):
    n = max(1, (hi-lo).bit_length())
    x = z3.BitVec('i%d' % k, n)
    cons = [] if hi-lo == (1 << n)-1 else [z3.ULE(x, z3.BitVecVal(hi-lo, n))]
    return x, z3.ZeroExt(W-n, x)+z3.BitVecVal(lo, W), cons
