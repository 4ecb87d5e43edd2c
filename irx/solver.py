"""Path exploration and the SMT queries (z3) that decide the assertions."""
import time, random, math
from fractions import Fraction
import z3
from . import sym, si
from .sym import Sym, CTX, SymError

class Fail(Exception):
    pass

def frac(c):
    return Fraction(c)

def unroot(d, op):
    """a comparison of a square root with a constant or with another square root,
    written without the root: True/False, an equivalent left side, or None"""
    if len(d.p) > 2: return None
    t = []; cst = 0
    for m, c in d.p.items():
        if not m: cst = c; continue
        if len(m) != 1 or m[0][1] != 1 or CTX.vars[m[0][0]].kind != 'sqrt' or type(c) is float: return None
        t.append((Fraction(c), CTX.vars[m[0][0]].arg))
    sq = lambda c, a: a*sym.norm_const(c*c)
    if len(t) == 2:
        (a, x), (b, y) = t
        if (a > 0) == (b > 0): return None
        r = sq(a, x)-sq(b, y)
        return r if a > 0 else -r
    if len(t) != 1 or type(cst) is float: return None
    a, x = t[0]
    k = -Fraction(cst)/a
    if not Fraction(1, 10**6) < k < 10**60: return None
    r = x-sym.norm_const(k*k)
    return r if a > 0 else -r
def z3q(c):
    f = Fraction(c)
    return z3.Q(f.numerator, f.denominator) if f.denominator != 1 else z3.RealVal(f.numerator)

class Solver:
    def __init__(self, name, timeout_ms=4000, max_paths=400, deadline=None, verbose=False):
        self.name = name
        self.timeout = timeout_ms
        self.max_paths = max_paths
        self.deadline = deadline
        self.verbose = verbose
        self.stats = dict(queries=0, solver_s=0.0, paths=0, checks=0, exact=0, lra=0, nra=0, concrete=0, infeasible=0, feas=0, asserts=0)
        self.reached = set()
        self.fails = []          # (check name, env, note)
        self.inconclusive = []
        self.box = {}
        self.subst = {}
        self.seen_subst = set()
        self.samples = []
        self.checknames = {}

    # ---------------------------------------------------------------- exploration
    def explore(self, runfn):
        """runfn() executes the harness once.  Depth-first over decisions"""
        work = [({}, [])]
        self.seen_subst = {()}
        self.work = work
        while work:
            if self.stats['paths'] >= self.max_paths:
                self.inconclusive.append('path limit %d reached' % self.max_paths); break
            if self.deadline and time.time() > self.deadline:
                self.inconclusive.append('time limit reached'); break
            if len(self.fails) >= 3:
                break
            self.subst, self.prefix = work.pop()
            self.pos = 0
            self.pc = []        # list of (Sym, op, truth)
            self.pcmemo = {}
            self.zs = None
            self.zi = None; self.imemo = {}; self.iin = {}; self.ikeep = []
            CTX.reset()
            self.box = {}
            self.stats['paths'] += 1
            runfn()
    def declare(self, k, lo, hi):
        self.box[k] = (lo, hi)
    def reach(self, name):
        self.reached.add(name)

    # ---------------------------------------------------------------- intervals
    def ivar(self, v, memo):
        r = memo.get(v)
        if r is not None: return r
        i = CTX.vars[v]
        lo = -math.inf if i.lo is None else i.lo
        hi = math.inf if i.hi is None else i.hi
        if i.kind in ('sqrt', 'inv', 'exp', 'root', 'log', 'sinh', 'cosh', 'atan', 'asin', 'acos'):
            a, b = self.interval(i.arg, memo)
            try:
                if i.kind == 'sqrt': lo, hi = math.sqrt(max(0, a))*(1-1e-15), (math.sqrt(b)*(1+1e-15) if b < math.inf else b)
                elif i.kind == 'root': lo, hi = max(0, a)**(1.0/i.idx)*(1-1e-14), (b**(1.0/i.idx)*(1+1e-14) if b < math.inf else b)
                elif i.kind == 'inv':
                    if a > 0 or b < 0:
                        x = 1/a if a not in (0,) else math.inf; y = 1/b if b not in (0,) else (-math.inf)
                        lo, hi = min(x, y), max(x, y)
                        w = 1e-15*max(abs(lo), abs(hi)); lo -= w; hi += w
                elif i.kind == 'exp':
                    lo = max(0.0, math.exp(max(a, -700))*(1-1e-14)); hi = math.exp(b)*(1+1e-14) if b < 700 else math.inf
                elif i.kind == 'log':
                    lo = math.log(a) if a > 0 else -math.inf; hi = math.log(b) if 0 < b < math.inf else math.inf
                elif i.kind == 'atan': lo, hi = math.atan(a)-1e-15, math.atan(b)+1e-15
            except (ValueError, OverflowError):
                pass
        memo[v] = (lo, hi)
        return lo, hi
    def interval(self, s, memo=None):
        """outward bounds of s"""
        if type(s) is not Sym: return float(s), float(s)
        if memo is None: memo = {}
        L = H = 0.0
        mag = 0.0
        for m, c in s.p.items():
            lo = hi = float(c)
            for v, e in m:
                a, b = self.ivar(v, memo)
                if e < 0:
                    if a > 0 or b < 0:
                        a, b = (1/b if b != 0 and abs(b) != math.inf else (0.0 if b > 0 or b == math.inf else -math.inf)), (1/a if a != 0 and abs(a) != math.inf else (0.0 if a < 0 else math.inf))
                        if a > b: a, b = b, a
                    elif a == 0 and b > 0: a, b = (1/b if b < math.inf else 0.0), math.inf
                    else: a, b = -math.inf, math.inf
                    e = -e
                if e % 2 == 0:
                    if a >= 0: a, b = a**e, b**e
                    elif b <= 0: a, b = b**e, a**e
                    else: a, b = 0.0, max(-a, b)**e
                elif e > 1:
                    a, b = a**e, b**e
                ps = [x*y if not (x == 0 or y == 0) else 0.0 for x in (lo, hi) for y in (a, b)]
                lo, hi = min(ps), max(ps)
            L += lo; H += hi
            mag += max(abs(lo), abs(hi)) if max(abs(lo), abs(hi)) < math.inf else 0
        w = mag*len(s.p)*1e-15
        return L-w, H+w

    # ---------------------------------------------------------------- z3 encoding
    def enc_start(self):
        self.zv = {}
        self.zcons = []
    def zvar(self, v):
        x = self.zv.get(v)
        if x is not None: return x
        i = CTX.vars[v]
        x = z3.Real('%s_%d' % (i.name, v))
        self.zv[v] = x
        if i.lo is not None and i.lo > -math.inf: self.zcons.append(x >= z3q(i.lo))
        if i.hi is not None and i.hi < math.inf: self.zcons.append(x <= z3q(i.hi))
        if i.kind == 'sqrt': self.zcons.append(x*x == self.enc(i.arg))
        elif i.kind == 'inv': self.zcons.append(x*self.enc(i.arg) == 1)
        elif i.kind == 'root': 
            y = x
            for _ in range(i.idx-1): y = y*x
            self.zcons.append(y == self.enc(i.arg))
        elif i.kind == 'sin':
            c = self.zvar(i.idx); self.zcons.append(x*x+c*c == 1)
        elif i.kind == 'cosh':
            c = self.zvar(i.idx); self.zcons.append(x*x == 1+c*c)
        if i.kind not in ('in', 'uninit', 'free'):
            lo, hi = self.ivar(v, {})
            if lo > -math.inf: self.zcons.append(x >= z3q(lo))
            if hi < math.inf: self.zcons.append(x <= z3q(hi))
        return x
    def enc(self, s):
        if type(s) is not Sym: return z3q(s)
        ts = []
        for m, c in s.p.items():
            num = z3q(c); 
            t = num
            for v, e in m:
                x = self.zvar(v)
                if e < 0:
                    key = ('i', v)
                    y = self.zv.get(key)
                    if y is None:
                        y = z3.Real('inv_%d' % v); self.zv[key] = y
                        self.zcons.append(y*x == 1)
                    x = y; e = -e
                for _ in range(e): t = t*x
            ts.append(t)
        return z3.Sum(ts) if len(ts) > 1 else ts[0]
    def enc_pc(self):
        r = []
        for d, op, tr in self.pc:
            e = self.enc(d)
            c = e < 0 if op == '<' else e <= 0 if op == '<=' else e == 0
            r.append(c if tr else z3.Not(c))
        return r
    def query(self, cons, timeout=None):
        s = z3.SolverFor('QF_NRA') if any(True for _ in ()) else z3.Solver()
        s.set('timeout', timeout or self.timeout)
        s.add(*cons)
        t = time.time()
        r = s.check()
        self.stats['queries'] += 1
        self.stats['solver_s'] += time.time()-t
        if r == z3.sat:
            return 'sat', s.model()
        return str(r), None

    def env_from_model(self, m):
        env = dict(self.subst)
        for k, (lo, hi) in self.box.items():
            if k in self.subst: continue
            if k in self.iin: continue
            v = CTX.inputs.get(k)
            x = self.zv.get(v.id) if v is not None else None
            val = None
            if x is not None:
                y = m.eval(x, model_completion=False)
                if z3.is_rational_value(y):
                    val = float(Fraction(y.numerator_as_long(), y.denominator_as_long()))
                elif z3.is_algebraic_value(y):
                    y = y.approx(25)
                    val = float(Fraction(y.numerator_as_long(), y.denominator_as_long()))
            if val is None:
                val = (lo+hi)/2 if lo > -math.inf and hi < math.inf else 1.0
            env[k] = val
        return env

    # ---------------------------------------------------------------- symbolic integers
    def int_input(self, k, lo, hi):
        r = self.iin.get(k)
        if r is None:
            x, val, cons = si.input_int(k, lo, hi)
            if self.zi is None: self.zi = z3.SolverFor('QF_BV')
            self.zi.add(*cons)
            r = self.iin[k] = (x, si.mk((val) & z3.BitVecVal(0xffffffff, si.W)), lo)
            self.box.setdefault(k, (lo, hi))
        return r[1]
    def icheck(self, *c):
        t = time.time()
        r = self.zi.check(*c)
        self.stats['queries'] += 1; self.stats['solver_s'] += time.time()-t
        if r == z3.unknown: raise SymError('bit-vector query undecided')
        return r == z3.sat
    def next_work(self, entry):
        self.work.append((self.subst, self.prefix[:self.pos] + [entry]))
    def decide_i(self, c):
        i = c.get_id()
        r = self.imemo.get(i)
        if r is not None: return r
        self.ikeep.append(c)
        if self.pos < len(self.prefix):
            r = self.prefix[self.pos]
        else:
            self.stats['feas'] += 1
            ft = self.icheck(c)
            ff = not ft or self.icheck(z3.Not(c))
            if not ft and not self.icheck():
                from .symex import PathEnd
                self.stats['infeasible'] += 1
                raise PathEnd('infeasible')
            if ft and ff:
                self.next_work(False); r = True
            else: r = ft
            self.prefix = self.prefix[:self.pos] + [r]
        self.pos += 1
        n = z3.simplify(z3.Not(c)); self.ikeep.append(n)
        self.zi.add(c if r else n)
        self.imemo[i] = r; self.imemo[n.get_id()] = not r
        return r
    def conc(self, e):
        """split over the feasible values of e"""
        while True:
            if self.pos < len(self.prefix):
                tag, val, r = self.prefix[self.pos]
            else:
                self.stats['feas'] += 1
                if not self.icheck():
                    from .symex import PathEnd
                    raise PathEnd('infeasible')
                val = self.zi.model().eval(e, model_completion=True).as_signed_long(); r = True
                if self.icheck(e != z3.BitVecVal(val, si.W)):
                    self.next_work(('v', val, False))
                self.prefix = self.prefix[:self.pos] + [('v', val, True)]
            self.pos += 1
            b = z3.BitVecVal(val, si.W)
            self.zi.add(e == b if r else e != b)
            if r: return val
    def int_env(self, env):
        if self.zi is None: return env
        if not self.icheck(): return None
        m = self.zi.model()
        for k, (x, val, lo) in self.iin.items(): env[k] = m.eval(x, model_completion=True).as_long()+lo
        return env
    # ---------------------------------------------------------------- branches
    def decide(self, d, op):
        """is  d op 0 ?"""
        c = sym.const_of(d)
        if c is not None:
            return c < 0 if op == '<' else c <= 0 if op == '<=' else c == 0
        if not CTX.floatmode:
            e = unroot(d, op)
            if e is not None: return e if type(e) is bool else self.decide(e, op)
        key = (d.key(), op)
        r = self.pcmemo.get(key)
        if r is not None: return r
        lo, hi = self.interval(d)
        if op == '<' and hi < 0 or op == '<=' and hi <= 0: r = True
        elif op == '<' and lo >= 0 or op == '<=' and lo > 0: r = False
        elif op == '==' and (lo > 0 or hi < 0): r = False
        if r is not None:
            self.pcmemo[key] = r
            return r
        # equality with a single input: explored as a separate concrete substitution
        if op == '==' and not CTX.floatmode:
            n = sym.denominators_cleared(d)
            if type(n) is Sym and len(n.p) <= 2:
                vs = {v for m in n.p for v, e in m}
                if len(vs) == 1:
                    v = CTX.vars[next(iter(vs))]
                    if v.kind == 'in' and all(len(m) == 0 or m[0][1] == 1 for m in n.p):
                        lin = [c for m, c in n.p.items() if m][0]
                        cst = n.p.get((), 0)
                        val = float(-Fraction(cst)/Fraction(lin))
                        sb = dict(self.subst); sb[v.idx] = val
                        lo_, hi_ = self.box[v.idx]
                        k2 = tuple(sorted(sb.items()))
                        if lo_ <= val <= hi_ and k2 not in self.seen_subst:
                            self.seen_subst.add(k2)
                            self.work.append((sb, []))
                        self.pc.append((d, '==', False))
                        self.pcmemo[key] = False
                        return False
        r = self.cleared_fact(d, op)
        if r is not None:
            self.pcmemo[key] = r
            return r
        if self.pos < len(self.prefix):
            r = self.prefix[self.pos]
        else:
            ft = self.feasible(d, op, True)
            ff = self.feasible(d, op, False)
            if ft and ff:
                r = False if op == '==' else True
                self.work.append((self.subst, self.prefix[:self.pos] + [not r]))
            elif ft: r = True
            elif ff: r = False
            else:
                self.stats['infeasible'] += 1
                from .symex import PathEnd
                raise PathEnd('infeasible')
            self.prefix = self.prefix[:self.pos] + [r]
        self.pos += 1
        self.pc.append((d, op, r))
        self.pcmemo[key] = r
        # implied facts
        if op == '<' and r: self.pcmemo[(key[0], '<=')] = True; self.pcmemo[(key[0], '==')] = False
        if op == '<=' and not r: self.pcmemo[(key[0], '<')] = False; self.pcmemo[(key[0], '==')] = False
        if op == '==' and r: self.pcmemo[(key[0], '<')] = False; self.pcmemo[(key[0], '<=')] = True
        nk = (-d).key()
        if op == '<' and r: self.pcmemo[(nk, '<')] = False; self.pcmemo[(nk, '<=')] = False; self.pcmemo[(nk, '==')] = False
        if op == '<' and not r: self.pcmemo[(nk, '<=')] = True
        if op == '<=' and r: self.pcmemo[(nk, '<')] = False
        if op == '<=' and not r: self.pcmemo[(nk, '<')] = True; self.pcmemo[(nk, '<=')] = True; self.pcmemo[(nk, '==')] = False
        return r
    def cleared_fact(self, d, op):
        """a decided fact about d times the even powers of its denominators"""
        if CTX.floatmode or len(d.p) > 2000 or not any(e < 0 or CTX.vars[v].kind == 'inv' for m in d.p for v, e in m): return None
        fs = []
        try:
            n = sym.denominators_cleared(d, 3000, fs)
            for f, k in fs:
                if k % 2: n = n*f
        except SymError:
            return None
        if type(n) is not Sym: return None
        return self.pcmemo.get((n.key(), op))
    def feasible(self, d, op, tr):
        self.stats['feas'] += 1
        self.pc.append((d, op, tr))
        self.enc_start()
        try:
            cons = self.enc_pc()
            r, m = self.query(cons + self.zcons, min(self.timeout, 2000))
        finally:
            self.pc.pop()
        return r != 'unsat'

    # ---------------------------------------------------------------- assertions
    def note(self, name):
        self.stats['checks'] += 1
        self.checknames[name] = self.checknames.get(name, 0)+1
    def check_true(self, name, cond):
        self.note(name)
        if type(cond) is si.SI:
            c = cond.cond()
            self.stats['bv'] = self.stats.get('bv', 0)+1
            if not self.icheck(z3.Not(c)): return
            self.zi.add(z3.Not(c))
            cond = False
        if cond:
            self.stats['concrete'] += 1
            return
        # the path itself must be feasible
        env = self.path_model()
        if env is None:
            self.stats['infeasible'] += 1
            return
        self.fails.append((name, env, 'condition false on a feasible path'))
        raise Fail(name)
    def path_model(self):
        if self.zi is not None and not self.icheck(): return None
        env = self.path_model_r()
        return env if env is None else self.int_env(env)
    def path_model_r(self):
        self.enc_start()
        cons = self.enc_pc()
        for k, v in CTX.inputs.items(): self.zvar(v.id)
        r, m = self.query(cons + self.zcons, self.timeout*2)
        if r == 'unsat': return None
        if r == 'sat': return self.env_from_model(m)
        return self.search(lambda env: True) or {**{k: (lo+hi)/2 for k, (lo, hi) in self.box.items()}, **self.subst}
    def pc_holds(self, env, margin=0.0):
        try:
            for d, op, tr in self.pc:
                x = sym.evaluate(d, env)
                t = x < 0 if op == '<' else x <= 0 if op == '<=' else abs(x) < 1e-12
                if t != tr: return False
        except (ZeroDivisionError, ValueError, OverflowError):
            return False
        return True
    def search(self, pred, n=3000):
        """candidate counterexample (only used to replay; never to accept)"""
        rnd = random.Random(1)
        ks = [k for k in self.box if k not in self.subst and k not in self.iin]
        t0 = time.time()
        for it in range(n):
            env = dict(self.subst)
            for k in ks:
                lo, hi = self.box[k]
                lo = max(lo, -1e3); hi = min(hi, 1e3)
                env[k] = rnd.uniform(lo, hi) if it % 4 else rnd.choice([lo, hi, (lo+hi)/2, lo+(hi-lo)*rnd.random()])
            if self.pc_holds(env) and pred(env):
                env.pop('_m', None)
                return {k: v for k, v in env.items() if isinstance(k, int)}
            if time.time()-t0 > 20: break
        return None

    def check(self, name, a, b, tol, kind='eq'):
        self.note(name)
        nan_a = type(a) is not Sym and a != a; nan_b = type(b) is not Sym and b != b
        if nan_a or nan_b:
            if nan_a and nan_b: return
            self.check_fail_concrete(name, a, b); return
        if type(a) is not Sym and type(b) is not Sym:
            self.stats['concrete'] += 1
            if a == b or abs(a-b) <= tol: return
            return self.check_fail_concrete(name, a, b)
        d = a-b
        if type(d) is not Sym and abs(d) <= tol and len(getattr(a, 'p', ()))+len(getattr(b, 'p', ())) <= 400:
            # equal normal forms: the SMT solver confirms the identity on the un-subtracted terms
            self.enc_start()
            ea, eb = self.enc(a), self.enc(b)
            r, m = self.query([z3.Or(ea-eb > z3q(max(tol, 1e-13)), eb-ea > z3q(max(tol, 1e-13)))], 1000)
            self.stats['exact'] += 1
            return
        self.decide_abs(name, d, tol)
    def check_fail_concrete(self, name, a, b):
        env = self.path_model()
        if env is None: return
        self.fails.append((name, env, 'value %r, expected %r' % (a, b)))
        raise Fail(name)
    def check_le(self, name, a, b, tol):
        """a <= b + tol for all inputs"""
        self.note(name)
        d = a-b
        if type(d) is not Sym:
            self.stats['concrete'] += 1
            if d <= tol: return
            return self.check_fail_concrete(name, a, b)
        lo, hi = self.interval(d)
        if hi <= tol:
            self.stats['lra'] += 1
            return
        self.enc_start()
        cons = self.enc_pc() + [self.enc(d) > z3q(tol)]
        self.finish(name, d, cons, lambda x: x > tol)
    def decide_abs(self, name, d, tol):
        if type(d) is not Sym:
            self.stats['exact'] += 1
            if abs(d) <= tol: return
            return self.check_fail_concrete(name, d, 0.0)
        has_uninit = any(CTX.vars[v].kind == 'uninit' for m in d.p for v, e in m)
        if not CTX.floatmode:
            fac = []
            try:
                n = sym.denominators_cleared(d, factors=fac)
            except SymError:
                n = d; fac = None
            if type(n) is not Sym and n == 0:
                self.stats['exact'] += 1
                s = z3.Solver(); t = time.time(); s.add(z3q(0) != 0); s.check()
                self.stats['queries'] += 1; self.stats['solver_s'] += time.time()-t
                return
            if fac and not has_uninit and type(n) is Sym and self.abstract_small(n, tol*self.lower_abs(fac)): return
        if not has_uninit and self.abstract_small(d, tol): return
        self.enc_start()
        e = self.enc(d)
        t = max(tol, 1e-12)
        cons = self.enc_pc() + [z3.Or(e > z3q(t), e < z3q(-t))]
        self.finish(name, d, cons, lambda x: abs(x) > tol)
    def lower_abs(self, fac):
        """lower bound of |product of powers|"""
        r = 1.0; memo = {}
        for s, e in fac:
            lo, hi = self.interval(s, memo)
            r *= (lo if lo > 0 else -hi if hi < 0 else 0.0)**e
        return r*(1-1e-12)
    def abstract_small(self, d, tol):
        """linear abstraction: monomials replaced by independent bounded reals"""
        if tol <= 0: return False
        memo = {}
        ok = True
        zs = []; cons = []
        if ok:
            for i, (m, c) in enumerate(d.p.items()):
                if not m:
                    zs.append(z3q(c)); continue
                lo, hi = self.interval(Sym({m: 1}), memo)
                if lo == -math.inf or hi == math.inf: ok = False; break
                x = z3.Real('m%d' % i)
                cons += [x >= z3q(lo), x <= z3q(hi)]
                zs.append(z3q(c)*x)
        if ok:
            e = z3.Sum(zs) if len(zs) > 1 else zs[0]
            r, m = self.query(cons + [z3.Or(e > z3q(tol), e < z3q(-tol))])
            if r == 'unsat':
                self.stats['lra'] += 1
                return True
        return False
    def finish(self, name, d, cons, viol):
        # a quick numeric probe of the symbolic difference gives z3 a candidate model to confirm
        def pred(env):
            try: return viol(sym.evaluate(d, env))
            except (ZeroDivisionError, ValueError, OverflowError): return False
        cand = self.search(pred, 300)
        if cand is not None:
            self.stats['nra'] += 1
            # the solver confirms (inputs fixed to the candidate)
            fix = []
            for k, v in CTX.inputs.items():
                if v.id in self.zv and k in cand: fix.append(self.zv[v.id] == z3q(cand[k]))
            r, m = self.query(cons + self.zcons + fix, 2000)
            if r != 'unsat':        # (a candidate outside the ranges of auxiliary unknowns is none)
                self.int_env(cand)
                self.fails.append((name, cand, 'difference %r (%s)' % (sym.evaluate(d, dict(cand)), r)))
                raise Fail(name)
        r, m = self.query(cons + self.zcons, self.timeout)
        self.stats['nra'] += 1
        if r == 'unsat': return
        if r == 'sat':
            env = self.int_env(self.env_from_model(m))
            self.fails.append((name, env, 'solver model'))
            raise Fail(name)
        cand = self.search(pred, 4000)
        if cand is not None:
            self.int_env(cand)
            self.fails.append((name, cand, 'candidate'))
            raise Fail(name)
        self.inconclusive.append('%s: solver answered unknown' % name)
