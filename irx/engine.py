"""Runs one harness symbolically, replays counterexamples on the native build"""
import os, sys, time, tempfile, shutil, subprocess, traceback, math, resource, signal
from . import sym
from .sym import CTX, SymError
from .build import Tree, BuildError, VERIF
from .symex import Exec, MemErr, SgridExit, PathEnd, Unreachable, IRError
from .solver import Solver, Fail

class Job:
    def __init__(self, src, fn, cfg=(), float=False, max_paths=400, timeout_ms=4000, extra=(), defs=(), expect_reach=('end',),
                 budget=300, hook=None, label=None, cost=1, mem=6, trig=False):
        self.src = os.path.join(VERIF, 'harness', src); self.fn = fn; self.cfg = tuple(cfg); self.float = float
        self.max_paths = max_paths; self.timeout_ms = timeout_ms; self.extra = extra; self.defs = tuple(defs)
        self.expect_reach = expect_reach; self.budget = budget; self.hook = hook; self.trig = trig
        self.label = label or '%s(%s)%s' % (fn, ','.join(map(str, cfg)), '' if not defs else '['+','.join(defs)+']')
        self.cost = cost; self.mem = mem; self.prebuild = extra
    def run(self):
        return run_symbolic(self)
    def replay(self, fail, keep=None):
        return replay(self, fail, keep)
    def validate(self, res, rnd):
        return validate(self, res, rnd)
    def hang_probe(self):
        """native run on mid-range inputs, to tell a slow query from code that does not terminate"""
        tree = Tree(self.extra); tmp = tempfile.mkdtemp(prefix='vhang')
        try:
            exe = tree.native_exe(self.src, self.defs)
            rc, so, lines = native_run(exe, self, {}, tmp, timeout=60)
            if rc == 'timeout': return 'native run of the harness does not terminate within 60 s (default inputs)'
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        return None

def run_symbolic(job, verbose=False):
    CTX.angle_div = {}
    for _ in range(6):
        try: return run_symbolic1(job, verbose)
        except sym.AngleRefine: pass
    return dict(label=job.label, fails=[], inconclusive=[], error='angles have no common unit', wall=0)
def run_symbolic1(job, verbose=False):
    t0 = time.time()
    sys.setrecursionlimit(20000)
    res = dict(label=job.label, fails=[], inconclusive=[], error=None)
    try:
        tree = Tree(job.extra)
        paths = [tree.ll_one(job.src, job.defs)] + tree.ll_all()
        CTX.floatmode = job.float
        CTX.trunc = None; CTX.trig = job.trig
        sv = Solver(job.label, job.timeout_ms, job.max_paths, t0+job.budget, verbose)
        vl = tree.ll_one(os.path.join(VERIF, 'harness', 'vlibc.c'))
        ex = Exec(paths + [vl], sv, vlibc=vl)
        hm = ex.hmod = ex.mod(paths[0])
        fn = ex.call_ref(hm, job.fn)
        def once():
            CTX.trunc = None
            ex.reset()
            if job.hook: job.hook(ex)
            cfg = ex.alloc(4*64, 'cfg', b'\0')
            for i, c in enumerate(job.cfg): ex.ns['sti'](cfg+4*i, c & 0xffffffff, 4)
            try:
                ex.ns[fn](cfg)
            except PathEnd as e:
                pass
            except Fail:
                pass
            except (MemErr, Unreachable) as e:
                env = sv.path_model()
                if env is not None: sv.fails.append(('memory', env, 'memory error: %s' % e))
            except SgridExit as e:
                if not ex.exit_ok:
                    env = sv.path_model()
                    if env is not None: sv.fails.append(('exit', env, 'program terminates: %s' % e))
            except RecursionError:
                sv.inconclusive.append('recursion limit')
        sv.explore(once)
        res.update(stats=sv.stats, fails=sv.fails, inconclusive=sv.inconclusive, reached=sorted(sv.reached),
                   used=sorted(u for u in ex.used if not u[0].startswith('h_')), checknames=sv.checknames,
                   box=dict(sv.box))
        miss = [r for r in job.expect_reach if r not in sv.reached]
        if miss and not sv.fails:
            res['error'] = 'reachability witness %s not reached' % miss
    except (IRError, SymError, BuildError, RecursionError, KeyError, TypeError, ValueError, AttributeError, IndexError, ZeroDivisionError, OverflowError) as e:
        res['error'] = '%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-2500:])
    except MemoryError:
        res['error'] = 'out of memory'
    res['wall'] = time.time()-t0
    return res

# ------------------------------------------------------------------ replay
def bad_line(l):
    w = l.split()
    if not w: return False
    if w[0] in ('CHECK', 'LE') and w[1] == '0':
        a, b, t = float(w[3]), float(w[4]), float(w[5])
        d = abs(a-b) if w[0] == 'CHECK' else a-b
        return not d <= max(t, 1e-9*max(1, abs(a), abs(b)))   # beyond floating-point rounding
    return w[0] == 'TRUE' and w[1] == '0' or w[0] == 'EXIT' and w[1] == '0'

def validate(job, res, rnd, tries=40):
    """translator validation: the native harness on a random admissible input passes its assertions too"""
    tree = Tree(job.extra)
    tmp = tempfile.mkdtemp(prefix='vval')
    try:
        exe = tree.native_exe(job.src, job.defs)
        for _ in range(tries):
            env = {}
            for k, (lo, hi) in res['box'].items():
                if isinstance(lo, int) and isinstance(hi, int): env[k] = rnd.randint(lo, hi); continue
                lo = max(lo, -1e3); hi = min(hi, 1e3)
                env[k] = rnd.uniform(lo, hi)
            rc, so, lines = native_run(exe, job, env, tmp)
            if any(l == 'ASSUME' for l in lines): continue
            bad = [l for l in lines if bad_line(l)]
            if bad: return False, '%s inputs %r' % (bad[0], env)
            if rc != 0 or 'DONE' not in lines and not any(l.startswith('EXIT') for l in lines): return False, 'native status %s %s' % (rc, so[-200:])
            return True, None
        return False, None
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

def native_run(exe, job, env, tmp, timeout=120, pre=(), perturb=None):
    inf = os.path.join(tmp, 'in.txt'); outf = os.path.join(tmp, 'out.txt')
    with open(inf, 'w') as f:
        for k, v in sorted(env.items()): f.write('%d %s\n' % (k, float(v).hex()))
    if os.path.exists(outf): os.unlink(outf)
    e = dict(os.environ, OMP_NUM_THREADS='1', ASAN_OPTIONS='detect_leaks=0:halt_on_error=1')
    if perturb: e['VPERTURB'] = str(perturb)
    try:
        r = subprocess.run(list(pre) + [exe, job.fn, outf, inf] + [str(c) for c in job.cfg], cwd=tmp, env=e,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        rc = r.returncode; so = r.stdout.decode('latin1')[-4000:]
    except subprocess.TimeoutExpired:
        rc = 'timeout'; so = ''
    try: lines = open(outf).read().split('\n')
    except OSError: lines = []
    return rc, so, lines

def replay(job, fail, keep=None):
    """True if the counterexample violates the assertion on the native build"""
    name, env, note = fail
    name = name.split('[order')[0]
    tree = Tree(job.extra)
    tmp = tempfile.mkdtemp(prefix='vreplay')
    try:
        exe = tree.native_exe(job.src, job.defs)
        rc, so, lines = native_run(exe, job, env, tmp)
        why = None
        if name not in ('memory', 'exit') and not any(bad_line(l) for l in lines):
            # the solver's model of the inputs may be a special value in floating point: nearby generic values
            for seed in range(1, 6):
                rc1, so1, l1 = native_run(exe, job, env, tmp, perturb=seed)
                if any(bad_line(l) and l.split()[1+1] == name for l in l1):
                    rc, so, lines = rc1, so1, l1
                    env = dict(env)
                    for l in l1:
                        w = l.split()
                        if w and w[0] == 'IN': env[int(w[1])] = float.fromhex(w[2])
                    break
            with open(os.path.join(tmp, 'in.txt'), 'w') as f:
                for k, v in sorted(env.items()): f.write('%d %s\n' % (k, float(v).hex()))
        for l in lines:
            w = l.split()
            if not w: continue
            if w[0] != 'EXIT' and bad_line(l): why = l
            if w[0] == 'EXIT' and name == 'exit' and w[1] == '0': why = l
            if why: break
        if why is None and rc == 'timeout' and name not in ('memory', 'exit'): why = 'native run does not terminate within 120 s'
        if why is None and rc not in (0, 3, 'timeout'): why = 'native run ended with status %s: %s' % (rc, so[-300:])
        if why is None and any(l.startswith('DERIV '+name) for l in lines):
            why = replay_deriv(exe, job, env, tmp, name)
        if why is None and any(l.startswith('SERIES '+name) for l in lines):
            why = replay_series(exe, job, env, tmp, name)
        if why is None and any(l.startswith('GRAD '+name.split('[')[0]+' ') for l in lines):
            why = replay_grad(exe, job, env, tmp, name.split('[')[0])
        if why is None and any(l.startswith('CHAIN '+name.split('[')[0]+' ') for l in lines):
            why = replay_chain(exe, job, env, tmp, name.split('[')[0])
        if why is None and name in ('memory', ):
            xs = tree.native_exe(job.src, job.defs, san=True)
            rc, so, lines = native_run(xs, job, env, tmp)
            if 'ERROR: AddressSanitizer' in so or 'runtime error' in so:
                i = so.find('ERROR: AddressSanitizer'); i = max(i, so.find('runtime error')) if i < 0 else i
                why = so[i:i+300]
        if why is None and ('uninit' in note or True) and shutil.which('valgrind'):
            rc, so, lines = native_run(exe, job, env, tmp, pre=['valgrind', '-q', '--error-exitcode=77'], timeout=300)
            if rc == 77 and 'uninitialised' in so: why = 'valgrind: use of uninitialised value: ' + so[:600]
        if why and keep:
            os.makedirs(keep, exist_ok=True)
            shutil.copy(os.path.join(tmp, 'in.txt'), keep)
            with open(os.path.join(keep, 'replay.txt'), 'w') as f:
                f.write('harness %s\nfunction %s cfg %s\nassertion %s\nsymbolic result: %s\ninputs: %r\nnative replay: %s\n' %
                        (job.src, job.fn, job.cfg, fail[0], note, env, why))
                f.write('replay: python3-vt /verif/check.py --replay <this directory>\n')
        return why
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

def occurrences(lines, tag, name):
    return [l.split() for l in lines if l.startswith(tag+' ') and l.split()[1] == name]

def replay_deriv(exe, job, env, tmp, name):
    base = occurrences(native_run(exe, job, env, tmp)[2], 'DERIV', name)
    for n, w in enumerate(base):
        f0, df, k, tol = float(w[2]), float(w[3]), int(w[4]), float(w[5])
        def f(x):
            e = dict(env); e[k] = x
            o = occurrences(native_run(exe, job, e, tmp)[2], 'DERIV', name)
            return float(o[n][2]) if n < len(o) else math.nan
        x = env.get(k, 0.0)
        h = 1e-3*max(1.0, abs(x))
        d1 = (f(x+h)-f(x-h))/(2*h); d2 = (f(x+h/2)-f(x-h/2))/h
        d = (4*d2-d1)/3; err = abs(d2-d1)
        if d == d and abs(d-df) > 10*err + max(tol, 1e-6*max(1, abs(d), abs(df))):
            return 'DERIV %s: claimed derivative %.12g, finite difference of the returned value %.12g' % (name, df, d)
    return None

def replay_grad(exe, job, env, tmp, name):
    base = occurrences(native_run(exe, job, env, tmp)[2], 'GRAD', name)
    for n, w in enumerate(base):
        a = [float(w[2]), float(w[4]), float(w[6])]; i = int(w[8]); tol = float(w[9])
        for k in (1, 2, 3):
            def f(x):
                e = dict(env); e[k] = x
                o = occurrences(native_run(exe, job, e, tmp)[2], 'GRAD', name)
                return [float(o[n][j]) for j in (3, 5, 7)] if n < len(o) else [math.nan]*3
            x = env.get(k, 0.0); h = 1e-3*max(1.0, abs(x))
            fp, fm, gp, gm = f(x+h), f(x-h), f(x+h/2), f(x-h/2)
            d1 = [(p-m)/(2*h) for p, m in zip(fp, fm)]; d2 = [(p-m)/h for p, m in zip(gp, gm)]
            d = [(4*q-p)/3 for p, q in zip(d1, d2)]
            err = sum(abs(y*(q-p)) for p, q, y in zip(d1, d2, a))
            s = sum(y*z for y, z in zip(a, d))
            if s == s and abs(s-(i == k)) > 10*err + max(tol, 1e-6):
                return 'GRAD %s: product with finite-difference Jacobian [%d,%d] is %.12g' % (name, i, k, s)
    return None

def replay_series(exe, job, env, tmp, name):
    base = occurrences(native_run(exe, job, env, tmp)[2], 'SERIES', name)
    for n, w in enumerate(base):
        k, p = int(w[4]), int(w[5])
        def d(h):
            e = dict(env); e[k] = h
            o = occurrences(native_run(exe, job, e, tmp)[2], 'SERIES', name)
            return abs(float(o[n][2])-float(o[n][3])) if n < len(o) else math.nan
        rates = []
        for h in (0.2, 0.1, 0.05, 0.025):
            a, b = d(h), d(h/2)
            if a > 1e-11 and b > 1e-13: rates.append(math.log2(a/b))
        if rates and rates[-1] < p+0.6:
            return 'SERIES %s: observed local error order %s, required %d' % (name, ['%.2f' % r for r in rates], p+1)
    return None

def replay_chain(exe, job, env, tmp, name):
    base = occurrences(native_run(exe, job, env, tmp)[2], 'CHAIN', name)
    for k in (1, 2, 3):
        x = env.get(k, 0.0); h = 1e-3*max(1.0, abs(x))
        r = []
        for d in (h, -h, h/2, -h/2):
            e = dict(env); e[k] = x+d
            r.append(occurrences(native_run(exe, job, e, tmp)[2], 'CHAIN', name))
        for n, w in enumerate(base):
            if any(n >= len(o) for o in r): continue
            v = [float(t) for t in w[2:]]; tol = v[7]
            def fd(c):
                a = [float(o[n][2+c]) for o in r]
                d1 = (a[0]-a[1])/(2*h); d2 = (a[2]-a[3])/h
                return (4*d2-d1)/3, abs(d2-d1)
            lhs, e0 = fd(0)
            s = 0.0; err = e0
            for c in (1, 3, 5):
                d, e1 = fd(c+1)
                s += v[c]*d; err += abs(v[c])*e1
            if s == s and lhs == lhs and abs(s-lhs) > 10*err + max(tol, 1e-6*max(1, abs(s), abs(lhs))):
                return 'CHAIN %s: derivative [k=%d] by the claimed second derivatives %.12g, finite difference of the claimed first derivative %.12g' % (name, k, s, lhs)
    return None
