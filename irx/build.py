"""Compiles the real sgrid sources (current /repo working tree) and the check
harnesses.  LLVM IR for the symbolic executor, native objects for the replay
of counterexamples.  All products go to /verif/build (git-ignored) and are
keyed by a hash of the whole source tree, so every run sees the current code."""
import os, sys, hashlib, subprocess, fcntl, re, glob, shutil
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SGRID_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')

MAIN_MODULES = ['main/MemoryMan', 'utility/ParManipulator', 'utility/Spectral', 'utility/boundary',
  'utility/output', 'utility/evolve', 'utility/NumberChecker', 'utility/checkpoint', 'physics/ADMvars',
  'physics/ModeComputer', 'utility/s2kit', 'utility/GridIterators', 'utility/LinAlg', 'physics/Poisson3',
  'physics/Poisson2', 'physics/Poisson', 'physics/BSSN', 'physics/Z4secondO', 'physics/SingleBH',
  'physics/TestID', 'physics/TestDerivs', 'physics/ConvTest', 'physics/ScalarWave', 'physics/ScalarOnKerr',
  'physics/ScalarOnKerr/DV_CircSchwSource', 'utility/Coordinates', 'utility/numerics', 'main/main']
# modules of the second configuration that the test suite builds
ALT_MODULES = ['physics/ScalarOnKerr/DV_CircSchwSource2', 'physics/PN_CircularOrbit_GWs', 'utility/NumericUtils']
DFLAGS = ['-DNONICOFUNCS', '-DUMFPACK', '-DSUITESPARSEQR', '-DLAPACK', '-DCBLAS', '-DFFTW3', '-DGSL',
          '-DTOPLEVEL_Pragmas', '-DLEVEL6_Pragmas']
LIBS = ['-lspqr', '-lcholmod', '-lumfpack', '-lamd', '-lfftw3', '-llapack', '-lblas', '-lgsl', '-lgslcblas', '-lm']
CLANG = shutil.which('clang-18') or shutil.which('clang')
IRFLAGS = ['-D__NO_CTYPE', '-S', '-fno-pic', '-fno-pie', '-emit-llvm', '-O1', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops',
           '-ffp-contract=off', '-fno-builtin', '-fno-inline', '-fno-strict-aliasing', '-w', '-Wno-implicit-function-declaration', '-Wno-int-conversion', '-Wno-incompatible-function-pointer-types', '-Wno-implicit-int', '-Wno-return-type', '-Wno-error', '-Wno-everything']

def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

class BuildError(Exception):
    pass

def make_sources(moddir):
    """the OBJECTS of a module: all .c files its Makefile names"""
    d = os.path.join(REPO, 'src', moddir)
    mk = os.path.join(d, 'Makefile')
    cs = sorted(glob.glob(d + '/*.c'))
    try:
        t = open(mk).read().replace('\\\n', ' ')
    except OSError:
        return cs
    nm = re.search(r'^NAME\s*:?=\s*(\w+)', t, re.M)
    if nm:
        t = t.replace('$(NAME)', nm.group(1)).replace('$(libname)', nm.group(1))
    names = set()
    for l in t.split('\n'):
        l = l.split('#')[0]
        names |= set(re.findall(r'([-\w]+)\.[oc]\b', l))
    r = [c for c in cs if os.path.basename(c)[:-2] in names]
    return r or cs

def gen_inc(modules, dst):
    os.makedirs(dst, exist_ok=True)
    hs = []; inits = []
    for m in modules:
        b = os.path.basename(m)
        h = os.path.join(REPO, 'src', m, 'sgrid_%s.h' % b)
        if os.path.exists(h):
            hs.append(h)
        if b != 'main':
            inits.append(b)
        else:
            inits.append(b)
    open(dst + '/sgrid_automatic_include.h', 'w').write(''.join('#include "%s"\n' % h for h in hs))
    open(dst + '/sgrid_automatic_initialize.c', 'w').write(
        ''.join('  int sgrid_%s(void);\n' % b for b in inits) + ''.join('  sgrid_%s();\n' % b for b in inits))

def tree_hash():
    h = hashlib.sha256()
    for root, ds, fs in sorted(os.walk(os.path.join(REPO, 'src'))):
        ds.sort()
        for f in sorted(fs):
            if f.endswith(('.c', '.h', '.cpp')) or f == 'Makefile':
                p = os.path.join(root, f)
                h.update(p.encode()); h.update(open(p, 'rb').read())
    for f in [os.path.abspath(__file__)]:
        h.update(open(f, 'rb').read())
    return h.hexdigest()[:20]

class Tree:
    """build products for one source tree state and one module set"""
    def __init__(self, extra=()):
        self.modules = MAIN_MODULES[:-1] + list(extra) + MAIN_MODULES[-1:]
        self.tag = 'main' if not extra else 'x' + hashlib.md5(repr(extra).encode()).hexdigest()[:6]
        self.hash = tree_hash()
        self.dir = os.path.join(BUILD, self.tag + '-' + self.hash)
        self.inc = self.dir + '/inc'
        os.makedirs(self.dir, exist_ok=True)
        with self.lock('gen'):
            if not os.path.exists(self.inc + '/ok'):
                gen_inc(self.modules, self.inc)
                open(self.inc + '/ok', 'w').close()
        self.iflags = ['-I' + self.inc, '-I' + os.path.join(REPO, 'src/main/main'), '-I/usr/include/suitesparse',
                       '-I' + os.path.join(VERIF, 'harness')]
        self.iflags += ['-I' + os.path.join(REPO, 'src', m) for m in self.modules]
        self.srcs = [(m, c) for m in self.modules for c in make_sources(m)]

    def lock(self, name):
        class L:
            def __enter__(s):
                s.f = open(os.path.join(self.dir, name + '.lock'), 'w'); fcntl.flock(s.f, fcntl.LOCK_EX)
            def __exit__(s, *a):
                s.f.close()
        return L()

    def ll_all(self):
        """compile everything to IR (idempotent); returns list of .ll paths"""
        out = [(c, os.path.join(self.dir, 'll', os.path.relpath(c, REPO + '/src').replace('/', '__')[:-2] + '.ll')) for m, c in self.srcs]
        with self.lock('ll'):
            os.makedirs(self.dir + '/ll', exist_ok=True)
            todo = [(c, o) for c, o in out if not os.path.exists(o)]
            def one(x):
                c, o = x
                r = run([CLANG] + IRFLAGS + DFLAGS + ['-Dmain=sgrid_c_main'] + self.iflags + [c, '-o', o + '.tmp'], cwd=os.path.dirname(c))
                if r.returncode:
                    return '%s:\n%s' % (c, r.stdout)
                os.rename(o + '.tmp', o)
            if todo:
                with ThreadPoolExecutor(8) as tp:
                    errs = [e for e in tp.map(one, todo) if e]
                if errs:
                    raise BuildError(errs[0])
        return [o for c, o in out]

    def ll_one(self, c, extra=()):
        """compile one harness file to IR"""
        h = hashlib.md5((open(c).read() + repr(extra) + ''.join(open(x).read() for x in sorted(glob.glob(VERIF + '/harness/*.h')))).encode()).hexdigest()[:12]
        o = os.path.join(self.dir, 'h_%s_%s.ll' % (os.path.basename(c)[:-2], h))
        with self.lock('h_' + os.path.basename(c)):
            if not os.path.exists(o):
                r = run([CLANG] + IRFLAGS + DFLAGS + self.iflags + list(extra) + ['-DSYMEX', c, '-o', o + '.tmp'])
                if r.returncode:
                    raise BuildError(r.stdout)
                os.rename(o + '.tmp', o)
        return o

    def native_lib(self, san=False):
        """archive with all native objects (main renamed)"""
        d = self.dir + ('/nat_asan' if san else '/nat')
        lib = d + '/libsgrid.a'
        with self.lock('nat%d' % san):
            if os.path.exists(lib):
                return lib
            os.makedirs(d, exist_ok=True)
            out = [(c, os.path.join(d, os.path.relpath(c, REPO + '/src').replace('/', '__')[:-2] + '.o')) for m, c in self.srcs]
            fl = ['-g', '-O1', '-fsanitize=address,undefined', '-fno-omit-frame-pointer'] if san else ['-O3']
            def one(x):
                c, o = x
                r = run(['gcc', '-c', '-w', '-fopenmp', '-U_FORTIFY_SOURCE'] + fl + DFLAGS + ['-Dmain=sgrid_c_main'] + self.iflags + [c, '-o', o], cwd=os.path.dirname(c))
                if r.returncode:
                    return '%s:\n%s' % (c, r.stdout)
            with ThreadPoolExecutor(8) as tp:
                errs = [e for e in tp.map(one, out) if e]
            if errs:
                raise BuildError(errs[0])
            r = run(['ar', 'rcs', lib + '.tmp'] + [o for c, o in out])
            if r.returncode:
                raise BuildError(r.stdout)
            os.rename(lib + '.tmp', lib)
        return lib

    def native_exe(self, c, extra=(), san=False):
        lib = self.native_lib(san)
        h = hashlib.md5((open(c).read() + repr(extra) + ''.join(open(x).read() for x in sorted(glob.glob(VERIF + '/harness/*.h') + glob.glob(VERIF + '/harness/*.c')))).encode()).hexdigest()[:12]
        o = os.path.join(self.dir, 'exe%d_%s_%s' % (san, os.path.basename(c)[:-2], h))
        with self.lock('exe' + os.path.basename(c)):
            if not os.path.exists(o):
                fl = ['-g', '-O1', '-fsanitize=address,undefined', '-fno-omit-frame-pointer'] if san else ['-O2']
                r = run(['gcc', '-w', '-fopenmp', '-U_FORTIFY_SOURCE'] + fl + DFLAGS + self.iflags + list(extra) +
                        [c, os.path.join(VERIF, 'harness', 'native_rt.c'), '-rdynamic', '-Wl,--allow-multiple-definition', lib, '-o', o + '.tmp'] + LIBS)
                if r.returncode:
                    raise BuildError(r.stdout)
                os.rename(o + '.tmp', o)
        return o

def prune(keep=6):
    """drop old build trees"""
    try:
        ds = [os.path.join(BUILD, d) for d in os.listdir(BUILD)]
    except OSError:
        return
    ds = [d for d in ds if os.path.isdir(d) and '-' in os.path.basename(d)]
    ds.sort(key=os.path.getmtime, reverse=True)
    for d in ds[keep:]:
        shutil.rmtree(d, ignore_errors=True)

if __name__ == '__main__':
    import time
    t = time.time(); T = Tree(); r = T.ll_all(); print(len(r), time.time()-t)
    t = time.time(); print(T.native_lib(), time.time()-t)
