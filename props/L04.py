from irx.engine import Job
BOUNDS = 'up to 2 steps, grids of up to 3 boxes of 2x1x1, 1x3x1 and 2x1x2 points with 1 or 2 variables, with or without an inactive box, any right hand side, initial guess and tolerance, any values of the scalar products and norms the code takes (so that every breakdown, stop or continuation is reached), any matrix elements (some concrete for 2 steps or several boxes), with and without preconditioner; exact arithmetic'
OUTSIDE = 'convergence within a given number of steps other than the number of eigenvalues for 1 or 2 of them; rounding errors; the TEMPLATES library and the ZIB solvers (not part of this build)'
ASSUME = ['where stated the scalar products and norms are stand-ins with arbitrary values that note which vector they were taken of; the real ones are checked by L02']
def J(fn, a=(), tm=1000, **k): return Job('h_iter.c', fn, a, timeout_ms=tm, **k)
def jobs(tier):
    t = tier == 'thorough'
    A = [(1, 1, 1, -1, 0, 0), (1, 2, 2, -1, 1, 5), (1, 1, 3, 0, 1, 5), (0, 1, 1, -1, 0, 99), (1, 2, 3, 1, 0, 3)]
    if t: A += [(1, 2, 3, 2, 1, 3), (1, 1, 2, -1, 1, 0)]
    r = [J('h_bicg', a, max_paths=4000, cost=3) for a in A] + [J('h_bicg', (2, 1, 1, -1, q, 99), max_paths=20000, budget=800, cost=9) for q in (0, 1) if t]
    r += [J('h_conv', a) for a in [(0, 1, 1, -1), (0, 2, 3, 1), (0, 1, 3, -1), (1, 1, 1, -1), (2, 1, 2, -1), (2, 2, 3, 0)]]
    return r + [J('h_sor', a, tm=500) for a in [(1, 1, 1, -1, 0, 0), (0, 1, 1, -1, 0, 1), (2, 2, 1, -1, 1, 1), (2, 2, 1, -1, 0, 0), (1, 1, 3, 1, 0, 2), (1, 2, 2, -1, 1, 2), (1, 2, 2, -1, 0, 2)]]
