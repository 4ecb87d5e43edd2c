from irx.engine import Job
BOUNDS = 'all names of linear solvers and names that differ from one of them in a letter; up to 2 Newton steps (1 with other solvers or backtracking in the quick check), grids of up to 3 boxes of 2x1x1, 1x3x1 and 2x1x2 points with 1 or 2 variables, with or without an inactive box; any values of the function, its norms and the initial u, any correction and return code (negative, zero, positive) of every linear solver, any point tried or returned by the minimiser, any random numbers and tolerances'
OUTSIDE = 'convergence; the effect of functions that use previous values of u; Newton_linesrch (not implemented in this build)'
ASSUME = ['function, linearization, norms, linear solvers, minimiser and random numbers are stand-ins with arbitrary results that note what they are called with']
def J(a, **k): return Job('h_newton.c', 'h_newton', a, timeout_ms=500, max_paths=20000, **k)
def jobs(tier):
    t = tier == 'thorough'
    A = [(1, 1, 1, -1, 0, 0, 0, 0, 2), (0, 1, 1, -1, 0, 0, 0, 0, 2), (1, 2, 2, -1, 0, 1, 0, 0, 2), (1, 1, 1, -1, 1, 2, 0, 0, 2), (1, 1, 1, -1, 2, 0, 1, 0, 2), (2, 1, 1, -1, 0, 0, 1, 0, 2), (2, 1, 1, -1, 0, 2, 0, 1, 2), (1, 1, 3, 1, 0, 3, 0, 0, 2), (2, 1, 1, -1, 0, 1, 0, 0, 2), (1, 1, 1, -1, 0, 4, 0, 0, 1), (1, 1, 1, -1, 1, 3, 0, 0, 1), (1, 1, 2, 0, 1, 0, 0, 1, 2), (1, 1, 1, -1, 0, 3, 0, 1, 1)]
    if t: A += [(1, 2, 2, -1, 1, 1, 0, 0, 2), (2, 1, 1, -1, 0, 3, 0, 0, 1), (1, 2, 3, 2, 2, 0, 0, 0, 2), (2, 2, 2, -1, 0, 2, 0, 0, 2)]
    return [J(a, cost=9 if a[5] > 2 or a[4] else 3, budget=800) for a in A] + [Job('h_newton.c', 'h_name', (), max_paths=2000)]
