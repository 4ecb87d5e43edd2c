from irx.engine import Job
BOUNDS = 'grids of up to 3 boxes of 2x1x1, 1x3x1 and 2x1x2 points with 1 or 2 variables, with or without an inactive box, any matrix elements, right hand sides and initial values; the solver libraries return any vector and success, a warning or an error'
OUTSIDE = 'the factorisations inside of UMFPACK, LAPACK and SuiteSparseQR; rounding errors; the TEMPLATES library and the ZIB solvers (not part of this build)'
ASSUME = ['the library routines are stand-ins that check how they are called and return arbitrary vectors; their residual with respect to the matrix they were given is then compared with the residual of the operator', 'for the finite difference preconditioner the conversion of the grid is a stand-in that marks it (the conversion itself belongs to S04)']
def J(fn, a=(), **k): return Job('h_lin.c', fn, a, timeout_ms=1000, **k)
def jobs(tier):
    t = tier == 'thorough'
    A = [(k, 2, 3, 1, 0, 0) for k in range(5)] + [(k, 1, 2, -1, 0, 1) for k in range(5)] + [(k, 1, 2, -1, 0, 2) for k in (0, 1, 2, 4)] + [(k, 1, 2, -1, q, 0) for k in range(5) for q in (1, -1)]
    if t: A += [(k, 2, 3, i, 0, 0) for k in range(5) for i in (-1, 0, 2)] + [(k, 2, 2, 0, 0, 1) for k in range(5)]
    r = [J('h_direct', a, cost=2) for a in A]
    P = [(0, 2, 3, -1, 0, 0, 0, 0), (0, 2, 3, 1, 0, 0, 0, 0), (0, 1, 3, 0, 0, 0, 0, 0), (1, 2, 3, 1, 0, 0, 0, 0), (1, 2, 3, -1, 2, 1, 2, 0), (1, 1, 3, 0, 1, 2, 1, 1), (1, 2, 3, -1, 1, 1, 1, 1), (2, 1, 1, -1, 0, 0, 0, 0), (2, 1, 1, -1, 0, 0, 0, 1), (2, 2, 1, -1, 0, 0, 0, 0), (2, 2, 1, -1, 1, 0, 0, 0), (3, 1, 3, 1, 0, 0, 0, 0), (3, 2, 2, -1, 0, 0, 0, 0), (3, 2, 3, 0, 0, 0, 0, 0)]
    return r + [J('h_precon', a) for a in P]
