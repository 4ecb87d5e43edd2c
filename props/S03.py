from irx.engine import Job
BOUNDS = 'every function the grid resolves (all coefficients symbolic); volume, plane, line and row-vector interpolation at off-grid, on-grid and boundary points; boxes up to 5x4x4, all bases, transform kinds, box intervals starting at and away from zero; tolerance 1e-8'
OUTSIDE = 'larger boxes; interpolation points other than those listed in the harness; rounding'
ASSUME = ['arithmetic over the reals', 'FFTW computes its documented transforms']
def jobs(tier):
    S = 'h_spec.c'; r = []
    J = lambda *c, **k: r.append(Job(S, 'h_interp', c, budget=400, **k))
    for t in (0, 1, 2, 10):
        J(3, 4, 3, 0, 2, 1, t); J(2, 3, 5, 1, 0, 2, t); J(5, 2, 3, 2, 1, 0, t)
    J(3, 3, 4, 2, 2, 2, 10); J(4, 3, 2, 0, 0, 1, 2)
    if tier != 'quick':
        for t in (0, 1, 2, 11, 12): J(4, 4, 4, 0, 2, 1, t); J(5, 3, 4, 2, 0, 2, t); J(4, 5, 3, 1, 2, 0, t)
    return r
