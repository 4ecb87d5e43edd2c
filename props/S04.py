from irx.engine import Job
BOUNDS = 'every function the grid resolves (all coefficients symbolic): line, surface, volume, indefinite and sub-interval integrals on boxes up to 5x4x4; integrals over the sphere in doubled-sphere coordinates for 3 to 9 theta points; tolerance 1e-8'
OUTSIDE = 'larger boxes; the Nyquist mode of the doubled sphere; rounding'
ASSUME = ['arithmetic over the reals', 'FFTW computes its documented transforms']
def jobs(tier):
    S = 'h_spec.c'; r = []
    J = lambda f, *c, **k: r.append(Job(S, f, c, budget=400, **k))
    for t in (0, 1, 2, 10):
        J('h_integ', 3, 4, 3, 0, 2, 1, t, 0); J('h_integ', 2, 3, 5, 1, 0, 2, t, 0); J('h_integ', 4, 2, 3, 2, 1, 0, t, 0)
        J('h_indef', 4, 4, 3, 0, 2, 1, t, 0); J('h_indef', 3, 3, 5, 1, 0, 2, t, 0); J('h_indef', 5, 2, 4, 2, 1, 0, t, 0)
    for n in range(3, 10):
        J('h_dfint', 2, n, 3, 0, 2, 2, 0)
    J('h_dfint', 3, 6, 4, 1, 2, 2, 2); J('h_dfint', 2, 8, 4, 0, 2, 2, 1)
    for c in ((4, 4, 3, 0, 2, 1, 0, 2, 1, 1), (3, 4, 4, 1, 0, 2, 0, 1, 2, 0), (3, 3, 4, 2, 1, 0, 2, 0, 1, 3), (4, 2, 4, 0, 2, 0, 1, 3, 0, 2)):
        J('h_filter', *c)
    if tier != 'quick':
        for t in (0, 1, 2, 11, 12): J('h_integ', 4, 4, 4, 0, 2, 1, t, 0); J('h_integ', 5, 3, 4, 2, 0, 2, t, 0); J('h_indef', 6, 5, 4, 0, 2, 1, t, 0)
        for n in range(10, 17): J('h_dfint', 2, n, 3, 0, 2, 2, 2)
    return r
