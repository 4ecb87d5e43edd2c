from irx.engine import Job
BOUNDS = 'first and all second derivatives of every function the grid resolves (all coefficients symbolic in [-1,1]); boxes up to 5x4x4 points, all mixtures of bases, every transform kind, every value of the second-derivative order option; tolerance 1e-8'
OUTSIDE = 'larger boxes; the Nyquist mode; aliasing of unresolved functions; rounding'
ASSUME = ['arithmetic over the reals', 'FFTW computes its documented transforms']
def jobs(tier):
    S = 'h_spec.c'; r = []
    J = lambda *c, **k: r.append(Job(S, 'h_derivs', c, budget=400, **k))
    J(3, 4, 3, 0, 2, 1, 0, 0); J(4, 2, 3, 1, 0, 2, 0, 0); J(3, 3, 4, 2, 1, 0, 0, 0)
    J(3, 4, 2, 0, 2, 1, 1, 0); J(2, 5, 3, 1, 2, 0, 2, 0); J(3, 2, 4, 2, 0, 2, 12, 0); J(5, 2, 2, 0, 1, 2, 1, 0)
    for o in (132, 213, 231, 312, 321): J(3, 2, 4, 0, 1, 2, 0, o)
    J(2, 3, 3, 2, 0, 1, 10, 321); J(3, 3, 2, 1, 2, 0, 0, 213)
    J(4, 2, 3, 0, 0, 0, 0, 0); J(2, 3, 4, 0, 0, 0, 10, 0); J(4, 3, 3, 3, 4, 0, 0, 0); J(3, 2, 4, 4, 0, 3, 0, 0)
    for t in range(5):
        for n in (4, 6): r.append(Job(S, 'h_fd', (n, t)))
    if tier != 'quick':
        for t in (0, 1, 2):
            J(4, 4, 4, 0, 2, 1, t, 0); J(5, 3, 4, 2, 0, 2, t, 0); J(3, 5, 4, 1, 2, 0, t, 0)
        for o in (132, 213, 231, 312, 321): J(4, 3, 5, 0, 2, 1, 0, o); J(3, 4, 2, 2, 1, 0, 10, o)
    return r
