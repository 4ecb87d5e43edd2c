from irx.engine import Job
BOUNDS = 'box sizes up to 5x3x8 (thorough 9), bases Chebyshev extrema, Chebyshev zeros, Fourier and the two finite difference bases, transforms by matrix, numrec FFT and FFTW; all grid values in [-1,1]; tolerance 1e-9'
OUTSIDE = 'larger sizes; rounding; the FFTW library itself (modelled by its documented transforms)'
ASSUME = ['arithmetic over the reals', 'FFTW computes its documented transforms']
def jobs(tier):
    S = 'h_spec.c'; r = []
    J = lambda *c, **k: r.append(Job(S, 'h_trafo', c, **k))
    for t in (0, 1, 2):
        for b in (0, 1, 2):
            for n in (3, 4, 5, 8) if tier == 'quick' else (2, 3, 4, 5, 6, 7, 8, 9):
                if n == 8 and b == 0 and tier == 'quick': continue
                J(n, 2, 2, b, 0, 0, t)
        J(2, 3, 4, 0, 2, 1, t); J(3, 2, 3, 1, 0, 2, t); J(3, 4, 2, 2, 1, 0, t)
    J(4, 3, 3, 3, 4, 0, 0); J(2, 4, 4, 2, 3, 2, 0)
    for c in ((4, 4, 5, 0, 2, 1, 0), (3, 5, 4, 1, 0, 2, 10), (4, 3, 2, 2, 1, 0, 10), (3, 4, 4, 3, 4, 0, 10), (4, 3, 5, 4, 0, 3, 0)):
        r.append(Job(S, 'h_nodes', c))
    return r
