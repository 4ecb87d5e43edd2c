from irx.engine import Job
BOUNDS = 'up to 2 boxes of 3 points; any extrinsic curvature, lapse, shift, matter, derivatives of all of them and of the metric and conformal factor (all at once, or one at a time where magnitudes are taken), any conformal factor between 1/2 and 2; metrics: four fixed ones with off diagonal parts and with determinants 1 and 4, and every metric of determinant one close enough to the flat one (elements of its triangular factor between -1 and 1); any symmetric matrix for determinant and inverse; positions at four directions and the origin'
OUTSIDE = 'the norm TermByTerm (only the constraints themselves are checked then); the time derivative of the trace of the extrinsic curvature if only part of the matter is given; numerical derivatives (see S02, X01)'
ASSUME = ['derivatives of metric, extrinsic curvature and lapse are stand-ins that store arbitrary values']
def C(c, **k): return Job('h_adm.c', 'h_constraints', c, max_paths=2000, timeout_ms=20000, **k)
def jobs(tier):
    t = tier == 'thorough'
    N = [(7, 3, 1, 0, 1, 1, 0, 0), (1, 1, 1, 0, 2, 2, 0, 0), (1, 3, 1, 1, 1, 2, 0, 0), (0, 1, 3, 1, 2, 2, 0, 0), (2, 0, 2, 0, 1, 3, 0, 0), (3, 2, 0, 1, 2, 1, 0, 0), (7, 2, 0, 0, 1, 1, 0, 0), (7, 0, 1, 1, 1, 1, 0, 0), (4, 3, 3, 0, 2, 1, 0, 0), (5, 1, 2, 1, 1, 2, 0, 0), (1, 2, 1, 0, 1, 1, 1, 3)]
    # with a norm, one input at a time: extrinsic curvature, density, momentum, derivatives
    N += [(i % 4, (i + i // 4) % 4, (0, 1, 2, 3, 1)[i % 5], i % 2, 1, 1, 2, k) for i, k in enumerate((2, 9, 20, 45, 60, 71, 80, 100, 5, 31))]
    N += [(5, 1, 1, 0, 1, 1, 2, 3), (2, 3, 1, 0, 2, 2, 2, 105), (0, 1, 1, 1, 2, 1, 2, 14)]
    if t: N += [(i % 7, (i // 2) % 3, (1, 1, 2, 3)[i % 4], i % 2, 1, 1, 2, k) for i, k in enumerate(range(1, 105, 2))] + [(m, p, x, (m + p) % 2, 2, 2, 0, 0) for m in range(8) for p in range(4) for x in (0, 1, 2, 3)]
    N = list(dict.fromkeys(N))
    M = [(8, 0, 1, 1, 0), (1, 3, 2, 2, 1), (7, 3, 1, 1, 1), (2, 1, 2, 1, 0), (3, 2, 1, 2, 1)]
    E = [(1, 1, 0, 2, 2), (7, 3, 1, 1, 1), (2, 2, 4, 1, 1), (3, 0, 2, 1, 1), (0, 2, 3, 1, 1), (7, 1, 0, 1, 1), (4, 3, 3, 2, 1)]
    if t: E += [(m, p, x, 2, 2) for m in range(8) for p in (0, 3) for x in range(5)]
    E = list(dict.fromkeys(E))
    return [C(c) for c in N] + [Job('h_adm.c', 'h_metric', c, max_paths=500, timeout_ms=20000) for c in M] + [Job('h_adm.c', 'h_energy', c, max_paths=500, timeout_ms=20000) for c in E]
