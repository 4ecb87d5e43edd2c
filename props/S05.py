from irx.engine import Job
BOUNDS = 'boxes of 8 and 12 points, surfaces with each normal direction, flat and given metric, Cartesian and curved coordinates; at one point a row (thorough: a row and a column) of the inverse Jacobian, the whole metric and the field are symbolic; up to three boxes, any of them inactive, for volume integrals'
OUTSIDE = 'metrics that are degenerate on the surface; other bases than Chebyshev extrema (S04 covers the integrals along lines)'
ASSUME = ['arithmetic over the reals, tolerance 1e-8']
def jobs(tier):
    t = tier == 'thorough'
    S = lambda *a: Job('h_sint.c', 'h_surf', a)
    V = lambda *a: Job('h_vint.c', 'h_vol', a)
    r = [S(n, cu, m, 0, k) for n in (1, 2, 3) for cu in (0, 1) for m in (0, 1) for k in ((0, 2, 5, 7) if t else (0, 2))]
    r += [S(n, 1, m, 1, k) for n in (1, 2, 3) for m in (0, 1) for k in range(6 if t else 3)]
    r += [S(n, cu, 1, 2, 0) for n in (1, 2, 3) for cu in (0, 1)]
    if t: r += [S(n, 1, 1, 3, k) for n in (1, 2, 3) for k in range(3)]
    r += [V(nb, cu, -1, i) for nb in (1, 2, 3) for cu in (0, 1) for i in range(-1, nb if nb > 1 else 0)]
    r += [V(nb, 1, k, -1) for nb in (1, 2) for k in (0, 1, 2)]
    return r
