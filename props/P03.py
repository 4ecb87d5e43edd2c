from irx.engine import Job
BOUNDS = 'up to 2 boxes of up to 12 points; any values of both fields, their changes, all derivatives, sources and previous fields; spherical shells (Poisson2) or box faces at the outside and between boxes, with or without one selected block (Poisson3); nonlinearity 0, 1/2 and -2, any time step'
OUTSIDE = 'the other elliptic projects (Poisson and ScalarOnKerr), whose boundary conditions belong to particular grids; initial guesses and sources; numerical derivatives (see S02, X01); the conditions between boxes themselves (see B01, B02)'
ASSUME = ['derivatives, conditions between boxes, boundary condition, dissipation and filters of the evolution are stand-ins that note what they are called with', 'a polynomial of degree four is differentiated exactly by the difference formula for five points']
def jobs(tier):
    t = tier == 'thorough'
    P = [(2, 2, 3, 2, 1, 1, 1), (2, 1, 2, 1, 1, 0, 0), (2, 1, 2, 2, 3, 1, 0), (3, 2, 3, 1, 1, 1, 1), (3, 2, 3, 1, 1, 2, 0), (3, 1, 2, 1, 1, 0, 0), (3, 2, 2, 3, 1, 0, 0), (3, 2, 2, 2, 1, 1, 0)]
    if t: P += [(k, b, 3, 2, 2, s, x) for k in (2, 3) for b in (1, 2) for s in (0, 1, 2)[:k] for x in (0, 1)]
    W = [(2, 2, 1, 1, 7), (1, 2, 0, 0, 0), (2, 1, 2, 0, 2), (1, 1, 0, 1, 5), (1, 3, 2, 1, 4), (2, 2, 1, 0, 1)]
    if t: W += [(2, 6, n, s, o) for n in range(3) for s in (0, 1) for o in range(8)]
    return [Job('h_pois.c', 'h_pois', c, max_paths=500, timeout_ms=20000) for c in dict.fromkeys(P)] + [Job('h_pois.c', 'h_wave', c, max_paths=500, timeout_ms=20000) for c in dict.fromkeys(W)]
