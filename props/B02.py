from irx.engine import Job
BOUNDS = 'lists: 3 boxes of 3x2x2, 2x3x3 and 2x2x4 points with all coordinate types and bases, every boundary kind alone and in pairs, lists made once or twice; boundary conditions: 2 boxes of 3 points, 3 variables with any values, coordinates, far limits and speeds, any subset of points, both forms of time step, any selection of variables; normal derivative: 2x2x4 points, all directions and bases, both sides, any subset of points'
OUTSIDE = 'a first call of radiative_analytic at a time other than 0 (restarts)'
ASSUME = ['for radiative conditions the derivatives are replaced by arbitrary linear functions (they are checked by S01, S02 and X04)']
def J(fn, a=(), **k): return Job('h_bc.c', fn, a, max_paths=20000, **k)
def jobs(tier):
    t = tier == 'thorough'
    r = [J('h_lists', (q, (q+3) % 9, 0), cost=5) for q in range(9)] + [J('h_lists', (q, -1, 1), cost=5) for q in (2, 4, 7)]
    if t: r += [J('h_lists', (q, -1, 2), budget=900) for q in range(9)] + [J('h_lists', (q, p, 0)) for q in range(9) for p in range(q) if p != (q+3) % 9]
    r += [J('h_set', (q, rk)) for q in range(9) for rk in (0, 1)]
    A = [(d, b, s, 0) for d in (1, 2, 3) for b in ((0, 1, 2, 3) if t else (0, 3)) for s in (0, 1)] + [(1, 0, 0, 1), (1, 0, 0, 2)]
    return r + [J('h_neumann', a) for a in A]
