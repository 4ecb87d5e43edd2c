from irx.engine import Job
BOUNDS = 'arbitrary function values (each evaluation returns an independent symbolic value in [-4,4]); starting triple symbolic inside the unit interval, both orientations; 1-3 iterations'
OUTSIDE = 'more iterations; rounding; rate of convergence'
ASSUME = ['arithmetic over the reals', 'any sequence of values at distinct points extends to a continuous function']
def jobs(tier):
    q = tier == 'quick'
    r = []
    J = lambda fn, *c, **k: r.append(Job('h_num.c', fn, c, max_paths=6000, budget=250 if q else 1500, **k))
    for o in (0, 1):
        for m in (1, 2, 3): J('h_minbrent', m, o, cost=m*3)
        J('h_min_brak', 1, o, cost=10)
        if not q: J('h_min_brak', 2, o, cost=30); J('h_minbrent', 4, o, cost=30)
    return r
