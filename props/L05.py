from irx.engine import Job
BOUNDS = 'arbitrary function values (each evaluation returns an independent symbolic value in [-4,4], derivatives in [-8,8]); unit and symbolic brackets, both orientations; 1-3 iterations (thorough: one more)'
OUTSIDE = 'more iterations; rounding; rate of convergence; functions returning NaN'
ASSUME = ['arithmetic over the reals', 'any sequence of values at distinct points extends to a continuous function']
def jobs(tier):
    q = tier == 'quick'
    m = 4000 if q else 30000
    b = 250 if q else 1500
    r = []
    J = lambda fn, *c, **k: r.append(Job('h_num.c', fn, c, max_paths=m, budget=b, **k))
    for o in (0, 1):
        J('h_rtbrent', 2, o, 1, 0, cost=10); J('h_rtbrent', 2, o, 1, 1, cost=10); J('h_rtbrent', 1, o, 0, 1, cost=3)
        J('h_newton1d', 1, o, 0, cost=3); J('h_newton1d', 2, o, 1, cost=10)
        J('h_rtbisect', 2, o, 0); J('h_rtbisect', 3, o, 1)
        J('h_rt_brak', 3, o, 0, cost=4); J('h_rt_brak', 4, o, 1, cost=4)
        if not q:
            J('h_rtbrent', 3, o, 1, 1, cost=20); J('h_newton1d', 3, o, 1, cost=20); J('h_rtbisect', 4, o, 0, cost=10)
    return r
