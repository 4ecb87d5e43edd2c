from irx.engine import Job
BOUNDS = 'one (thorough: and two) time steps of any size with each method for a system of 22 equations with symbolic initial data, start time and coefficient, whose right hand sides contain every elementary differential up to fifth order (all rooted trees with up to 5 nodes) and explicit functions of time; the error is expanded in dt up to the order of the method (coefficients compared to 1e-12)'
OUTSIDE = 'rounding errors; more than two steps'
ASSUME = ['the exact solution is given by its Taylor series, computed in the harness']
def J(fn, a=(), **k): return Job('h_evo.c', fn, a, max_paths=20000, **k)
def jobs(tier):
    t = tier == 'thorough'
    return [J('h_order', (m, 1, 22)) for m in range(13)] + [J('h_order', (m, 2, 22)) for m in (range(13) if t else (0, 7, 10, 12))] + ([J('h_order', (m, 3, 22)) for m in range(13)] if t else [])
