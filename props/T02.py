from irx.engine import Job
BOUNDS = 'two steps in each of one or two runs with any pair of methods, 2 or 3 variables in 2 boxes of 2 points, all values and time steps, evolve_persist, evolve_compute_change, evolve_euler_debug and algebraic conditions on or off; a first step at iteration 0 or later; dissipation with any factor, time step and powers 0, 1, 3'
OUTSIDE = 'more variables, boxes and points'
ASSUME = ['dissipation: cart_partials is replaced by a linear stand-in, see X05 for the real one']
def J(fn, a=(), **k): return Job('h_evo.c', fn, a, max_paths=20000, **k)
def jobs(tier):
    t = tier == 'thorough'
    r = [J('h_evolve', (m, -1, q)) for m in range(13) for q in (0, 1)]
    P = [(10,7,0), (1,12,1), (0,10,0), (12,10,1), (7,11,0), (0,1,1), (10,0,0)]
    if t: P = [(a,b,q) for a in range(13) for b in range(13) for q in (0, 1)]
    r += [J('h_evolve', a) for a in P] + [J('h_evolve', (m, -1, 0, 5)) for m in (0, 1, 7, 10, 12)] + [J('h_evfail'), J('h_diss')]
    return r
