from irx.engine import Job
BOUNDS = 'up to 2 (thorough 3) operations that enable, disable, add or write variables on a grid of 2 boxes with 2 points; grids of 2 boxes copied in three ways, any box inactive; all data symbolic'
OUTSIDE = 'grids with more boxes and points; failing memory allocation; the values of variables in inactive boxes'
ASSUME = []
def J(fn, a=(), **k): return Job('h_mem.c', fn, a, max_paths=20000, **k)
def jobs(tier):
    r = [J('h_store', (2,), cost=4), J('h_store', (1,)), J('h_copygrid')]
    if tier == 'thorough': r.append(J('h_store', (3,), cost=20, budget=850))
    return r
