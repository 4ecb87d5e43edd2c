from irx.engine import Job
BOUNDS = 'up to 2 (thorough 3) list operations on lists of up to 14 entries; lists with up to 7 entries duplicated with and without a grid, storage and already existing variables; arithmetic on 2 of 3 components in 3 boxes with 2 points, any one box inactive, all values, times and coefficients symbolic, including operands that are the same list'
OUTSIDE = 'longer lists; a list appended to itself; more than one thread'
ASSUME = ['arithmetic over the reals']
def J(fn, a=(), **k): return Job('h_mem.c', fn, a, max_paths=20000, **k)
def jobs(tier):
    t = tier == 'thorough'
    r = [J('h_vl', (2, 2, 5), cost=4)] + [J('h_vl', (3, 1, 5), cost=20, budget=800)]*t
    r += [J('h_vlarith', (op, 0, 3), cost=2) for op in range(10)]
    r += [J('h_vlarith', a, cost=2) for a in ((1, 4, 3), (2, 1, 3), (2, 2, 3), (2, 3, 3), (3, 1, 3), (3, 2, 3), (3, 4, 3), (4, 1, 3), (4, 2, 3), (4, 3, 3), (4, 4, 3), (5, 1, 3), (8, 1, 3), (6, 2, 3))]
    return r + [J('h_dup', (k,)) for k in (0, 1, 2)]
