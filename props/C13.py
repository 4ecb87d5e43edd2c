from irx.engine import Job
BOUNDS = 'up to 3 operations on lists of up to 3 entries with values from 0 to 3, second operands of up to 2 entries; arrays of up to 3 numbers for the extrema'
OUTSIDE = 'longer lists; a list appended to itself'
ASSUME = []
def jobs(tier):
    t = tier == 'thorough'
    r = [Job('h_mem.c', 'h_list', a, max_paths=50000, cost=c, budget=800) for a, c in (((1, 2, 3), 4), ((2, 1, 1), 5), ((2, 0, 2), 5), ((2, 2, 0), 4))]
    if t: r += [Job('h_mem.c', 'h_list', a, max_paths=50000, cost=20, budget=850) for a in ((3, 0, 0), (2, 1, 2))]
    r += [Job('h_cmd.c', 'h_minmax', (a, b, n)) for a in (1, 2, 3) for b in (0, 1) for n in (1, 2)] + [Job('h_cmd.c', 'h_minmax', (1, b, 3)) for b in (0, 1)]
    return r
