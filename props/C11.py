from irx.engine import Job
BOUNDS = 'parameter files with two parameters and any one (thorough: any two) of 12 gaps filled with arbitrary white space, quotes, line ends or comments of up to 2 characters; 1 to 4 command line arguments of any kind; up to 2 --modify-par options with values of up to 3 characters; up to 2 iterated parameters with 3 values'
OUTSIDE = 'malformed files (no = sign, two = signs in one statement); files with more than two parameters; file names longer than 10 characters; lists of different lengths in iterate_parameters'
ASSUME = ['the calls that would run rm, mv and mkdir are replaced by stand-ins that record their arguments']
def J(src, fn, a=(), **k): return Job(src, fn, a, max_paths=20000, **k)
def jobs(tier):
    t = tier == 'thorough'
    G = [1 << k for k in range(12)]
    r = [J('h_par.c', 'h_parse', (g, 1, 2, 2, (0, 3, 5, 7)[i % 4], i % 2), cost=2) for i, g in enumerate(G)]
    r += [J('h_par.c', 'h_parse', (8, 1, 1, 0, 0, 1)), J('h_par.c', 'h_parse', (1024, 1, 1, 1, 2, 0)), J('h_par.c', 'h_parse', (0, 2, 3, 2, 7, 1), cost=2), J('h_par.c', 'h_parse2')]
    if t: r += [J('h_par.c', 'h_parse', (G[i] | G[i+1], 1, 2, 2, (0, 3, 5, 7)[i % 4], i % 2), cost=5, budget=800) for i in range(11)]
    else: r += [J('h_par.c', 'h_parse', (g, 1, 2, 2, 4, 1), cost=5) for g in (32+64, 64+128)]
    r += [J('h_cmd.c', 'h_parfile', (i,)) for i in range(6)]
    r += [J('h_cmd.c', 'h_args', (3, 0), cost=2), J('h_cmd.c', 'h_args', (2, 600), cost=2), J('h_cmd.c', 'h_args', (1, 2000), cost=2)]
    r += [J('h_cmd.c', 'h_modify', (2, k, 2, 0, 0, 0), cost=3) for k in range(4)]
    r += [J('h_cmd.c', 'h_modify', a, cost=2) for a in ((1, 2, 3, 2, 0, 0), (2, 3, 3, 0, 2, 0), (2, 3, 3, 0, 0, 1))]
    r += [J('h_cmd.c', 'h_iter', a) for a in ((2, 3, 1), (1, 1, 0), (1, 3, 1))]
    return r
