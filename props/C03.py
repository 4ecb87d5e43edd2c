from irx.engine import Job
BOUNDS = 'every documented tensor index string with any mixture of upper and lower case; every string of 3 of the characters i, j, (, ), +; up to 2 variables added with names that continue each other, any of three tensor types, constant or not, with and without a changed search start, and added again after a restart'
OUTSIDE = 'variable names of 100 and more characters; more than 100 components; symmetries of the two-dimensional indices q, r, s, t, which the code itself marks as undecided'
ASSUME = []
def J(fn, a=(), **k): return Job('h_mem.c', fn, a, max_paths=20000, **k)
TWO = (3, 4, 6, 7, 8, 10, 14, 15, 16, 17, 18, 19, 22, 23, 24, 27)
def jobs(tier):
    t = tier == 'thorough'
    r = [J('h_tensor', (k, 0)) for k in range(28)] + [J('h_tensor', (k, 1), cost=4 if k in (10, 19, 24) else 1, budget=800) for k in TWO if t or k not in (10, 19, 24)]
    r += [J('h_badtensor', (3,)), J('h_reg', (2, 4, 0), cost=2), J('h_reg', (2, 2, 1), cost=3), J('h_reg', (2, 2, 2), cost=4), J('h_reg', (1, 2, 2))]
    if t: r += [J('h_badtensor', (4,), cost=3), J('h_reg', (3, 3, 0), cost=20, budget=800)]
    return r
