from irx.engine import Job
BOUNDS = 'sequences of up to 4 operations on up to 4 names that are prefixes of each other, values of up to 3 characters; numbers with up to 3 digits; truth words with up to 2 more letters and any subset of characters altered; full data base tables of 2 to 4 entries'
OUTSIDE = 'longer names and values; hexadecimal and exponent notation; the upper limit of 10000 parameters; concurrent access'
ASSUME = ['printf and strtod round correctly (a double printed with 17 or more significant digits is read back as the same double)']
def J(fn, a=(), **k): return Job('h_par.c', fn, a, max_paths=20000, **k)
def jobs(tier):
    t = tier == 'thorough'
    r = [J('h_db', (3, 2), cost=3), J('h_db', (3, 3), cost=5), J('h_db', (2, 4, 3), cost=3)]
    if t: r += [J('h_db', (4, 3), cost=20, budget=800), J('h_num', (3, 1, 1), cost=10, budget=800)]
    r += [J('h_num', (1, 1, w)) for w in range(4)] + [J('h_num', (2, 0, w), cost=2) for w in (1, 3)]
    r += [J('h_bool', (k, 0, 1, k % 4)) for k in (0, 3, 6)] + [J('h_bool', (k, 1, 1, 1)) for k in (1, 4, 7)] + [J('h_bool', (k, 0, 0, 2)) for k in (2, 5, 8)]
    r += [J('h_pi', (i, h)) for i in range(6) for h in ((0, 1, 3) if t else (0, 1))]
    r += [J('h_seti', (-9, 12)), J('h_setd', ()), J('h_pdbcopy', (2, 2), cost=3)]
    return r
