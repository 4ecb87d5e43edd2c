from irx.engine import Job
BOUNDS = 'lists of up to 5 characters (blanks anywhere) and words of up to 3 letters over 2 to 3 letters; text of up to 6 characters for the text utilities'
OUTSIDE = 'longer lists; other white space than blanks inside lists (the parameter file parser never leaves any)'
ASSUME = []
def J(src, fn, a=(), **k): return Job(src, fn, a, max_paths=20000, **k)
def jobs(tier):
    t = tier == 'thorough'
    r = [J('h_par.c', 'h_getv', (4, 2, 2), cost=5), J('h_par.c', 'h_getv', (3, 3, 2), cost=5), J('h_par.c', 'h_append', (4, 2, 2), cost=3), J('h_par.c', 'h_next', (5, 3, 2), cost=5)]
    if t: r += [J('h_par.c', 'h_getv', (6, 3, 2), cost=20, budget=800), J('h_par.c', 'h_append', (5, 2, 2), cost=20, budget=800)]
    r += [J('h_cmd.c', 'h_trim', (5,)), J('h_cmd.c', 'h_parstr', (5,)), J('h_cmd.c', 'h_argv', (6,), cost=2)]
    return r
