from irx.engine import Job
BOUNDS = 'output intervals from -1 to 3 iterations at iterations 0 to 8 and/or intervals of 0.5 to 4 at steps of 0.125 to 1 (also negative times); 4 steps for exactly-once; lists of up to 2 words of 7 (scalars, a vector, a constant variable, an unknown name, one without memory, a common prefix) with any blanks; two boxes'
OUTSIDE = 'time intervals with a time step of 0; other formats than those sgrid implements'
ASSUME = ['the functions that write one variable are recorded (C15 checks them)']
def jobs(tier):
    t = tier == 'thorough'
    r = [Job('h_outw.c', 'h_when', a, max_paths=3000, timeout_ms=500, budget=800, cost=c) for a, c in (((0, 8, 0, 0), 1), ((1, 3, 0, 0), 5), ((1, 3, 1, 1), 10), ((2, 2 if not t else 3, 1, 0), 25))]
    r += [Job('h_outw.c', 'h_once', (n,), max_paths=3000, timeout_ms=500, budget=800) for n in ((4, 6) if t else (4,))]
    r += [Job('h_outw.c', 'h_which', a, max_paths=5000, timeout_ms=500, budget=800, cost=c) for a, c in (((1, 2, 0, 0, 0, 0), 5), ((3, 1, 0, 2, 0, 1), 5), ((2, 1, 1, 3, 1, 1), 5), ((0, 1, 2, 1, 1, 0), 5), ((3, 1, 0, 0, 0, 1), 5), ((2, 2, 0, 2, 0, 0), 5))]
    if t: r += [Job('h_outw.c', 'h_which', (d, 2, 2, k, d % 2, 0), max_paths=5000, timeout_ms=500, budget=850, cost=40) for d in range(4) for k in (0, 1)]
    r += [Job('h_outw.c', 'h_quick', (k,)) for k in range(3)]
    return r
