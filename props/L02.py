from irx.engine import Job
BOUNDS = 'grids of up to 3 boxes of 2x1x1, 1x3x1 and 2x1x2 points with 1 or 2 variables, with or without an inactive box, any matrix elements (or elements around the drop limit), both orderings, lines and columns, every partition of a box into up to 2x2x2 parts; sparse matrices 3x3 with any subset of elements added in any way'
OUTSIDE = 'rounding errors; larger grids; threads that work on the same matrix'
ASSUME = []
def J(fn, a=(), **k): return Job('h_lin.c', fn, a, timeout_ms=1000, **k)
def jobs(tier):
    t = tier == 'thorough'
    r = [J('h_sparse', (q,), max_paths=5000, cost=6) for q in range(3)] + [J('h_copies', a) for a in ((1, -1), (1, 2), (2, 0), (2, 2), (2, -1))]
    A = [(0, 1, 3, 1, 0), (1, 2, 2, -1, 0), (2, 2, 3, 1, 0), (3, 2, 3, 0, 0), (0, 1, 2, -1, 1), (2, 1, 2, -1, 1), (1, 2, 1, -1, 1), (3, 2, 2, -1, 1)]
    if t: A += [(k, nv, 3, i, 0) for k in range(4) for nv in (1, 2) for i in (-1, 0, 1, 2) if (k, nv, 3, i, 0) not in A]
    r += [J('h_matrix', a, cost=4) for a in A]
    r += [J('h_block', a) for a in [(2, 1, 2, 1, 1), (1, 0, 1, 2, 1), (1, 0, 0, 0, 0), (2, 1, 0, 0, 0), (2, 0, 1, 1, 2)] + ([(2, 1, 2, 1, 2), (0, 1, 2, 1, 1)] if t else [])]
    return r + [J('h_csc', (q, a, b), max_paths=3000, cost=4) for q in (0, 1) for a, b in ([(24, 37)] if not t else [(24, 37), (7, 91), (55, 12)])]
