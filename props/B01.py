from irx.engine import Job
BOUNDS = 'box of 2x2x2 points next to a box of 3x2x4 points; all six faces with subsets of their points, any field values in the box, any polynomial (all coefficients symbolic) as field in the other box, points inside, on the edge and outside of the other face, all pairings (overlap, touching with one equal coordinate, same points), values and normal derivatives, Jacobians with any entries from variables or functions'
OUTSIDE = 'one dimensional interpolation (always refused by the code); other bases than Chebyshev extrema (transforms and interpolation are checked by S01 and S03)'
ASSUME = ['arithmetic over the reals, tolerance 1e-8']
def J(fn, a=(), **k): return Job('h_ibc.c', fn, a, max_paths=20000, **k)
def jobs(tier):
    t = tier == 'thorough'
    A = [(1,1,0,1,1,0), (2,1,1,1,2,1), (3,0,3,2,0,1), (4,1,0,1,5,0), (0,1,0,0,0,0), (0,1,2,0,0,0), (0,0,0,0,1,0), (1,0,0,0,0,1), (2,0,1,0,3,0), (3,0,2,0,4,1), (4,0,0,0,2,0), (4,0,3,3,3,0)]
    A += [(k, 1, k % 3, 0, f, s) for k, f, s in ((1, 0, 0), (2, 3, 0), (3, 5, 1), (4, 4, 0), (4, 1, 0))]
    if t: A += [(k, nd, k2, co, (2*k+nd+k2+co) % 6, s) for k in (1, 2, 3, 4) for nd in (0, 1) for k2 in (0, 2) for co in range(4) for s in (0, 1) if s == 0 or k < 4]
    return [J('h_normal', (q,), cost=10) for q in range(4)] + [J('h_bface', a, budget=900 if t else 400, cost=20 if a[3] else 1) for a in dict.fromkeys(A)]
