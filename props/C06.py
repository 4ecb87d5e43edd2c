from irx.engine import Job
BOUNDS = 'up to 2 operations on point lists of 3 or 4 boxes; up to 3 operations on the faces of a box; every choice of 3 of the neighbours among 3 or 4 boxes with up to 3 faces; every attribute value in 2 or 3 boxes and any of them inactive; planes of boxes with 2 to 4 points per direction'
OUTSIDE = 'more boxes, faces and points'
ASSUME = []
def J(fn, a=(), **k): return Job('h_mem.c', fn, a, max_paths=20000, **k)
def jobs(tier):
    t = tier == 'thorough'
    r = [J('h_points', (2, 3, 1), cost=3), J('h_points', (1, 4, 3)), J('h_points', (1, 4, 4)), J('h_bface', (3,), cost=3)]
    r += [J('h_boxes', a, cost=4) for a in ((2, 2, 2), (3, 1, 1), (3, 2, 1))] + [J('h_neigh', (4, 1)), J('h_neigh', (3, 2), cost=6)]
    r += [J('h_planes', a, cost=2) for a in ((2, 3, 4), (3, 2, 3), (4, 3, 2))]
    if t: r += [J('h_points', (3, 2, 1), cost=20, budget=850), J('h_bface', (4,), cost=20, budget=850), J('h_planes', (4, 4, 4), cost=3)]
    return r
