from irx.engine import Job
BOUNDS = 'two and three boxes of 27 to 75 points in eight arrangements (faces with equal points, with different points, a face inside a larger face, a gap, an overlap, a shifted overlap, three boxes in a row, a periodic direction), along each direction, in both box orders, with Cartesian boxes and boxes whose coordinates are a permutation of x, y, z; the extents or the offset are symbolic'
OUTSIDE = 'populate_bfaces; curved coordinates; arrangements in which a face is only partly covered by a touching face (the code stops with an error there when the points on its rim do not fit); points within the comparison tolerance of an edge of the other box'
ASSUME = ['arithmetic over the reals']
def jobs(tier):
    J = lambda *a: Job('h_bface.c', 'h_bface', a, max_paths=2000, timeout_ms=6000, cost=3)
    r = [J(a, d, o, 0, 0, 0) for a in range(8) for d in range(3) for o in (0, 1) if tier == 'thorough' or (a+d+o) % 2 == 0]
    r += [J(0, d, 0, k, 0, 0) for d in range(3) for k in (1, 2, 3, 4)]
    r += [J(a, d, 1, 0, 1, 0) for a in (0, 2, 5) for d in range(3)]
    r += [J(0, 0, 0, 0, 0, 1), J(0, 2, 1, 0, 0, 1), J(1, 1, 0, 0, 0, 2), J(3, 0, 1, 0, 0, 1), J(4, 1, 0, 0, 0, 1), J(7, 0, 0, 0, 0, 1), J(0, 1, 0, 0, 1, 1), J(5, 0, 1, 0, 1, 2), J(6, 2, 0, 0, 0, 2)]
    if tier == 'thorough':
        r += [J(a, d, o, 0, 0, s) for a in (0, 1, 3, 4, 6, 7) for d in range(3) for o in (0, 1) for s in (1, 2, 3) if (a, d, o, s) not in ((0, 0, 0, 1), (0, 2, 1, 1), (1, 1, 0, 2), (3, 0, 1, 1), (4, 1, 0, 1), (7, 0, 0, 1), (6, 2, 0, 2))]
    return r
