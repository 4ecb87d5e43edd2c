from irx.engine import Job
BOUNDS = 'one to three Cartesian boxes (disjoint, touching and overlapping) with 8 to 60 points; the point looked for is symbolic in a region larger than all boxes'
OUTSIDE = 'boxes with curved coordinates, where a Newton iteration is used; exact ties up to the documented comparison tolerance'
ASSUME = ['arithmetic over the reals']
def jobs(tier):
    t = tier == 'thorough'
    r = [Job('h_loc.c', 'h_box', a, max_paths=2000, cost=3) for a in ((0, 1), (0, 2), (0, 3), (1, 2), (1, 3))]
    for m in range(7):
        if m in (1, 2):
            r.append(Job('h_loc.c', 'h_near', (m, 1), max_paths=2000, cost=3))
            if t: r.append(Job('h_loc.c', 'h_near', (m, 0), max_paths=2000, cost=9, budget=800))
        else: r.append(Job('h_loc.c', 'h_near', (m, 0), max_paths=2000, cost=2))
    r += [Job('h_loc.c', 'h_face', (a, 0), max_paths=2000, cost=2) for a in (0, 1)]
    r += [Job('h_loc.c', 'h_face', (2, d), max_paths=2000) for d in (0, 1, 2)]
    return r
