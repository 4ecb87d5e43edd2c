from irx.engine import Job
BOUNDS = 'all 6 wedge domains x 4 wedge types; symbolic lambda in [0,1], A,B in [-1,1], radii in [1,2] and [3.75,6]; constant surfaces with symbolic centre in [-2,2]^3, and surfaces linear in A and B with one symbolic slope at a time'
OUTSIDE = 'surfaces whose shape is not linear in (A,B); floating-point rounding'
ASSUME = ['arithmetic over the reals', 'surface function pointers return smooth values with matching derivatives']
def jobs(tier):
    r = []
    for dom in range(6):
        for ty in (1, 2, 3, 4):
            for cu in (0, 2, 3):
                r.append(Job('h_cubsph.c', 'h_cub_jac', (dom, ty, cu), budget=200, cost=1+10*cu))
    return r
