from irx.engine import Job
BOUNDS = 'Polar, PolarCE, SphericalDF, compactSphericalDF, Spherical, Spherical2, Spherical3, tan_stretch; 4 to 7 points in the angle on which some maps depend; symbolic coordinates in a box without the coordinate singularities'
OUTSIDE = 'the AnsorgNS family; points on coordinate singularities and at compactified infinity; floating-point rounding'
ASSUME = ['arithmetic over the reals', 'compactSphericalDF_r0=0.5, Coordinates_Spherical3_c=1']
def jobs(tier):
    r = []
    for s in range(1, 9):
        for n2 in ((4, 5, 7) if s in (2, 3, 4) else (4,)):
            r.append(Job('h_coord.c', 'h_coord', (s, n2), trig=True, timeout_ms=10000, cost=2 if s in (2, 7) else 1))
    return r
