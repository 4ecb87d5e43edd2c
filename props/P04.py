from irx.engine import Job
BOUNDS = 'degrees l from 0 to 4 with every order and spin up to the degree in magnitude, and some spins at l=5, 6 and 8 (thorough: every spin to l=8); every angle theta from 0 to pi and every phi in (-7, 7)'
OUTSIDE = 'orders or spins larger than the degree; the second, unused, formula for the rotation matrix elements; degrees above 8; rounding'
ASSUME = ['sine, cosine and square root are their mathematical functions']
def jobs(tier):
    t = tier == 'thorough'
    L = [(l, 9) for l in range(5)] + [(5, 2), (6, 2), (6, -3), (8, 2)]
    if t: L += [(l, s) for l in (5, 6, 7, 8) for s in range(-l, l+1)]
    return [Job('h_ylm.c', 'h_ylm', c, max_paths=500, timeout_ms=20000) for c in dict.fromkeys(L)]
