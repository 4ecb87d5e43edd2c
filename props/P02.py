from irx.engine import Job
BOUNDS = 'up to 2 boxes of 2 points (3 for the algebraic constraints); any values of all BSSN variables, of their derivatives, of the fields before the step and of the derivatives of the conformal factor psi (1 or 2); conformal metrics: four fixed ones with off diagonal parts and every one of determinant one close enough to the flat one, for the conversion also times 4 and 1/4; one time step or the right hand sides themselves; options of lapse, shift, densitized lapse and coefficients in turn and in combinations'
OUTSIDE = 'the lapse is constant in the check with 1+log2; a metric that changes in the same step in which the algebraic constraints are imposed; GentlePhiRHS; filters and boundary conditions; BSSN_alphaRHSterm as set at startup; numerical derivatives (see S02, X01)'
ASSUME = ['derivatives of all fields are stand-ins that store arbitrary values', 'exp is the same function of the same argument in code and oracle']
B = lambda *k: sum(1 << i for i in k)
def jobs(tier):
    t = tier == 'thorough'
    R = [(7, 1, 1, 4, 1, B(0, 5, 4), 1, 1, 0, 0), (4, 1, 1, 2, 0, B(2, 5, 7), 2, 2, 0, 0), (3, 1, 0, 5, 2, B(1, 3, 6), 1, 2, 0, 0), (1, 1, 1, 6, 1, B(4, 5), 2, 1, 0, 0), (0, 0, 0, 0, 0, 4, 1, 1, 0, 0), (1, 1, 0, 1, 1, 4, 1, 1, 0, 0), (2, 1, 1, 3, 2, 32, 1, 1, 0, 0),
         (1, 1, 1, 1, 0, B(2, 5), 1, 1, 1, 0), (2, 0, 1, 4, 0, B(2, 4), 1, 1, 1, 0), (2, 0, 1, 4, 0, B(2, 4), 1, 1, 2, 0), (2, 0, 1, 0, 0, B(2, 4), 1, 1, 2, 0), (1, 1, 1, 1, 1, B(1, 4, 5), 2, 2, 0, 0), (5, 0, 1, 4, 2, B(0, 2, 4, 5, 7), 1, 1, 0, 0), (6, 1, 0, 3, 1, B(5), 1, 1, 0, 0), (1, 1, 1, 3, 0, B(2, 5), 2, 1, 2, 0),
         (1, 1, 1, 1, 1, B(4, 5, 8, 12), 1, 1, 0, 0), (2, 1, 1, 1, 1, B(9, 12, 5), 1, 1, 0, 0), (3, 1, 1, 3, 1, B(8, 9, 10, 11, 12), 2, 1, 0, 0), (0, 1, 1, 1, 1, B(10, 11, 12), 1, 2, 0, 0)]
    if t: R += [(m, p, s, l, h, o | (1 if (m + l) % 2 else 0), 1, 1 + (l % 2), 0, 0) for m in (1, 2, 7) for p in (0, 1) for s in (0, 1) for l in range(7) for h, o in ((1, B(2, 5)), (2, B(4, 5, 7)), (1, B(1, 3, 4)))] + [(m, 1, 1, l, 1, B(2, 4, 5), 2, 1, d, 0) for m in (1, 3) for l in (0, 1, 3, 4) for d in (1, 2)]
    A = [(1, 1, 1, 1, 2, 3), (7, 0, 1, 1, 1, 1), (2, 2, 0, 1, 1, 1), (3, 1, 1, 0, 2, 1), (0, 2, 0, 0, 1, 2)]
    C = [(1, 1, 1, 0, 2, 2), (7, 0, 2, 1, 1, 1), (2, 2, 0, 2, 1, 1), (3, 0, 1, 0, 2, 1)]
    if t: C += [(m, f, p, w, 2, 2) for m in range(8) for f in ((0,) if m > 3 else (0, 1, 2)) for p in range(3) for w in range(3)]
    u = lambda x: list(dict.fromkeys(x))
    return [Job('h_bssn.c', 'h_rhs', c, max_paths=500, timeout_ms=20000, cost=3) for c in u(R)] + [Job('h_bssn.c', 'h_alg', c, max_paths=500, timeout_ms=20000) for c in u(A)] + [Job('h_bssn.c', 'h_conv', c, max_paths=500, timeout_ms=20000) for c in u(C)]
