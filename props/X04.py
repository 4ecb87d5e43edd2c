from irx.engine import Job
BOUNDS = 'boxes of 3 x 3 x 3 points with symbolic grid values; coordinate Jacobians and second derivatives are arbitrary symbolic values that differ from point to point; scalars, vectors and symmetric tensors'
OUTSIDE = 'the treatment of coordinate singularities; floating-point rounding'
ASSUME = ['arithmetic over the reals']
def jobs(tier):
    r = [Job('h_cart.c', 'h_chain', (a, b), cost=3 if a else 1) for a in (0, 1) for b in (0, 1, 2)]
    r += [Job('h_cart.c', 'h_tens', (a, b), cost=2) for a in (0, 1, 2) for b in (0, 1)]
    return r
