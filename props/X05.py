from irx.engine import Job
BOUNDS = 'all matrices with entries in [-2,2]; for inverses determinant above 0.01'
OUTSIDE = 'floating-point rounding; nearly singular matrices'
ASSUME = ['arithmetic over the reals']
def jobs(tier):
    return [Job('h_cart.c', 'h_mat3', (a,)) for a in (0, 1, 2)] + [Job('h_cart.c', 'h_mat3dd', (a,)) for a in (0, 1)]
