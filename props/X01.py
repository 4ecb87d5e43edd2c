from irx.engine import Job
BOUNDS = 'all 6 wedge domains x types {frustum, inner cubed-sphere, outer cubed-sphere, shell}; xc in [-2,2]^3, inner radius in [1,2], outer in [3.75,6], every point of the wedge with axis offset in [0.5,8]; constant and bilinear (c_i in [-0.1,0.1]) surface functions'
OUTSIDE = 'surfaces whose shape is not bilinear in (A,B); floating-point rounding (arithmetic is exact real arithmetic); points exactly at the centre'
ASSUME = ['arithmetic over the reals', 'surface function pointers return smooth values with matching derivatives']
def jobs(tier):
    r = []
    for dom in range(6):
        for ty in (1, 2, 3, 4):
            for cu in (0, 1):
                r.append(Job('h_cubsph.c', 'h_cub_inverse', (dom, ty, cu), budget=120))
    return r
