from irx.engine import Job
BOUNDS = 'items of 1 to 8 bytes, up to 3 items, both byte orders, files that end after any number of items; every byte symbolic; files of 3 to 6 bytes copied'
OUTSIDE = 'machines with mixed byte order; write errors while copying'
ASSUME = []
def jobs(tier):
    r = [Job('h_io.c', 'h_endian', (s, n, b, 1, k)) for s, n, k in ((1, 3, 3), (2, 3, 2), (4, 2, 2), (8, 2, 2), (8, 2, 3), (3, 2, 1), (8, 3, 0)) for b in (0, 1)]
    r += [Job('h_io.c', 'h_endian', (4, 3, b, 0, 2)) for b in (0, 1)]
    r += [Job('h_io.c', 'h_dbl', (n,)) for n in (1, 4)] + [Job('h_io.c', 'h_copy', a) for a in ((3, 1), (3, 0), (6, 1), (0, 1))]
    return r
