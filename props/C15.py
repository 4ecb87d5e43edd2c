from irx.engine import Job
BOUNDS = 'boxes of up to 4 points per direction, different in each direction; field values in [-5,5]; all origins of lines and planes; two outputs in a row into the same file; axes of 1 to 5 (thorough 7) points with any increasing coordinates for the search; 2 or 3 points for norms; values of binary float output are fixed'
OUTSIDE = 'interpolated output (not implemented by sgrid); integrals themselves (S03); text numbers are compared within their printed precision'
ASSUME = ['weighted sums stand in for the volume integrals', 'a little and a big endian machine by a stand-in for the byte order test']
def jobs(tier):
    t = tier == 'thorough'
    r = [Job('h_out.c', f, a, timeout_ms=500, max_paths=3000) for f in ('h_line', 'h_plane') for a in ((3, 2, 4, 0), (2, 3, 4, 1), (1, 2, 3, 1)) + (((3, 4, 3, 0), (4, 3, 4, 1)) if t else ())]
    r += [Job('h_out.c', 'h_near', a, timeout_ms=500) for a in ((0, 4), (1, 4), (2, 4), (0, 5), (1, 1), (2, 2)) + (tuple((d, n) for d in range(3) for n in (6, 7)) if t else ())]
    r += [Job('h_out.c', 'h_vtk', n+(d, m), timeout_ms=500) for d in range(4) for m in range(7) for n in ([(2, 3, 4), (4, 1, 3), (3, 4, 2), (3, 2, 2)] if t else [(2, 3, 4), (4, 1, 3)])]
    r += [Job("h_out.c", "h_dump", (2, 3, 4))] + [Job('h_out.c', 'h_norm', (2, k), timeout_ms=500, cost=6) for k in range(5)]
    if t: r += [Job('h_out.c', 'h_norm', (3, k), timeout_ms=500, cost=60, max_paths=5000, budget=850) for k in range(5)]
    return r
