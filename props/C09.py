from irx.engine import Job
BOUNDS = 'one checkpoint written over an older one or none, two boxes, with any one file operation or write (up to 150) or all later ones failing, or the run stopping there; the file cut off after any number of bytes from its start or end; a restart with a stop before any of up to 30 file system operations, followed by another start (with or without a stop at any of 12 operations) and a third one'
OUTSIDE = 'several MPI processes; loss of data after a successful close (no fsync); damage inside a file of the right length; cp of a file is taken as two steps (created incomplete, completed)'
ASSUME = ['file system operations are replaced by an in-memory file system in which each one may fail or be the last']
def J(src, fn, a=(), **k): return Job(src, fn, a, max_paths=20000, **k)
def jobs(tier):
    t = tier == 'thorough'
    r = []
    for old in (0, 1):
        for kind in (0, 1, 2):
            for lazy in (0, 20): r.append(J('h_ckfail.c', 'h_wfail', (old, kind, lazy, 0, 150 if not lazy else 5, 1)))
    n = 100
    for lo in range(0, 1300, n): r.append(J('h_ckfail.c', 'h_cut', (lo, lo+n, 1)))
    r.append(J('h_ckfail.c', 'h_cut', (-160, 0, 1)))
    r += [J('h_ckwhen.c', 'h_dirs', a, cost=2) for a in ((0,0,0,30,12), (1,0,0,30,12), (0,1,0,30,12), (1,1,0,30,-1))]
    return r
