from irx.engine import Job
BOUNDS = 'two boxes with 2 and 3 points, evolved vector and scalar variables with earlier time levels, additional variables; all times up to 1000, iterations 0..12, iterations of the restart 0..2 or at once, all values and (one variable of a box) all bytes; seven parameter values with blanks, quotes, = and $'
OUTSIDE = 'several MPI processes; parameters that set the grid or checkpoint_DeltaT itself (taken from the checkpoint); grids whose shape changes between the runs; NaN payloads of values that are not evolved'
ASSUME = ['directory operations are recorded by stand-ins', 'files are kept by the virtual file system of the engine']
def J(src, fn, a=(), **k): return Job(src, fn, a, max_paths=20000, **k)
def jobs(tier):
    t = tier == 'thorough'
    C = [(0,1,0,0,0,0,0,0), (1,0,0,1,0,0,0,0), (0,-1,1,0,1,0,0,0), (0,1,0,1,2,1,0,1), (0,0,0,1,0,0,1,2), (1,2,1,0,0,0,1,1)]
    if t: C += [x for x in [(a,r,k,0,v,p,d,m) for a in (0,1) for r in (-1,1) for k in (0,1) for v in (1,2) for p in (0,1) for d in (0,1) for m in (0,)] if x not in C]
    r = [J('h_ckpt.c', 'h_restart', a, cost=4, budget=600) for a in C]
    r += [J('h_ckpt.c', 'h_bytes', a) for a in ((0,0,0,0), (1,1,5,2), (1,2,5,2))]
    r += [J('h_ckwhen.c', 'h_when', (0,), cost=2), J('h_ckwhen.c', 'h_when', (1,), cost=3, budget=600)]
    return r
