from irx.engine import Job
BOUNDS = 'up to 4 (thorough: 5) operations on two function bins with three functions each; up to 4 time steps with any time step in [0.01,2] and any final time; a checkpoint that moves the run to any iteration up to 5; argument files with up to 3 lines of any kind, with parameter sweeps of two values'
OUTSIDE = 'several MPI processes; more steps, functions or lines; functions that add functions while their bin runs'
ASSUME = ['making and freeing a grid, module initialization, checkpointing and file operations are replaced by stand-ins that record the call']
def J(fn, a=(), **k): return Job('h_sched.c', fn, a, max_paths=20000, **k)
def jobs(tier):
    t = tier == 'thorough'
    r = [J('h_init'), J('h_fun', (5 if t else 4,), cost=4, budget=800), J('h_evolve', (4, 0)), J('h_evolve', (5 if t else 4, 1), cost=2), J('h_jump', (), cost=2),
         J('h_main', (0,)), J('h_main', (1, 4)), J('h_main', (2, 4)), J('h_main', (3, 4 if t else 3), cost=3, budget=800)]
    return r
