from irx.engine import Job
BOUNDS = 'directory trees of depth up to 2 with up to 3 entries per directory, each a file, directory, link to a file, link to a directory or link to nothing; names relative, absolute, with a trailing slash and longer than 1000 characters; an unremovable entry at any place; output directories that exist or not, with checkpoints or not, and a crash after any file system operation'
OUTSIDE = 'mount points, devices, sockets; other processes that change the tree at the same time'
ASSUME = ['the file system is an in-memory model with POSIX semantics of opendir, readdir, remove, unlink, rmdir, stat, lstat, access, mkdir and rename; nothing on the real file system is touched']
def J(fn, a=(), **k): return Job('h_dir.c', fn, a, max_paths=20000, **k)
def jobs(tier):
    t = tier == 'thorough'
    r = [J('h_rmdir', (a, 0, 3, 0, 0), cost=2) for a in range(5)] + [J('h_rmdir', (1, 1, 2, 2, 0), cost=3), J('h_rmdir', (1, 1, 2, 2, 1), cost=3)]
    if t: r += [J('h_rmdir', (a, 1, 2, 2, 1), cost=5, budget=800) for a in (0, 2, 3, 4)]
    r += [J('h_rotate', (a, b), cost=2) for a in range(3) for b in (0, 1)]
    return r
