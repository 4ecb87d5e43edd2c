from irx.engine import Job
BOUNDS = 'n=1,2: every matrix entry (in [-4,4]), every zero pattern and every right hand side; n=3: 2-3 symbolic entries, n=4,5: 1 symbolic entry in otherwise fixed dense matrices, right hand sides with and without leading zeros; every pivot order reachable within these; |det| > 0.01'
OUTSIDE = 'larger n with more than a few free entries; rounding and conditioning; |det| <= 0.01'
ASSUME = ['arithmetic over the reals']
def jobs(tier):
    r = []
    for n in (1, 2):
        for pat in range(2**(n*n)):
            r.append(Job('h_num.c', 'h_lu', (n, pat), max_paths=3000, budget=200, cost=10 if pat in (0, 1, 2, 4, 8) else 1))
    for s in range(3 if tier == 'quick' else 6):
        r.append(Job('h_num.c', 'h_lu', (3, 0, s, s%3, 1, 5), max_paths=2000, cost=5))
        r.append(Job('h_num.c', 'h_lu', (3, 0, s, 0, 2, 4), max_paths=2000, cost=5))
        if tier != 'quick':
            r.append(Job('h_num.c', 'h_lu', (3, 0, s, 0, 2, 4, 9), max_paths=5000, cost=5, budget=900))
            r.append(Job('h_num.c', 'h_lu', (3, 0, s, 0, 1, 5, 8), max_paths=5000, cost=5, budget=900))
    for pat in (1<<0, 1<<4, 1<<8, 0x11, 0x49, 7, 0x38, 0x124):
        r.append(Job('h_num.c', 'h_lu', (3, pat, 0, 1, 2, 6), max_paths=2000, cost=3))
    for k in (1, 6, 11, 16):
        r.append(Job('h_num.c', 'h_lu', (4, 0, k%3, k%2, k)))
    for k in (13, 19):
        r.append(Job('h_num.c', 'h_lu', (5, 0, k%3, 0, k)))
    return r
