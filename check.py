#!/usr/bin/env python3-vt
"""check.py <property> [quick|thorough]   decide one property on the current /repo tree
   check.py --replay <dir>                re-run a stored counterexample natively
   check.py --job <property> <label>      run a single job verbosely"""
import os, sys, time, json, importlib, signal, traceback, shutil, resource, random
import multiprocessing as mp
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from irx import build

VERIF = build.VERIF
NPROC = int(os.environ.get('VERIF_PROCS', '8'))

def load(pid):
    return importlib.import_module('props.' + pid)

def known_findings():
    r = []
    try:
        for l in open(os.path.join(VERIF, 'KNOWN_FINDINGS.txt')):
            if l.startswith('known: '):
                d = dict(x.split('=', 1) for x in l[7:].split(' ## ')[0].split() if '=' in x)
                d['text'] = l.split(' ## ', 1)[1].strip() if ' ## ' in l else ''
                r.append(d)
    except OSError:
        pass
    return r

def child(job, conn):
    resource.setrlimit(resource.RLIMIT_AS, (job.mem << 30, job.mem << 30))
    os.setpgid(0, 0)
    try:
        res = job.run()
    except MemoryError:
        res = dict(label=job.label, fails=[], inconclusive=['out of memory'], error=None, wall=0.0, stats={}, used=[], reached=[])
    except BaseException as e:
        res = dict(label=job.label, fails=[], inconclusive=[], error=traceback.format_exc()[-3000:], wall=0.0)
    try: conn.send(res)
    except Exception: conn.send(dict(label=job.label, fails=[], inconclusive=[], error='result not transferable', wall=0.0))
    conn.close()

def run_jobs(jobs, deadline, on_result):
    """each job in a process of its own; on_result returns True to stop early"""
    pend = sorted(jobs, key=lambda j: -j.cost)
    live = {}
    stop = False
    while (pend or live) and not stop:
        while pend and len(live) < NPROC:
            j = pend.pop(0)
            a, b = mp.Pipe(False)
            p = mp.Process(target=child, args=(j, b)); p.start(); b.close()
            live[p] = (j, a, time.time())
        mp.connection.wait([c for j, c, t in live.values()], 1.0)
        now = time.time()
        for p, (j, c, t) in list(live.items()):
            res = None
            if c.poll():
                try: res = c.recv()
                except EOFError:
                    res = dict(label=j.label, fails=[], inconclusive=['worker ended (memory)'], error=None, wall=now-t, stats={}, used=[], reached=[])
            elif not p.is_alive():
                res = dict(label=j.label, fails=[], inconclusive=['worker ended'], error=None, wall=now-t, stats={}, used=[], reached=[])
            elif now-t > j.budget+20 or now > deadline:
                res = dict(label=j.label, fails=[], inconclusive=['time limit'], error=None, wall=now-t, stats={}, used=[], reached=[], killed=True)
            if res is not None:
                try: os.killpg(p.pid, signal.SIGKILL)
                except OSError: pass
                p.kill()
                p.join(); c.close(); del live[p]
                if on_result(j, res): stop = True; break
    for p, (j, c, t) in live.items():
        try: os.killpg(p.pid, signal.SIGKILL)
        except OSError: pass
        p.kill()
        p.join()
    for j in pend:
        if not stop: on_result(j, dict(label=j.label, fails=[], inconclusive=['not started: time limit'], error=None, wall=0.0, stats={}, used=[], reached=[]))

def main(pid, tier):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    mod = load(pid)
    limit = 820 if tier == 'quick' else 4*3600
    jobs = mod.jobs(tier)
    labels = [j.label for j in jobs]
    assert len(set(labels)) == len(labels), 'duplicate job labels'
    try:
        for need in {j.prebuild for j in jobs if j.prebuild is not None}:
            build.Tree(need).ll_all()
        build.prune()
    except build.BuildError as e:
        print('ERROR: the current tree does not compile:\n%s' % str(e)[-2000:]); return 2
    repdir = os.path.join(VERIF, 'build', 'replay', pid)
    shutil.rmtree(repdir, ignore_errors=True)
    kf = [k for k in known_findings() if k.get('property') == pid]
    S = dict(viol=[], errors=[], unconf=[], incon=[], known=[])
    tot = {}; used = {}; results = []; checkn = 0
    def on_result(j, res):
        results.append((j, res))
        for k, v in (res.get('stats') or {}).items(): tot[k] = tot.get(k, 0)+v
        for u in res.get('used') or []: used[tuple(u) if isinstance(u, (list, tuple)) else u] = 1
        if res.get('error'): S['errors'].append('%s: %s' % (j.label, res['error'].strip()))
        for m in res.get('inconclusive') or []:
            S['incon'].append('%s: %s' % (j.label, m))
        fails = list(res.get('fails') or [])
        if res.get('killed') and hasattr(j, 'hang_probe'):
            why = j.hang_probe()
            if why:
                rep = os.path.join(repdir, 'hang'); os.makedirs(rep, exist_ok=True)
                open(rep+'/replay.txt', 'w').write('%s\n%s\n' % (j.label, why))
                S['viol'].append((j.label, 'termination', why, rep)); return True
        for n, f in enumerate(fails[:3]):
            k = [k for k in kf if k.get('job') == j.label and k.get('check') == f[0]]
            if k:
                S['known'].append(k[0]); continue
            rep = os.path.join(repdir, '%d_%d' % (len(results), n))
            try:
                why = j.replay(f, keep=rep)
            except build.BuildError as e:
                S['errors'].append('replay build: %s' % e); continue
            if why:
                json.dump(dict(property=pid, job=j.label, fail=[f[0], {str(k): v for k, v in f[1].items()}, f[2]]), open(rep+'/replay.json', 'w'))
                S['viol'].append((j.label, f[0], why, rep))
                return True
            S['unconf'].append('%s: %s %s (not reproduced natively)' % (j.label, f[0], f[2]))
        return False
    run_jobs(jobs, t0+limit-60, on_result)
    # translator validation: run some jobs natively on random inputs of their domain
    val = dict(runs=0, mismatch=[])
    if not S['viol'] and not S['errors']:
        rnd = random.Random(seed)
        seen = set()
        for j, res in sorted(results, key=lambda x: x[0].label):
            if not hasattr(j, 'validate') or res.get('fails') or not res.get('reached'): continue
            if tier == 'quick' and (j.fn in seen or len(seen) >= 12 or time.time()-t0 > limit-120): continue
            seen.add(j.fn)
            try:
                ok, msg = j.validate(res, rnd)
            except build.BuildError as e:
                S['errors'].append('native build: %s' % e); break
            if ok: val['runs'] += 1
            elif msg: val['mismatch'].append('%s: %s' % (j.label, msg))
    for m in val['mismatch']:
        S['errors'].append('native run disagrees with the symbolic verdict: ' + m)
    wall = time.time()-t0
    asserts = sum(sum((r.get('checknames') or {}).values()) for j, r in results)
    samples = []
    for j, r in results[:400]:
        if r.get('reached') and len(samples) < 5:
            samples.append(dict(job=j.label, assertions=dict(list((r.get('checknames') or {}).items())[:6]), sample=r.get('sample'), wall_s=round(r['wall'], 2)))
    cov = dict(states=int(tot.get('paths', 0)), transitions=int(tot.get('feas', 0)+tot.get('asserts', 0)) or int(tot.get('checks', 0)),
               traces_validated_against_impl=val['runs'], samples=samples,
               jobs=len(results), assertions_decided=asserts, queries_discharged=int(tot.get('queries', 0)),
               solver_s=round(tot.get('solver_s', 0.0), 2),
               decided_by=dict((k, int(tot[k])) for k in ('exact', 'lra', 'nra', 'concrete', 'sat', 'props') if tot.get(k)),
               functions_encoded=sorted(str(':'.join(map(str, u))) if isinstance(u, tuple) else str(u) for u in used),
               bounds=mod.BOUNDS, outside=mod.OUTSIDE, job_labels=labels[:200],
               inconclusive=S['incon'], unconfirmed_counterexamples=S['unconf'],
               explanation='Each job executes the listed functions of the current /repo source symbolically (LLVM IR or goto program, '
                 'regenerated in this run); states = symbolic paths (or SSA programs) decided, transitions = branch/assertion queries; '
                 'every counterexample is replayed on a native build before it is reported.')
    ev = dict(property=pid, tier=tier, seed=seed, level='model_checking', coverage=cov,
              assumptions=list(mod.ASSUME), wall_s=round(wall, 2), violations=len(S['viol']))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid+'.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    for k in S['known']: print('KNOWN-FINDING: property=%s %s' % (pid, k['text']))
    for m in S['incon'][:10]: print('INCOMPLETE: %s' % m[:300])
    for m in S['unconf'][:10]: print('NOTE: unconfirmed counterexample %s' % m[:300])
    for lab, name, why, rep in S['viol']:
        print('violated: job %s assertion %s: %s' % (lab, name, str(why)[:600]))
        print('VIOLATION property=%s replay=%s' % (pid, rep))
    print('%s %s: %d jobs, %d assertions, %d paths, %d queries, solver %.1f s, wall %.1f s' %
          (pid, tier, len(results), asserts, tot.get('paths', 0), tot.get('queries', 0), tot.get('solver_s', 0.0), wall))
    if S['viol']: return 1
    if S['errors']:
        for m in S['errors'][:5]: print('ERROR: %s' % m[-1500:])
        return 2
    return 0

def replay_stored(d):
    r = json.load(open(os.path.join(d, 'replay.json')))
    mod = load(r['property'])
    for tier in ('quick', 'thorough'):
        for j in mod.jobs(tier):
            if j.label == r['job']:
                f = r['fail']
                why = j.replay((f[0], {(int(k) if k.lstrip('-').isdigit() else k): v for k, v in f[1].items()}, f[2]))
                print('reproduced: %s' % why if why else 'not reproduced')
                return 1 if why else 0
    print('job not found'); return 2

if __name__ == '__main__':
    a = sys.argv[1:]
    if a and a[0] == '--replay': sys.exit(replay_stored(a[1]))
    if a and a[0] == '--job':
        for t in ('quick', 'thorough'):
            for j in load(a[1]).jobs(t):
                if j.label == a[2]:
                    r = j.run(); print(json.dumps({k: v for k, v in r.items()}, indent=1, default=str)[:6000])
                    for f in r['fails']: print('replay:', j.replay(f))
                    sys.exit(0)
    sys.exit(main(a[0], a[1] if len(a) > 1 else os.environ.get('VERIF_TIER', 'quick')))
