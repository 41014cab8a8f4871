#!/usr/bin/env python3
"""Shows that one seed is one execution: runs the same seeds of every profile twice,
once alone on one processor and once with all processors contended, and compares
the hash of the schedule, the number of steps, the simulated time, the calls, the
faults injected and the verdict; then the last of them once more as the only run
of a fresh process, which is what a replay is.

usage: determinism.py [--n SEEDS] [--from SEED] [PROFILE...]"""
import argparse, json, os, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'sim'))
import check  # noqa: E402
from plan import PLAN  # noqa: E402


def runs(binary, prof, frm, n, procs, tag):
    out = os.path.join(check.WORK, 'det.%s.%s' % (prof, tag))
    e = check.env()
    e.update(GODEBUG='randseednop=0', GOMAXPROCS=str(procs), VERIFSIM_OUT=out,
             VERIFSIM_REQ=json.dumps({'mode': 'search', 'prof': prof, 'from': frm, 'n': n, 'all': True, 'hashes': True}))
    open(out, 'w').close()
    subprocess.run([binary, '-test.run', 'TestSim', '-test.timeout', '0'], env=e, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, cwd=check.WORK)
    r = {}
    for l in open(out):
        d = json.loads(l)
        if d['type'] == 'run':
            r[d['seed']] = d
    os.remove(out)
    return r


def main():
    a = argparse.ArgumentParser()
    a.add_argument('--n', type=int, default=24)
    a.add_argument('--from', dest='frm', type=int, default=1)
    a.add_argument('--binary')
    a.add_argument('profiles', nargs='*')
    a = a.parse_args()
    profs = a.profiles or sorted({p for l in PLAN.values() for p, _ in l if not p.startswith('race-')})
    b = a.binary or check.build()
    try:
        with ThreadPoolExecutor(24) as ex:
            one = list(ex.map(lambda p: runs(b, p, a.frm, a.n, 1, 'a'), profs))
        with ThreadPoolExecutor(7) as ex:
            two = list(ex.map(lambda p: runs(b, p, a.frm, a.n, 8, 'b'), profs))
        with ThreadPoolExecutor(8) as ex:
            last = list(ex.map(lambda p: runs(b, p, a.frm + a.n - 1, 1, 8, 'c'), profs))
    finally:
        if not a.binary:
            os.remove(b)
    bad = total = 0
    for p, x, y, z in zip(profs, one, two, last):
        for s in z:
            if s in x and any(x[s][k] != z[s][k] for k in x[s]):
                bad += 1
                print('%s seed %s: another execution in a process of its own' % (p, s))
        if len(x) != a.n or len(y) != a.n:
            print('%s: %d and %d of %d runs' % (p, len(x), len(y), a.n))
            bad += 1
        for s in sorted(set(x) & set(y)):
            total += 1
            d = [k for k in x[s] if x[s][k] != y[s][k]]
            if d:
                bad += 1
                print('%s seed %s: %s differ: %s' % (p, s, d, str([(x[s][k], y[s][k]) for k in d if k in ('hash', 'steps', 'simms', 'viol')])[:300]))
    print('%d runs of %d profiles made twice, %d different' % (total, len(profs), bad))
    return 1 if bad else 0


sys.exit(main())
