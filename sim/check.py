#!/usr/bin/env python3
"""Decides properties of deckard by deterministic simulation with fault injection.

usage: check.py PROPERTY [--tier quick|thorough]   search for a violation
       check.py --replay FILE                      replay a recorded violation
       check.py --setup                            build once
Exit status: 0 the property held on everything explored, 1 VIOLATION, other: error."""
import fcntl, hashlib, json, os, queue, shutil, subprocess, sys, threading, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
WORK = os.path.join(ROOT, 'work')
GO = '/opt/veriftools/go1.26.10/bin'
sys.path.insert(0, HERE)
from plan import PLAN, ORACLES, FATAL  # noqa: E402

CHUNK_SECONDS = 90  # a single run that takes longer than this in real time is stuck


def env():
    e = dict(os.environ)
    e['PATH'] = GO + ':' + e.get('PATH', '/usr/local/bin:/usr/bin:/bin')
    e.setdefault('HOME', '/root')
    e.update(GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod', GOWORK='off', GOSUMDB='off')
    e.setdefault('GOMODCACHE', '/root/go/pkg/mod')
    e.setdefault('GOCACHE', '/root/.cache/go-build')
    for k in ('VERIFSIM_LOG', 'VERIFSIM_REQ', 'VERIFSIM_OUT', 'GODEBUG'):
        e.pop(k, None)
    return e


def run(cmd, **kw):
    p = subprocess.run(cmd, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode != 0:
        print('ERROR: %s failed:\n%s' % (' '.join(cmd), p.stdout[-6000:]))
        sys.exit(3)
    return p.stdout


def build(race=False):
    """Builds the simulation from the working tree of the repository."""
    os.makedirs(WORK, exist_ok=True)
    with open(os.path.join(WORK, 'lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        d = os.path.join(WORK, 'build')
        os.makedirs(d, exist_ok=True)
        run([sys.executable, os.path.join(HERE, 'mkmod.py'), REPO, d])
        rw = os.path.join(d, 'rewriter')
        run(['go', 'build', '-o', rw, '.'], cwd=os.path.join(HERE, 'rewriter'))
        out = os.path.join(d, 'out')
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        ov = os.path.join(d, 'overlay.json')
        mod = os.path.join(d, 'go.mod')
        run([rw, '-repo', REPO, '-modfile', mod, '-out', out, '-src', os.path.join(HERE, 'harness'), '-overlay', ov], cwd=REPO)
        b = os.path.join(WORK, 'sim.%s%d' % ('race.' if race else '', os.getpid()))
        # The race detector watches the code under test, not the simulator, whose own tasks are serialised without telling it.
        flags = ['-race', '-gcflags=verifsim/...=-race=false -l', '-gcflags=github.com/takenet/deckard/internal/verifsim/...=-race=false'] if race else []
        run(['go', 'test', '-c', '-vet=off', '-ldflags=-checklinkname=0', '-modfile', mod, '-overlay', ov, '-o', b] + flags + ['./internal/verifsim/simtest'], cwd=REPO)
    return b


class Worker:
    """One run of the simulation binary over a range of seeds."""

    def __init__(self, binary, req, tag, race=False, dump=None):
        self.out = os.path.join(WORK, 'run.%d.%s' % (os.getpid(), tag))
        self.log = self.out + '.log'
        open(self.out, 'w').close()
        e = env()
        e['GODEBUG'] = 'randseednop=0'
        e['VERIFSIM_REQ'] = json.dumps(req)
        e['VERIFSIM_OUT'] = self.out
        e['GOMAXPROCS'] = '2'
        e['GOGC'] = '200'
        if race:
            e['GORACE'] = 'halt_on_error=1 exitcode=66'
        self.race = race
        if dump:
            e['VERIFSIM_DUMP'] = dump
        self.f = open(self.log, 'w')
        self.p = subprocess.Popen([binary, '-test.run', 'TestSim', '-test.timeout', '0'], env=e, stdout=self.f, stderr=subprocess.STDOUT, cwd=WORK)
        self.at = None
        self.last = time.time()
        self.pos = 0

    def records(self):
        with open(self.out, 'rb') as f:
            f.seek(self.pos)
            data = f.read()
        end = data.rfind(b'\n') + 1
        self.pos += end
        for l in data[:end].split(b'\n')[:-1]:
            d = json.loads(l)
            self.last = time.time()
            if d['type'] == 'at':
                self.at = d['seed']
            else:
                yield d

    def kill(self):
        if self.p.poll() is None:
            self.p.kill()
            self.p.wait()

    def tail(self):
        self.f.close()
        with open(self.log, errors='replace') as f:
            return f.read()

    def clean(self):
        self.f.close()
        for x in (self.out, self.log):
            if os.path.exists(x):
                os.remove(x)


class Stop(Exception):
    pass


def fatal_kind(log):
    if 'WARNING: DATA RACE' in log:
        return 'race'
    if 'fatal error:' in log:
        i = log.index('fatal error:')
        return 'fatal: ' + log[i + 13:i + 90].split('\n')[0]
    if 'panic:' in log:
        return 'harness'
    return 'died'


def search(prop, tier, seed):
    t0 = time.time()
    plan = PLAN[prop]
    factor = 1 if tier == 'quick' else 400
    cap = float(os.environ.get('VERIF_CAP', 240 if tier == 'quick' else 2400))
    races = [p for p in plan if p[0].startswith('race-')]
    binaries = {False: build()}
    if races:
        binaries[True] = build(True)
    tb = time.time()
    ncpu = os.cpu_count() or 4
    base = 1 + (seed - 1) * 10000000
    jobs = []
    for prof, runs in sorted(plan, key=lambda p: p[1]):
        # The profiles with few runs have long ones. Small chunks, so that all processors are busy and a violation stops all soon.
        n = runs * factor
        size = max(1, min(runs // 8 or 1, 60) * (1 if tier == 'quick' else 4))
        frm = base
        while n > 0:
            jobs.append((prof, frm, min(size, n)))
            frm += size
            n -= size
    if tier != 'quick':
        # Round robin over the profiles, so that the time is shared.
        per = {}
        for j in jobs:
            per.setdefault(j[0], []).append(j)
        jobs = [j for i in range(max(map(len, per.values()))) for l in per.values() if i < len(l) for j in [l[i]]]
    q = queue.Queue()
    for j in jobs:
        q.put(j)
    sums, viols, errors, lost = [], [], [], []
    stop = threading.Event()
    rep = os.path.join(WORK, 'replay')
    os.makedirs(rep, exist_ok=True)
    known = [k for k in load_known() if k.split('|')[0] == prop]
    lockm = threading.Lock()

    def work(i):
        try:
            work1(i)
        except BaseException:
            with lockm:
                errors.append(traceback.format_exc())
            stop.set()

    def work1(i):
        while not stop.is_set():
            try:
                prof, frm, n = q.get_nowait()
            except queue.Empty:
                return
            if time.time() - tb > cap:
                return
            race = prof.startswith('race-')
            while n > 0 and not stop.is_set():
                w = Worker(binaries[race], {'mode': 'search', 'prof': prof, 'from': frm, 'n': n, 'props': [prop], 'known': known, 'out': rep, 'minsec': 20, 'oracles': ORACLES.get(prop, [])}, '%d' % i, race)
                over = False
                while True:
                    done = w.p.poll() is not None
                    for d in w.records():
                        if d['type'] == 'summary':
                            over = True
                            with lockm:
                                sums.append((prof, d))
                        elif d['type'] == 'violation':
                            with lockm:
                                viols.append(d)
                            stop.set()
                    if done:
                        break
                    if stop.is_set() and not any(v.get('prof') == prof and v.get('seed') == w.at for v in viols):
                        w.kill()
                        break
                    if time.time() - w.last > CHUNK_SECONDS:
                        w.kill()
                        break
                    time.sleep(0.02)
                if over or stop.is_set():
                    w.clean()
                    break
                # The process died or hung in a run.
                log = w.tail()
                stuck = time.time() - w.last > CHUNK_SECONDS
                kind = 'stuck' if stuck else fatal_kind(log)
                with lockm:
                    lost.append({'prof': prof, 'seed': w.at, 'kind': kind, 'log': log[:20000]})
                w.clean()
                if kind == 'harness':
                    with lockm:
                        errors.append('%s seed %s: %s' % (prof, w.at, log[-3000:]))
                    stop.set()
                    return
                if w.at is None:
                    with lockm:
                        errors.append('%s: no answer: %s' % (prof, log[-3000:]))
                    stop.set()
                    return
                if prop in FATAL and kind != 'died':
                    stop.set()
                    return
                n -= w.at - frm + 1
                frm = w.at + 1

    ths = [threading.Thread(target=work, args=(i,)) for i in range(ncpu)]
    for t in ths:
        t.start()
    for t in ths:
        t.join()
    te = time.time()
    status = 0
    if viols:
        v = viols[0]
        ok, r = replay(binaries[v['prof'].startswith('race-')], v['file'], v['viol'], v['hash'])
        print('seed %s of profile %s: %d of %d operations left after minimising' % (v['seed'], v['prof'], v['nops'], v['orig']))
        for l in v.get('trace') or []:
            print('   ', l[:400])
        print('%s [%s] %s' % (prop, v['viol']['kind'], v['viol']['msg'][:600]))
        print('replayed in a fresh process: %s' % ('same violation and same execution' if ok else 'NOT THE SAME: %s' % r))
        print('VIOLATION property=%s replay=%s' % (prop, v['file']))
        status = 1
    elif errors:
        print('ERROR: ' + errors[0])
        status = 3
    elif lost and prop in FATAL:
        # A run which ends the process or never ends. It counts when it does so again.
        l = lost[0]
        f = os.path.join(rep, '%s-%s-%s-fatal.json' % (prop, l['prof'], l['seed']))
        json.dump({'prof': l['prof'], 'seed': l['seed'], 'note': ['the process ended: ' + l['kind']] + l['log'].splitlines()[:120]}, open(f, 'w'), indent=1)
        race = l['prof'].startswith('race-')
        kind = refatal(binaries[race], f, race)[0]
        if kind and kind != 'died' and kind != 'harness':
            n, log = minimise_fatal(binaries[race], f, race, kind, 120 if tier == 'quick' else 600)
            print('seed %s of profile %s ends the process: %s; %s' % (l['seed'], l['prof'], l['kind'], n))
            print((log or l['log'])[:3000])
            print('VIOLATION property=%s replay=%s' % (prop, f))
            status = 1
        else:
            print('ERROR: the process ended once in %s seed %s (%s)\n%s' % (l['prof'], l['seed'], l['kind'], l['log'][:3000]))
            status = 3
    found = {}
    for _, s in sums:
        for k, n in (s.get('known') or {}).items():
            found[k] = found.get(k, 0) + n
    for k in known:
        print('KNOWN-FINDING: property=%s %s%s' % (prop, load_known()[k], ' (met in %d runs)' % found[k] if k in found else ''))
    evidence(prop, tier, seed, sums, viols, lost, plan, tb - t0, te - tb, time.time() - t0, found)
    for b in binaries.values():
        os.remove(b)
    if status == 0:
        print('OK property=%s runs=%d build=%.0fs search=%.0fs' % (prop, sum(s['runs'] for _, s in sums), tb - t0, te - tb))
    return status


def load_known():
    """Known findings: lines 'KNOWN-FINDING: property=ID kind=KIND text'."""
    r = {}
    f = os.path.join(ROOT, 'known-findings.txt')
    if os.path.exists(f):
        for l in open(f):
            if l.startswith('KNOWN-FINDING: property='):
                p, k, text = l[len('KNOWN-FINDING: property='):].rstrip('\n').split(' ', 2)
                r[p + '|' + k[len('kind='):]] = text
    return r


def replay(binary, file, viol=None, hash=None, race=False):
    w = Worker(binary, {'mode': 'replay', 'file': file}, 'replay', race)
    while w.p.poll() is None and time.time() - w.last < 2 * CHUNK_SECONDS:
        time.sleep(0.05)
        for d in w.records():
            pass
    w.kill()
    w.pos = 0
    r = [d for d in w.records() if d['type'] == 'replay']
    log = w.tail()
    w.clean()
    if not r:
        return False, log
    r = r[0]
    ok = any(viol is None or (x['prop'] == viol['prop'] and x['kind'] == viol['kind'] and x['msg'] == viol['msg']) for x in r.get('viol') or [])
    if hash and r['hash'] != hash:
        ok = False
    return ok, r


def refatal(binary, file, race, dump=None):
    """Replays a run which ends the process: how it ended, if it did, and what it printed."""
    w = Worker(binary, {'mode': 'replay', 'file': os.path.abspath(file)}, 'replay', race, dump)
    while w.p.poll() is None:
        if time.time() - w.last > CHUNK_SECONDS:
            w.kill()
            w.clean()
            return 'stuck', ''
        time.sleep(0.005)
    rc = w.p.returncode
    log = w.tail()
    w.clean()
    return (fatal_kind(log) if rc != 0 else None), log


def minimise_fatal(binary, file, race, kind, limit):
    """Removes operations from a run which ends the process, as long as it still does."""
    end = time.time() + limit
    tmp = file + '.tmp'
    if kind == 'stuck' or refatal(binary, file, race, tmp)[0] != kind or not os.path.exists(tmp):
        return 'not minimised', None
    sc = json.load(open(tmp))
    best = None

    def bad(ops):
        nonlocal best
        json.dump(dict(sc, ops=ops), open(tmp, 'w'))
        k, log = refatal(binary, tmp, race)
        if k == kind:
            best = log
        return k == kind

    ops = sc['ops']
    total = len(ops)
    step = len(ops) // 2
    while step >= 1 and time.time() < end:
        i = 0
        while i < len(ops) and time.time() < end:
            c = ops[:i] + ops[i + step:]
            if c and bad(c):
                ops = c
            else:
                i += step
        step //= 2
    os.remove(tmp)
    if best is None:
        return 'not minimised', None
    json.dump(dict(sc, ops=ops, note=['the process ends: ' + kind] + best.splitlines()[:120]), open(file, 'w'), indent=1)
    return '%d of %d operations left after minimising' % (len(ops), total), best


def evidence(prop, tier, seed, sums, viols, lost, plan, tbuild, tsearch, wall, found):
    def tot(k):
        r = {}
        for _, s in sums:
            for a, b in (s.get(k) or {}).items():
                r[a] = r.get(a, 0) + b
        return dict(sorted(r.items()))
    runs = sum(s['runs'] for _, s in sums)
    good = set()
    scheds = set()
    for p, s in sums:
        good.update(p + h for h in s.get('good') or [])
        scheds.update(s.get('scheds') or [])
    per = {}
    for p, s in sums:
        per[p] = per.get(p, 0) + s['runs']
    samples = []
    seen = set()
    for p, s in sums:
        if p not in seen and s.get('sample') and len(samples) < 4:
            seen.add(p)
            samples.append({'profile': p, **s['sample']})
    hours = max(tsearch, 1e-3) / 3600
    cov = {
        'evaluations': runs,
        'distinct_nontrivial': len(good),
        'rule': 'One case is one complete simulated execution of deckard, decided by one seed: deployment, workload, schedule and faults. It counts when its schedule and history differ from every other and at least one of the oracles of this property judged something in it (%s).' % (', '.join(ORACLES.get(prop, [])) or 'any oracle'),
        'samples': samples or [{'note': 'no run was completed'}],
        'runs_per_profile': per,
        'first_seed': 1 + (seed - 1) * 10000000,
        'runs_per_hour': round(runs / hours),
        'seeds_per_hour': round(runs / hours),
        'simulated_hours': round(sum(s['simms'] for _, s in sums) / 3.6e6, 2),
        'client_and_maintenance_operations': sum(s['ops'] for _, s in sums),
        'operations_by_kind': tot('kinds'),
        'faults_injected': tot('stats'),
        'dependency_calls': tot('calls'),
        'scheduler_steps': sum(s['steps'] for _, s in sums),
        'scheduler_choices_between_several_runnable_tasks': sum(s['choices'] for _, s in sums),
        'distinct_schedules': len(scheds),
        'yield_points': tot('yields'),
        'judgements_by_oracle': tot('oracle'),
        'deployments': tot('engines'),
        'known_findings_met': found,
        'runs_lost_to_a_dead_or_stuck_process': len(lost),
        'build_seconds': round(tbuild, 1),
        'search_seconds': round(tsearch, 1),
        'real_components': ['all of /repo/internal (queue, cache incl. its Redis Lua scripts, storage, service, housekeeper tasks, audit, metrics, shutdown, configuration)', 'go-redis client', 'MongoDB Go driver operations', 'protobuf messages'],
        'stub_components': ['Redis server and cluster (simredis, executes the real Lua scripts)', 'MongoDB deployment (simmongo)', 'Elasticsearch sink', 'OpenTelemetry SDK and exporters', 'clock, scheduler, locks, channels and timers of the rewritten code (simrt)'],
    }
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    json.dump({'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration', 'coverage': cov,
               'assumptions': ['The simulated Redis, MongoDB and Elasticsearch behave like the real ones in what deckard uses of them.', 'Interleavings are chosen at synchronisation, I/O and timer points of the rewritten code, not between arbitrary instructions.'],
               'wall_s': round(wall, 1), 'violations': len(viols)}, open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w'), indent=1)


def main():
    a = sys.argv[1:]
    if '--setup' in a:
        os.remove(build())
        return 0
    if a and a[0] == '--replay':
        sc = json.load(open(a[1]))
        race = sc['prof'].startswith('race-')
        b = build(race)
        try:
            if 'ops' not in sc or 'the process' in (sc.get('note') or [''])[0]:
                k, log = refatal(b, a[1], race)
                print(log[:6000])
                print('the process ended: %s' % k if k else 'the process did not end')
                return 1 if k else 0
            _, r = replay(b, os.path.abspath(a[1]), race=race)
            if isinstance(r, str):
                print(r)
                return 3
            for l in r['trace']:
                print('   ', l)
            print('hash', r['hash'])
            for v in r.get('viol') or []:
                print('VIOLATION property=%s [%s] %s replay=%s' % (v['prop'], v['kind'], v['msg'], a[1]))
            return 1 if r.get('viol') else 0
        finally:
            os.remove(b)
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in a:
        tier = a[a.index('--tier') + 1]
    return search(a[0], tier, int(os.environ.get('VERIF_SEED', '1') or 1))


if __name__ == '__main__':
    sys.exit(main())
