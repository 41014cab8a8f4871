#!/usr/bin/env python3
"""Makes /verif/seeded/<id> from a bug description and confirms it.
usage: mkbug.py FILE.py...   (each defines ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO)"""
import json, os, shutil, subprocess, sys
R = '/tmp/w/r3'
V = '/verif'
KIT = '/tmp/w/kit.tgz'
env = dict(os.environ, PATH='/opt/veriftools/go1.26.10/bin:' + os.environ['PATH'], GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod', GOWORK='off', GOSUMDB='off')
def sh(c, cwd=None): return subprocess.run(c, shell=True, cwd=cwd, env=env, capture_output=True, text=True)
subprocess.check_call(['bash', V + '/tools/demokit/mkkit.sh', KIT])
if not os.path.isdir(R): subprocess.check_call(['git', 'clone', '-q', '/repo', R])
sh('git checkout -q . && git clean -fdq && git pull -q', R)
for f in sys.argv[1:]:
    b = {}
    exec(open(f).read(), b)
    d = f"{V}/seeded/{b['ID']}"
    sh('git checkout -q .', R)
    for path, old, new in b['EDITS']:
        s = open(f'{R}/{path}').read()
        if s.count(old) != 1:
            print(b['ID'], 'BAD EDIT', path, s.count(old)); sys.exit(1)
        open(f'{R}/{path}', 'w').write(s.replace(old, new))
    r = sh('gofmt -l internal', R)
    if r.stdout.strip(): print(b['ID'], 'gofmt', r.stdout)
    os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'w').write(sh('git diff', R).stdout)
    json.dump({'property': b['PROP'], 'needs': b['NEEDS'], 'what_it_breaks': b['BREAKS']}, open(d + '/meta.json', 'w'), indent=1)
    open(d + '/demo_test.go', 'w').write(b['DEMO'])
    shutil.copy(V + '/tools/demokit/demo.sh', d); shutil.copy(KIT, d)
    if b.get('BINARY'):
        # the demonstration runs the deckard binary: ./deckard
        s = open(d + '/demo.sh').read()
        s = s.replace('cd "$tmp"\n', 'timeout 240 go build -ldflags=-checklinkname=0 -o "$tmp/deckard" -modfile "$tmp/mod/go.mod" ./internal/cmd/deckard\ncd "$tmp"\n')
        open(d + '/demo.sh', 'w').write(s)
    bad = sh(f'bash {d}/demo.sh', R)
    old = sh('bash /tmp/w/oldtests.sh ' + R + ' ./internal/queue/... ./internal/service/... ./internal/shutdown/... ./internal/audit/... 2>&1 | grep -v "no test files" | grep -v ^ok | tail -15', R)
    sh('git checkout -q .', R)
    good = sh(f'bash {d}/demo.sh', R)
    print(b['ID'], 'clean', good.returncode, 'patched', bad.returncode, '|', [l for l in bad.stdout.splitlines() if 'demo_test' in l or 'panic' in l][:2])
    if good.returncode: print(good.stdout[-1500:], good.stderr[-1500:])
    if 'zzdemo' in bad.stderr or 'build failed' in bad.stdout+bad.stderr: print(bad.stderr[-800:])
    print('   other tests:', old.stdout.strip()[-600:] or 'pass')
