#!/usr/bin/env python3
"""mkseed.py SPEC.py: make /verif/seeded/<id> from a planted bug.

SPEC.py defines: id, prop, needs, breaks, edits=[(file, old, new)], pkg (package
directory), test (Go source of an in-package test), and optionally arch
('arm64' runs the demonstration under qemu), race, cpu. Confirms in a scratch
copy that the change builds, passes the stable tests, and that the
demonstration passes without and fails with it."""
import json, os, subprocess, sys, shutil, tempfile
spec = {}
exec(open(sys.argv[1]).read(), spec)
ID = spec['id']
out = f'/verif/seeded/{ID}'
os.makedirs(out, exist_ok=True)
pkg = spec.get('pkg', '.')
arch = spec.get('arch', '')
env = ''
ex = ''
if arch == 'arm64':
    env = 'export GOARCH=arm64 CGO_ENABLED=0 GODEBUG=asyncpreemptoff=1\n'
    ex = '-exec "qemu-aarch64 -cpu %s"' % spec.get('cpu', 'max')
elif arch == 'arm':
    env = 'export GOARCH=arm CGO_ENABLED=0 GODEBUG=asyncpreemptoff=1\n'
    ex = '-exec qemu-arm'
elif spec.get('cpu'):
    env = 'export CGO_ENABLED=0 GODEBUG=asyncpreemptoff=1\n'
    ex = '-exec "qemu-x86_64 -cpu %s"' % spec['cpu']
elif spec.get('nocgo'):
    env = 'export CGO_ENABLED=0\n'
if spec.get('race'):
    ex += ' -race'
if spec.get('tags'):
    ex += ' -tags ' + spec['tags']
if 'demo' in spec:
    demo = spec['demo']
else:
    demo = f'''#!/bin/bash
# exit 0: the property holds on this input; nonzero: it does not
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
{env}ov=$(mktemp)
trap 'rm -f "$ov"' EXIT
repo=$(pwd)
printf '{{"Replace": {{"%s/{pkg}/zz_demo_test.go": "%s/demo_test.go"}}}}' "$repo" "$here" > "$ov"
go test -vet=off -count=1 -timeout 250s -overlay "$ov" {ex} -run '^TestZZDemo$' ./{pkg}
'''
    open(f'{out}/demo_test.go', 'w').write(spec['test'])
open(f'{out}/demo.sh', 'w').write(demo)
for n, c in spec.get('files', {}).items():
    open(f'{out}/{n}', 'w').write(c)
json.dump({'property': spec['prop'], 'needs': spec['needs'], 'what_it_breaks': spec['breaks']}, open(f'{out}/meta.json', 'w'), indent=1)
# the change
def run(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
assert run('git -C /repo status --porcelain').stdout == '', 'repo dirty'
ok = True
r = run(f'bash {out}/demo.sh', cwd='/repo')
if r.returncode != 0:
    print('DEMO FAILS ON CLEAN TREE', r.stdout[-1500:], r.stderr[-1500:]); sys.exit(1)
try:
    for f, old, new in spec['edits']:
        p = f'/repo/{f}'
        s = open(p).read()
        assert s.count(old) == 1, (f, old, s.count(old))
        open(p, 'w').write(s.replace(old, new))
    d = run('git -C /repo diff').stdout
    open(f'{out}/patch.diff', 'w').write(d)
    b = run('bash /opt/vp/build.sh')
    if b.returncode: print('BUILD FAILS', b.stdout[-2000:], b.stderr[-2000:]); ok = False
    if ok:
        t = run('bash /opt/vp/test.sh /tmp/seedtest.json')
        res = json.load(open('/tmp/seedtest.json'))
        base = json.load(open('/opt/vp/BASELINE.json'))
        passed = set(res.get('passed', res.get('pass', [])))
        want = set(base.get('stable', base.get('passed', base.get('tests', []))))
        miss = want - passed
        if miss or not want: print('TESTS FAIL', sorted(miss)[:10], len(want)); ok = False
    r = run(f'bash {out}/demo.sh', cwd='/repo')
    if r.returncode == 0: print('DEMO DOES NOT FAIL'); ok = False
    else: print('demo:', (r.stdout + r.stderr)[-500:])
finally:
    run('git -C /repo checkout -- .')
print(ID, 'OK' if ok else 'REJECTED')
if not ok and not spec.get('keep'): shutil.rmtree(out); sys.exit(1)
