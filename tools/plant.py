#!/usr/bin/env python3
"""plant.py ID PROP FILE --- reads from stdin a JSON {edits:[[file, old, new]...], demo: go source, needs:, what:}
Makes a scratch worktree of /repo, applies the edits, confirms that it builds, that the stable tests pass and that the
demo passes without and fails with it; then writes /verif/seeded/ID/."""
import json, os, subprocess, sys, tempfile, shutil
sid, prop = sys.argv[1], sys.argv[2]
spec = json.load(sys.stdin) if len(sys.argv) < 4 else json.load(open(sys.argv[3]))
W = tempfile.mkdtemp(prefix='plant-')
T = os.path.join(W, 'repo')
def sh(cmd, **kw): return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)
DEMO = '''#!/bin/bash
# exits 0 iff the property holds for the input of demo.go
D=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
W=$(mktemp -d) || exit 2
trap 'rm -rf "$W"' EXIT
export TMPDIR="$W"
printf '{"Replace":{"%s/verifdemo/main.go":"%s/demo.go"}}' "$PWD" "$D" > "$W/ov.json"
go build -mod=readonly -overlay "$W/ov.json" -o "$W/demo" ./verifdemo || exit 2
timeout 120 "$W/demo"
'''
try:
    r = sh('git -C /repo worktree add -q --detach %s HEAD' % T); assert r.returncode == 0, r.stderr
    D = os.path.join('/verif/seeded', sid); shutil.rmtree(D, ignore_errors=True); os.makedirs(D)
    open(D + '/demo.sh', 'w').write(DEMO); os.chmod(D + '/demo.sh', 0o755)
    open(D + '/demo.go', 'w').write(spec['demo'])
    r = sh('bash %s/demo.sh' % D, cwd=T)
    ok = True
    if r.returncode != 0: print('DEMO FAILS ON CLEAN TREE', r.stdout[-1500:], r.stderr[-1500:]); ok = False
    for f, old, new in spec['edits']:
        p = os.path.join(T, f); s = open(p).read()
        if s.count(old) != 1: print('EDIT matches', s.count(old), 'times:', old); ok = False; break
        open(p, 'w').write(s.replace(old, new))
    d = sh('git diff', cwd=T).stdout
    open(D + '/patch.diff', 'w').write(d)
    r = sh('. /opt/vp/env.sh; gofmt -l $(git diff --name-only); go build ./... && go vet ./... 2>&1 | head -3', cwd=T, executable='/bin/bash')
    if r.returncode != 0 : print('BUILD', r.stdout, r.stderr); ok = False
    r = sh('bash %s/demo.sh' % D, cwd=T)
    if r.returncode == 0: print('DEMO PASSES WITH THE BUG'); ok = False
    else: print('demo says:', (r.stdout + r.stderr)[-400:])
    # stable tests
    b = json.load(open('/opt/vp/BASELINE.json'))['stable']
    os.makedirs(W + '/tmp')
    r = sh('. /opt/vp/env.sh; export TMPDIR=%s/tmp; go test -json -vet=off -count=1 $(go list -e ./... | grep -v examples/chemspell$) > %s/test.log; python3 /opt/vp/results.py %s/o.json gojson:%s/test.log' % (W, W, W, W), cwd=T, executable='/bin/bash')
    got = set(json.load(open(W + '/o.json'))['passed'])
    miss = [x for x in b if x not in got]
    if miss: print('STABLE TESTS FAIL:', miss); ok = False
    json.dump(dict(property=prop, needs=spec['needs'], what_it_breaks=spec['what']), open(D + '/meta.json', 'w'), indent=1)
    if not ok:
        if '--keep' not in sys.argv: shutil.rmtree(D)
        sys.exit(1)
    print('planted', sid)
finally:
    sh('git -C /repo worktree remove --force %s' % T); sh('git -C /repo worktree prune'); shutil.rmtree(W, ignore_errors=True)
