"""Makes a planted bug: plant(id, property, edits, pkg, demo, needs, breaks). Confirms it in a scratch copy."""
import json, os, shutil, subprocess, sys
SCR = '/tmp/plant/repo'
ENV = dict(os.environ, GOTOOLCHAIN='local', GOFLAGS='-mod=mod', GOPROXY='off', GOWORK='off')

DEMO = '''#!/bin/bash
# Exits 0 if the property holds in the working directory's tree, nonzero if not.
d=$(cd "$(dirname "$0")" && pwd)
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off HOME=${HOME:-/root}
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
echo "{\\"Replace\\": {\\"$PWD/%(pkg)s/zz_demo_test.go\\": \\"$d/demo.go\\"}}" >"$t/overlay.json"
TMPDIR=$t go test %(race)s-overlay "$t/overlay.json" -vet=off -count=1 -timeout 120s -run '^TestDemo$' ./%(pkg)s
'''

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, cwd=SCR, env=ENV, capture_output=True, text=True, **kw)

def fresh():
    shutil.rmtree(SCR, ignore_errors=True)
    subprocess.run(['cp', '-a', '/repo', SCR], check=True)

def plant(id, prop, edits, pkg, demo, needs, breaks, race=False):
    if len(sys.argv) > 1 and id not in sys.argv[1:]:
        return
    if len(sys.argv) == 1 and os.path.exists('/verif/seeded/%s/meta.json' % id):
        return
    fresh()
    for f, old, new in edits:
        p = SCR + '/' + f
        s = open(p).read()
        if s.count(old) < 1:
            print(id, 'NOT FOUND in', f, repr(old)); return
        if isinstance(new, tuple):   # (replacement, occurrence)
            parts = s.split(old)
            k = new[1]
            s = old.join(parts[:k+1]) + new[0] + old.join(parts[k+1:])
        else:
            s = s.replace(old, new, 1)
        open(p, 'w').write(s)
    r = sh('gofmt -l .')
    if r.stdout.strip(): print(id, 'gofmt:', r.stdout.strip())
    diff = sh('git diff').stdout
    d = '/tmp/plant/' + id
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo.go', 'w').write(demo)
    open(d + '/demo.sh', 'w').write(DEMO % {'pkg': pkg, 'race': '-race ' if race else ''})
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
    b = sh('go build ./... && go vet ./... >/dev/null 2>&1; go build ./...')
    if b.returncode: print(id, 'does not build', b.stderr[:600]); return
    for k in range(3):
        t = sh('go test -vet=off -count=1 ./...')
        if t.returncode:
            print(id, 'TESTS FAIL', t.stdout[-800:]); return
    bad = sh('bash %s/demo.sh' % d)
    sh('git checkout -q -- .')
    good = sh('bash %s/demo.sh' % d)
    if good.returncode: print(id, 'DEMO FAILS on the unchanged tree', good.stdout[-1500:], good.stderr[-500:]); return
    if not bad.returncode: print(id, 'DEMO PASSES with the patch'); return
    out = '/verif/seeded/' + id
    shutil.rmtree(out, ignore_errors=True)
    shutil.copytree(d, out)
    print(id, prop, 'ok:', [l for l in bad.stdout.splitlines() if 'demo' in l or 'panic' in l or 'RACE' in l][:1])
