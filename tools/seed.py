#!/usr/bin/env python3
"""seed.py SPEC.json : makes /verif/seeded/<id> from {id, property, needs, what_it_breaks,
edits:[[file, old, new]], demo} and confirms it in a scratch copy.
The demo text gets a preamble: env, scratch directory $W, function gen LANG..."""
import json, os, shutil, subprocess, sys, tempfile
PRE = '''#!/bin/bash
# exit 0 when the property's demonstration holds, nonzero when it is broken
export HOME=/root GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod GOWORK=off GOCACHE=${GOCACHE:-/root/.cache/go-build} GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod} PATH=/usr/local/go/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
W=$(mktemp -d) || exit 3
trap 'rm -rf "$W"' EXIT
go build -o "$W/hbuf" ./cmd || exit 3
bad() { echo "$*"; exit 1; }
# gen SCHEMA LANG... : generates $W/out/LANG
gen() { local s=$1; shift; for l in "$@"; do mkdir -p "$W/out/$l"; timeout 60 "$W/hbuf" -i "$s" -o "$W/out/$l" -t "$l" > "$W/log.$l" 2>&1 || return 1; ls "$W/out/$l"/* >/dev/null 2>&1 || { cat "$W/log.$l"; return 1; }; done; }
cat_out() { find "$W/out/$1" -type f | sort | xargs cat; }
'''
def sh(cmd, cwd, **k):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, **k)
env = dict(os.environ, HOME='/root', GOTOOLCHAIN='local', GOPROXY='off', GOSUMDB='off', GOFLAGS='-mod=mod', GOWORK='off')
s = json.load(open(sys.argv[1])) if sys.argv[1].endswith('.json') else eval(open(sys.argv[1]).read())
if isinstance(s, dict): s = [s]
want = sys.argv[2:]
for x in s:
    if want and x['id'] not in want: continue
    d = '/verif/seeded/' + x['id']
    w = tempfile.mkdtemp(prefix='seed', dir='/tmp')
    try:
        sh('cp -a ' + os.environ.get('SRC', '/repo') + '/. ' + w, '/')
        ok = True
        for f, old, new in x['edits']:
            p = os.path.join(w, f); t = open(p).read()
            if t.count(old) != 1:
                print(x['id'], 'edit matches', t.count(old), 'times', repr(old)); ok = False; break
            open(p, 'w').write(t.replace(old, new))
        if not ok: continue
        os.makedirs(d, exist_ok=True)
        open(d + '/patch.diff', 'w').write(sh('git diff', w).stdout)
        open(d + '/demo.sh', 'w').write(PRE + x['demo'].strip() + '\nexit 0\n')
        os.chmod(d + '/demo.sh', 0o755)
        json.dump({k: x[k] for k in ('property', 'needs', 'what_it_breaks')}, open(d + '/meta.json', 'w'), indent=1)
        b = sh('go build ./cmd/... ./pkg/golang ./pkg/dart ./pkg/java ./pkg/typescript', w, env=env)
        if b.returncode: print(x['id'], 'COMPILE', b.stderr[:500]); continue
        t = sh('go test ./... 2>&1 | grep -E "^(---|ok|FAIL)|TestBuild|TestName"; go test -run "TestBuild|TestName" . ./pkg/golang', w, env=env)
        tests = 'tests-pass' if t.returncode == 0 else 'TESTS-FAIL ' + t.stdout[-300:]
        r0 = sh('bash %s/demo.sh' % d, '/repo'); r1 = sh('bash %s/demo.sh' % d, w)
        os.makedirs('/tmp/sdv/evidence', exist_ok=True)
        if os.path.exists('/verif/known_findings.txt'): shutil.copy('/verif/known_findings.txt', '/tmp/sdv/')
        c = sh('/verif/bin/hbufcheck -repo %s -verif /tmp/sdv -property %s' % (w, x['property']), '/', env=env)
        last = c.stdout.strip().split('\n')
        print('%-28s %s %s demo %d/%d check rc=%d' % (x['id'], x['property'], tests, r0.returncode, r1.returncode, c.returncode), '' if r0.returncode == 0 and r1.returncode else 'DEMO? ' + (r0.stdout + r0.stderr)[-300:])
        print('      demo says:', r1.stdout.strip()[:150])
        print('      ', last[0][:260])
    finally:
        shutil.rmtree(w)
