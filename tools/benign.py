#!/usr/bin/env python3
"""benign.py [-p PROPS] NAME... : applies behaviour-preserving edits of benign/*.py to a
scratch copy and runs the checks, which have to stay quiet."""
import glob, os, shutil, subprocess, sys, tempfile
def sh(cmd, cwd, **k): return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, **k)
env = dict(os.environ, HOME='/root', GOTOOLCHAIN='local', GOPROXY='off', GOSUMDB='off', GOFLAGS='-mod=mod', GOWORK='off')
a = sys.argv[1:]; props = 'all'
if a and a[0] == '-p': props = a[1]; a = a[2:]
specs = []
for f in sorted(glob.glob('/verif/benign/*.py')): specs += eval(open(f).read())
from concurrent.futures import ThreadPoolExecutor
def one(x):
    if a and x['id'] not in a: return 0, ''
    w = tempfile.mkdtemp(prefix='benign', dir='/tmp'); v = tempfile.mkdtemp(prefix='bnv', dir='/tmp')
    try:
        sh('cp -a /repo/. ' + w, '/')
        for e in x['edits']:
            f, old, new = e[:3]
            p = os.path.join(w, f); t = open(p).read()
            n = e[3] if len(e) > 3 else 1
            if t.count(old) != n: return 1, '%s edit matches %d times %r' % (x['id'], t.count(old), old)
            open(p, 'w').write(t.replace(old, new))
        b = sh('go build ./cmd/... ./pkg/golang ./pkg/dart ./pkg/java ./pkg/typescript', w, env=env)
        if b.returncode: return 1, '%s COMPILE %s' % (x['id'], b.stderr[:500])
        os.makedirs(v + '/evidence')
        shutil.copy('/verif/known_findings.txt', v)
        fs = ' '.join(e[0] for e in x['edits'])
        ps = props.split(',') if props != 'all' else 'P01 P02 P03 P05'.split()
        if props == 'all':
            if 'pkg/build' in fs or 'parser' in fs: ps += 'P17 P18 P10 P11 P09 P16'.split()
            if 'database.go' in fs: ps += 'P14 P15 P16'.split()
            elif 'pkg/build' not in fs and 'parser' not in fs: ps += 'P04 P07 P08 P09 P10 P11 P26 P27'.split()
            ps += x.get('props', '').split()
        t, rc = x['id'], 0
        for p in ps:
            c = sh('/verif/bin/hbufcheck -repo %s -verif %s -property %s' % (w, v, p), '/', env=env)
            if c.returncode:
                rc = 1
                t += '\n' + '\n'.join('     ' + l[:400] for l in c.stdout.split('\n') if not l.startswith('OK') and not l.startswith('KNOWN'))[:1800] + c.stderr[-500:]
        t += ' rc=%d' % rc
        return rc, t
    finally:
        shutil.rmtree(w); shutil.rmtree(v)
bad = 0
with ThreadPoolExecutor(3) as ex:
    for n, t in ex.map(one, specs):
        bad += n
        if t: print(t, flush=True)
print('alarms:', bad)
