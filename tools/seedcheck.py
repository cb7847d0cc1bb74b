#!/usr/bin/env python3
"""seedcheck.py [ID...] : applies each planted change to a scratch copy and runs its property's check."""
import glob, json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
def sh(cmd, cwd): return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True)
def one(d):
    i = os.path.basename(d); m = json.load(open(d + '/meta.json'))
    w = tempfile.mkdtemp(prefix='sc', dir='/tmp'); v = tempfile.mkdtemp(prefix='scv', dir='/tmp')
    try:
        sh('cp -a /repo/. ' + w, '/'); os.makedirs(v + '/evidence')
        shutil.copy('/verif/known_findings.txt', v)
        a = sh('git apply %s/patch.diff' % d, w)
        if a.returncode: return i, m['property'], 'DOES NOT APPLY ' + a.stderr[:200]
        c = sh('/verif/bin/hbufcheck -repo %s -verif %s -property %s' % (w, v, m['property']), '/')
        return i, m['property'], 'caught' if c.returncode == 1 and 'VIOLATION property=' + m['property'] in c.stdout else 'MISSED rc=%d' % c.returncode
    finally:
        shutil.rmtree(w); shutil.rmtree(v)
ds = ['/verif/seeded/' + x for x in sys.argv[1:]] or sorted(glob.glob('/verif/seeded/*'))
with ThreadPoolExecutor(4) as p:
    for r in p.map(one, ds): print('%-36s %s %s' % r, flush=True)
