#!/usr/bin/env python3
"""runrefs.py [-all] [ID...]: apply each behaviour-preserving edit of refactors.py to
a scratch copy of /repo and run the checks named with it (-all: every check);
they must stay quiet."""
import os, shutil, subprocess, sys, tempfile, time
V = '/verif'
REFS = {}
def ref(id, edits, checks): REFS[id] = (edits, checks)
exec(open(V + '/tools/refactors.py').read())
a = sys.argv[1:]
al = '-all' in a
if al: a.remove('-all')
def sh(c, d): return subprocess.run(c, cwd=d, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
for i in a or REFS:
    edits, checks = REFS[i]
    if not checks: continue
    w = tempfile.mkdtemp(prefix='ref', dir='/tmp')
    d = w + '/repo'
    try:
        sh('git clone -q --local /repo ' + d, '/')
        for f, o, n in edits:
            t = open(d + '/' + f).read()
            if o is None: t = n
            else:
                if t.count(o) != 1: print(i, f, 'matches', t.count(o), o); break
                t = t.replace(o, n)
            open(d + '/' + f, 'w').write(t)
        else:
            r = sh('. /opt/vp/env.sh; gofmt -w *.go protocol; go build ./... && go test ./... 2>&1', d)
            if r.returncode or 'FAIL' in r.stdout: print(i, 'does not build or pass', r.stdout[-1500:]); continue
            for c in ['C%02d' % k for k in range(1, 29)] if al else checks.split():
                t = time.time()
                r = subprocess.run([V + '/check.sh', c], cwd=V, capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=d))
                out = [l for l in (r.stdout + r.stderr).split('\n') if l.startswith(('VIOLATION', 'REDUCED')) or ' quick: ' in l]
                print(i, c, 'rc=%d' % r.returncode, '%.0fs' % (time.time() - t), ' | '.join(out)[:700], flush=True)
    finally:
        shutil.rmtree(w)
