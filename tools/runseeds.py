#!/usr/bin/env python3
"""runseeds.py [-all] [ID...]: run the check of each seeded bug's property against
a scratch copy of /repo with the bug applied (-all: every check)."""
import json, os, shutil, subprocess, sys, tempfile, time, re
V = '/verif'
a = sys.argv[1:]
tier = []
if '-t' in a: a.remove('-t'); tier = ['-tier', 'thorough']
ids = a or sorted(os.listdir(V + '/seeded'))
for i in ids:
    m = json.load(open(V + '/seeded/%s/meta.json' % i))
    w = tempfile.mkdtemp(prefix='run', dir='/tmp')
    d = w + '/repo'
    subprocess.run(['git', 'clone', '-q', '--local', '/repo', d])
    r = subprocess.run(['git', 'apply', V + '/seeded/%s/patch.diff' % i], cwd=d, capture_output=True, text=True)
    if r.returncode: print(i, 'PATCH DOES NOT APPLY', r.stderr); continue
    t = time.time()
    r = subprocess.run([V + '/check.sh', m['property'], *tier], cwd=V, capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=d))
    v = [l for l in (r.stdout + r.stderr).split('\n') if l.startswith('VIOLATION')]
    red = [l for l in (r.stdout + r.stderr).split('\n') if l.startswith('REDUCED')]
    print(i, m['property'], 'CAUGHT' if r.returncode == 1 and v else 'MISSED rc=%d' % r.returncode, '%.0fs' % (time.time() - t), '' if v else ' | '.join(red)[:600], flush=True)
    shutil.rmtree(w)
