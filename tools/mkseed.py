#!/usr/bin/env python3
"""mkseed.py [ID...]: make seeded/<id>/ from tools/seeds*.py, confirming each bug
in a scratch copy of /repo: it applies, builds, passes the stable tests, and its
demonstration passes without and fails with it."""
import json, os, shutil, subprocess, sys, tempfile, glob, importlib.util
V = '/verif'
SEEDS = {}
def seed(id, prop, pkg, edits, demo, needs, breaks):
    assert id not in SEEDS, id
    SEEDS[id] = dict(prop=prop, pkg=pkg, edits=edits, demo=demo, needs=needs, breaks=breaks)
G = {'seed': seed}
for f in sorted(glob.glob(V + '/tools/seeds*.py')):
    exec(compile(open(f).read(), f, 'exec'), G)
DEMO = '''#!/bin/bash
# exit 0: the property holds in this demonstration; otherwise it is broken
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
export TMPDIR=$t
printf '{"Replace":{"%%s/%szz_demo_test.go":"%%s/demo_test.go"}}' "$PWD" "$here" > "$t/overlay.json"
timeout 250 go test -count=1 -vet=off -overlay "$t/overlay.json" -run 'TestZZDemo' ./%s
'''
def sh(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
base = json.load(open('/opt/vp/BASELINE.json'))
def make(id):
    s = SEEDS[id]
    w = tempfile.mkdtemp(prefix='seed', dir='/tmp')
    try:
        d = w + '/repo'
        sh('git worktree prune; git clone -q --local /repo ' + d, '/')
        out = w + '/' + id
        os.mkdir(out)
        pkg = s['pkg'] + '/' if s['pkg'] else ''
        open(out + '/demo.sh', 'w').write(DEMO % (pkg, s['pkg'] or '.'))
        os.chmod(out + '/demo.sh', 0o755)
        open(out + '/demo_test.go', 'w').write(s['demo'])
        r = sh('gofmt -l demo_test.go', out)
        r = sh(out + '/demo.sh', d)
        if r.returncode: return 'demo fails on the unchanged tree:\n' + r.stdout[-1500:]
        for f, a, b in s['edits']:
            t = open(d + '/' + f).read()
            if t.count(a) != 1: return 'edit matches %d times in %s: %s' % (t.count(a), f, a)
            open(d + '/' + f, 'w').write(t.replace(a, b))
        r = sh('. /opt/vp/env.sh; gofmt -l . ; go build ./... && go test ./... 2>&1', d)
        if 'FAIL' in r.stdout or r.returncode: return 'build or tests:\n' + r.stdout[-1500:]
        fmt = [l for l in r.stdout.split('\n') if l.endswith('.go')]
        r = sh(out + '/demo.sh', d)
        if not r.returncode: return 'demo passes with the bug'
        if 'build failed' in r.stdout: return 'demo does not build with the bug: ' + r.stdout[-500:]
        r = sh('git diff', d)
        open(out + '/patch.diff', 'w').write(r.stdout)
        open(out + '/meta.json', 'w').write(json.dumps({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, indent=1) + '\n')
        dst = V + '/seeded/' + id
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(out, dst)
        return 'ok' + (' (gofmt %s)' % fmt if fmt else '')
    finally:
        shutil.rmtree(w)
if __name__ == '__main__':
    import concurrent.futures as cf
    ids = sys.argv[1:] or [i for i in SEEDS if not os.path.exists(V + '/seeded/%s/meta.json' % i)]
    with cf.ThreadPoolExecutor(4) as ex:
        for i, r in zip(ids, ex.map(make, ids)): print(i, r, flush=True)
