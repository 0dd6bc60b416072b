#!/usr/bin/env python3
"""mutate.py [-n COUNT] [-s SEED] [-p WORKERS] [FILE...]: small random changes to
the sources of a scratch copy of /repo. A change that compiles and passes the
tests is put before the checks of the code it touches; what they let pass is
printed (and appended to /tmp/survivors.txt) to be looked at by hand: either it
changes no behaviour a property promises, or a check is too weak."""
import os, random, re, shutil, subprocess, sys, tempfile, glob, json
from concurrent.futures import ThreadPoolExecutor
a = sys.argv[1:]
def opt(k, d):
    if k in a:
        i = a.index(k); v = a[i+1]; del a[i:i+2]; return int(v)
    return d
N, S, P = opt('-n', 50), opt('-s', 1), opt('-p', 4)
R = '/repo'
files = a or [os.path.relpath(f, R) for f in glob.glob(R + '/*.go') + glob.glob(R + '/protocol/*.go') + glob.glob(R + '/protocol/extra/*.go')
              if not f.endswith('_test.go') and os.path.basename(f) not in ('const.go', 'errors.go', 'log.go')]
rnd = random.Random(S)

def harnesses(f):
    """(property, harness prefix) pairs to try, cheap ones first"""
    b = os.path.basename(f)
    m = re.match(r't808_0x(\w+)\.go', b)
    if m:
        i = m.group(1)
        out = [('C09', 'vhC09_' + i), ('C07' if i < '8' else 'C08', 'vhC0%d_%s' % (7 if i < '8' else 8, i)), ('C04', 'vhC04_' + i)]
        if i in ('0200', '0201', '0500', '0704', '0801', '0802'): out += [('C10', ''), ('C11', ''), ('C07', 'vhC07_location'), ('C27', ''), ('C04', '')]
        elif i.startswith('86'): out += [('C12', ''), ('C16', ''), ('C04', '')]
        elif i.lower() in ('0a00', '8a00'): out += [('C07', 'vhC07_0A00'), ('C07', 'vhC07_bad'), ('C08', 'vhC08_8A00'), ('C04', 'vhC04_' + i)]
        elif i == '0901': out += [('C27', '')]
        elif i == '0705' or i == '0702': out += [('C13', ''), ('C14', '')]
        else: out += [('C14', ''), ('C04', ''), ('C08', ''), ('C07', ''), ('C13', '')]
        return out + [('C31', ''), ('C29', '')]
    if '/extra/' in f: return [('C11', ''), ('C32', ''), ('C04', 'vhC04_ex')]
    return [(p, '') for p in {
        'message.go': 'C01 C02 C03 C26 C17 C06 C04 C29', 'header.go': 'C01 C02 C03 C26 C04', 'property.go': 'C16 C01 C02 C03 C06',
        'bufio.go': 'C09 C14 C04 C10 C13 C03 C31 C29', 'helpers.go': 'C13 C17 C10 C14 C01 C03 C12 C04 C29', 'params.go': 'C15 C14', 'bit.go': 'C16',
        'entity.go': 'C09', 'register.go': 'C09 C32', 'response.go': 'C09 C08',
        'protocol.go': 'C05 C26 C06 C21 C29', 'server.go': 'C22 C21 C28 C20 C30 C33', 'session.go': 'C19 C18 C20 C21 C26 C33', 'session_handler.go': 'C21 C25 C20 C22 C28 C32 C33',
        'timer.go': 'C23 C28', 'multipart.go': 'C24 C25 C33 C34'}.get(b, '').split()]

OPS = [(r'==', '!='), (r'!=', '=='), (r'<=', '<'), (r'>=', '>'), (r'(?<![<\-])<(?![<=\-])', '<='), (r'(?<![>\-=])>(?![>=])', '>='),
       (r'&&', '||'), (r'\|\|', '&&'), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'\bcontinue\b', 'break'), (r'\bbreak\b', 'continue'),
       (r'\bnil\b', 'nil'), (r'(?<=[\w\)]) \+ ', ' - '), (r'(?<=[\w\)]) - ', ' + '), (r'\^', '|'), (r'>>', '<<'), (r'<<', '>>'), (r'\|=', '&='), (r'&', '|'),
       (r'return err\b', 'return nil'), (r', err$', ', nil'), (r'\+\+', '--'), (r':\]', ':]'), (r'defer ', '')]

def mutants(f):
    src = open(os.path.join(R, f)).read().split('\n')
    infn = False
    for n, l in enumerate(src):
        if l.startswith('func '): infn = True
        if l.startswith('}'): infn = False
        s = l.strip()
        if not infn or not s or s.startswith('//') or l.startswith('func ') and '{' == l[-1:] or 'log.' in s or s.startswith('"'): continue
        code = l.split('//')[0].rstrip()
        for p, r in OPS:
            for m in re.finditer(p, code):
                if '"' in code[:m.start()] and code[:m.start()].count('"') % 2: continue
                new = code[:m.start()] + r + code[m.end():]
                if new != code: yield n, new
        if re.match(r'return .*\b(\w*[eE]rr\w*)$', s): continue
        for m in re.finditer(r'(?<![\w.])(0x[0-9a-fA-F]+|\d+)(?![\w.])', code):
            if code[:m.start()].count('"') % 2: continue
            t = m.group(1); v = int(t, 16) if t[:2] in ('0x', '0X') else int(t)
            for w in {v + 1, v - 1, v * 2}:
                if w >= 0 and w != v: yield n, code[:m.start()] + str(w) + code[m.end():]
        if re.match(r'^[\w.\[\]*&]+(\(.*\)|\s*([-+|&]?=|\+\+|--).*)$', s) and not s.endswith('{'):
            yield n, re.match(r'\s*', l).group(0)  # statement left out
            if n + 1 < len(src) and re.match(r'^[\w.\[\]*&]+(\(.*\)|\s*=.*)$', src[n+1].strip()):
                yield n, src[n+1], l                # two statements swapped

muts = []
for f in files:
    if harnesses(f):
        ms = [(f,) + m for m in mutants(f)]
        rnd.shuffle(ms)
        muts += ms if a else ms[:max(4, len(ms) // 6)]
rnd.shuffle(muts)
env = dict(os.environ)
for l in subprocess.run(['bash', '-c', '. /opt/vp/env.sh; env'], capture_output=True, text=True).stdout.split('\n'):
    if '=' in l: env.update([l.split('=', 1)])

def run(m):
    f, n, new = m[:3]
    w = tempfile.mkdtemp(prefix='mut', dir='/tmp')
    try:
        d, v = w + '/repo', w + '/verif'
        shutil.copytree(R, d, ignore=shutil.ignore_patterns('.git'))
        os.mkdir(v)
        for x in ('harness', 'bin', 'known-findings.json'):
            os.symlink('/verif/' + x, v + '/' + x)
        p = os.path.join(d, f)
        src = open(p).read().split('\n')
        old = src[n]
        src[n] = new
        if len(m) > 3: src[n+1] = m[3]
        open(p, 'w').write('\n'.join(src))
        what = '%s:%d: %s  =>  %s' % (f, n + 1, old.strip(), new.strip() or '(left out)')
        if len(m) > 3: what += ' (swapped)'
        try:
            if subprocess.run(['go', 'build', './...'], cwd=d, env=env, capture_output=True).returncode: return None
            if subprocess.run(['go', 'test', './...'], cwd=d, env=env, capture_output=True, timeout=60).returncode: return None
        except subprocess.TimeoutExpired:
            return None
        tried, red = [], []
        for prop, h in harnesses(f):
            c = [v + '/bin/symgo', 'check', prop, '-j', '4'] + (['-harness', h] if h else [])
            r = subprocess.run(c, env=dict(env, VERIF_REPO=d, VERIF_DIR=v), capture_output=True, text=True)
            if 'ERROR no harness' in r.stdout: continue
            if r.returncode == 1: return ('caught', prop, what)
            tried.append(prop)
            red += [l for l in r.stdout.split('\n') if l.startswith(('REDUCED', 'INCONCLUSIVE'))]
        return ('SURVIVED', ' '.join(tried), what + ('\n      ' + ' | '.join(red)[:300] if red else ''))
    finally:
        shutil.rmtree(w)

k = c = 0
with ThreadPoolExecutor(P) as ex:
    todo = iter(muts)
    from concurrent.futures import wait, FIRST_COMPLETED
    live = {ex.submit(run, m) for m in [x for _, x in zip(range(P), todo)]}
    while live and k < N:
        done, live = wait(live, return_when=FIRST_COMPLETED)
        for x in done:
            r = x.result()
            if r:
                k += 1
                c += r[0] == 'caught'
                print(*r, flush=True)
                if r[0] != 'caught': open('/tmp/survivors.txt', 'a').write(' '.join(r) + '\n')
            if k + len(live) < N:
                m = next(todo, None)
                if m: live.add(ex.submit(run, m))
print(c, 'of', k, 'caught')
