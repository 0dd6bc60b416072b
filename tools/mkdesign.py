#!/usr/bin/env python3
"""Writes DESIGN.md from design.in.md, the properties, the harnesses, the known findings and the seeded bugs."""
import json, re, subprocess, os, collections
V = '/verif'
exec(open(V + '/tools/designtext.py').read())
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
lst = subprocess.run([V + '/bin/symgo', 'list'], capture_output=True, text=True, check=True).stdout
H = collections.defaultdict(list)
for l in lst.split('\n'):
    m = re.match(r'(C\d\d) (\w+) map\[(.*?)\] (.*)', l)
    if m: H[m[1]].append((m[2], m[4], m[3]))
out = []
for p in props:
    i = p['id']
    out.append('### %s %s\n\n%s\n' % (i, p['title'], TEXT[i].strip()))
    groups = collections.OrderedDict()
    for n, d, x in H[i]:
        k = re.sub(r'^0x\w{4}: ', '', d)
        if re.match(r'every body of', k): k = 'every body of 0-2 bytes and of one byte less than to 4 (thorough 8) bytes more than the shortest valid one; for types with texts at most one (thorough two) bytes of it non-ASCII'
        groups.setdefault(k, []).append(n)
    out.append('\n'.join('- %s: %s' % (', '.join('`%s`' % n[len('vhC00_'):] for n in ns), k) for k, ns in groups.items()) + '\n')
f = json.load(open(V + '/known-findings.json'))['findings']
find = '\n'.join('- %s (%s, %s)' % (x['what'], x['property'], x['commit']) for x in f)
S = []
for s in sorted(os.listdir(V + '/seeded')):
    m = json.load(open(V + '/seeded/%s/meta.json' % s))
    S.append('| %s%s | %s | %s | %s |' % (s, '*' if s in MISSED else '', m['property'], m['needs'], m['what_it_breaks']))
seeds = '| bug | caught by | needs | breaks |\n|---|---|---|---|\n' + '\n'.join(S)
nref = len(set(re.findall(r"^ref\('(\w+)'", open(V + '/tools/refactors.py').read(), re.M)))
t = open(V + '/tools/design.in.md').read()
t = t.replace('@PROPS@', '\n'.join(out)).replace('@FINDINGS@', find).replace('@SEEDS@', seeds).replace('@NREF@', str(nref))
open(V + '/DESIGN.md', 'w').write(t)
