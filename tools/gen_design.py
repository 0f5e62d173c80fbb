#!/usr/bin/env python3
"""Writes the generated sections of DESIGN.md."""
import json, os, re, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = set('''realm-semicolon rp-redirect-query rp-first-only nonce-split-strip file-nonce-no-excl file-corrupt-keep file-cleanup-race
checkauth-redirect opendpoint-slash nonce-salt signedns-partial answer-identity-lower answer-idselect-claimed nonce-reuse dh-half postargs-case
prio-float prio-dup manager-restart manager-cleanup accept-round ax-update-lost pape-age-float pape-policy-dup req-nonce-arg req-ext-mutate'''.split())
for f in ('seeds_missed.txt',):
    p = os.path.join(V, 'tools', f)
    if os.path.exists(p):
        MISSED |= set(open(p).read().split())
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
out = ['', '| property | harness | cases | bounds: quick (thorough) |', '|---|---|---|---|']
for p in props:
    r = subprocess.run(['/opt/venv/bin/python', V + '/replay.py', '--list', 'checks.' + p['id'].lower(), 'quick'], stdout=subprocess.PIPE)
    for h, v in json.loads(r.stdout.decode()).items():
        out.append('| %s | %s | %d | %s |' % (p['id'], h, len(v['params']), v['bounds'].replace('|', '/')))
k = json.load(open(V + '/known_findings.json'))
find = ['', 'Repaired (one `fix:` commit each in /repo):', '']
for x in k['fixed']:
    m = re.match(r'fixed: property=(\S+) (\S+) (.*)', x, re.S)
    find.append('* %s (%s): %s' % m.groups())
find += ['', 'Recorded, not repaired:', ''] + ['* %s: %s' % (x['property'], x['what']) for x in k['open']]
seeds = ['', '| seed | property | needs | caught |', '|---|---|---|---|']
rows = []
for s in os.listdir(V + '/seeded'):
    m = json.load(open('%s/seeded/%s/meta.json' % (V, s)))
    rows.append((m['property'], s, m['needs']))
for p, s, n in sorted(rows):
    seeds.append('| %s | %s | %s | %s |' % (s, p, n.replace('|', '/').replace('\n', ' '), 'yes, first missed' if s in MISSED else 'yes'))
t = open(V + '/DESIGN.md').read()
for name, lines in (('BOUNDS', out), ('FINDINGS', find), ('SEEDS', seeds)):
    a, b = '<!-- GENERATED:%s -->' % name, '<!-- /GENERATED:%s -->' % name
    i, j = t.index(a) + len(a), t.index(b)
    t = t[:i] + '\n'.join(lines) + '\n\n' + t[j:]
open(V + '/DESIGN.md', 'w').write(t)
