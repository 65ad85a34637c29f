#!/usr/bin/env python3
"""DESIGN.md = tools/design_body.md + tables of repairs and planted bugs (tools/seed_results.txt: last seedtest lines)."""
import json, os, re, collections
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = open(V + '/tools/design_body.md').read()
more = V + '/tools/design_more.md'
t = t.replace('@@MORE@@\n', open(more).read() + '\n' if os.path.exists(more) else '')
kf = json.load(open(V + '/known_findings.json'))
by = collections.defaultdict(list)
for x in kf['fixed']:
    m = re.match(r'fixed: property=(\S+) (\S+) (.*)', x)
    by[m[1]].append((m[2], m[3]))
o = []
for p in sorted(by):
    o.append('**%s** (%d repaired)' % (p, len(by[p])))
    o += ['- %s %s' % x for x in by[p]]
    o.append('')
t = t.replace('@@FIXES@@', '\n'.join(o))
res = {}
f = V + '/tools/seed_results.txt'
if os.path.exists(f):
    for l in open(f):
        m = re.match(r'(c\d\d-\S+) (C\d\d) (demo.*)', l)
        if m: res[m[1]] = m[3]
o = ['Each line: planted bug, what it needs, verdict of its property\'s quick check (clauses that rejected it).', '']
n = c = 0
for i in sorted(os.listdir(V + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (V, i)))
    r = res.get(i, '')
    v = re.search(r'(CAUGHT|MISSED) ?(.*)', r)
    n += 1; c += bool(v and v[1] == 'CAUGHT')
    o.append('- `%s` %s: needs %s. -> %s' % (i, m['property'], m['needs'].rstrip('.'), (v[1].lower() + (' by ' + v[2] if v[2] else '')) if v else 'not rerun'))
o.insert(0, '%d planted bugs, %d caught by the quick check of their property in the last sweep.' % (n, c))
t = t.replace('@@SEEDS@@', '\n'.join(o))
open(V + '/DESIGN.md', 'w').write(t.rstrip() + '\n')
print(n, c)
