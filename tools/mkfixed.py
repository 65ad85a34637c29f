#!/usr/bin/env python3
"""Records the fix: commits of /repo in known_findings.json (property taken from PROP by hash prefix of the subject)."""
import json, subprocess, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = json.load(open(V + '/tools/fix_props.json'))
log = subprocess.check_output(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], text=True).splitlines()
out = []
for l in log:
    h, s = l.split(' ', 1)
    if s.startswith('fix: '):
        p = PROP.get(s[5:])
        if not p: print('unassigned:', s); continue
        out.append('fixed: property=%s %s %s' % (p, h, s[5:]))
f = V + '/known_findings.json'
d = json.load(open(f)); d['fixed'] = out
json.dump(d, open(f, 'w'), indent=1)
