#!/usr/bin/env python3
"""Writes known_findings.json: one 'fixed' entry per fix: commit of /repo, plus the open findings of tools/open_findings.json."""
import subprocess, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = json.load(open(os.path.join(V, 'tools/fix_props.json')))      # subject -> property
out = []
for l in subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h%x09%s'], capture_output=True, text=True).stdout.splitlines():
    h, s = l.split('\t')
    if not s.startswith('fix: '): continue
    s = s[5:]
    for pr in P[s].split():
        out.append(dict(id='F%02d-%s' % (len(out) + 1, h), property=pr, status='fixed', commit=h, what='fixed: property=%s %s %s' % (pr, h, s)))
o = os.path.join(V, 'tools/open_findings.json')
if os.path.exists(o): out += json.load(open(o))
json.dump(dict(findings=out), open(os.path.join(V, 'known_findings.json'), 'w'), indent=1)
print(len(out))
