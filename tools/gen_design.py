#!/usr/bin/env python3
"""Writes DESIGN.md from design.txt, design_props.py, design_tail.txt, bin/registry.py, properties.jsonl and seeded/*/meta.json."""
import os, sys, json, glob
D = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(D)
sys.path.insert(0, V + '/bin'); sys.path.insert(0, D)
from registry import REG
from design_props import P
o = [open(D + '/design.txt').read().rstrip() + '\n']
for l in open(V + '/properties.jsonl'):
    p = json.loads(l); i = p['id']; r = REG[i]
    o.append('\n### %s %s\n%s Quick check: about %d s.\n' % (i, p['title'], P[i][0], P[i][1]))
    for e in r['entries']:
        q, t = e['quick']['params'], e['thorough']['params']
        diff = ', '.join('%s=%s' % (k, v) for k, v in t.items() if q.get(k) != v)
        o.append('* `%s:%s`%s: %s%s\n' % (e['file'], e['entry'], ' (thorough only)' if e['thorough_only'] else '', e['bound'], ' [thorough: %s]' % diff if diff else ''))
    if r['assumptions']: o.append('\n  Assumptions, outside the bound: ' + '; '.join(r['assumptions']) + '.\n')
o.append(open(D + '/design_tail.txt').read())
o.append('| change | property | needs | breaks |\n|---|---|---|---|\n')
for m in sorted(glob.glob(V + '/seeded/*/meta.json')):
    d = json.load(open(m)); f = lambda s: str(s).replace('|', '/').replace('\n', ' ')
    o.append('| %s | %s (caught) | %s | %s |\n' % (os.path.basename(os.path.dirname(m)), d['property'], f(d['needs']), f(d['what_it_breaks'])))
extra = D + '/design_mut.txt'
if os.path.exists(extra): o.append('\n' + open(extra).read())
open(V + '/DESIGN.md', 'w').write(''.join(o))
