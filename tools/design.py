#!/usr/bin/env python3-vt
"""Writes the per-property table of DESIGN.md from vp/meta.py and known-findings.json (between the markers)."""
import sys, os, json
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(R, 'vp'))
import meta
out = []
NA = {x['property'] for x in meta.NOT_APPLICABLE}
kf = json.load(open(os.path.join(R, 'known-findings.json')))
seeds = {}
sd = os.path.join(R, 'seeded')
for d in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
    m = json.load(open(os.path.join(sd, d, 'meta.json')))
    seeds.setdefault(m['property'], []).append((d, m['needs']))
for p in sorted(meta.PROPS, key=lambda p: p['id']):
    if p['id'] in NA:
        continue
    out += ['### %s %s' % (p['id'], p['title']), '', p['statement'], '',
            '- Decided over: ' + p.get('quant', ''), '- Bounds: ' + p.get('bounds', ''), '- Outside: ' + p.get('outside', ''),
            '- Why tests cannot settle it: ' + p.get('why', ''),
            '- Code: ' + '; '.join('%s (%s)' % (b, a) for a, b in p.get('mech', []))]
    n = p.get('note', '')
    if n:
        out.append('- Note: ' + n)
    for f in kf:
        if f['property'] == p['id']:
            out.append('- ' + f['text'])
    for d, w in seeds.get(p['id'], []):
        out.append('- planted bug `%s`: needs %s' % (d, w))
    out.append('')
f = os.path.join(R, 'DESIGN.md')
s = open(f).read()
a, b = '<!-- properties -->\n', '<!-- end -->\n'
s = s[:s.index(a) + len(a)] + '\n' + '\n'.join(out) + '\n' + s[s.index(b):]
open(f, 'w').write(s)
