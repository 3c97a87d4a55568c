#!/usr/bin/env python3
"""Fills the generated parts of DESIGN.md: notes, repaired defects, planted bugs."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {}
exec(open(os.path.join(V, 'lib', 'notes.py')).read())
d = open(os.path.join(V, 'DESIGN.md')).read()
fixed = json.load(open(os.path.join(V, 'known_findings.json')))['fixed']
seeds = []
for m in sorted(glob.glob(os.path.join(V, 'seeded', '*', 'meta.json'))):
    j = json.load(open(m))
    seeds.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(m)), j['property'], j['what_it_breaks'].replace('|', '/'), j['needs'].replace('|', '/')))
parts = {
    'notes': '\n'.join('* **%s** %s' % (k, v.replace(BASE, '')) for k, v in sorted(NOTE.items())) + '\n\nTrusted everywhere:' + BASE.split('Trusted:')[1],
    'fixed': '\n'.join('* ' + re.sub(r'fixed: property=(\S+) (\S+)', r'\1 `\2`:', f) for f in fixed),
    'seeds': '| seed | caught by | breaks | needs |\n|---|---|---|---|\n' + '\n'.join(seeds)}
for k, t in parts.items():
    d = re.sub(r'<!--%s-->.*<!--/%s-->' % (k, k), lambda _: '<!--%s-->\n%s\n<!--/%s-->' % (k, t, k), d, flags=re.S)
open(os.path.join(V, 'DESIGN.md'), 'w').write(d)
