#!/usr/bin/env python3
"""DESIGN.md from DESIGN.in.md, contracts/registry.py, known_findings.txt and seeded/*/meta.json"""
import os, re, json, sys, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V + '/contracts')
import registry
s = open(V + '/DESIGN.in.md').read()
def row(p):
    d = registry.PROPS[p]; t = ' '.join(('[D+B] ' if d['verify'] else '[B] ', d['text']))
    if d.get('assumptions'): t += '. Assumptions: ' + '; '.join(d['assumptions'])
    if d.get('trusted'): t += '. Trusted: ' + '; '.join(d['trusted'])
    if d.get('thorough_only'): t += '. Thorough only: `' + '`, `'.join(d['thorough_only']) + '`'
    return f"| {p} | {t.replace('|', '/')} |"
s = s.replace('@@TABLE@@', '\n'.join(row(p) for p in sorted(registry.PROPS)))
s = s.replace('@@NA@@', '; '.join(f'{k}: {v}' for k, v in registry.NOT_APPLICABLE.items()) + '.')
s = s.replace('@@FIXED@@', '\n'.join('| {} | {} | {} |'.format(*m) for m in re.findall(r'^fixed: property=(\S+) (\S+) (.*)$', open(V + '/known_findings.txt').read(), re.M)))
for k in ('C06', 'C07', 'C10', 'C15', 'C18'):
    fs = [f for p in ([k] if k != 'C10' else ['C10', 'C11']) for f in registry.PROPS[p]['verify']]
    s = s.replace(f'@@{k}D@@', '; ' + ', '.join(f[:-3] for f in fs) + ' [D]' if fs else '')
rows = []
cat = json.load(open(V + '/tools/caught.json')) if os.path.exists(V + '/tools/caught.json') else {}
for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
    i = f.split('/')[-2]; m = json.load(open(f)); rows.append(f"| {i} | {m['property']} | {m['what_it_breaks']} | {cat.get(i, 'see evidence')} |")
s = s.replace('@@SEEDS@@', '| id | property | breaks | caught by |\n|---|---|---|---|\n' + '\n'.join(rows))
open(V + '/DESIGN.md', 'w').write(s)
