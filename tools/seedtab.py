#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md, between its two marks, from seeded/*/meta.json. `first` in tools/missed.txt: those which a check missed at first."""
import glob, json, os, re
os.chdir('/verif')
missed = dict(l.strip().split(None, 1) for l in open('tools/missed.txt') if l.strip())
rows = ['| planted bug | caught by | needs | breaks | missed at first |', '|---|---|---|---|---|']
for d in sorted(glob.glob('seeded/*/meta.json')):
    n = d.split('/')[1]; m = json.load(open(d))
    c = lambda s: s.replace('|', '\\|').replace('\n', ' ')
    rows.append(f"| {n} | {m['property']} | {c(m['needs'])} | {c(m['what_it_breaks'])} | {c(missed.get(n, ''))} |")
s = open('DESIGN.md').read()
t = '<!-- seeded -->\n' + '\n'.join(rows) + '\n<!-- /seeded -->'
s = s.replace('SEEDED_TABLE', t) if 'SEEDED_TABLE' in s else re.sub(r'<!-- seeded -->.*?<!-- /seeded -->', lambda _: t, s, flags=re.S)
open('DESIGN.md', 'w').write(s)
