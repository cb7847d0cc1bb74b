#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md."""
import glob, json
p = '/verif/DESIGN.md'; s = open(p).read().split('| planted bug |')[0].rstrip() + '\n\n'
s += '| planted bug | property | what it breaks | needs |\n|---|---|---|---|\n'
for d in sorted(glob.glob('/verif/seeded/*/meta.json')):
    m = json.load(open(d)); s += '| %s | %s | %s | %s |\n' % (d.split('/')[-2], m['property'], m['what_it_breaks'], m['needs'])
open(p, 'w').write(s)
