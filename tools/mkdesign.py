#!/usr/bin/env python3
"""mkdesign.py -- rewrites the table of planted changes at the end of DESIGN.md from seeded/*/meta.json"""
import json, glob, os
H = '## Planted changes\n'
s = open('/verif/DESIGN.md').read().split(H)[0].rstrip() + '\n\n' + H + '''
Kept under `seeded/`, each with a demonstration; every one was run through the check of its property ("caught by" is
the check that reported it; development also ran some 150 further changes that are not kept, mostly in code the stable tests never execute).

| id | breaks | needs | caught by |
|---|---|---|---|
'''
for f in sorted(glob.glob('/verif/seeded/*/meta.json')):
    m = json.load(open(f))
    s += '| %s | %s | %s | %s |\n' % (os.path.basename(os.path.dirname(f)), m['property'] + ': ' + m['what_it_breaks'], m['needs'], m.get('caught_by', m['property']))
open('/verif/DESIGN.md', 'w').write(s)
