#!/usr/bin/env python3
"""Prints the table of planted changes for DESIGN.md from seeded/*/meta.json and the results of seedcheck.sh (/tmp/sc.ID.out)."""
import glob, json, os, re
print('| change | property | breaks | needs | caught by |\n|---|---|---|---|---|')
for f in sorted(glob.glob('/verif/seeded/*/meta.json')):
    i = f.split('/')[-2]; m = json.load(open(f)); o = '/tmp/sc.%s.out' % i
    c = '?'
    if os.path.exists(o):
        t = open(o).read(); x = re.search(r'^found: (\S+ \[[^\]]*\])', t, re.M)
        c = x.group(1) if 'VIOLATION' in t and x else '(missed)'
    print('| %s | %s | %s | %s | %s |' % (i, m['property'], m['what_it_breaks'], m['needs'], c))
