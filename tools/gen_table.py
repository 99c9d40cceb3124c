#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of /verif/DESIGN.md from seeded/*/meta.json."""
import collections, glob, json, os, re
MISSED = {'c09-l21-warm'}
D = '/verif/DESIGN.md'
s = open(D).read()
c = collections.defaultdict(list)
for f in sorted(glob.glob('/verif/seeded/*/meta.json')):
    c[json.load(open(f))['property']].append(os.path.basename(os.path.dirname(f)))
head = '| property | check | planted bugs reported |\n|----------|-------|-----------------------|\n'
s = s[:s.index(head)] + head
s = re.sub(r'holds \d+ changes', 'holds %d changes' % sum(map(len, c.values())), s)
for k in sorted(c):
    s += '| %s | `run.sh %s quick` | %s |\n' % (k, k, ', '.join(x for x in c[k] if x not in MISSED))
open(D, 'w').write(s)
