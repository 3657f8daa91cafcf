#!/usr/bin/env python3
# writes the table of planted bugs into DESIGN.md, from seeded/*/meta.json
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
by = {}
for i in sorted(os.listdir(here + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (here, i)))
    by.setdefault(m['property'], []).append('`%s` (%s)' % (i.split('-', 1)[1], m['what_it_breaks']))
n = sum(map(len, by.values()))
t = 'Each of the %d planted bugs in seeded/ is caught by the quick check of its property (exit 1 with its VIOLATION line); those that were missed at\nfirst led to the spaces named above. Many are caught by other checks too. By property:\n\n' % n
for p in sorted(by):
    t += '* %s: %s\n' % (p, '; '.join(by[p]))
f = here + '/DESIGN.md'
s = open(f).read()
k = s.index('## Planted bugs and the checks that catch them\n')
open(f, 'w').write(s[:k] + '## Planted bugs and the checks that catch them\n\n' + t)
