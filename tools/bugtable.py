#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and tools/bugs/missed.json."""
import collections, glob, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
missed = json.load(open(root + '/tools/bugs/missed.json'))
by = collections.defaultdict(list)
for m in sorted(glob.glob(root + '/seeded/*/meta.json')):
    id = os.path.basename(os.path.dirname(m))
    by[json.load(open(m))['property']].append(id + ('* (%s)' % missed[id] if id in missed else ''))
rows = ''.join('| %s | %s |\n' % (p, '; '.join(by[p])) for p in sorted(by))
s = open(root + '/DESIGN.md').read()
s = re.sub(r'(\| check \| planted bugs it catches \|\n\|----\|----\|\n)(\| C\d\d \|.*\n)*', lambda m: m.group(1) + rows, s)
open(root + '/DESIGN.md', 'w').write(s)
print(sum(map(len, by.values())), 'planted bugs,', len(missed), 'missed at first')
