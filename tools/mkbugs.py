#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json (needs the working copy with seeded/)."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CAUGHT = {'c16-memo-common': 'C16, C18', 'c19-empty-count': 'C19, C10'}
HOW = {'c19-empty-count': 'missed at first: runners are now made in memory that holds something else, in C19 and C10, for automata without states too',
       'c10-cache-bounded': 'missed at first: C10 got histories of 9000–20000 words that repeat late',
       'c10-zero-delay-skipped': 'missed at first: the recorder of C10 now keeps the exact sequence of calls, zero delays included',
       'c22-tolerant-equality': 'missed at first: tiny differences in C22',
       'c03-stale-complement': 'missed at first: hypotheses changed in place in C03',
       'c16-subset': 'missed at first: arbitrary sets of rows in C16',
       'c14-update-difference': 'missed at first: fractional constants in C14',
       'c05-tautology-shortcut': 'missed at first: guards that are bands of one clock, in any order, in all random automata'}
rows = []
for i in sorted(os.listdir(os.path.join(V, 'seeded'))):
    m = json.load(open(os.path.join(V, 'seeded', i, 'meta.json')))
    rows.append('| %s | %s | %s | %s |' % (i, m['what_it_breaks'], CAUGHT.get(i, m['property']), HOW.get(i, '')))
text = '''## Planted bugs
Each compiles, passes the 148 tests and has a demonstration (`seeded/<id>/`). All are caught by the quick tier, seed 1.

| planted bug | what it breaks | caught by | remark |
|---|---|---|---|
''' + '\n'.join(rows) + '''

Two more in `examples/ota_json_parser.hh` (a location accepting because an accepting one starts with its name; an interval open at 0 read as
closed) are caught by C20 but not kept, as bugs under `examples/` do not count. Bugs that the repository's own tests expose were dropped, too.
Besides, single lines were mutated at random (comparison, constant, removed statement, …) and the checks run on each mutant: what survived was
equivalent, printing, logging, or outside the properties, or led to a stronger workload.
'''
p = os.path.join(V, 'DESIGN.md'); s = open(p).read()
s = re.sub(r'## Planted bugs\n.*?(?=\n## |\Z)', '', s, flags=re.S).rstrip('\n') + '\n\n'
open(p, 'w').write(s + text)
