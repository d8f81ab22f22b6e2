"""Rewrites section 7 of DESIGN.md from seeded/*/meta.json and a list of 'id check rc=n' lines (argument)."""
import json
import os
import sys

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = {}
for line in open(sys.argv[1]):
    p = line.split()
    if len(p) >= 3 and p[2].startswith('rc='):
        caught.setdefault(p[0], {})[p[1]] = p[2] == 'rc=1'
rows = []
for d in sorted(os.listdir(os.path.join(here, 'seeded'))):
    m = json.load(open(os.path.join(here, 'seeded', d, 'meta.json')))
    c = caught.get(d, {})
    rows.append('| %s | %s | %s | %s |' % (d, m['what_it_breaks'].replace('|', '/'), m['needs'].replace('|', '/'),
                                        ', '.join(k for k in sorted(c) if c[k]) or 'MISSED'))
text = '''## 7 Planted bugs

Each passes the 1330 tests, and its demo fails with it and passes without.  They were written from the property text and
the code; those that a check missed at first led to a stronger workload (never to a rule about the changed text).

Besides these, five rounds of automatic mutation were run against the checks: operators, constants, comparisons, dropped
statements and swapped arguments over the whole package (three rounds) and over repaired lines (one), and results that
are kept from earlier calls, lost digits, thresholds in size and magnitude, cut loops and confused x/y names (a random
sample).  Mutants that no check noticed were read one by one: each was made detectable by a stronger workload, or changes
nothing that can be observed (or only console output).

| bug | breaks | needs | caught by |
|---|---|---|---|
%s

''' % '\n'.join(rows)
path = os.path.join(here, 'DESIGN.md')
s = open(path).read()
a, b = s.find('## 7 Planted'), s.find('## 8 ')
s = s[:a] + text + '\n' + s[b:] if a >= 0 else s + '\n\n' + text + '\n' + '''## 8 Running things

* `VERIF_SEED=n VERIF_TIER=quick /opt/venv/bin/python run.py C07` in /verif; exit 0 held, 1 violated, 3 no verdict.
* A violation is repeated by the same seed and tier; `evidence/replay/` holds the input.
* `python3 tools/props.py` writes properties.jsonl, `python3 tools/manifest.py` MANIFEST.json, and
  `python3 tools/seedtable.py RESULTS` the table above.
'''
open(path, 'w').write(s)
print(len(rows), sum('MISSED' in r for r in rows))
