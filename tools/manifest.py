"""Writes MANIFEST.json: a check for each property that has a module in checks/."""
import ast
import json
import os
import sys

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = {
    'fault_enumeration': 'Every prefix of each generated file (every byte in the data section) is read under a logical step '
                         'budget; says nothing about files that are not prefixes of, or damaged from, the generated ones.',
}
checks, missing = [], []
for line in open(os.path.join(here, 'properties.jsonl')):
    q = json.loads(line)
    path = os.path.join(here, 'checks', q['id'].lower() + '.py')
    if not os.path.exists(path):
        missing.append({'property': q['id'], 'reason': 'no check has been built for this property yet'})
        continue
    tree = ast.parse(open(path).read())
    const = {}
    for node in tree.body:
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name):
            try:
                const[node.targets[0].id] = ast.literal_eval(node.value)
            except ValueError:
                pass
    level = const.get('LEVEL', 'exploration')
    note = const.get('NOTE') or ('Held on the executions generated by this run (see evidence), decided by: %s'
                                 % const.get('TECHNIQUE', ''))
    if level in NOTES:
        note += ' ' + NOTES[level]
    if const.get('ASSUMPTIONS'):
        note += ' Assumes: ' + '; '.join(const['ASSUMPTIONS']) + '.'
    cmd = 'VERIF_TIER=%s /opt/venv/bin/python run.py ' + q['id']
    checks.append({'property': q['id'], 'quick_cmd': cmd % 'quick', 'thorough_cmd': cmd % 'thorough',
                   'evidence_file': 'evidence/%s.json' % q['id'],
                   'technique': 'runtime monitoring: ' + const['TECHNIQUE'], 'level': level, 'level_note': note})
json.dump({'version': 1,
           'setup_cmd': '/opt/venv/bin/python -c "import sys, numpy; assert sys.version_info >= (3, 12); import mon.core"',
           'checks': checks, 'not_applicable': missing,
           'notes': 'Pure Python, no threads and no native code in the repository: the monitors observe the public API '
                    'from outside (mon/core.py), so no hooks are needed in /repo.'},
          open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', [m['property'] for m in missing])
