# Generates MANIFEST.json from checks.py
import json, os, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, root)
from checks import CHECKS
props = [json.loads(l) for l in open(os.path.join(root, 'properties.jsonl'))]
NA = {}
checks = []
for p in props:
    if p['id'] in CHECKS:
        c = CHECKS[p['id']]
        checks.append(dict(property=p['id'], quick_cmd='python3 check.py %s --tier quick' % p['id'],
                           thorough_cmd='python3 check.py %s --tier thorough' % p['id'],
                           technique=c['technique'], level='exploration', level_note=c['note'] + ' Trusts: ' + '; '.join(c['assumptions']) + '.'))
m = dict(version=1, setup_cmd='python3 tools/setup.py', checks=checks,
         not_applicable=[dict(property=p['id'], reason=NA.get(p['id'], 'its check is not built yet')) for p in props if p['id'] not in CHECKS],
         notes='No hooks in /repo are needed: all monitors observe at public interfaces. Known and repaired defects: known_findings.txt.')
json.dump(m, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
