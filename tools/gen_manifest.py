"""Write MANIFEST.json from the registry of checks and properties.jsonl."""
import json
import os
import sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from sa import registry

NA = {
    'X01': 'time bounds quantify over the cost of every statement and of user code; no static cost argument is in reach',
    'X02': 'round-trip equality quantifies over values of user serializers/deserializers; no static argument bounds them',
}
TECH = {'Y01': 'type-level witnesses: programs that must (not) type-check against the annotated source (mypy)'}
props = [json.loads(x) for x in open(os.path.join(ROOT, 'properties.jsonl'))]
table = registry.table()
checks, na = [], []
for p in props:
    i = p['id']
    if i in table and i not in NA:
        e = table[i]
        checks.append(dict(
            property=i, quick_cmd=f'./check {i}', thorough_cmd=f'./check {i} thorough',
            technique=TECH.get(i, 'static dataflow analysis: abstract interpretation of the source (path-sensitive, joins, '
                               'loop summaries to a fixpoint), rules on end states'),
            level='other',
            level_note=e['explain'] + ' Assumes: ' + '; '.join(e['assume'])))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'checker not built yet')))
json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=na,
               notes='Every check reads /repo on each run (SA_REPO overrides the path); see DESIGN.md.'),
          open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
