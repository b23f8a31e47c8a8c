"""Write the last section of DESIGN.md: planted changes and the checks that catch them.

python3 tools/gen_table.py LOG...   (logs of tools/selftest.py over 'seed-*')"""
import glob
import json
import os
import re
import sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = {}
for log in sys.argv[1:]:
    for line in open(log):
        m = re.match(r"seed-(\S+)\s+(ok|FAIL)\s+caught by \[(.*?)\]", line)
        if m:
            caught[m[1]] = ', '.join(sorted(re.findall(r'\w+', m[3]))) or 'missed'
old = {}
p = os.path.join(ROOT, 'DESIGN.md')
text = open(p).read()
mark = '## 7. Planted changes'
if mark in text:
    for m in re.finditer(r'^\| (\S+) \| (.*?) \| (.*?) \|$', text[text.index(mark):], re.M):
        old[m[1]] = m[3]
    text = text[:text.index(mark)]
rows = []
for d in sorted(glob.glob(ROOT + '/seeded/*/')):
    n = os.path.basename(d[:-1])
    meta = json.load(open(d + 'meta.json'))
    rows.append(f"| {n} | {meta['what_it_breaks'].replace('|', '/').strip()} | {caught.get(n) or old.get(n) or 'not re-run'} |")
open(p, 'w').write(text.rstrip() + f'\n\n{mark}\n\n{len(rows)} changes; the last column: checks seen to report them (the check of the property always runs, others where run);\n*not re-run*: the last sweep was stopped before it got there, so the table claims nothing for it.\n`t06-required-marker`, `t05-warning-off` and `c01-dump-state-shared` touch only lines our own fixes added and do not count.\n\n'
                   '| change | what it breaks | caught by |\n|----|----|----|\n' + '\n'.join(rows) + '\n')
