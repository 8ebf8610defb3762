"""refreshes the per-property table of DESIGN.md (between the two markers) from the harness generators"""
import json
import os
import re

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f'{V}/properties.jsonl')]
man = json.load(open(f'{V}/MANIFEST.json'))
na = {x['property']: x['reason'] for x in man['not_applicable']}
ORACLE = json.load(open(f'{V}/tools/oracles.json'))
rows = ['| property | deciding oracle (the assertion) | bounds of the quick tier |', '|---|---|---|']
for p in props:
    i = p['id']
    f = f'{V}/harness/{i}.py'
    if i in na or not os.path.exists(f):
        rows.append(f'| {i} {p["title"]} | not applicable | {na.get(i, "")} |')
        continue
    t = open(f).read()
    t = re.sub(r"(?<!\\)'\s*\\?\s*\n\s*f?'", '', t)
    b = [re.sub(r"\\n.*", '', x) for x in re.findall(r"VF-BOUND:([^\n]*?)(?:\\n|\n|'\)?$)", t)]
    b = '; '.join(x.strip().strip("'") for x in b)
    b = re.sub(r'\{[^}]*\}', '…', b).replace('|', '\\|')
    rows.append(f'| {i} {p["title"]} | {ORACLE.get(i, "")} | {b} |')
d = open(f'{V}/DESIGN.md').read()
a, rest = d.split('<!-- table -->\n', 1)
_, z = rest.split('<!-- end table -->', 1)
open(f'{V}/DESIGN.md', 'w').write(a + '<!-- table -->\n' + '\n'.join(rows) + '\n<!-- end table -->' + z)
