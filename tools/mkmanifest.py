"""writes MANIFEST.json: a check for every property with a harness"""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
    'P33': 'Not decided separately yet: the checks of the other properties already make out-of-bounds accesses, null accesses and library aborts obligations, but overflow and conversion traps are only enabled for P15.',
    'P40': 'The harness for the STL converter is not finished.',
}
PEND = 'no check built yet'
props = [json.loads(l) for l in open(f'{V}/properties.jsonl')]
checks, na = [], []
NOTE = ('Bounded symbolic decision of the code compiled from the current tree: every scalar input of a harness is a free variable, so a '
        'discharged obligation holds for all values; shapes, types and operand forms are instantiated as listed in the evidence bounds. '
        'Trusts clang 18 to lower the sources, the IR interpreter (validated against the native build on every run) and z3/cvc5. ')
EXTRA = json.load(open(f'{V}/tools/level_notes.json')) if os.path.exists(f'{V}/tools/level_notes.json') else {}
for p in props:
    i = p['id']
    if os.path.exists(f'{V}/harness/{i}.py') or os.path.exists(f'{V}/harness/{i}.cpp'):
        checks.append(dict(property=i, quick_cmd=f'python3-vt engine/check.py {i} --tier quick',
                           thorough_cmd=f'python3-vt engine/check.py {i} --tier thorough',
                           evidence_file=f'evidence/{i}.json',
                           technique='symbolic execution of the LLVM IR of the real code, obligations decided by SMT (z3, cvc5)',
                           level='other', level_note=(NOTE + EXTRA.get(i, '')).strip()))
    else:
        na.append(dict(property=i, reason=NA.get(i, PEND)))
json.dump(dict(version=1, setup_cmd="python3-vt -c 'import z3, numpy' && clang++ --version && g++ --version", checks=checks, not_applicable=na,
               notes='No hooks in /repo. The engine is engine/check.py; harness sources are generated by harness/P*.py; see DESIGN.md.'),
          open(f'{V}/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
