"""make a seeded bug: seed.py ID PROPERTY 'needs' 'breaks' FILE OLD NEW [OLD NEW ...] < demo.cpp
(OLD/NEW may be @file).  Confirms in a scratch copy that the patch builds, passes the stable tests and that
the demo distinguishes; then writes /verif/seeded/ID"""
import json
import os
import shutil
import subprocess
import sys

ident, prop, needs, breaks, fn = sys.argv[1:6]
edits = sys.argv[6:]
demo = sys.stdin.read()
V = '/verif/seeded/' + ident
W = '/tmp/seed/' + ident
shutil.rmtree(W, ignore_errors=True)
os.makedirs(W)
subprocess.run(['cp', '-a', '/repo', W + '/repo'], check=True)
R = W + '/repo'
p = f'{R}/{fn}'
s = open(p).read()
for o, n in zip(edits[::2], edits[1::2]):
    assert s.count(o) == 1, f'{s.count(o)} occurrences of {o!r}'
    s = s.replace(o, n)
open(p, 'w').write(s)
diff = subprocess.run(['git', '-C', R, 'diff'], capture_output=True, text=True).stdout
D = W + '/demo'
os.makedirs(D)
open(D + '/demo.cpp', 'w').write(demo)
open(D + '/demo.sh', 'w').write('''#!/bin/bash
# builds the program beside this file against the sources in the current directory and runs it
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
g++ -std=gnu++20 -w -I. -Iinclude "$d/demo.cpp" -o "$t/demo" && "$t/demo"
''')
os.chmod(D + '/demo.sh', 0o755)
a = subprocess.run(['bash', D + '/demo.sh'], cwd='/repo', capture_output=True, text=True)
b = subprocess.run(['bash', D + '/demo.sh'], cwd=R, capture_output=True, text=True)
print('demo unpatched', a.returncode, a.stderr[-1500:], 'patched', b.returncode, b.stderr[-300:])
if a.returncode != 0 or b.returncode == 0:
    sys.exit('demo does not distinguish')
if 'error:' in b.stderr:
    sys.exit('patched demo does not compile')
# tests: the build is fixed to /repo, so the patched copy is shown there in a mount namespace of its own
pf = W + '/p.diff'
open(pf, 'w').write(diff)
t = subprocess.run(['unshare', '-Urm', 'sh', '-c', f'mount --bind {R} /repo && OUT={W}/o.json bash /verif/tools/baseline.sh'],
                   capture_output=True, text=True)
print(t.stdout[-600:].strip(), t.stderr[-300:])
if t.returncode or 'missing []' not in t.stdout:
    sys.exit('tests notice')
os.makedirs(V, exist_ok=True)
open(V + '/patch.diff', 'w').write(diff)
for f in ('demo.sh', 'demo.cpp'):
    shutil.copy(f'{D}/{f}', f'{V}/{f}')
json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(V + '/meta.json', 'w'), indent=1)
shutil.rmtree(W)
print('kept', ident)
