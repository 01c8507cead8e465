"""Turns the uncommitted change in a scratch copy of /repo into seeded/<ID>/ (patch, self-contained demo, meta).

usage: mkseed.py SCRATCH ID PROPERTY --needs TEXT --breaks TEXT (--case FILE | --script FILE)
--case: a replay document run by the framework snapshot packed beside the demo
--script: a Python program run with the snapshot on sys.path (kit) or without (--nokit)
"""
import argparse
import json
import os
import shutil
import subprocess
import tarfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
a = argparse.ArgumentParser()
a.add_argument('scratch')
a.add_argument('id')
a.add_argument('prop')
a.add_argument('--needs', required=True)
a.add_argument('--breaks', required=True)
a.add_argument('--case')
a.add_argument('--script')
a.add_argument('--nokit', action='store_true')
a = a.parse_args()
d = os.path.join(V, 'seeded', a.id)
shutil.rmtree(d, ignore_errors=True)
os.makedirs(d)
diff = subprocess.run(['git', '-C', a.scratch, 'diff'], capture_output=True, text=True, check=True).stdout
assert diff.strip()
open(os.path.join(d, 'patch.diff'), 'w').write(diff)
json.dump({'property': a.prop, 'needs': a.needs, 'what_it_breaks': a.breaks}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
head = '#!/bin/bash\n# exit 0: behaves as stated; nonzero: broken.  Run with cwd = repository root.\nd=$(cd "$(dirname "$0")" && pwd)\nt=$(mktemp -d)\ntrap \'rm -rf "$t"\' EXIT\n'
if not a.nokit:
    with tarfile.open(os.path.join(d, 'kit.tgz'), 'w:gz') as t:
        for sub in ('vlib', 'shim', 'checks'):
            t.add(os.path.join(V, sub), sub, filter=lambda i: None if '__pycache__' in i.name else i)
    head += 'tar xzf "$d/kit.tgz" -C "$t" || exit 1\nexport VERIF_REPO="$PWD" VERIF_BUILD="$t/build"\n'
if a.case:
    c = json.load(open(a.case))
    json.dump({'case': c['case'], 'property': c['property']}, open(os.path.join(d, 'case.json'), 'w'))
    head += 'cd "$t" && python3 vlib/driver.py %s --replay "$d/case.json"\n' % c['property']
else:
    shutil.copy(a.script, os.path.join(d, 'demo.py'))
    head += 'export KIT="$t" REPO="$PWD" PATH=/opt/acados-env/venv/bin:$PATH PYTHONPATH="$PWD/interfaces/acados_template" PYTHONDONTWRITEBYTECODE=1\ncd "$t" && /opt/acados-env/venv/bin/python "$d/demo.py"\n'
p = os.path.join(d, 'demo.sh')
open(p, 'w').write(head)
os.chmod(p, 0o755)
print(d)
