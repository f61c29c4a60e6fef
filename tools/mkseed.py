"""mkseed.py ID PROP FILE <<< JSON {old,new,needs,breaks,demo}: writes seeded/ID from a
replacement in FILE of a scratch copy of /repo (several: list of [file, old, new])."""
import sys, json, os, subprocess, tempfile, shutil
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def seed(id, prop, edits, needs, breaks, demo):
    d = os.path.join(here, 'seeded', id)
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp(prefix='mkseed')
    try:
        subprocess.check_call(['git', 'clone', '-q', '/repo', t + '/r'])
        for f, old, new in edits:
            p = os.path.join(t, 'r', f)
            s = open(p).read()
            assert s.count(old) == 1, (id, f, s.count(old))
            open(p, 'w').write(s.replace(old, new))
        diff = subprocess.check_output(['git', '-C', t + '/r', 'diff'], text=True)
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    finally:
        shutil.rmtree(t)
    open(os.path.join(d, 'demo.sh'), 'w').write('''#!/bin/bash
# run with the repository as working directory
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONWARNINGS=ignore PYTHONHASHSEED=0
here=$(cd "$(dirname "$0")" && pwd)
S=$(mktemp -d); trap 'rm -rf "$S"' EXIT
cd "$S" && /opt/venv/bin/python "$here/demo.py"
''')
    open(os.path.join(d, 'demo.py'), 'w').write(demo.strip('\n') + '\n')
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks},
              open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    print('seed', id, len(diff))
