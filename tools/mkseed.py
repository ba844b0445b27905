"""mkseed.py FILE: create /verif/seeded/<id>/ from a Python description (development helper).
FILE defines SEEDS = [dict(id, property, edits=[(file, old, new)], demo, needs, breaks)]."""
import json, os, shutil, subprocess, sys, tempfile
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = sys.argv[2:]
for s in ns['SEEDS']:
    if only and s['id'] not in only: continue
    w = tempfile.mkdtemp(dir='/tmp')
    subprocess.check_call(['cp', '-a', '/repo/.', w])
    for f, a, b in s['edits']:
        p = os.path.join(w, f)
        t = open(p).read()
        assert t.count(a) == 1, (s['id'], f, t.count(a), a)
        open(p, 'w').write(t.replace(a, b))
    d = subprocess.check_output(['git', 'diff'], cwd=w).decode()
    shutil.rmtree(w)
    o = '/verif/seeded/' + s['id']
    os.makedirs(o, exist_ok=True)
    open(o + '/patch.diff', 'w').write(d)
    open(o + '/demo.py', 'w').write(s['demo'].lstrip('\n'))
    open(o + '/demo.sh', 'w').write('#!/bin/bash\n# run with cwd = the repository\nhere=$(cd "$(dirname "$0")" && pwd)\n'
        'PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" exec /opt/venv/bin/python "$here/demo.py"\n')
    json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(o + '/meta.json', 'w'), indent=1)
