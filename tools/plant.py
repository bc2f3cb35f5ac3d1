"""Make a seeded change from a spec: plant.py SPEC.py (development aid).
SPEC.py defines BUGS = [(id, property, file, old, new, needs, breaks, demo_python)].  Each is tried in a scratch copy: the tests
must pass, the demonstration must exit 0 on the unchanged tree and nonzero with the change; then it is kept in /verif/seeded."""
import json, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(sys.argv[1]).read(), ns)
SH = '#!/bin/bash\nsource /opt/vp/env.sh 2>/dev/null\nexec /opt/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"\n'
for id_, prop, file, old, new, needs, breaks, demo in ns['BUGS']:
    w = '/tmp/plant_w'
    shutil.rmtree(w, ignore_errors=True)
    subprocess.check_call(['cp', '-a', '/repo', w])
    p = os.path.join(w, file)
    s = open(p).read()
    if s.count(old) != 1:
        print(id_, 'old text found', s.count(old), 'times')
        continue
    open(p, 'w').write(s.replace(old, new))
    diff = subprocess.run(['git', '-C', w, 'diff'], stdout=subprocess.PIPE, text=True).stdout
    env = dict(os.environ, PYTHONPATH=w, PYTHONDONTWRITEBYTECODE='1')
    t = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', 'kajiki/tests'], cwd=w, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    d = '/tmp/plant_d'
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    open(d + '/demo.py', 'w').write('import os, sys\nsys.path.insert(0, os.getcwd())\nimport kajiki\n' + demo)
    open(d + '/demo.sh', 'w').write(SH)
    os.chmod(d + '/demo.sh', 0o755)
    open(d + '/patch.diff', 'w').write(diff)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
    a = subprocess.run(['bash', d + '/demo.sh'], cwd='/repo', stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    b = subprocess.run(['bash', d + '/demo.sh'], cwd=w, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    ok = t.returncode == 0 and a.returncode == 0 and b.returncode != 0
    print(id_, 'tests', t.returncode, 'demo unchanged', a.returncode, 'with', b.returncode, 'KEPT' if ok else 'REJECTED')
    if ok:
        shutil.rmtree(HERE + '/seeded/' + id_, ignore_errors=True)
        shutil.copytree(d, HERE + '/seeded/' + id_)
    else:
        print(t.stdout[-300:] if t.returncode else '', a.stdout[-300:] if a.returncode else '', b.stdout[-300:])
    shutil.rmtree(w, ignore_errors=True)
    shutil.rmtree(d, ignore_errors=True)
