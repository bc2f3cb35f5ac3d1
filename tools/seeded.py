"""Run the checks against every seeded change, in scratch copies, layer by layer (development aid): seeded.py [ID...]
Prints a markdown table: change, property, what the verifier says (failed obligations), what the runtime contracts say."""
import json, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(i):
    d = HERE + '/seeded/' + i
    prop = json.load(open(d + '/meta.json'))['property']
    w = '/tmp/seeded_' + i
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    try:
        subprocess.check_call(['cp', '-a', '/repo/kajiki', w])
        subprocess.check_call(['git', 'apply', '--unsafe-paths', '--directory=' + w, d + '/patch.diff'], cwd='/')
        env = dict(os.environ, VERIF_REPO=w, PYTHONPATH='.', PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1')
        p = subprocess.run(['python3-vt', '-m', 'pyvc.prove', prop, '--out', w + '/p.json'], cwd=HERE, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=900)
        try:
            r = json.load(open(w + '/p.json'))
            bad = {}
            for o in r['obligations']:
                if o['status'] != 'discharged':
                    bad.setdefault(o['status'], []).append(o['name'])
            proof = '; '.join('%s: %d (%s)' % (k, len(v), v[0][:60]) for k, v in sorted(bad.items())) or 'all discharged'
        except Exception as e:
            proof = 'error %r %s' % (e, p.stdout[-200:])
        subprocess.run(['/opt/venv/bin/python', '-m', 'concrete.run', prop, '--seed', '1000', '--tier', 'quick', '--budget', '20', '--out', w + '/c.json'], cwd=HERE, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
        c = json.load(open(w + '/c.json'))
        return '| %s | %s | %s | %s |' % (i, prop, proof, '%d failing inputs' % len(c['failures']) if c['failures'] else 'quiet')
    except Exception as e:
        return '| %s | %s | error %r | |' % (i, prop, e)
    finally:
        shutil.rmtree(w, ignore_errors=True)


with ThreadPoolExecutor(3) as ex:
    for l in ex.map(one, sys.argv[1:] or sorted(os.listdir(HERE + '/seeded'))):
        print(l, flush=True)
