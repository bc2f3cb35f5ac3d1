"""Mutants of the functions under contract of a property, against its proof alone: mutate_proof.py OUT.jsonl C03 [C07 ...]
(development aid: a mutant that changes behaviour and leaves every obligation discharged shows a hole in the contracts)"""
import ast, json, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
src = open(HERE + '/tools/mutate.py').read().split('\ndef run(')[0]
exec(src)
REPO = '/repo'


def ranges(functions):
    out = {}
    for f in functions:
        parts = f.split('.')
        mod, path = parts[1], parts[2:]
        fn = '%s/kajiki/%s.py' % (REPO, mod)
        if not os.path.exists(fn):
            continue
        node = ast.parse(open(fn).read())
        for p in path:
            if p == '<locals>':
                continue
            nxt = [n for n in ast.walk(node) if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.name == p and n is not node]
            if not nxt:
                node = None
                break
            node = nxt[0]
        if isinstance(node, ast.FunctionDef):
            out.setdefault(mod, []).append((node.body[0].lineno, node.end_lineno, f))
    return out


def prove(prop, repo, out):
    env = dict(os.environ, VERIF_REPO=repo, PYTHONPATH='.', PYTHONHASHSEED='0')
    subprocess.run(['python3-vt', '-m', 'pyvc.prove', prop, '--out', out, '--jobs', '2', '--limit', '120'], cwd=HERE, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=400)
    return json.load(open(out))


def main():
    outfile, props = sys.argv[1], sys.argv[2:]
    o = open(outfile, 'a')
    for prop in props:
        base = prove(prop, REPO, '/tmp/mp_base.json')
        todo = []
        for mod, rs in ranges(base['functions']).items():
            s = open('%s/kajiki/%s.py' % (REPO, mod)).read()
            for m, what, line in mutants(s):
                f = [r[2] for r in rs if r[0] <= line <= r[1]]
                if f:
                    todo.append((mod, m, what, line, s, f[-1]))
        print(prop, len(todo), 'mutants', flush=True)

        def one(x):
            k, (mod, m, what, line, s, f) = x
            d = '/tmp/mp/%d' % k
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            try:
                shutil.copytree(REPO + '/kajiki', d + '/kajiki', ignore=shutil.ignore_patterns('__pycache__', 'tests'))
                open('%s/kajiki/%s.py' % (d, mod), 'w').write(m)
                try:
                    r = prove(prop, d, d + '/o.json')
                    st = {}
                    for ob in r['obligations']:
                        st[ob['status']] = st.get(ob['status'], 0) + 1
                except Exception as e:
                    st = {'error': repr(e)[:100]}
                verdict = 'killed' if 'refuted' in st or 'unproved' in st else 'undecided' if len(st) > 1 or 'discharged' not in st else 'survived'
                o.write(json.dumps(dict(prop=prop, function=f, line=line, what=what, verdict=verdict, st=st, new=[b for a, b in zip(s.split('\n'), m.split('\n')) if a != b][:1], old=[a for a, b in zip(s.split('\n'), m.split('\n')) if a != b][:1])) + '\n')
                o.flush()
            finally:
                shutil.rmtree(d, ignore_errors=True)
        with ThreadPoolExecutor(6) as ex:
            list(ex.map(one, enumerate(todo)))


main()
