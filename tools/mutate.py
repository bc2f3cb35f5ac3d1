"""Systematic mutants of kajiki that pass its tests, against the runtime contracts (development aid).
   mutate.py OUT.jsonl [--sample N] [--seed S] [--files a,b] [--jobs 7] [--budget 5]"""
import argparse, ast, json, os, random, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILES = ['template', 'ir', 'xml_template', 'text', 'util', 'loader', 'lnotab', 'doctype', 'i18n', 'markup_template', 'html_utils']
ORDER = {'template': 'C16 C08 C07 C02 C03 C01 C17 C10', 'ir': 'C06 C07 C02 C10 C11 C03 C18', 'xml_template': 'C05 C13 C12 C11 C14 C06 C02 C15 C08 C10', 'text': 'C04 C06 C08 C10 C17',
         'util': 'C03 C18 C06', 'loader': 'C09 C17 C15', 'lnotab': 'C10', 'doctype': 'C15', 'i18n': 'C11', 'markup_template': 'C14', 'html_utils': 'C02 C12'}
PY = '/opt/venv/bin/python'


def mutants(src):
    tree = ast.parse(src)
    lines = src.split('\n')
    offs = [0]
    for l in lines:
        offs.append(offs[-1] + len(l.encode()) + 1)
    b = src.encode()
    out = []

    def span(n):
        return offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset

    def text(n):
        s, e = span(n)
        return b[s:e].decode()

    def rep(n, new, what):
        s, e = span(n)
        out.append((s, e, new, what, n.lineno))
    CMP = {ast.Eq: '!=', ast.NotEq: '==', ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Is: 'is not', ast.IsNot: 'is', ast.In: 'not in', ast.NotIn: 'in'}
    docs = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            docs.add(n.value)
    for n in ast.walk(tree):
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            rep(n, '(%s %s %s)' % (text(n.left), CMP[type(n.ops[0])], text(n.comparators[0])), 'compare')
        elif isinstance(n, ast.BoolOp):
            for i, v in enumerate(n.values):
                rep(n, '(' + (' and ' if isinstance(n.op, ast.And) else ' or ').join(text(x) for j, x in enumerate(n.values) if j != i) + ')', 'drop operand')
            rep(n, '(' + (' or ' if isinstance(n.op, ast.And) else ' and ').join('(%s)' % text(x) for x in n.values) + ')', 'and/or')
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            rep(n, '(%s)' % text(n.operand), 'drop not')
        elif isinstance(n, ast.Constant) and n not in docs:
            if isinstance(n.value, bool):
                rep(n, str(not n.value), 'flip')
            elif isinstance(n.value, int):
                rep(n, str(n.value + 1), '+1')
                rep(n, str(n.value - 1), '-1')
            elif n.value is None:
                rep(n, "''", 'None to empty')
            elif isinstance(n.value, str) and n.end_lineno == n.lineno and not text(n).startswith('r'):
                if n.value:
                    rep(n, "''", 'empty text')
                if len(n.value) > 1:
                    rep(n, repr(n.value[:-1]), 'shorter text')
        elif isinstance(n, (ast.If, ast.While)):
            rep(n.test, 'not (%s)' % text(n.test), 'negate')
        elif isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Delete)) and not (isinstance(n, ast.Expr) and isinstance(n.value, (ast.Constant,))):
            rep(n, 'pass', 'drop statement')
        elif isinstance(n, (ast.Continue, ast.Break)):
            rep(n, 'pass', 'drop jump')
        elif isinstance(n, ast.Call):
            if isinstance(n.func, ast.Attribute) and n.func.attr in ('strip', 'rstrip', 'lstrip', 'lower', 'copy', 'replace', 'upper', 'splitlines', 'items', 'setdefault'):
                rep(n, text(n.func.value), 'drop ' + n.func.attr)
            if isinstance(n.func, ast.Name) and n.func.id in ('str', 'sorted', 'list', 'dict', 'tuple', 'int') and len(n.args) == 1:
                rep(n, text(n.args[0]), 'drop ' + n.func.id)
            for k in n.keywords:
                if k.arg:
                    s, e = offs[k.lineno - 1] + k.col_offset, offs[k.end_lineno - 1] + k.end_col_offset
                    out.append((s, e, '**{}', 'drop keyword ' + k.arg, k.lineno))
        elif isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)):
            rep(n, '%s %s %s' % (text(n.left), '-' if isinstance(n.op, ast.Add) else '+', text(n.right)), '+-')
        elif isinstance(n, ast.IfExp):
            rep(n, '(%s)' % text(n.body), 'always')
            rep(n, '(%s)' % text(n.orelse), 'never')
        elif isinstance(n, ast.Slice):
            pass
    r = []
    for s, e, new, what, line in out:
        m = b[:s] + new.encode() + b[e:]
        try:
            compile(m.decode(), 'x', 'exec')
        except Exception:
            continue
        r.append((m.decode(), what, line))
    return r


def run(k, file, m, what, line, a):
    d = '/tmp/mw/%d' % k
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    try:
        shutil.copytree('/repo/kajiki', d + '/kajiki', ignore=shutil.ignore_patterns('__pycache__'))
        with open('%s/kajiki/%s.py' % (d, file), 'w') as f:
            f.write(m)
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONPATH=d, PYTHONHASHSEED='0')
        try:
            p = subprocess.run([PY, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '--timeout=60', 'kajiki/tests'], cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120)
        except subprocess.TimeoutExpired:
            return None
        if p.returncode != 0:
            return None
        first = ORDER.get(file, '').split()
        props = first + [x for x in ['C%02d' % i for i in range(1, 19)] if x not in first]
        env['PYTHONPATH'] = HERE
        env['VERIF_REPO'] = d
        for c in props:
            out = d + '/o.json'
            try:
                subprocess.run([PY, '-m', 'concrete.run', c, '--seed', '1000', '--tier', 'quick', '--budget', str(a.budget), '--out', out], cwd=HERE, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=150)
                r = json.load(open(out))
                os.unlink(out)
            except Exception as e:
                return dict(file=file, line=line, what=what, killed=c, how='crash %r' % (e,))
            if r['failures']:
                return dict(file=file, line=line, what=what, killed=c, how='failure')
        return dict(file=file, line=line, what=what, killed=None)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('out')
    ap.add_argument('--sample', type=int)
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--files')
    ap.add_argument('--jobs', type=int, default=7)
    ap.add_argument('--budget', type=float, default=5)
    a = ap.parse_args()
    todo = []
    for f in (a.files.split(',') if a.files else FILES):
        src = open('/repo/kajiki/%s.py' % f).read()
        for m, what, line in mutants(src):
            todo.append((f, m, what, line, src))
    random.Random(a.seed).shuffle(todo)
    todo = todo[:a.sample] if a.sample else todo
    print(len(todo), 'mutants')
    with open(a.out, 'a') as o, ThreadPoolExecutor(a.jobs) as ex:
        def one(x):
            k, (f, m, what, line, src) = x
            r = run(k, f, m, what, line, a)
            if r is not None:
                r['new'] = [y for x, y in zip(src.split('\n'), m.split('\n')) if x != y][:2]
                r['old'] = [x for x, y in zip(src.split('\n'), m.split('\n')) if x != y][:2]
                o.write(json.dumps(r) + '\n')
                o.flush()
            else:
                o.write('{}\n')
        list(ex.map(one, enumerate(todo)))


main()
