"""python -m pyvc.selftest: the engine against the interpreter kajiki runs on.

1. programs of selftest_cases.py, concrete and symbolic (every path on a model of it);
2. templates: the source of /repo is executed by the engine on concrete templates
   (XML ones from the tree the real parser gives) and compared with what the real
   code renders, so that the engine, the built-in models and the DOM model are
   compared on everything a compilation does;
3. automata of patterns against re on short texts.
"""
import itertools
import json
import os
import subprocess
import sys
import ast
import z3

HERE = os.path.dirname(os.path.abspath(__file__))
PYPY = '/opt/venv/bin/python'
REAL = r'''
import sys, json
sys.path.insert(0, %r); sys.path.insert(0, %r)
import selftest_cases as C
def plain(v):
    if isinstance(v, (list, tuple)) : return [type(v).__name__[0]] + [plain(x) for x in v]
    if isinstance(v, dict): return ['d'] + [[plain(k), plain(x)] for k, x in v.items()]
    return v
def tree(n):
    t = n.nodeType
    k = dict(line=getattr(n, 'lineno', None))
    if t == 9: return dict(k, t='doc', c=[tree(x) for x in n.childNodes], dtd=getattr(n, '_dtd', ''))
    if t == 1: return dict(k, t='el', tag=n.tagName, a=list(n.attributes.items()), c=[tree(x) for x in n.childNodes])
    if t == 3: return dict(k, t='text', d=n.data, cdata=bool(getattr(n, '_cdata', False)), esc=getattr(n, 'escaped', None))
    if t == 4: return dict(k, t='cdata', d=n.data)
    if t == 8: return dict(k, t='comment', d=n.data)
    if t == 7: return dict(k, t='pi', target=n.target, d=n.data)
    raise ValueError(t)
out = []; real_out = sys.stdout; sys.stdout = sys.stderr
for job in json.load(sys.stdin):
    try:
        if job[0] == 'call':
            r = plain(getattr(C, job[1])(*job[2]))
        elif job[0] == 'gen':
            import random
            from concrete import xmlgen, textgen
            rng, r = random.Random(job[2]), []
            for _ in range(job[1]):
                g = xmlgen.Gen(rng, maxdepth=rng.choice([1, 2, 3]))
                r.append(['xml', '<root>' + xmlgen.source_of(g.template()) + '</root>'])
                tree_, styles = textgen.TGen(rng, rng.choice([1, 2, 3])).template()
                r.append(['text', textgen.serialise(tree_, styles)[0]])
        elif job[0] == 'text':
            import kajiki
            r = kajiki.TextTemplate(job[1])(dict(job[2])).render()
        elif job[0] == 'xml':
            import kajiki
            from kajiki import xml_template as X
            p = X._Parser('t', job[1])
            r = [tree(p.parse())]
            try:
                r.append(kajiki.XMLTemplate(job[1], is_fragment=True, mode='xml')(dict(job[2])).render())
            except Exception as e:
                r.append(['raises', type(e).__name__])
    except Exception as e:
        r = ['raises', type(e).__name__, str(e)] if job[0] == 'gen' else ['raises', type(e).__name__]
    out.append(r)
json.dump(out, real_out)
'''


def real(jobs):
    src = REAL % (HERE, os.environ.get('VERIF_REPO', '/repo'))
    p = subprocess.run([PYPY, '-c', src], input=json.dumps(jobs).encode(), stdout=subprocess.PIPE, timeout=600, env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONPATH=os.path.dirname(HERE)), check=True)
    return json.loads(p.stdout.decode())


def plain(E, v, model=None):
    from .values import SymStr, SymInt, SymBool, PyList, PyDict, AnyVal
    if isinstance(v, AnyVal):
        v = v.val
    if isinstance(v, PyList):
        return ['l'] + [plain(E, x, model) for x in v.items]
    if isinstance(v, PyDict):
        return ['d'] + [[plain(E, k, model), plain(E, x, model)] for k, x in v.entries]
    if isinstance(v, (tuple, list)):
        return ['t' if isinstance(v, tuple) else 'l'] + [plain(E, x, model) for x in v]
    if isinstance(v, (SymStr, SymInt, SymBool)):
        r = model.eval(v.z, model_completion=True)
        if isinstance(v, SymStr):
            from .values import zunesc
            return zunesc(r)
        return r.as_long() if isinstance(v, SymInt) else z3.is_true(r)
    return v


def load(E):
    from .values import Module
    from .interp import Frame
    tree = E.parse_file(os.path.join(HERE, 'selftest_cases.py'))
    m = Module('selftest_cases')
    E.modules[m.name] = m
    m.ns['__name__'] = m.name
    fr = Frame(E, m.ns, None, None, m.name, module=m)
    fr.locals = m.ns
    E.run(E.exec_block(tree.body, fr))
    return m


def cases():
    """-> [(name, args, what the engine gives)]; unsupported: [(name, why)]"""
    from .interp import Interp
    from .engine import Unsupported
    from .values import SymStr, SymInt, Atom, PyExc
    with open(os.path.join(HERE, 'selftest_cases.py')) as f:
        names = [n.name for n in ast.parse(f.read()).body if isinstance(n, ast.FunctionDef)]
    jobs, skipped, inexact = [], [], 0
    for name in names:
        if not name.startswith(('c_', 's_')):
            continue
        E = Interp(name, timeout_ms=8000, limit_s=60)
        got = []

        def h(E):
            m = load(E)
            if name.startswith('c_'):
                got.append((name, [], plain(E, E.call(m.ns[name], [], {})), True))
                return
            a, b, n = SymStr([Atom('a')]), SymStr([Atom('b')]), SymInt(z3.Int('n'))
            E.add(z3.And(z3.Length(a.z) < 6, z3.Length(b.z) < 6, n.z < 9, n.z > -9))
            try:
                r = E.call(m.ns[name], [a, b, n], {})
            except PyExc as e:
                r = ['raises', e.value.cls.name]
            if E.check() != z3.sat:
                return
            mo = E.solver.model()
            args = [plain(E, x, mo) for x in (a, b, n)]
            got.append((name, args, plain(E, r, mo), E.exact))
        try:
            E.explore(h)
        except Unsupported as e:
            skipped.append((name, str(e)))
        except PyExc as e:
            jobs.append((name, [], ['raises', e.value.cls.name, repr(e.value.attrs)], True))
        except Exception as e:          # in a proof: no verdict
            skipped.append((name, 'verifier error %r' % (e,)))
        jobs += got
    return jobs, skipped


TEXT = ['hello $name!', 'a ${x + 1} b', '%if x\nyes\n%else\nno\n%end\n', '{%for i in range(3)%}<$i>{%end%}', '%def f(a)\n[$a]\n%end\n${f(x)}${f(name)}', '$$ $', 'a\\\n%py z = 3\n$z', '{%switch x%}{%case 1%}one{%else%}else{%end%}',
        '%with a=x; b=name\n$a$b\n%end\n', '%py\nq = [1,\n 2]\n%end\n${q[1]}', '{%call(u) g()%}c$u{%end%}' if 0 else 'x', '%for i in []\n%end\nz', '${name.upper()}', '${ {1: 2}[1] }', '%if x', '${', '%else\n', '%nope\n', 'x\n%end',
        '{%block b%}in{%end%}', "%%py\n", 'a%', '\\$x', '$name.upper', "${'}'}"]
XML = ['<p>hi $name</p>', '<p a="1" b="${x}" c="${None}" d="">t</p>', '<ul><li py:for="i in range(2)" py:if="i">$i</li></ul>', '<p py:content="name" q="1"/>', '<p><b py:replace="x"/></p>', '<p py:strip="x">a<b/></p>',
       '<div py:switch="x"><p py:case="1">one</p><p py:else="">e</p></div>', '<div><py:def function="f(a)"><i>$a</i></py:def>${f(1)}${f(name)}</div>', '<p><!-- c --><!--! d --></p>', '<p><![CDATA[a<b]]></p>', '<p>&lt;&amp;&#65;</p>',
       '<p py:attrs="{\'k\': x, \'n\': None}" z="1"/>', '<py:with vars="a=1; b=name"><p>$a$b</p></py:with>', '<script>if (a &lt; b) {}</script>', '<p><?py z = 4 ?>$z</p>', '<p>\n  <b/>\n  text </p>', '<py:nop>a $name</py:nop>',
       '<p py:if="0">x</p>', '<p py:def="g()">in</p>', '<div><py:block name="b">in</py:block></div>', '<p>$$ ${"a"} $</p>', '<p py:with="c=x" py:content="c"/>', '<p a="$name &lt; ${1}">x</p>', '<x:y xmlns:x="u" x:z="1"/>', '<p>${literal("<b>")}</p>',
       '<p py:bad="1"/>', '<p>${</p>', '<py:case value="1"/>', '<p py:else="">x</p>', '<div py:switch="x">t<p py:case="2"/></div>', '<div><py:call args="u" function="f(1)">a$u</py:call></div>']
CTX = dict(name='N<&>"', x=1)


def generated(n, seed=1):
    ctx = dict(a='A<&', b='b"', c=3, d=None, n=None, t=True, f=False, i=2, l=[0, 1], ls=['x', '>'], o='obj', h='<h>', z='', m={'title': 't', 'zz': 'z&'}, prs=[['b', 'c']])
    return [[k, src, ctx] for k, src in real([['gen', n, seed]])[0]]


def inject(E, v):
    from .values import PyDict
    if isinstance(v, list):
        return E.newlist([inject(E, x) for x in v])
    if isinstance(v, dict):
        d = PyDict(E, [[k, inject(E, x)] for k, x in v.items()])
        E.registry[d.id] = d
        return d
    return v


def templates(more=0):
    from .interp import Interp
    from .engine import Unsupported
    from .values import PyDict, PyExc
    from contracts.dom import Dom, X
    from contracts.lib import Stage
    jobs = [['text', t, CTX] for t in TEXT] + [['xml', t, CTX] for t in XML] + generated(more)
    rs = real(jobs)
    bad, skipped, n, raised = [], [], 0, 0
    for (kind, src, ctx), r in zip(jobs, rs):
        E = Interp('selftest', timeout_ms=8000, limit_s=60)
        got = []

        def h(E):
            Stage(E)
            d = inject(E, ctx)
            try:
                if kind == 'text':
                    c = E.call(E.get('kajiki.text.TextTemplate'), [src], {})
                elif isinstance(r[0], str):
                    raise Unsupported('no tree')
                else:
                    D = Dom(E)

                    def make(t):
                        kw = dict(lineno=t['line'])
                        if t['t'] == 'el':
                            return D.el(t['tag'], [tuple(x) for x in t['a']], *[make(c) for c in t['c']], **kw)
                        if t['t'] == 'text':
                            x = D.text(t['d'], cdata=t['cdata'], escaped=t['esc'], **kw)
                            if t['esc'] is None:
                                x.attrs.pop('escaped', None)
                            return x
                        if t['t'] == 'comment':
                            return D.comment(t['d'], **kw)
                        if t['t'] == 'pi':
                            return D.pi(t['d'], t['target'], **kw)
                        raise Unsupported(t['t'])
                    D.doc(*[make(c) for c in r[0]['c']], dtd=r[0]['dtd'])
                    c = D.compile(strip_text=False, mode='xml', is_fragment=True)
                got.append(plain(E, E.call_method(E.call(c, [d], {}), 'render')))
            except PyExc as e:
                got.append(['raises', e.value.cls.name])
        try:
            E.explore(h)
        except Exception as e:
            skipped.append((src, '%s %s' % (type(e).__name__, e)))
            continue
        want = r if kind == 'text' or isinstance(r[0], str) else r[1]
        n += 1
        raised += not isinstance(want, str)
        if len(got) != 1 or got[0] != want:
            bad.append((kind, src, got, want))
    return n, bad, skipped, raised


PATTERNS = [(r'a|ab*', 0), (r'(?:x|y){2,3}\s+', 0), (r'<!--.*?-->|[^<]+', 16), (r'Ab[c-e]?', 2), (r'\s*=[^=]', 0)]


def automata():
    import re
    from .rx import Nfa
    n, bad = 0, []
    for p, fl in PATTERNS:
        nfa = Nfa(p, fl, anything_after=False)
        r = re.compile(p, fl)
        for k in range(6):
            for t in itertools.product('abxy<- =\n'[:7] if k > 4 else 'abxy<-> =\n', repeat=min(k, 5)):
                t = ''.join(t)
                q = nfa.close([nfa.start])
                for c in t:
                    q = nfa.step(q, c)
                n += 1
                if (nfa.end in q) != bool(r.fullmatch(t)):
                    bad.append((p, t))
    return n, bad[:5]


def equalities(n=400, seed=3):
    """Random patterns: found alike, they match alike on all short texts; found different, they differ on the text given."""
    import random
    import re
    from . import rxeq
    rng = random.Random(seed)

    def pat(d, g):
        r = rng.random()
        if d == 0 or r < .35:
            return rng.choice(['a', 'b', '[ab]', '[^a]', '.', r'\n', 'A', r'\b', '^', '(?!a)', '(?=b)', '(?<!a)', 'ab'])
        if r < .55:
            return pat(d - 1, g) + pat(d - 1, g)
        if r < .7:
            return '(?:%s|%s)' % (pat(d - 1, g), pat(d - 1, g))
        if r < .9:
            return '(?:%s)%s' % (pat(d - 1, g), rng.choice(['*', '+', '?', '*?', '+?', '??', '{1,2}', '{2}?']))
        g[0] += 1
        if g[0] > 2:
            return 'a'
        return '(?P<g%d>%s)' % (g[0], pat(d - 1, g))
    texts = [''.join(t) for k in range(6) for t in itertools.product('abA\n', repeat=k)]
    done, alike, bad = 0, 0, []
    GS = ('g1', 'g2')

    def run(rx, t, pos):
        m = rx.match(t, pos)
        return None if m is None else (m.end(),) + tuple(m.span(g) if g in rx.groupindex and m.group(g) is not None else None for g in GS)
    for _ in range(n):
        fl = rng.choice([0, re.I, re.M, re.S, re.M | re.I])
        p = pat(3, [0])
        q = p if rng.random() < .1 else p.replace(*rng.choice([('*?', '*'), ('+', '*'), ('[ab]', '(?:a|b)'), ('ab', 'a(?:b)'), ('(?:a|b)', '(?:b|a)'), ('.', '[^\\n]'), ('^', ''), ('a', '[aA]')])) if rng.random() < .7 else pat(3, [0])
        try:
            P, Q = re.compile(p, fl), re.compile(q, fl)
            ok, what = rxeq.same(P, Q, GS)
        except (rxeq.NoRe, re.error):
            continue
        done += 1
        if ok:
            alike += 1
            d = [(t, i) for t in texts for i in range(len(t) + 1) if run(P, t, i) != run(Q, t, i)]
            if d:
                bad.append((p, q, fl, 'alike, but', d[0]))
        elif run(P, what[0] + what[1], len(what[0])) == run(Q, what[0] + what[1], len(what[0])):
            bad.append((p, q, fl, 'different on', what))
    return done, alike, bad


def main():
    sys.setrecursionlimit(20000)
    bad = 0
    jobs, skipped = cases()
    rs = real([['call', n, a] for n, a, _, _ in jobs])
    inexact = 0
    for (name, args, got, exact), want in zip(jobs, rs):
        if got == want:
            continue
        if not exact:
            inexact += 1
            continue
        bad += 1
        print('DIFFERS %s%r\n   engine %r\n   real   %r' % (name, args, got, want))
    print('programs: %d runs compared (%d on over-approximated paths differ, as they may), %d outside the engine: %s' % (len(jobs), inexact, len(skipped), skipped))
    n, tb, ts, raised = templates(int(sys.argv[1]) if sys.argv[1:] else 30)
    for x in tb:
        print('DIFFERS', x)
    print('templates: %d compared (%d of them rejected or failing in both), %d outside the engine: %s' % (n, raised, len(ts), ts))
    an, ab = automata()
    for x in ab:
        print('DIFFERS', x)
    print('automata: %d texts compared' % an)
    en, al, eb = equalities(120)
    for x in eb[:5]:
        print('DIFFERS', x)
    print('equality of patterns: %d pairs, %d of them alike' % (en, al))
    return 1 if bad or tb or ab or eb else 0


if __name__ == '__main__':
    sys.exit(main())
