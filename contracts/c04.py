"""C04: text templates."""
from .lib import *  # noqa
from .lib import harness, instance, must, Stage
from .scan import Scan, matches, Shape, lines as count

HARNESSES = []
TX = 'kajiki.text.'
SC = TX + '_Scanner.'
GROUPS = ('expr_escaped', 'expr_named', 'expr_braced', 'expr_invalid', 'tag_bare', 'tag_bare_invalid', 'tag_begin_ljust', 'tag_begin', 'tag_begin_invalid')


ALTS = [('expr_escaped', r'\$(?P<expr_escaped>\$)', False),
        ('expr_named', r'\$(?P<expr_named>[_a-z][_a-z0-9]*(?:\.[_a-z][_a-z0-9]*)*)', False),
        ('expr_braced', r'\$\{(?P<expr_braced>)', False),
        ('expr_invalid', r'\$(?P<expr_invalid>)', False),
        ('tag_bare', r'^\s*%(?P<tag_bare>[a-z]+)', True),
        ('tag_bare_invalid', r'^\s*%(?P<tag_bare_invalid>)', True),
        ('tag_begin_ljust', r'^\s*\{%-(?P<tag_begin_ljust>[a-z]+)', True),
        ('tag_begin', r'\{%(?P<tag_begin>[a-z]+)', False),
        ('tag_begin_invalid', r'\{%(?P<tag_begin_invalid>)', False)]


def sources(t):
    """Runtime contracts for a text on which the pattern differs."""
    ctx = {'a': ['s', 'A'], 'b': ['i', 0], 't': ['b', True], 'x': ['s', 'X'], 'xa': ['s', 'XA'], 'a1': ['s', 'A1'], '_': ['s', 'U']}
    for src in (t, t + 'a', t + 'a}', '-' + t, t + 'if t\nB\n%end\n', t + 'if t%}B{%end%}', t + 'py z = 1\n', t + 'py z = 1%}', '-\n' + t + 'py z = 1\n', ' ' + t, t.replace('a', 'if t') + '\n%end', t.replace('x', 'py z = 1')):
        yield dict(property='C04', kind='textsrc', args=dict(src=src, ctx=ctx))


@harness(HARNESSES, 'scanner: any source', [SC + '__iter__', SC + 'text', SC + 'expr'])
def h_scan(E):
    """Any source and any matches of the pattern in it: every character is in exactly one token, in order."""
    scan(E)


def scan(E, lines=False):
    src = SymStr([Atom('source')])
    n = E.str_len(src)
    cur = []
    C = count(src)

    def at(cls, pos, **kw):
        return Shape(cls, **dict(kw, **({'lineno': SymInt(1 + C(pos.z))} if lines else {})))

    def text(t, start, end):
        return at('_Text', end, text=t)

    def oneline(E, m):
        E.add(z3.And(C(m.end.z) == C(m.start.z), C(m.start.z + 1) == C(m.start.z)))       # neither $$ nor $name nor ${ nor {%name holds a line end
        return m.end

    def named(E, m):
        return strs.getitem(E, src, slice(SymInt(m.start.z + 1), m.end))

    def word(E, m):
        w = SymStr([Atom(m.h + '.word')])
        E.add(z3.Length(strz(w)) > 0)
        return w

    def upto(cls):
        def make(E, m):
            q = SymInt(z3.Int(m.h + '.after'))
            E.add(z3.And(q.z >= m.end.z, q.z <= n.z + (1 if cls == 'bare' else 0)))
            o = instance(E, TX + ('_Expr' if cls == 'braced' else '_Tag'))
            o.attrs['text'] = o.attrs['body'] = SymStr([Atom(m.h + '.body')])
            o.attrs['tagname'] = m.group_text
            m.obj = o
            if cls == 'braced' or cls == 'tag' and m.kind == 'tag_begin':
                oneline(E, m)
            return q, lambda m: m.obj
        return make
    kinds = [('expr_escaped', '$', lambda E, m: (oneline(E, m), lambda m: text('$', m.start, m.end))),
             ('expr_named', named, lambda E, m: (oneline(E, m), lambda m: at('_Expr', m.end, text=m.group_text))),
             ('expr_braced', '', upto('braced')),
             ('tag_bare', word, upto('bare')),
             ('tag_begin', word, upto('tag')),
             ('tag_begin_ljust', word, upto('tag')),
             ('tag_bare_invalid', '', lambda E, m: (m.start, lambda m: None))]
    spec = Scan(text, src, n.z, 1 if lines else None)
    E.inputs['regex'] = lambda I, o, what, s, a: matches(E, src, kinds, GROUPS, spec, cur, o, ALTS, sources) if what == 'finditer' and s is src else NotImplemented

    def callee(kinds_):
        def f(I, a, kw):
            m = cur[0]
            if m.kind not in kinds_:
                E.ensure('the right reader', False, '%s for %s' % (kinds_, m.kind))
                raise Cut('wrong reader')
            must(E, 'reads from the end of the match', I.getattr(a[0], 'pos'), m.end)
            if len(a) > 1:
                must(E, 'the name of the tag', a[1], m.group_text)
            if lines:
                must(E, 'knows its line', I.getattr(a[0], 'lineno'), SymInt(1 + C(m.end.z)))
                I.setattr(a[0], 'lineno', SymInt(1 + C(m.after.z)))
            I.setattr(a[0], 'pos', m.after)
            return m.obj
        return f
    E.overrides[SC + '_get_braced_expr'] = callee(('expr_braced',))
    E.overrides[SC + '_get_tag_bare'] = callee(('tag_bare',))
    E.overrides[SC + '_get_tag'] = callee(('tag_begin', 'tag_begin_ljust'))
    sc = E.call(E.get(TX + '_Scanner'), ['f', src], {})
    got = E.drain(E.call_method(sc, '__iter__')).items
    p = spec.p
    rest = strs.getitem(E, src, slice(p, None))
    r = Run(('matches', 'out', 'full'))
    want = [r, text(rest, p, n)] if E.branch(p.z < n.z) else [r]
    if len(got) == 2 and len(want) == 1:
        want = [r, Shape('_Text', text='')]
    E.ensure('the tokens of the matches, then the rest of the source', len(got) == len(want) and E.items_formula(got, want), '%r, specified %r' % (got, want))
    E.reachable('end')


def scanner(E, at=True):
    """A scanner anywhere in any source."""
    src = SymStr([Atom('source')])
    n = E.str_len(src)
    sc = E.call(E.get(TX + '_Scanner'), ['f', src], {})
    p = SymInt(z3.Int('at'))
    E.add(z3.And(p.z >= 1, p.z <= n.z))
    E.setattr(sc, 'pos', p)
    return sc, src, n, p


def sub(E, src, a, b):
    return strs.getitem(E, src, slice(a, b))


@harness(HARNESSES, '%tag line', [SC + '_get_tag_bare', SC + 'tag'])
def h_bare(E):
    """The tag is the rest of its line, for any source."""
    bare(E)


def bare(E, lines=False):
    sc, src, n, p = scanner(E)
    C = count(src)
    E.setattr(sc, 'lineno', SymInt(1 + C(p.z)))
    t = E.call_method(sc, '_get_tag_bare', 'if')
    nl = z3.IndexOf(strz(src), z3.StringVal('\n'), p.z)
    last = E.branch(nl < 0)
    end = n if last else SymInt(nl)
    must(E, 'the name', t.attrs['tagname'], 'if')
    body = E.call_method(sub(E, src, p, end), 'rstrip', '\r')
    must(E, 'the rest of the line', t.attrs['body'], body)
    q = E.getattr(sc, 'pos')
    if lines:
        must(E, 'the line of the tag', t.attrs['lineno'], SymInt(1 + C(p.z)))
        if not last:
            # the line ends at the first line end after p
            E.add(z3.And(C(nl) == C(p.z), C(nl + 1) == C(nl) + 1, strs.count(E, body, '\n').z == 0))
            must(E, 'then the next line', E.getattr(sc, 'lineno'), SymInt(1 + C(nl + 1)))
    if last:
        E.ensure('goes on after the source', q.z >= n.z)
    else:
        must(E, 'goes on with the next line', q, SymInt(nl + 1))
    E.reachable('end')


J = z3.Int('any position')


def blank(E, src, i):
    c = strz(sub(E, src, SymInt(i), SymInt(i + 1)))
    return z3.Or(c == z3.StringVal(' '), c == z3.StringVal('\t'))


class Skip(object):
    """Between where it was before the loop and where it is there are only blanks."""
    def __init__(self, src):
        self.src, self.z = src, strz(src)

    def ok(self, E, v, v0):
        a, b = v0.z if isinstance(v0, SymInt) else v0, v.z
        return z3.And(b >= a, b <= z3.Length(self.z), z3.Implies(z3.And(a <= J, J < b), blank(E, self.src, J)))

    def initial(self, E, v, g):
        return isinstance(v, SymInt)

    def value(self, E, g, v0, tag):
        v = SymInt(z3.Int(E.fresh('pos')))
        E.add(self.ok(E, v, v0))
        return v

    def holds(self, E, v, g, v0, outs, rule):
        if not isinstance(v, SymInt):
            return False
        f = self.ok(E, v, v0)
        last = z3.simplify(v.z - 1)
        return all(E.valid(x) or E._cvc5(x) for x in (z3.And(*f.children()[:2]), z3.Implies(J != last, f), blank(E, self.src, last)))


@harness(HARNESSES, '{% %} tag', [SC + '_get_tag', SC + 'tag'])
def h_tag(E):
    """The tag ends at the first %}; -%} drops the blanks after it, and nothing else."""
    sc, src, n, p = scanner(E)
    z = strz(src)

    class H(Spec):
        streams = ()
        couplings = [Skip(src)]

        def step(self, E, g, elem):
            return g, {}
    E.loop_hooks[SC + '_get_tag'] = H()
    E.unroll_limit = 0
    end = z3.IndexOf(z, z3.StringVal('%}'), p.z)
    E.assume(end >= 0)
    E.assume(z3.And(J >= 0, J < z3.Length(z)))
    E.assume(z3.Length(z) > 3)
    t = E.call_method(sc, '_get_tag', 'if')
    body = sub(E, src, p, SymInt(end))
    q = E.getattr(sc, 'pos')
    must(E, 'the name', t.attrs['tagname'], 'if')
    if E.branch(z3.SuffixOf(z3.StringVal('-'), strz(body))):
        must(E, 'its text without the -', t.attrs['body'], sub(E, src, p, SymInt(end - 1)))
        E.ensure('only blanks are dropped', z3.And(q.z >= end + 2, z3.Implies(z3.And(end + 2 <= J, J < q.z), blank(E, src, J))))
        E.ensure('all of them', z3.Not(blank(E, src, q.z)))
    else:
        must(E, 'its text', t.attrs['body'], body)
        must(E, 'goes on after it', q, SymInt(end + 2))
    E.reachable('end')


class Unescape(Spec):
    """What is left of the text after its first i characters is not looked at yet."""
    streams = ('out',)

    def __init__(self, src):
        self.src, self.z = src, strz(src)

    def init(self, E):
        return {'i': 0}

    def arb(self, E):
        self.i = SymInt(z3.Int(E.fresh('i')))
        return {'i': self.i}

    def invariant(self, E, g):
        i = g['i'].z if isinstance(g['i'], SymInt) else z3.IntVal(g['i'])
        return z3.And(i >= 0, i <= z3.Length(self.z))

    def step(self, E, g, elem):
        i = g['i']
        c, d = sub(E, self.src, i, SymInt(i.z + 1)), sub(E, self.src, SymInt(i.z + 1), SymInt(i.z + 2))
        if E.branch(z3.And(strz(c) == z3.StringVal('\\'), i.z + 1 < z3.Length(self.z))):
            return {'i': SymInt(i.z + 2)}, {'out': [] if E.branch(strz(d) == z3.StringVal('\n')) else [d]}
        return {'i': SymInt(i.z + 1)}, {'out': [c]}


@harness(HARNESSES, 'backslashes', [TX + '_unescape_newlines'])
def h_unescape(E):
    """Any text: one character at a time, an escaped one without its backslash, an escaped line end dropped."""
    src = SymStr([Atom('text')])
    spec = Unescape(src)
    E.loop_hooks[TX + '_unescape_newlines'] = spec
    E.unroll_limit = 0
    got = E.drain(E.call(E.get(TX + '_unescape_newlines'), [src], {})).items
    E.ensure('what the characters stand for, in order', len(got) == 1 and isinstance(got[0], Run) and got[0].key[1:] == ('out', 'full'), repr(got))
    E.ensure('up to the end', spec.i.z >= z3.Length(spec.z))
    E.reachable('end')


@harness(HARNESSES, 'tokens to nodes', [TX + '_Parser.text', TX + '_Parser.expr'])
def h_nodes(E):
    """The nodes hold what the tokens hold."""
    auto = bool(E.choose(2, 'autoescape'))
    p = E.call(E.get(TX + '_Parser'), [E.newlist([]), auto], {})
    s = SymStr([Atom('text')])
    u = [SymStr([Atom('u1')]), SymStr([Atom('u2')])]
    seen = []
    E.overrides[TX + '_unescape_newlines'] = lambda I, a, kw: (seen.append(a[0]), I.newlist(u))[1]
    t = E.call(E.get(TX + '_Text'), ['f', 3, s], {})
    n = E.call_method(p, 'text', t)
    must(E, 'text without its backslashes', n.attrs['text'], mkstr(u[0].parts + u[1].parts))
    E.ensure('of this token', len(seen) == 1 and seen[0] is s)
    E.ensure('a static text', n.cls.name == 'TextNode')
    e = E.call_method(p, 'expr', E.call(E.get(TX + '_Expr'), ['f', 4, s], {}))
    E.ensure('an expression', e.cls.name == 'ExprNode')
    must(E, 'its text', e.attrs['text'], s)
    E.ensure('line and file', n.attrs['lineno'] == 3 and e.attrs['lineno'] == 4 and n.attrs['filename'] == 'f' == e.attrs['filename'])
    E.ensure('escaped when asked for', E.truth(e.attrs['safe']) == (not auto))
    E.reachable('end')


@harness(HARNESSES, 'tokens in order', [TX + '_Parser._parse_body', TX + '_Parser.parse'], bound='at most 4 tokens')
def h_body(E):
    """Each token becomes one node, in order."""
    kinds = [E.choose(2, 'token') for i in range(E.choose(5, 'tokens'))]
    toks = [E.call(E.get(TX + ('_Text', '_Expr')[k]), ['f', i + 1, SymStr([Atom('text%d' % i)])], {}) for i, k in enumerate(kinds)]
    nodes = [E.call(E.get('kajiki.ir.Node'), [], {}) for k in kinds]
    for k, m in enumerate(('text', 'expr')):
        E.overrides[TX + '_Parser.' + m] = lambda I, a, kw, k=k: nodes[[i for i, t in enumerate(toks) if t is a[1] and kinds[i] == k][0]]
    p = E.call(E.get(TX + '_Parser'), [E.newlist(toks)], {})
    t = E.call_method(p, 'parse')
    defs = [d for d in E.iterate(t.attrs['body']) if d.cls.name == 'DefNode']
    E.ensure('one function', len(defs) == 1 and defs[0].attrs['decl'] == '__main__()')
    body = [x for x in E.iterate(defs[0].attrs['body']) if x.cls.name != 'PassNode']
    E.ensure('their nodes in order', len(body) == len(nodes) and all(x is y for x, y in zip(body, nodes)), repr(body))
    E.reachable('end')
