"""C05: $ expressions in XML templates."""
from .lib import *  # noqa
from .lib import harness, instance, must, Stage, esc
from .dom import Dom, X, plain, pure

HARNESSES = []
TC = X + '_TextCompiler.'


def piece(E, S, i, kind):
    """(source text, what it stands for, whether it is an expression)"""
    nm = 'ABCD'[i]
    if kind == 0:
        return plain(E, nm), plain(E, nm)
    if kind == 1:
        return '$$', '$'
    if kind == 2:
        return '$x%d.y|' % i, ['esc', SymStr([Atom('X%d' % i)]), '|']
    if kind == 3:
        h = S.H.expr('e%d' % i, lambda E: SymStr([Atom('V%d' % i)]))
        if i == 0:
            E.cache[('opaque', 'e0')] = True       # may hold anything, also text that looks like $name
        else:
            E.cache[('lacks', 'e%d' % i)] = '$'
        return SymStr(['${'] + list(h.parts) + ['}']), ['esc', SymStr([Atom('V%d' % i)]), '']
    return '$|', '$|'


def context(E):
    out = []
    for i in range(4):
        o = PyObj(E, E.opaque_class('obj'), name='x%d' % i)
        E.registry[o.id] = o
        o.attrs['y'] = SymStr([Atom('X%d' % i)])
        out.append(('x%d' % i, o))
    return out


def build(E, S, n, first):
    src, want = [], []
    for i in range(n):
        s, w = piece(E, S, i, first if i == 0 else E.choose(5, 'piece'))
        src += list(parts_of(s))
        want.append(w)
    return mkstr(src), want


def h_text(E, first, where):
    """Text made of up to 3 pieces, in an element or in an attribute."""
    S = Stage(E)
    D = Dom(E, S)
    n = 1 + E.choose(3, 'pieces')
    src, want = build(E, S, n, first)
    if where == 0:
        D.doc(D.el('p', (), D.text(src)))
    else:
        D.doc(D.el('p', (('a', mkstr(['k'] + list(parts_of(src)))),)))
    r = S.render(D.compile(mode='xml', is_fragment=True), context(E))
    out = []
    for w in want:
        if isinstance(w, list):
            out += [esc(E, w[1]), w[2]]
        else:
            out.append(w if where == 0 else esc(E, w))
    S.check('expressions replaced by their value, everything else in its place', r, *(['<p>'] + out + ['</p>'] if where == 0 else ['<p a="k'] + out + ['"/>']))
    E.reachable('end')


for f, what in enumerate(('text', '$$', '$name', '${expression}', 'lone $')):
    for w, place in enumerate(('text', 'attribute')):
        harness(HARNESSES, '%s made of pieces, starting with %s' % (place, what), [TC + '__iter__', TC + 'text'] + ([TC + '_get_braced_expr', TC + 'expr'] if f in (3,) else []),
                bound='at most 3 pieces; texts and expressions arbitrary')(lambda E, f=f, w=w: h_text(E, f, w))


CASES = ["{'a': {1: '}'}}['a'][1]", "'}' + \"${a}\"", '"""}"""', 'f(x, {})[0]', '{1}', 'x if {} else y', "'$' + '$x'", 'a[{1: 2}[1]]', " x ", "'a' '}'"]


@harness(HARNESSES, 'braces and quotes inside expressions', [TC + '_get_braced_expr'], bound='10 expressions')
def h_braces(E):
    """Concrete expressions between arbitrary texts."""
    for e in CASES:
        S = Stage(E)
        D = Dom(E, S)
        tc = E.call(E.get(X + '_TextCompiler'), ['f', 'a${' + e + '}b$$', 1], dict(compiler_instance=D.compiler()))
        got = E.drain(E.call_method(tc, '__iter__')).items
        E.ensure('the expression up to its own brace', [x.cls.name for x in got][:1] == ['TranslatableTextNode'] and [x.attrs['text'] for x in got] == ['a', e.strip() if e[0] == ' ' and 0 else e.lstrip(), 'b', '$'], '%r: %r' % (e, [x.attrs['text'] for x in got]))
    E.reachable('end')


@harness(HARNESSES, 'invalid expressions', [TC + '_get_braced_expr'], bound='10 sources')
def h_invalid(E):
    """Rejected with a compile error."""
    D = Dom(E)
    for src in ('${', '${a', 'x ${a +} y', '${}', '${"a}', '${a b}', '${a]}', '${(}', 'a ${1', '${x[}'):
        tc = E.call(E.get(X + '_TextCompiler'), ['f', src, 1], dict(compiler_instance=D.compiler()))
        try:
            E.drain(E.call_method(tc, '__iter__'))
            bad = 'accepted'
        except PyExc as e:
            bad = getattr(e.value.cls, 'name', '?')
        E.ensure('a compile error', bad == 'XMLTemplateCompileError', '%r: %s' % (src, bad))
    E.reachable('end')


ALTS = [(None, r'\$\$', False),
        ('expr_named', r'\$(?P<expr_named>[_a-z][_a-z0-9]*(?:\.[_a-z][_a-z0-9]*)*)', False),
        ('expr_braced', r'\$\{(?P<expr_braced>)', False)]


def dollar(t):
    """Runtime contracts for a text on which the pattern differs."""
    ctx = {'a': ['s', 'A<'], 'b': ['s', 'B'], 'x': ['s', 'X'], '_': ['s', 'U'], 'ab': ['s', 'AB'], 'a1': ['s', 'A1'], 'xa': ['s', 'XA'], 'x1': ['s', 'X1']}
    for text in (t, t + 'a', t + ' b', t + '}', t + 'a}', '-' + t):
        for place in ('text', 'attr'):
            yield dict(property='C05', kind='xmldollar', args=dict(text=text, ctx=ctx, place=place))


@harness(HARNESSES, 'scanner: any text', [TC + '__iter__', TC + 'text', TC + 'expr'])
def h_scan(E):
    """Any text and any matches of the pattern in it: every character is in exactly one node, in order."""
    scan(E)


def scan(E, lines=False):
    from .scan import Scan, matches, Shape, lines as count
    src = SymStr([Atom('source')])
    n = E.str_len(src)
    cur = []
    safe = bool(E.choose(2, 'in an attribute'))

    C = count(src)
    first = SymInt(z3.Int('first line'))

    def at(cls, pos, **kw):
        return Shape(cls, **dict(kw, **({'lineno': SymInt(first.z + C(pos.z))} if lines else {})))

    def text(t, start, end):
        return at('TextNode', start, text=t)

    def oneline(E, m):
        E.add(z3.And(C(m.end.z) == C(m.start.z), C(m.start.z + 1) == C(m.start.z)))       # neither $$ nor $name nor ${ holds a line end
        return m.end

    def named(E, m):
        return strs.getitem(E, src, slice(SymInt(m.start.z + 1), m.end))

    def braced(E, m):
        q = SymInt(z3.Int(m.h + '.after'))
        E.add(z3.And(q.z >= m.end.z, q.z <= n.z))
        m.obj = instance(E, 'kajiki.ir.ExprNode')
        oneline(E, m)
        return q, lambda m: m.obj
    kinds = [(None, None, lambda E, m: (oneline(E, m), lambda m: text('$', m.start, m.end))),
             ('expr_named', named, lambda E, m: (oneline(E, m), lambda m: at('ExprNode', m.start, text=m.group_text, safe=safe))),
             ('expr_braced', '', braced)]
    spec = Scan(text, src, n.z, 0 if lines else None)
    E.inputs['regex'] = lambda I, o, what, s, a: matches(E, src, kinds, ('expr_named', 'expr_braced'), spec, cur, o, ALTS, dollar) if what == 'finditer' and s is src else NotImplemented

    def callee(I, a, kw):
        m = cur[0]
        E.ensure('only for ${', m.kind == 'expr_braced')
        must(E, 'reads from the end of ${', I.getattr(a[0], 'pos'), m.end)
        if lines:
            must(E, 'knows its line', I.getattr(a[0], 'real_lineno'), SymInt(first.z + C(m.end.z)))
            I.setattr(a[0], 'lineno', SymInt(C(m.after.z)))
        I.setattr(a[0], 'pos', m.after)
        return m.obj
    E.overrides[TC + '_get_braced_expr'] = callee
    D = Dom(E)
    make = Host('node_type', lambda I, a, kw: I.call(I.get('kajiki.ir.TextNode'), [a[0]], {}))
    tc = E.call(E.get(X + '_TextCompiler'), ['f', src, first, make, safe], dict(compiler_instance=D.compiler()))
    got = E.drain(E.call_method(tc, '__iter__')).items
    r = Run(('matches', 'out', 'full'))
    want = [r, text(strs.getitem(E, src, slice(spec.p, None)), spec.p, n)] if E.branch(spec.p.z < n.z) else [r]
    if len(got) == 2 and len(want) == 1:
        want = [r, Shape('TextNode', text='')]
    E.ensure('the nodes of the matches, then the rest of the text', len(got) == len(want) and E.items_formula(got, want), '%r, specified %r' % (got, want))
    E.reachable('end')
