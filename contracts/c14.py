"""C14: directive attributes and directive elements."""
from .lib import *  # noqa
from .lib import harness, instance, must, Stage, esc
from .dom import Dom, X, plain, pure

HARNESSES = []
TR = X + '_DomTransformer.'
ORDER = ('def', 'call', 'case', 'else', 'for', 'if', 'switch', 'with', 'replace', 'block')
ATTR = {'def': 'function', 'call': 'function', 'case': 'value', 'else': '', 'for': 'each', 'if': 'test', 'switch': 'test', 'with': 'vars', 'replace': 'value', 'block': 'name'}


def value(d):
    return SymStr([Atom('v(%s)' % d)])


def shape(E, n):
    """A subtree as nested tuples; py:nop elements are transparent."""
    tag = n.attrs.get('tagName')
    if tag is None:
        return [('text', n.attrs.get('data'))]
    kids = [x for c in (n.attrs['childNodes'].items if isinstance(n.attrs['childNodes'], PyList) else ()) for x in shape(E, c)]
    at = n.attrs['_attrs']
    attrs = [(k, v) for k, v in at.entries if v is not ABSENT]
    if tag == 'py:nop' and not attrs:
        return kids
    return [(tag, attrs, kids)]


def same(E, a, b):
    """Formula: the same tree."""
    if len(a) != len(b):
        return False
    fs = []
    for x, y in zip(a, b):
        if x[0] != y[0] or len(x) != len(y):
            return False
        if x[0] == 'text':
            fs.append(E.formula(x[1], y[1]))
            continue
        if sorted(k for k, v in x[1]) != sorted(k for k, v in y[1]):
            return False
        if [k for k, v in x[1] if k[:3] != 'py:'] != [k for k, v in y[1] if k[:3] != 'py:']:
            return False
        dy = dict(y[1])
        fs += [E.formula(v, dy[k]) for k, v in x[1]]
        fs.append(same(E, x[2], y[2]))
    if any(f is False for f in fs):
        return False
    return z3.And([f for f in fs if f is not True]) if any(f is not True for f in fs) else True


def expand(E, D, *nodes):
    D.doc(*nodes)
    E.call_method(E.get(X + '_DomTransformer'), '_expand_directives', D.d)
    return [x for c in D.d.attrs['childNodes'].items for x in shape(E, c)]


def wrap(ds, inner):
    for d in reversed(ds):
        inner = [('py:' + d, [(ATTR[d], value(d))] if ATTR[d] else [], inner)]
    return inner


def h_subsets(E, first, order):
    """Every set of directive attributes, in several written orders, on an element with any other attributes."""
    ds = [ORDER[first]] + [d for d in ORDER[first + 1:] if E.choose(2, d)]
    written = {0: ds, 1: ds[::-1], 2: ds[1::2] + ds[::2]}[order]
    at = [('py:' + d, value(d) if ATTR[d] else '') for d in written]
    k = len(at) // 2
    at = [('a', SymStr([Atom('A')]))] + at[:k] + [('py:strip', SymStr([Atom('S')])), ('b', SymStr([Atom('B')]))] + at[k:]
    D = Dom(E)
    got = expand(E, D, D.el('x', at, D.text(SymStr([Atom('T')])), D.el('y')))
    want = wrap(ds, [('x', [('a', SymStr([Atom('A')])), ('py:strip', SymStr([Atom('S')])), ('b', SymStr([Atom('B')]))], [('text', SymStr([Atom('T')])), ('y', [], [])])])
    E.ensure('the elements around it, in the documented order', same(E, got, want), '%r instead of %r' % (got, want))
    E.reachable('end')


for o, what in enumerate(('as documented', 'reversed', 'mixed')):
    for f in range(10):
        harness(HARNESSES, 'directive attributes written %s, outermost %s' % (what, ORDER[f]), [TR + '_expand_directives'])(lambda E, f=f, o=o: h_subsets(E, f, o))


def kid(E, D, i, k):
    if k == 0:
        return D.text('t%d' % i), [('text', 't%d' % i)]
    if k == 1:
        return D.el('k%d' % i), [('k%d' % i, [], [])]
    if k == 2:
        return D.el('k%d' % i, (('py:if', value('if')), ('py:for', value('for')))), wrap(['for', 'if'], [('k%d' % i, [], [])])
    return (D.el('k%d' % i, (('py:with', value('with')),), D.el('m', (('py:else', ''),))),
            wrap(['with'], [('k%d' % i, [], wrap(['else'], [('m', [], [])]))]))


@harness(HARNESSES, 'directives on several children', [TR + '_expand_directives'], bound='3 children, 2 levels')
def h_children(E):
    """Each child keeps its place; siblings are linked as they appear."""
    D = Dom(E)
    ks = [E.choose(4, 'child %d' % i) for i in range(3)]
    inside = E.choose(2, 'on the parent')
    kids = [kid(E, D, i, k) for i, k in enumerate(ks)]
    top = D.el('x', (('py:block', value('block')),) if inside else (), *[k[0] for k in kids])
    got = expand(E, D, top)
    want = [('x', [], [y for k in kids for y in k[1]])]
    want = wrap(['block'], want) if inside else want
    E.ensure('each in its place', same(E, got, want), '%r instead of %r' % (got, want))
    prev = None
    for c in top.attrs['childNodes'].items:
        E.ensure('sibling links follow the order', c.attrs.get('previousSibling') is prev and c.attrs.get('parentNode') is top)
        prev = c
    E.reachable('end')


@harness(HARNESSES, 'a directive element', [TR + '_expand_directives'])
def h_element(E):
    """The element form is the same tree, with and without further directive attributes on it."""
    d = ORDER[E.choose(10, 'directive')]
    e = ORDER[E.choose(10, 'inner')]
    D = Dom(E)
    at = [(ATTR[d], value(d))] if ATTR[d] else []
    inner = ('py:' + e, value(e) if ATTR[e] else '')
    k = E.choose(3, 'where')
    if k == 0:          # <d><x e=""/></d>
        got = expand(E, D, D.el('py:' + d, at, D.el('x', [inner])))
        want = wrap([d, e], [('x', [], [])])
    elif k == 1:        # <d><e><x/></e></d>
        got = expand(E, D, D.el('py:' + d, at, D.el('py:' + e, [(ATTR[e], value(e))] if ATTR[e] else [], D.el('x'))))
        want = wrap([d, e], [('x', [], [])])
    else:               # <d e=""><x/></d>: the attribute joins the element
        if d == e:
            return
        got = expand(E, D, D.el('py:' + d, at + [inner], D.el('x')))
        want = wrap(sorted([d, e], key=ORDER.index), [('x', [], [])])

    def clean(ts):
        return [t if t[0] == 'text' else (t[0], [(k, v) for k, v in t[1]], clean(t[2])) for t in ts]

    def drop(ts):
        """py:nop keeps the attributes it had as an element: they mean nothing"""
        out = []
        for t in ts:
            if t[0] == 'py:nop':
                out += drop(t[2])
            else:
                out.append(t if t[0] == 'text' else (t[0], t[1], drop(t[2])))
        return out
    E.ensure('the same tree', same(E, drop(clean(got)), want), '%r instead of %r' % (got, want))
    E.reachable('end')


def code(E, D, S):
    """The code generated for the document."""
    S.n = 0
    ir = E.call_method(E.call(E.get(X + '_Compiler'), ['t', D.transform()], {}), 'compile')
    gen = E.call(E.get('kajiki.ir.generate_python'), [ir], {})
    return [E.str_(x) for x in E.drain(gen).items]


SINGLE = [d for d in ORDER if d not in ('case', 'switch', 'else')]


def h_code(E, d):
    """Attribute and element form generate the same code, alone and with a second directive inside or around."""
    S = Stage(E)
    e = (None,) + tuple(x for x in SINGLE if ORDER.index(x) > ORDER.index(d))
    e = e[E.choose(len(e), 'second')]
    txt = {'def': 'f(a)', 'call': 'g(x)', 'for': 'i in s', 'with': 'a=1', 'block': 'n'}
    vals = {x: txt.get(x) or S.H.expr('v(%s)' % x) for x in ORDER}
    hole = S.body('body')
    got = []
    for form in (0, 1):
        D = Dom(E, S)
        h = D.make('createElement', 'hole')
        D.holes[h.id] = hole
        ds = [d] + ([e] if e else [])
        if form == 0:
            n = D.el('x', [('py:' + q, vals[q]) for q in reversed(ds)] + [('k', '1')], h)
        else:
            n = D.el('x', (('k', '1'),), h)
            for q in reversed(ds):
                n = D.el('py:' + q, ((ATTR[q], vals[q]),), n)
        D.doc(D.el('root', (), n))
        got.append(code(E, D, S))
    E.ensure('as much code', len(got[0]) == len(got[1]), '%r instead of %r' % tuple(got))
    for a, b in zip(*got):
        must(E, 'the same code', a, b)
    E.reachable('end')


for d in SINGLE:
    harness(HARNESSES, 'code for py:%s' % d, [TR + '_expand_directives', X + '_Compiler._compile_' + d])(lambda E, d=d: h_code(E, d))


@harness(HARNESSES, 'code for py:switch, py:case, py:else', [X + '_Compiler._compile_switch', X + '_Compiler._compile_case', X + '_Compiler._compile_else'])
def h_switch(E):
    """case and else as attributes of elements in a switch; else after an if."""
    S = Stage(E)
    v, c = S.H.expr('v'), S.H.expr('c')
    k = E.choose(2, 'if or switch')
    b = [S.body('b1'), S.body('b2')]
    got = []
    for form in (0, 1):
        D = Dom(E, S)
        hs = []
        for i in (0, 1):
            h = D.make('createElement', 'hole')
            D.holes[h.id] = b[i]
            hs.append(h)
        one = 'case' if k else 'if'
        if form == 0:
            ns = [D.el('x', (('py:' + one, c),), hs[0]), D.el('y', (('py:else', ''),), hs[1])]
        else:
            ns = [D.el('py:' + one, ((ATTR[one], c),), D.el('x', (), hs[0])), D.el('py:else', (), D.el('y', (), hs[1]))]
        if k:
            ns = [D.el('py:switch', (('test', v),), *ns)]
        D.doc(D.el('root', (), *ns))
        got.append(code(E, D, S))
    E.ensure('as much code', len(got[0]) == len(got[1]), '%r instead of %r' % tuple(got))
    for x, y in zip(*got):
        must(E, 'the same code', x, y)
    E.reachable('end')
