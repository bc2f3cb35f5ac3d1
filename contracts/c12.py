"""C12: elements are written with the right tags for the rendering mode."""
from .lib import *  # noqa
from .lib import harness, instance, must, Stage, esc
from .dom import Dom, X, plain, pure

HARNESSES = []
VOID = ('area', 'base', 'br', 'col', 'hr', 'img', 'input', 'link', 'meta', 'param')
CX = X + '_Compiler._compile_xml'


def tag_name(E, name='tag', kind=None):
    """An arbitrary element name that is no directive: void, script, or another."""
    k = E.choose(3, 'kind of element') if kind is None else kind
    z = z3.String(name)
    t = SymStr([Atom(name)])
    void = z3.Or(*[z == z3.StringVal(v) for v in VOID])
    if k == 0:
        E.assume(void)
    elif k == 1:
        return 'script', 'script'
    else:
        E.assume(z3.Not(void))
        for x in ('script', 'style'):
            E.assume(z != z3.StringVal(x))
        E.assume(z3.Not(z3.PrefixOf(z3.StringVal('py:'), z)))
    return t, ('void', 'script', 'other')[k]


def element(mode, kind, tag, attrs, content):
    """Specification: the texts before and after the content, as parts."""
    html = mode in ('html', 'html5')
    start = ['<', tag] + attrs
    if content:
        return start + ['>'], ([] if html and kind == 'void' else ['</', tag, '>'])
    if kind == 'script':
        return start + ['></', tag, '>'], []
    if not html:
        return start + ['/>'], []
    return start + (['>'] if kind == 'void' else ['></', tag, '>']), []


def h_element(E, mode):
    """Any element name, 0 to 2 arbitrary children, with and without py:strip and an attribute."""
    S = Stage(E)
    D = Dom(E, S)
    n = E.choose(3, 'children')
    tag, kind = tag_name(E, kind=None if n == 0 else (0, 2)[E.choose(2, 'kind')])
    strip = E.choose(3, 'py:strip') if n < 2 else 0
    at = []
    if n == 1:
        at.append(('class', plain(E, 'cls')))
    if strip:
        at.append(('py:strip', '' if strip == 1 else S.H.expr('COND', pure('cond', ('none', 'true', 'str')))))
    e = D.el(tag, at, *[D.hole('ABC'[i]) for i in range(n)])
    D.doc(D.el('div', (), e, D.text('t')))
    r = S.render(D.compile(mode=mode, is_fragment=True))
    from .c02 import attr
    a, b = element(mode, kind, tag, list(parts_of(attr(E, 'class', SymStr([Atom('cls')])))) if n == 1 else [], n > 0)
    stripped = strip == 1 or (strip == 2 and E.truth(S.value('COND')))
    if stripped:
        a = b = []
    S.check('start tag, content, end tag', r, *(['<div>'] + a + [S.out('ABC'[i]) for i in range(n)] + b + ['t</div>']))
    E.reachable('end')


for m in ('xml', 'html', 'html5'):
    harness(HARNESSES, 'element, mode ' + m, [CX, X + '_Compiler._compile_node'], bound='at most 2 children')(lambda E, m=m: h_element(E, m))


@harness(HARNESSES, 'py:content', [CX, X + '_Compiler._compile_node'])
def h_content(E):
    """Any element name in any mode, with an arbitrary value in place of its content, with and without py:strip."""
    S = Stage(E)
    D = Dom(E, S)
    mode = ('xml', 'html', 'html5')[E.choose(3, 'mode')]
    tag, kind = tag_name(E)
    strip = E.choose(3, 'py:strip')
    at = [('py:content', 'v')]
    if strip:
        at.append(('py:strip', '' if strip == 1 else S.H.expr('COND', pure('cond', ('none', 'true', 'str')))))
    D.doc(D.el('div', (), D.el(tag, at, *([D.hole('A')] if E.choose(2, 'children') else [])), D.text('t')))
    v = SymStr([Atom('V')])
    r = S.render(D.compile(mode=mode, is_fragment=True), [('v', v)])
    a, b = element(mode, kind, tag, [], True)
    if strip == 1 or (strip == 2 and E.truth(S.value('COND'))):
        a = b = []
    S.check('start tag, value, end tag', r, *(['<div>'] + a + [esc(E, v)] + b + ['t</div>']))
    E.reachable('end')


class Children(Spec):
    """What the children compile to, in order."""
    streams = ('ir',)

    def step(self, E, g, elem):
        return g, {'ir': [elem.ir]}


def any_children(E, D):
    """Any number of arbitrary children: each compiles to one arbitrary node."""
    def elem(E, h):
        c = D.make('createElement', 'hole')
        c.ir = E.call(E.get('kajiki.ir.Node'), [], {})
        c.ir.attrs['lineno'] = 1
        D.holes[c.id] = c.ir
        return c
    return SymSeq(E, 'children', elem, Children())


def texts(E, items):
    """Static texts and everything else, in order; the guard of each text."""
    out = []
    for x in items:
        if isinstance(x, PyObj) and x.cls.name == 'TextNode':
            out.append((x.attrs['text'], x.attrs['guard']))
        else:
            out.append(x)
    return out


@harness(HARNESSES, 'any number of children', [CX, X + 'annotate.inner'])
def h_many(E):
    S = Stage(E)
    D = Dom(E, S)
    mode = ('xml', 'html', 'html5')[E.choose(3, 'mode')]
    tag, kind = tag_name(E)
    if kind == 'script':
        return
    e = D.el(tag, ())
    seq = any_children(E, D)
    e.attrs['childNodes'] = seq
    D.doc(e)
    c = D.compiler(mode=mode)
    got = E.drain(E.call_method(c, '_compile_xml', e))
    n = E.seq_len(seq)
    r = Run(('children', 'ir', 'full'))
    items = texts(E, got.items)
    if E.branch(n > 0):
        want = [(mkstr(['<'] + list(parts_of(tag))), None), ('>', None), r]
        if not (mode != 'xml' and kind == 'void'):
            want.append((mkstr(['</'] + list(parts_of(tag)) + ['>']), None))
        E.ensure('start tag, what the children compile to in order, end tag', E.items_formula(items, want) if len(items) == len(want) else False, '%r, specified %r' % (items, want))
    else:
        E.ensure('no content', not any(x == r for x in items if isinstance(x, Run)))
    E.reachable('end')


def body_of_script(E, D, which):
    return [D.text(SymStr(list(parts_of(xesc(E, plain(E, 'J')))))), D.text('<![CDATA[', cdata=True), D.text(SymStr([plain(E, 'K').parts[0]]), escaped=False), D.text(']]>', cdata=True)][which]


def xesc(E, s):
    """Specification of xml.sax.saxutils.escape: & < > replaced by entities."""
    out = []
    for p in parts_of(s):
        out.append(''.join({'&': '&amp;', '<': '&lt;', '>': '&gt;'}.get(c, c) for c in p) if isinstance(p, str) else strs.mapped(p, {'&': '&amp;', '<': '&lt;', '>': '&gt;'}))
    return mkstr(out)


@harness(HARNESSES, 'script and style', [CX, X + '_Compiler._compile_text', 'kajiki.entities.unescape'])
def h_script(E):
    """Arbitrary script text, escaped by the parser or in a CDATA section."""
    S = Stage(E)
    D = Dom(E, S)
    mode = ('xml', 'html', 'html5')[E.choose(3, 'mode')]
    tag = ('script', 'style')[E.choose(2, 'element')]
    how = E.choose(4, 'content')
    J, K = plain(E, 'J'), plain(E, 'K')
    a = D.text(xesc(E, J))
    cd = [D.text('<![CDATA[', cdata=True), D.text(K, escaped=False), D.text(']]>', cdata=True)]
    kids = [[a], cd, [a] + cd, cd + [a]][how]
    want = [[J], [K], [J, K], [K, J]][how]
    D.doc(D.el(tag, (), *kids))
    auto = E.choose(2, 'cdata_scripts') == 0
    if not auto and how == 0:
        want = [xesc(E, J)]
    elif not auto:
        return
    r = S.render(D.compile(mode=mode, is_fragment=True, cdata_scripts=auto))
    wrap = auto and mode == 'xml'
    S.check('unescaped, in a CDATA comment in xml mode only', r, *(['<', tag, '>'] + (['/*<![CDATA[*/'] if wrap else []) + want + (['/*]]>*/'] if wrap else []) + ['</', tag, '>']))
    E.reachable('end')


@harness(HARNESSES, 'comments and CDATA', [X + '_Compiler._compile_comment', CX, X + '_Compiler._compile_text'])
def h_comment(E):
    """Arbitrary comment; arbitrary CDATA section between arbitrary neighbours."""
    S = Stage(E)
    D = Dom(E, S)
    mode = ('xml', 'html')[E.choose(2, 'mode')]
    c = SymStr([Atom('comment')])
    d = plain(E, 'D')
    E.assume(z3.Length(d.z) > 0)
    D.doc(D.el('p', (), D.hole('A'), D.comment(c), D.hole('B'), D.text('<![CDATA[', cdata=True), D.text(d, escaped=False), D.text(']]>', cdata=True), D.hole('C')))
    r = S.render(D.compile(mode=mode, is_fragment=True))
    secret = E.branch(z3.PrefixOf(z3.StringVal('!'), c.z))
    S.check('kept, except comments that start with !', r, *(['<p>', S.out('A')] + ([] if secret else ['<!-- ', c, ' -->']) + [S.out('B'), '<![CDATA[', d, ']]>', S.out('C'), '</p>']))
    E.reachable('end')
