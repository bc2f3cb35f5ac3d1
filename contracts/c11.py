"""C11: every static text is translated as a whole, and exactly what was extracted."""
from .lib import *  # noqa
from .lib import harness, instance, must, Stage, esc
from .dom import Dom, X, plain, pure
from .c12 import xesc

HARNESSES = []
DT = X + '_DomTransformer.'
T = 'kajiki.template._Template.'


def translator(E, log):
    """An arbitrary translation function of the caller."""
    def gettext(I, a, kw):
        log.append(a[0])
        return SymStr([Atom('tr%d' % len(log))])
    return Host('gettext', gettext)


def pieces(E, t):
    """(space, message, space) of a text."""
    s = xesc(E, t)
    if isinstance(s, str):
        c = s.strip()
        i = s.index(c) if c else len(s)
        return s[:i], c, s[i + len(c):]
    core = strs.strip(E, s, 'strip', None)
    l, c, r = strs.expand(E, s).parts
    return SymStr([l]), core, SymStr([r])


def document(E, D, S, which):
    """A document with texts in all positions; -> (root, [('msg', text) | ('out', text)])"""
    A, B, C = plain(E, 'A'), plain(E, 'B'), plain(E, 'C')
    if which == 0:      # around an element and a directive
        D.doc(D.el('p', (), D.text(xesc(E, A)), D.el('i', (('title', 'no message'),), D.text(xesc(E, B))), D.el('py:if', {'test': 'True'}, D.text(xesc(E, C)))))
        return ['<p>', A, '<i title="no message">', B, '</i>', C, '</p>'], [A, B, C]
    if which == 1:      # comments split texts, CDATA is text
        D.doc(D.el('p', (), D.text(xesc(E, A)), D.comment('c'), D.text('<![CDATA[', cdata=True), D.text('k', escaped=False), D.text(']]>', cdata=True), D.text(xesc(E, B))))
        return ['<p>', A, '<!-- c -->', '<![CDATA[', 'k', ']]>', B, '</p>'], [A, 'k', B]
    if which == 2:      # script and style are never translated
        D.doc(D.el('div', (), D.el('script', (), D.text(xesc(E, A))), D.el('style', (), D.text('a {}')), D.text(xesc(E, C))))
        return ['<div><script>', ('raw', A), '</script><style>', 'a {}', '</style>', C, '</div>'], [C]
    if which == 3:      # text split by the parser is one message, text split by an expression is two
        D.doc(D.el('p', (), D.text(xesc(E, A)), D.text('&amp;'), D.text('x')), )
        return ['<p>', ('joined', [xesc(E, A), '&amp;x']), '</p>'], [('joined', [xesc(E, A), '&amp;x'])]
    D.doc(D.el('p', (), D.text('m ${1} n')))
    return ['<p>', ('msg', 'm '), '1', ('msg', ' n'), '</p>'], [('msg', 'm '), ('msg', ' n')]


def split3(E, x):
    if isinstance(x, tuple) and x[0] == 'msg':
        return '', x[1], ''
    if isinstance(x, tuple):
        s = mkstr([q for t in x[1] for q in parts_of(t)])
        c = strs.strip(E, s, 'strip', None)
        # leading space of a text that ends in a character: expand, everything before the core
        whole = list(strs.expand(E, s).parts)
        k = len(whole) - len(parts_of(c))
        return mkstr(whole[:k]), c, ''
    return pieces(E, x)


def run(E, which, mode='html'):
    S = Stage(E)
    D = Dom(E, S)
    want, msgs = document(E, D, S, which)
    log = []
    r = S.render(D.compile(mode=mode, is_fragment=True), [('gettext', translator(E, log))])
    out, looked = [], []
    messages = []
    for w in want:
        if isinstance(w, str) and w not in msgs:
            out.append(w)
        elif isinstance(w, tuple) and w[0] == 'raw':
            out.append(w[1])
        else:
            l, c, rr = split3(E, w)
            if isinstance(c, SymStr) and E.branch(z3.Sum([E.atom_len(p) for p in c.parts]) == 0) or c == '':
                out += [l, rr]
            else:
                messages.append(c)
                out += [l, SymStr([Atom('tr%d' % len(messages))]), rr]
    return S, D, r, out, log, messages


def h_translate(E, which):
    S, D, r, out, log, messages = run(E, which)
    E.ensure('each text is looked up once, in order, without its surrounding space', len(log) == len(messages) and E.zand([E.formula(a, b) for a, b in zip(log, messages)]), '%r, specified %r' % (log, messages))
    S.check('its translation appears in its place, the space around it is kept', r, *out)
    E.reachable('end')


def h_extract(E, which):
    """The messages looked up when rendering are those extraction reports for the same document."""
    S, D, r, out, log, messages = run(E, which, 'xml')
    D2 = Dom(E, S)
    document(E, D2, S, which)
    E.overrides[X + '_Parser.__init__'] = lambda I, a, kw: None
    E.overrides[X + '_Parser.parse'] = lambda I, a, kw: D2.d
    f = PyObj(E, E.opaque_class('stand-in'), name='file')
    E.registry[f.id] = f
    f.attrs['read'] = Host('read', lambda I, a, kw: 'source')
    got = E.drain(E.call(E.get('kajiki.i18n.extract'), [f, E.newlist([]), None, PyDict(E, [])], {}))
    msgs = [x[2] for x in got.items]
    # looked up and extracted, as sets: the order of functions may differ
    E.ensure('as many messages as were looked up', len(msgs) == len(log), '%r, looked up %r' % (msgs, log))
    for m in log:
        E.ensure('what is looked up was extracted', any(E.valid(f) if not isinstance(f, bool) else f for f in [E.formula(m, x) for x in msgs]), '%r not among %r' % (m, msgs))
    for x in msgs:
        E.ensure('what is extracted is looked up', any(E.valid(f) if not isinstance(f, bool) else f for f in [E.formula(m, x) for m in log]), '%r not among %r' % (x, log))
    E.reachable('end')


for w, what in enumerate(('elements and directives', 'comments and CDATA', 'script and style', 'split text', 'expressions')):
    harness(HARNESSES, 'translation: ' + what, [T + '_gettext', 'kajiki.ir.TranslatableTextNode.py' if w != 9 else '', DT + '_extract_nodes_leading_and_trailing_spaces', X + 'make_text_node'])(lambda E, w=w: h_translate(E, w))
    harness(HARNESSES, 'extraction: ' + what, ['kajiki.i18n.extract'])(lambda E, w=w: h_extract(E, w))


@harness(HARNESSES, 'identity translation', ['kajiki.i18n.gettext', T + '_gettext'])
def h_identity(E):
    S = Stage(E)
    D = Dom(E, S)
    A = plain(E, 'A')
    D.doc(D.el('p', (), D.text(xesc(E, A))))
    r = S.render(D.compile(mode='xml', is_fragment=True))
    S.check('without a translation function the text itself', r, '<p>', xesc(E, A), '</p>')
    E.reachable('end')


@harness(HARNESSES, '_gettext', [T + '_gettext'])
def h_gettext(E):
    """The translation function in force is the one of the context, at the time of the call."""
    t = instance(E)
    log = []
    g = PyDict(E, [['gettext', translator(E, log)]])
    E.registry[g.id] = g
    t.attrs['__globals__'] = g
    m = SymStr([Atom('M')])
    r = E.call_method(t, '_gettext', m)
    E.ensure('called once with the message', len(log) == 1 and E.same(log[0], m))
    must(E, 'gives its result', r, SymStr([Atom('tr1')]))
    E.reachable('end')
