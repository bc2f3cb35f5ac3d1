"""C13: static text of XML templates is preserved character for character."""
import html.entities
from .lib import *  # noqa
from .lib import harness, instance, must, Stage, esc
from .dom import Dom, X, plain, pure
from .c12 import xesc

HARNESSES = []
P = X + '_Parser.'


def parser(E, D):
    p = instance(E, X[:-1] + '._Parser')
    p.attrs['_doc'] = D.d
    el = D.el('p', ())
    if E.choose(2, 'earlier children'):
        E.call_method(el, 'appendChild', D.text('before'))
    p.attrs['_els'] = E.newlist([D.d, el])
    p.attrs['_cdata_stack'] = E.newlist([])
    loc = PyObj(E, E.opaque_class('stand-in'), name='expat')
    E.registry[loc.id] = loc
    loc.attrs['getLineNumber'] = Host('getLineNumber', lambda I, a, kw: 7)
    p.attrs['_parser'] = loc
    return p, el


@harness(HARNESSES, 'characters', [P + 'characters', P + 'startCDATA', P + 'endCDATA'])
def h_characters(E):
    """Any text the XML parser reports, inside and outside CDATA: appended with & < > as entities, or as it is."""
    D = Dom(E)
    p, el = parser(E, D)
    n0 = len(el.attrs['childNodes'].items)
    cdata = E.choose(2, 'in CDATA')
    t = SymStr([Atom('T')])
    if cdata:
        E.call_method(p, 'startCDATA')
    E.call_method(p, 'characters', t)
    if cdata:
        E.call_method(p, 'endCDATA')
    new = el.attrs['childNodes'].items[n0:]
    datas = [x.attrs['data'] for x in new]
    want = ['<![CDATA[', t, ']]>'] if cdata else [xesc(E, t)]
    E.ensure('one text node after what was there, markers around a CDATA section', len(datas) == len(want))
    for a, b in zip(datas, want):
        must(E, 'the text, with & < > as entities outside CDATA', a, b)
    E.ensure('markers are told apart from text', [bool(E.getattr(x, '_cdata', False)) for x in new] == ([True, False, True] if cdata else [False]))
    txt = new[1 if cdata else 0]
    E.ensure('what was escaped is known', E.getattr(txt, 'escaped') is (not cdata))
    E.ensure('the section is closed', E.truth(p.attrs['_cdata_stack']) is False)
    E.reachable('end')


@harness(HARNESSES, 'HTML entities', [P + 'skippedEntity', P + 'characters'])
def h_entities(E):
    """All HTML entity names of the standard."""
    D = Dom(E)
    p, el = parser(E, D)
    n = 0
    for name, text in sorted(html.entities.html5.items()):
        if not name.endswith(';'):
            continue
        el.attrs['childNodes'].items = []
        E.call_method(p, 'skippedEntity', name[:-1])
        got = ''.join(x.attrs['data'] for x in el.attrs['childNodes'].items)
        want = ''.join({'&': '&amp;', '<': '&lt;', '>': '&gt;'}.get(c, c) for c in text)
        if got != want:
            E.ensure('the characters it names, escaped where XML requires it', False, '%s: %r, specified %r' % (name, got, want))
        n += 1
    E.ensure('the characters it names, escaped where XML requires it', n > 2000)
    E.reachable('end')


def run_of(E, D, S, kinds):
    """Children of the given kinds, and the static texts and other pieces they stand for."""
    kids, want = [], []
    for i, k in enumerate(kinds):
        nm = 'ABCD'[i]
        if k == 't':
            t = plain(E, nm)
            kids.append(D.text(xesc(E, t)))
            if want and want[-1][0] == 't':
                want[-1][1].append(t)
            else:
                want.append(('t', [t]))
        elif k == 'c':
            kids.append(D.comment('x' + nm))
            want.append(('x', '<!-- x%s -->' % nm))
        elif k == 'd':
            t = plain(E, nm)
            kids += [D.text('<![CDATA[', cdata=True), D.text(t, escaped=False), D.text(']]>', cdata=True)]
            want += [('x', '<![CDATA['), ('d', [t]), ('x', ']]>')]
        else:
            kids.append(D.hole(nm))
            want.append(('x', S.out(nm)))
    return kids, want


def h_text(E, strip, first):
    S = Stage(E)
    D = Dom(E, S)
    n = 1 + E.choose(3, 'children')
    kinds = [first] + ['tcdh'[E.choose(4, 'kind')] for _ in range(n - 1)]
    if sum(k in 'td' for k in kinds) == 0:
        return
    kids, want = run_of(E, D, S, kinds)
    D.doc(D.el('p', (), *kids))
    r = S.render(D.compile(mode='xml', is_fragment=True, strip_text=strip))
    out = ['<p>']
    for k, w in want:
        if k == 'x':
            out.append(w)
            continue
        rope = mkstr([q for t in w for q in parts_of(xesc(E, t) if k == 't' else t)])
        if strip:
            rope = strs.strip(E, rope, 'strip', None) if isinstance(rope, SymStr) else rope.strip()
        out.append(rope)
    S.check('every text in its place', r, *(out + ['</p>']))
    E.reachable('end')


DT = X + '_DomTransformer.'
for f in 'tcdh':
    harness(HARNESSES, 'texts, starting with %s' % f, [DT + '_merge_text_nodes', DT + '_extract_nodes_leading_and_trailing_spaces', X + '_TextCompiler.__iter__'], bound='at most 3 children; texts arbitrary')(lambda E, f=f: h_text(E, False, f))
    harness(HARNESSES, 'strip_text, starting with %s' % f, [DT + '_strip_text_nodes'], bound='at most 3 children; texts arbitrary')(lambda E, f=f: h_text(E, True, f))
