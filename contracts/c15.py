"""C15: doctype and rendering mode."""
import re
from .lib import *  # noqa
from .lib import harness, instance, must, Stage, esc
from .dom import Dom, X, plain, pure
from pyvc import rx as rxmod

HARNESSES = []
DT = 'kajiki.doctype.'
KNOWN = [
    ('<!DOCTYPE html>', 'html5'),
    ('<!DOCTYPE html PUBLIC "-//W3C//DTD XHTML 1.0 Transitional//EN" "http://www.w3.org/TR/xhtml1/DTD/xhtml1-transitional.dtd">', 'xml'),
    ('<!DOCTYPE html PUBLIC "-//W3C//DTD XHTML 1.0 Strict//EN" "http://www.w3.org/TR/xhtml1/DTD/xhtml1-strict.dtd">', 'xml'),
    ('<!DOCTYPE html PUBLIC "-//W3C//DTD XHTML+RDFa 1.0//EN" "http://www.w3.org/MarkUp/DTD/xhtml-rdfa-1.dtd">', 'xml'),
    ('<!DOCTYPE html PUBLIC "-//W3C//DTD XHTML 1.1//EN" "http://www.w3.org/TR/xhtml11/DTD/xhtml11.dtd">', 'xml'),
    ('<!DOCTYPE html PUBLIC "-//W3C//DTD XHTML 1.0 Frameset//EN" "http://www.w3.org/TR/xhtml1/DTD/xhtml1-frameset.dtd">', 'xml'),
    ('<!DOCTYPE html PUBLIC "-//W3C//DTD XHTML Basic 1.1//EN" "http://www.w3.org/TR/xhtml-basic/xhtml-basic11.dtd">', 'xml'),
    ('<!DOCTYPE html PUBLIC "-//WAPFORUM//DTD XHTML Mobile 1.2//EN" "http://www.openmobilealliance.org/tech/DTD/xhtml-mobile12.dtd">', 'xml'),
    ('<!DOCTYPE html PUBLIC "-//W3C//DTD HTML 4.01 Transitional//EN" "http://www.w3.org/TR/html4/loose.dtd">', 'html'),
    ('<!DOCTYPE html PUBLIC "-//W3C//DTD HTML 4.01//EN" "http://www.w3.org/TR/html4/strict.dtd">', 'html'),
    ('<!DOCTYPE html PUBLIC "-//W3C//DTD HTML 4.01 Frameset//EN" "http://www.w3.org/TR/html4/frameset.dtd">', 'html'),
]


def strs_add(E, a, b):
    return mkstr(list(parts_of(a)) + list(parts_of(b)))


PROLOG = re.compile(r'\ufeff?(?:\s|<!--[\s\S]*?-->|<\?[\s\S]*?\?>)*')
DOCTYPE = re.compile(r'<!DOCTYPE[^>][^>]*>')


def sources(t):
    """Runtime contracts for a text on which the patterns differ."""
    for dtd, implied in KNOWN[:1] + KNOWN[-1:]:
        for after in ('', '\n'):
            for before in (t, t + '-->', t + '?>', '\n' + t):
                yield dict(property='C15', kind='doctype', args=dict(dtd=dtd, implied=implied, mode=None, fragment=False, maybe=1, before=before, after=after))
    if t.startswith('<!DOCTYPE'):
        for d in (t, t + '>'):
            yield dict(property='C15', kind='doctype', args=dict(dtd=d, implied='xml', mode=None, fragment=False, maybe=1, before='', after=''))


@harness(HARNESSES, 'extract_dtd: any source', [DT + 'extract_dtd'])
def h_extract(E):
    """What is taken out is the doctype after the prolog, from where it is said to be; the rest is kept."""
    from .scan import alike
    s = SymStr([Atom('source')])
    calls = []

    def hook(I, o, what, t, a):
        if what == 'match' and t is s:
            calls.append(list(a))
            if len(calls) == 1:
                alike(E, 'only white space, comments and processing instructions are skipped, and all of them', o, [PROLOG], (), sources)
                E.ensure('the prolog is at the start', not a or a[0] == 0)
            else:
                alike(E, 'a doctype is what is looked for', o, [DOCTYPE], (), sources)
        return NotImplemented
    E.inputs['regex'] = hook
    d, pos, rest = E.call(E.get(DT + 'extract_dtd'), [s], {})
    if isinstance(d, str) and d == '':
        must(E, 'without a doctype, nothing changes', rest, s)
        must(E, 'without a doctype, position 0', pos, 0)
    else:
        z = lambda v: v.z if isinstance(v, SymInt) else z3.IntVal(v)     # noqa
        end = SymInt(z(pos) + z(E.str_len(d)))
        must(E, 'the doctype is where it is said to be', strs.getitem(E, s, slice(pos, end)), d)
        must(E, 'nothing else is removed', rest, strs_add(E, strs.getitem(E, s, slice(0, pos)), strs.getitem(E, s, slice(end, None))))
        E.ensure('a doctype declaration', rxmod.member(E, d.parts[0], r'<!DOCTYPE[^>]+>', anything_after=False))
    E.reachable('end')


PROLOGS = ['', '\n', ' \n\t', '<?xml version="1.0"?>', '<!-- c -->', '<!-- <!DOCTYPE q> -->', '<?xml version="1.0"?>\n<!-- > --><?a <!DOCTYPE z> ?> ', '<!----><!-- a\nb -->', '\ufeff']


@harness(HARNESSES, 'extract_dtd: found after any prolog', [DT + 'extract_dtd'])
def h_first(E):
    """The doctype of the document, whatever follows it; none where the document has none."""
    p = PROLOGS[E.choose(len(PROLOGS), 'prolog')]
    k = E.choose(len(KNOWN) + 4, 'doctype')
    d = [x[0] for x in KNOWN] + ['<!DOCTYPE foo SYSTEM "foo.dtd">', '<!DOCTYPE\nhtml\n>', '', '']
    d = d[k]
    rest = '\n<div>' if k != len(KNOWN) + 3 else '<div a="<!DOCTYPE html>">'
    s = mkstr([p + d + rest, Atom('document')])
    got, pos, out = E.call(E.get(DT + 'extract_dtd'), [s], {})
    must(E, 'the doctype', got, d)
    must(E, 'its position', pos, len(p) if d else 0)
    must(E, 'the rest of the source', out, mkstr([p + rest, Atom('document')]))
    E.reachable('end')


@harness(HARNESSES, '_Parser.__init__', [X + '_Parser.__init__'])
def h_parser(E):
    """What is parsed is the source, with another doctype in the place of its own."""
    s = SymStr([Atom('source')])
    a, n = z3.Int('position'), z3.Int('length')
    E.add(z3.And(a >= 0, n >= 0, a + n <= z3.Length(z3.String('source')), z3.Implies(n == 0, a == 0)))
    d = strs.getitem(E, s, slice(SymInt(a), SymInt(a + n)))
    pre, post = strs.getitem(E, s, slice(0, SymInt(a))), strs.getitem(E, s, slice(SymInt(a + n), None))
    E.overrides[DT + 'extract_dtd'] = lambda I, args, kw: (d, SymInt(a), strs_add(I, pre, post))
    E.assumed.add('extract_dtd: any doctype at any place of the source (proved above)')
    p = E.call(E.get(X + '_Parser'), ['f', s], {})
    src = p.attrs['_source']
    must(E, 'the doctype is kept for the output', p.attrs['_doc'].attrs['_dtd'], d)
    c = strs.count(E, d, '\n')
    dtd = E.get(X + '_Parser.DTD')
    E.ensure('another doctype', isinstance(dtd, str) and re.match(r'<!DOCTYPE [^>]*>$', dtd) is not None)
    nl = strs.repeat(E, '\n', c) if isinstance(c, SymInt) else '\n' * c
    must(E, 'the source, its doctype replaced by another one on as many lines', src, strs_add(E, strs_add(E, strs_add(E, pre, dtd), nl), post))
    E.reachable('end')


def spec(E, d):
    """Formula: a known doctype, in any letter case, with any white space where it has a space."""
    return rxmod.member(E, Atom('dtd'), ''.join(r'\s+' if c == ' ' else re.escape(c) for c in d), re.I)


@harness(HARNESSES, 'matching: known doctypes', [DT + 'DocumentTypeDeclaration.matching'])
def h_known(E):
    """Each known doctype, in any letter case and with any white space."""
    k = E.choose(len(KNOWN), 'doctype')
    s = SymStr([Atom('dtd')])
    E.add(spec(E, KNOWN[k][0]))
    r = E.call_method(E.get(DT + 'DocumentTypeDeclaration'), 'matching', s)
    mode = 'xml' if r is None else r.attrs['rendering_mode']
    E.ensure('its rendering mode', mode == KNOWN[k][1], '%s: %s' % (KNOWN[k][0], mode))
    E.reachable('end')


@harness(HARNESSES, 'matching: other doctypes', [DT + 'DocumentTypeDeclaration.matching'])
def h_other(E):
    """A doctype that implies html or html5 is one of the known ones."""
    s = SymStr([Atom('dtd')])
    r = E.call_method(E.get(DT + 'DocumentTypeDeclaration'), 'matching', s)
    mode = 'xml' if r is None else r.attrs['rendering_mode']
    E.ensure('a mode', mode in ('xml', 'html', 'html5'))
    if mode != 'xml':
        E.ensure('only the documented doctypes imply %s' % mode, z3.Or(*[spec(E, d) for d, m in KNOWN if m == mode]))
    E.reachable('end')


def items(n):
    b = n.attrs['body']
    return b.items if isinstance(b, PyList) else list(b)


@harness(HARNESSES, 'mode and doctype of a template', [X + '_Compiler.__init__', X + '_Compiler.compile'])
def h_emit(E):
    """Any doctype, any mode, fragment or not, extending or not."""
    S = Stage(E)
    D = Dom(E, S)
    given = (None, 'xml', 'html', 'html5')[E.choose(4, 'mode')]
    implied = (None, 'xml', 'html', 'html5')[E.choose(4, 'known doctype')]
    k = E.choose(2, 'doctype present')
    if not k and implied:
        return
    frag, child = E.choose(2, 'fragment'), E.choose(2, 'extending')
    d = SymStr([Atom('dtd')]) if k else ''
    if k:
        E.add(z3.String('dtd') != z3.StringVal(''))
        E.cache[('decomp', 'dtd')] = (None, None, None, None)      # it starts with < and ends with >
    o = instance(E, DT + 'DocumentTypeDeclaration', name='known', rendering_mode=implied)
    E.overrides[DT + 'DocumentTypeDeclaration.matching'] = lambda I, a, kw: o if implied else None
    E.assumed.add('matching gives the known doctype or None (proved above)')
    br = D.el('br')
    if child:
        D.doc(D.el('py:extends', (('href', 'base'),), br), dtd=d)
    else:
        D.doc(D.el('p', (), br), dtd=d)
    doc = D.transform()
    c = E.call(E.get(X + '_Compiler'), ['t', doc], dict(mode=given, is_fragment=bool(frag)))
    mode = given or implied or 'xml'
    E.ensure('the mode requested, else implied, else xml', c.attrs['mode'] == mode)
    ir = E.call_method(c, 'compile')
    main = [x for x in items(ir) if x.cls.name == 'DefNode' and x.attrs['decl'] == '__main__()'][0]
    texts = [x.attrs['text'] for x in items(main) if x.cls.name == 'TextNode']
    tag = '<br/>' if mode == 'xml' else '<br>'
    head = [d, '\n'] if k else ['<!DOCTYPE html>\n'] if mode == 'html5' else []
    if frag or child:
        head = []
    got = mkstr([p for t in texts for p in parts_of(t)])
    want = mkstr([p for t in head + ([tag] if child else ['<p>', tag, '</p>']) for p in parts_of(t)])
    must(E, 'its doctype, or the html5 one, or none; then the document', got, want)
    E.reachable('end')
