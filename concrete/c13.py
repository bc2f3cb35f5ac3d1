"""C13: static text of XML templates is preserved character for character."""
from html.entities import html5
import kajiki
from . import xmlgen
from .lib import kind, diff, esc_text, esc
from .c06 import xmltree, xml_case  # noqa
from .c01 import el


@kind('entity')
def entity(args):
    """An HTML entity reference in text, attribute, script and CDATA."""
    name = args['name']
    ch = html5[name + ';']
    got = kajiki.XMLTemplate('<p>a&%s;b<i>&%s;</i></p>' % (name, name))().render()
    d = diff('<p>a%sb<i>%s</i></p>' % (esc_text(ch), esc_text(ch)), got)
    if d:
        return 'entity %s: %s' % (name, d)


@kind('charref')
def charref(args):
    c = chr(args['code'])
    src = '<p>[&#%d;|&#x%x;|%s]</p>' % (args['code'], args['code'], c.replace('&', '&amp;').replace('<', '&lt;'))
    want = '<p>[%s|%s|%s]</p>' % ((esc_text(c if c != '$' else c),) * 3)
    got = kajiki.XMLTemplate(src)().render()
    return diff(want, got)


def cases(run):
    rng = run.rng
    names = sorted(n[:-1] for n in html5 if n.endswith(';'))
    common = ['nbsp', 'copy', 'eacute', 'lt', 'gt', 'amp', 'quot', 'apos', 'hellip', 'mdash', 'euro', 'Aacute', 'rarr', 'NotEqualTilde', 'bne', 'nvlt', 'fjlig', 'dollar', 'num', 'NewLine', 'Tab', 'lbrace']
    for n in common + (names if run.tier == 'thorough' else rng.sample(names, 250)):
        if n in ('dollar',):
            continue
        yield 'entity', dict(name=n)
    for code in list(range(32, 127)) + [9, 10, 160, 0xe9, 0x2028, 0x20ac, 0xd7ff, 0xe000, 0xfffd, 0x10000, 0x1f600, 0x10ffff, 0x85, 0x3000]:
        yield 'charref', dict(code=code)
    for size, pieces in ((100, 'x'), (3000, 'ab &<|\xe9|a\n|\u20ac '), (40000, 'x'), (70000, 'x'), (9000, 'xyz\xe9')):
        for piece in pieces.split('|'):
            text = (piece * (size // len(piece)))
            yield 'xmltree', dict(tree=[el('p', [['text', text], el('b', [['text', text[:50]]]), ['text', 'z' + text]])], mode='xml', ctx={})
    alphabet = ['a', ' ', '\n', '&', '<', '>', '"', "'", '$', ']', ']]', '\\', '%', '\xa0', '\u3000', '\t', ';', '{', '\xe9', '\x85', '\u2028', '\u2003']
    for a in alphabet:
        for b in alphabet:
            for st in (False, True):
                yield 'xmltree', dict(tree=[el('p', [['text', a + b], el('i', [['text', b]]), ['text', a], ['cdata', (a + b).replace(']]', '')], ['text', b + 'x' + a]])], mode='xml', ctx={}, strip_text=st)
    feats = ['text', 'text', 'text', 'ent', 'ent', 'el', 'comment', 'cdata', 'expr']
    while True:
        k, a = xml_case(rng, features=feats + rng.choice([[], ['script'], ['if', 'for', 'with', 'switch', 'replace', 'callfn']]))
        if rng.random() < .6:
            for n in xmlgen.walk(a['tree']):
                if n[0] == 'text':
                    n[1] = ''.join(rng.choice(alphabet) for _ in range(rng.randint(1, 12)))
        a['strip_text'] = rng.random() < .3
        if a['strip_text'] and any(n[0] == 'el' and n[1] in ('script', 'style') for n in xmlgen.walk(a['tree'])):
            a['strip_text'] = False
        yield k, a
