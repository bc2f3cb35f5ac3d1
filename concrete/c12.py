"""C12: elements are written with the right tags for the rendering mode."""
import itertools
from . import xmlgen
from .c06 import xmltree, xml_case  # noqa
from .c01 import el

TAGS = ['area', 'base', 'br', 'col', 'hr', 'img', 'input', 'link', 'meta', 'param', 'div', 'p', 'td', 'textarea', 'option', 'iframe', 'BR', 'Img', 'script', 'style', 'x:y', 'embed', 'title', 'source', 'wbr', 'h1', 'SCRIPT', 'svg']
MODES = ['xml', 'html', 'html5', None]
CTX = {'t': ['b', True], 'f': ['b', False], 'n': ['n'], 'z': ['s', ''], 'a': ['s', 'A&'], 'i': ['i', 0]}


def case(kids, mode, **kw):
    return 'xmltree', dict(dict(tree=[['el', 'root', [], {}, kids]], mode=mode, ctx=CTX), **kw)


def cases(run):
    rng = run.rng
    T = ['text', 'x &<>"\'']
    bodies = [[], [['text', 'x']], [['expr', 'a', 'braced']], [['expr', 'n', 'braced']], [['comment', 'c']], [['comment', '!c']], [T], [['text', ' ']], [['ent', 'eacute']], [['cdata', 'a<b']], [['cdata', '']],
              [['if', 'f', [['text', 'k']], None, 'elem']], [['py', 'q = 1']], [el('b', [])], [el('br', [])]]
    for tag, mode, body in itertools.product(TAGS, MODES, bodies):
        if tag in ('script', 'style') and any(b[0] not in ('text', 'expr', 'ent', 'cdata') for b in body):
            continue
        for opts in ({}, {'selfclose': False}, {'strip': ''}, {'strip': 't'}, {'strip': 'f'}, {'strip': 'z'}, {'strip': 'n is None'}) if (mode in ('xml', 'html') or rng.random() < .2) else ({},):
            if mode == 'html5' and opts and rng.random() < .7:
                continue
            yield case([['el', tag, [], dict(opts), body], ['text', '|']], mode)
    for tag, mode in itertools.product(TAGS, MODES):
        if tag not in xmlgen.VOID:
            for c in ("a", "None", "''", "'x'", 'i'):
                yield case([['el', tag, [['q', [['t', '1']]]], {'content': c}, []]], mode)
                yield case([['el', tag, [['q', [['t', '1']]]], {'content': c, 'strip': 't'}, [['text', 'old']]]], mode)
    for mode in MODES:
        for cds in (True, False):
            for tag in ('script', 'style'):
                for body in ([['text', 'if (a < b && c > "d") {}']], [['cdata', 'x < y && "z"']], [['text', 'a &amp; b']], [['text', '\n'], ['cdata', 'q<'], ['text', '\n']], [['expr', 'i', 'braced'], ['text', ' && '], ['expr', 'a', 'braced']],
                             [['ent', 'lt'], ['ent', 'eacute'], ['text', '&&']], [['text', ' ']]):
                    yield case([['el', tag, [['type', [['t', 'x']]]], {}, body]], mode, cdata_scripts=cds)
    while True:
        if rng.random() < .6:
            yield xml_case(rng, features=['text', 'expr', 'el', 'el', 'el', 'comment', 'cdata', 'script', 'if', 'for'])
        else:
            g = xmlgen.Gen(rng, maxdepth=2, features=['text', 'expr', 'el', 'el', 'if', 'for', 'comment', 'cdata', 'script', 'replace'])
            e = g.element(0, [], tag=rng.choice(TAGS[:17] + ['div', 'p', 'b']))
            e[3]['strip'] = rng.choice(['', 't', 'f', 'i', 'a', 'not i', 'n', 'l', "a == b", 'z', "'x' if t else ''", 't or f', 'lambda: 0' if rng.random() < .1 else 't'])
            yield 'xmltree', dict(tree=[['el', 'div', [], {}, [['text', 'a'], e, ['text', 'b']]]], mode=rng.choice(MODES), ctx=xmlgen.rcontext(rng))
