"""C01: interpolated values are escaped exactly once."""
import itertools
from . import xmlgen
from .c06 import xmltree, texttree, xml_case  # noqa: registers the kinds

V = ['expr', 'v', 'braced']


def el(tag, kids, at=(), **opts):
    return ['el', tag, [list(a) for a in at], opts, kids]


def fn(name, params, body):
    return ['def', name, params, body, 'elem']


XML_POS = {
    'named': lambda: [el('p', [['text', '['], ['expr', 'v', 'named'], ['text', ']']])],
    'braced': lambda: [el('p', [['text', 'x'], V, ['text', 'y']])],
    'alone': lambda: [el('p', [V])],
    'twice': lambda: [el('p', [V, V])],
    'attrib': lambda: [el('p', [['expr', 'w.attr', 'named'], ['expr', 'w.attr', 'braced']])],
    'content': lambda: [el('p', [], content='v')],
    'content-strip': lambda: [el('q', [el('p', [], content='v', strip='')])],
    'replace': lambda: [el('p', [['replace', 'v', [], 'elem'], ['replace', 'v', [el('b', [])], 'attr']])],
    'for': lambda: [el('p', [['for', 'x', '[v, v]', [['expr', 'x', 'braced']], 'elem']])],
    'arg': lambda: [el('p', [fn('fn', ['x'], [['text', '('], ['expr', 'x', 'braced'], ['text', ')']]), ['expr', 'fn(v)', 'braced']])],
    'fnfn': lambda: [el('p', [fn('fn', ['x'], [['expr', 'x', 'braced'], ['text', '&<']]),
                              fn('g', ['x'], [['expr', 'fn(x)', 'braced'], ['text', '|'], ['replace', 'fn(x)', [], 'elem']]), ['expr', 'g(v)', 'braced']])],
    'fncontent': lambda: [el('p', [fn('fn', ['x'], [['expr', 'x', 'braced']]), el('i', [], content='fn(v)')])],
    'fnattr': lambda: [el('p', [fn('fn', ['x'], [['expr', 'x', 'braced'], ['text', '&']]), el('i', [], [['title', [['t', '-'], ['x', 'fn(v)']]]])])],
    'call': lambda: [el('p', [fn('w2', ['caller'], [['text', '<'], ['expr', 'caller(v)', 'braced']]), ['call', 'w2', [], ['y'], [['expr', 'y', 'braced']]]])],
    'block': lambda: [el('p', [['block', 'bb', [V], 'elem']])],
    'with': lambda: [el('p', [['with', [['x', 'v']], [['expr', 'x', 'braced']], 'elem', ';']])],
    'script': lambda: [el('p', [el('script', [['text', 'a='], V, ['text', ';']])])],
    'style': lambda: [el('p', [el('style', [V])])],
    'attr': lambda: [el('p', [], [['title', [['x', 'v']]]])],
    'attrmix': lambda: [el('p', [], [['title', [['t', 'a&"<'], ['e', 'v'], ['t', ' '], ['x', 'v']]]])],
    'attrlit': lambda: [el('p', [], [['title', [['x', 'literal(v)']]]])],
    'literal': lambda: [el('p', [['expr', 'literal(v)', 'braced'], ['expr', 'Markup(v)', 'braced']])],
    'litcontent': lambda: [el('p', [], content='literal(v)')],
    'litreplace': lambda: [el('p', [['replace', 'Markup(v)', [], 'elem']])],
    'pyattrs': lambda: [el('p', [], attrs="{'k': v}")],
    'pyattrslit': lambda: [el('p', [], attrs="{'k': literal(v)}")],
    'switch': lambda: [el('p', [['switch', '1', [['1', [V], 'elem']], None, '']])],
    'ifelse': lambda: [el('p', [['if', 'False', [], [V], 'elem']])],
}
STR_ONLY = {'literal', 'litcontent', 'litreplace', 'attrlit', 'pyattrslit'}
E = ['expr', 'v', 'braced']
TEXT_POS = {
    'text': lambda: [['text', 'x&<', 0], E, ['expr', 'v', 'named']],
    'textfor': lambda: [['text', 'S', 0], ['for', 'x', '[v]', [['expr', 'x', 'braced']]]],
    'textdef': lambda: [['def', 'fn', ['x'], [['expr', 'x', 'braced']]], ['text', 'S', 0], ['expr', 'fn(v)', 'braced']],
    'textlit': lambda: [['text', 'S', 0], ['expr', 'literal(v)', 'braced']],
    'textblock': lambda: [['text', 'S', 0], ['block', 'bb', [E]]],
}


def make(pos, value, mode='xml', autoescape=True):
    ctx = {'v': value, 'w': ['obj', 'x', value]}
    if pos in TEXT_POS:
        return 'texttree', dict(tree=TEXT_POS[pos](), styles=['brace'], ctx=ctx, autoescape=autoescape)
    return 'xmltree', dict(tree=XML_POS[pos](), ctx=ctx, mode=mode)


SPECIAL = ['&', '<', '>', '"', "'", 'a', ';', '&amp;', '&lt;', '&quot;', '&#39;', ' ', '\n', '%s', '\xe9']
TYPED = [['n'], ['i', 0], ['i', 1], ['b', True], ['b', False], ['f', 1.5], ['f', 0.0], ['s', ''], ['obj', '<&>"\''], ['obj', ''], ['html', '<b>&"</b>'],
         ['html', ''], ['sub', '<i>&"'], ['l', [['s', '<']]], ['l', []], ['t', [['s', '"&']]], ['d', [['k<', ['s', '>']]]], ['lit', '<b>&"'],
         ['lit', ''], ['html', '&amp;'], ['obj', '&amp;'], ['nan']]
TYPED += [['spec', '<&>"', [f]] for f in ('int', 'float', 'list', 'dict', 'tuple', 'exc', 'bytes', 'call', 'iter', 'falsy', 'len', 'alleq', 'noteq', 'repr')]


def cases(run):
    rng = run.rng
    xpos, tpos = sorted(XML_POS), sorted(TEXT_POS)
    for p in xpos + tpos:
        for v in TYPED:
            if (p in STR_ONLY or p == 'textlit') and v[0] not in ('s', 'sub'):
                continue
            if v[0] == 'lit' and p in ('twice', 'named', 'attrib', 'attrmix', 'for', 'replace', 'text', 'fnfn'):
                pass
            if v[0] == 'lit' and p in ONCE:
                yield make(p, v)
                continue
            if v[0] == 'lit' or (v[0] == 'html' and p == 'pyattrs'):
                continue
            for ae in ((True, False) if p in TEXT_POS else (True,)):
                yield make(p, v, rng.choice(['xml', 'html', 'html5']), ae)
    for p in xpos + tpos:
        for s in SPECIAL + ['&<>"\'', '<b>"a" & \'c\'</b>']:
            yield make(p, ['s', s], autoescape=rng.random() < .7)
    for a, b in itertools.product(SPECIAL, SPECIAL):
        yield make(rng.choice(['braced', 'content', 'attr', 'attrmix', 'text', 'arg']), ['s', a + b])
    for lo in list(range(1, 0x3000, 40)) + [0xd7c0, 0xe000, 0xfff0, 0x1f600]:
        chars = ''.join(chr(c) for c in range(lo, lo + 40) if not 0xd800 <= c < 0xe000)
        yield make(rng.choice(['braced', 'text', 'pyattrs', 'attr']), ['s', chars])
    while True:
        if rng.random() < .3:
            yield xml_case(rng, features=['text', 'expr', 'expr', 'el', 'replace', 'callfn', 'for', 'script', 'call'])
            continue
        s = ''.join(rng.choice(SPECIAL + xmlgen.STR_PIECES) for _ in range(rng.randint(0, 8)))
        if rng.random() < .1:
            s = s * rng.choice([10, 200])
        v = [rng.choice(['s', 's', 's', 'obj', 'html', 'sub']), s]
        p = rng.choice(xpos + tpos)
        if p in STR_ONLY or p == 'textlit' or (p == 'pyattrs' and v[0] == 'html'):
            v[0] = 's'
        yield make(p, v, rng.choice(['xml', 'html', 'html5']), rng.random() < .7)


ONCE = {'alone', 'braced', 'content', 'arg', 'fncontent', 'with', 'script', 'ifelse', 'switch', 'attr'}
