"""C02: attributes."""
import itertools
from . import xmlgen
from .xmlgen import BOOL, Gen, rcontext, rstr
from .c06 import xmltree  # noqa
from .c01 import el

MODES = ['xml', 'html', 'html5', None]
VALUES = [['n'], ['s', ''], ['s', 'x'], ['s', '<&">\''], ['i', 0], ['i', 7], ['b', True], ['b', False], ['obj', '"o"'], ['f', 0.0], ['sub', '<'], ['l', []], ['obj', ''],
          ['l', [['n']]], ['s', ' '], ['s', '0'], ['s', 'None'], ['s', '\xe9\u20ac'], ['nan']]
VALUES += [['spec', '<&>"', [f]] for f in ('int', 'float', 'list', 'dict', 'tuple', 'exc', 'bytes', 'call', 'iter', 'falsy', 'len', 'alleq', 'noteq', 'repr')]
NAMES = sorted(BOOL) + ['title', 'class', 'data-checked', 'CHECKED', 'x:y', 'value', 'async', 'href']


def tree(at, **opts):
    return [el('div', [el('input', [], at, **opts), ['text', 'x'], el('p', [['text', 'y']], at, **opts)])]


def case(at, mode, v=None, w=None, **opts):
    return 'xmltree', dict(tree=tree(at, **opts), mode=mode, ctx={'v': v or ['n'], 'w': w or ['n'], 't': ['b', True], 'n': ['n']})


def cases(run):
    rng = run.rng
    X, T = ['x', 'v'], ['t', 'q']
    for mode in MODES:
        for name in NAMES:
            for v in ([['b', True], ['b', False], ['n'], ['s', ''], ['s', 'x'], ['s', 'a"&<'], ['s', name]] if name in BOOL else [['s', '"'], ['n']]):
                yield case([], mode, v, attrs="{%r: v}" % name)
                yield case([[name, [X]]], mode, v)
            yield case([[name, []]], mode)
            yield case([[name, [['t', 'a&"<>']]]], mode)
    for mode, v in itertools.product(['xml', 'html'], VALUES):
        for parts in ([X], [X, X], [X, ['x', 'n']], [['x', 'n'], X], [T, X], [X, T], [['t', ' '], X], [X, ['t', '$']], [['e', 'v'], ['t', ' '], ['e', 'v']],
                      [['x', 'None'], ['x', 'None']]):
            yield case([['title', parts]], mode, v)
        yield case([], mode, v, attrs="{'k': v}")
        yield case([], mode, v, attrs="[('k', v), ('j', w)]")
        yield case([], mode, v, ['s', '>'], attrs="dict(b=v, a=w, c='c')")
        yield case([['b', [['t', '1']]], ['a', [['t', '2']]]], mode, v, attrs="{'k': v, 'c': 1}")
        yield case([['z', [X]], ['a', [X]]], mode, v, attrs="((k, v) for k in 'dbc')")
        yield case([['z', [X]]], mode, v, attrs="{'k': v}", strip='v')
        yield case([['z', [X]]], mode, v, attrs="{'k': literal('<' + str(v))}", strip='not t')
    for expr in ('None', 'n', '{}', '[]', '()', "{'a': None}", "[('a', None)]", "{}.items()", "{'b': 1, 'a': 2}.items()", "iter([('b', 1), ('a', 2)])",
                 "[('b', 1), ('a', 2)]", "sorted({'y': 3}.items())", "{'checked': None}", "zip('ba', [1, 2])", "{'a': ''}", "dict(checked=True, disabled=False, z=None)",
                 "[('a', '2'), ('b', '0'), ('a', '1')]", "(('z', 'x'), ('z', ''), ('a', '&'))"):
        for mode in MODES:
            yield case([], mode, attrs=expr)
            yield case([['m', [['t', 'k']]]], mode, attrs=expr)
    names = ['k%d' % i for i in range(40)]
    yield case([[n, [['t', n]]] for n in reversed(names)], 'xml')
    while True:
        g = Gen(rng, maxdepth=1)
        kids = [g.element(0, []) for _ in range(rng.randint(1, 3))]
        for k in kids:
            if rng.random() < .5:
                k[2] = [[a, g.parts([])] for a in rng.sample(xmlgen.ATTRS + ['A', 'b', 'Z'], rng.randint(1, 6))]
                k[3].pop('attrs', None)
            elif rng.random() < .5:
                names = rng.sample(['a', 'B', 'c', 'checked', 'selected', 'x-y', 'aa', '_', 'a.b'], rng.randint(0, 5))
                pairs = ', '.join('(%r, %s)' % (n, rng.choice(['a', 'b', 'n', 't' if n in BOOL else 'i', "''", 'f', 'o', 'literal(a)', 'str(c)'])) for n in names)
                k[3]['attrs'] = rng.choice(['[%s]', 'dict([%s])', '({k: w for k, w in [%s]})']) % pairs
                k[2] = []
        ctx = rcontext(rng)
        if rng.random() < .3:
            ctx['a'] = ['s', rstr(rng, 30)]
        yield 'xmltree', dict(tree=[['el', 'div', [], {}, kids]], mode=rng.choice(MODES), ctx=ctx)
