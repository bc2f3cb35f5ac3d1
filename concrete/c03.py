"""C03: the output stream is the in-order concatenation of what is produced."""
import kajiki
from kajiki.util import flattener, literal
from .lib import kind, decode, diff, esc
from .c06 import xmltree, texttree, xml_case, text_case  # noqa
from .xmlgen import rvalue, rstr


def build(node):
    """A value or a nested output."""
    k = node[0]
    if k == 'v':
        return decode(node[1])
    if k == 'g':
        def gen():
            for x in node[1]:
                yield build(x)
        return flattener(gen())
    if k == 'it':
        return flattener(iter([build(x) for x in node[1]]))
    if k == 'ff':
        return flattener(build(node[1]))
    if k == 'dec':
        @flattener.decorate
        def f():
            for x in node[1]:
                yield build(x)
        return f()
    if k == 'lit':
        return literal(node[1])
    if k == 'none':
        return flattener(None)
    if k == 'deep':
        r = build(node[2])
        for i in range(node[1]):
            r = flattener(iter([i % 2 or None, r, 'x' if i % 3 else None]))
        return r
    raise ValueError(node)


def leaves(node):
    k = node[0]
    if k == 'v':
        return [] if node[1] == ['n'] else [decode(node[1])]
    if k in ('g', 'it', 'dec'):
        return [y for x in node[1] for y in leaves(x)]
    if k == 'ff':
        return leaves(node[1])
    if k == 'lit':
        return [node[1]]
    if k == 'none':
        return []
    if k == 'deep':
        r = leaves(node[2])
        for i in range(node[1]):
            r = ([i % 2] if i % 2 else []) + r + (['x'] if i % 3 else [])
        return r


def same(a, b):
    return len(a) == len(b) and all(type(x) is type(y) and (x == y or str(x) == str(y)) for x, y in zip(a, b))


@kind('stream')
def stream(args):
    nodes = args['nodes']
    want = [y for x in nodes for y in leaves(x)]
    text = ''.join(str(x) for x in want)
    got = list(build(['g', nodes]))
    if not same(want, got):
        return 'flattener yields %r, expected %r' % (got, want)
    d = diff(text, build(['g', nodes]).accumulate_str())
    if d:
        return 'accumulate_str: ' + d

    class Tpl(object):
        @kajiki.expose
        def __main__():
            for x in nodes_():
                yield x

        @kajiki.expose
        def fn(n):
            for x in nodes_():
                yield x
            if n:
                yield fn(n - 1)     # noqa
                yield 0
    T = kajiki.Template(Tpl)
    ctx = dict(nodes_=lambda: [build(x) for x in nodes])
    d = diff(text, T(ctx).render())
    if d:
        return 'render: ' + d
    chunks = list(T(ctx))
    if not all(isinstance(c, str) for c in chunks):
        return 'chunks are not all text: %r' % chunks
    d = diff(text, ''.join(chunks))
    if d:
        return 'iteration: ' + d
    t = T(ctx)
    d = diff(text * 3 + '00', t.fn(2).accumulate_str()) or diff(text * 3 + '00', ''.join(str(c) for c in T(ctx).fn(2)))
    if d:
        return 'function: ' + d
    whole = lambda: build(['g', nodes])    # noqa
    got = kajiki.XMLTemplate('<p>[${v}|${w()}]</p>')(dict(v=whole(), w=whole)).render()
    d = diff('<p>[%s|%s]</p>' % (text, text), got)
    if d:
        return 'element text: ' + d
    got = kajiki.XMLTemplate('<p a="${v}" b="-${w()}+${w()}"/>')(dict(v=whole(), w=whole)).render()
    d = diff('<p a="%s" b="-%s+%s"/>' % (esc(text), esc(text), esc(text)), got)
    if d:
        return 'attribute: ' + d
    got = kajiki.XMLTemplate('<p py:attrs="{\'a\': v}" />')(dict(v=whole())).render()
    vals = esc(text)
    if got not in ('<p a="%s"/>' % vals,) and not (text == '' and got == '<p/>'):
        return 'py:attrs: expected %r got %r' % ('<p a="%s"/>' % vals, got)
    got = kajiki.TextTemplate('[${v}|${w()}]')(dict(v=whole(), w=whole)).render()
    d = diff('[%s|%s]' % (text, text), got)
    return d and 'text template: ' + d


SRC = [
    '%def f(n)\n<$n%if n\n:${f(n - 1)}:${g(n)}%end\n>%end\n%def g(n)\n%for k in range(n)\n${k}${None}${h(k)}%end\n%end\n%def h(k)\n${k}$z%end\nS${f(4)}E',
]


@kind('attrfn')
def attrfn(args):
    """The output of a text-template function, in the stream and collected for an attribute."""
    lib = kajiki.TextTemplate(args['src'])
    ctx = {k: decode(v) for k, v in args['ctx'].items()}
    text = lib(dict(ctx)).fn().accumulate_str()
    loader = kajiki.loader.MockLoader({'lib': lib, 'main': kajiki.XMLTemplate(
        '<p><py:import href="lib"/><b x="${lib.fn()}" y="a${lib.fn()}b"/>${lib.fn()}</p>')})
    got = loader.import_('main')(ctx).render()
    return diff('<p><b x="%s" y="a%s b"/>%s</p>'.replace('s b', 'sb') % (esc(text), esc(text), text), got) or diff(args['expect'], text)


def rnode(rng, depth):
    r = rng.random()
    if depth <= 0 or r < .45:
        v = rng.choice([['n'], ['s', ''], ['i', 0], ['b', False], ['s', 'a'], ['f', 0.0], ['l', []], ['t', []], ['t', [['i', 1]]], ['d', []], rvalue(rng), ['s', rstr(rng)]])
        return ['v', v]
    if r < .8:
        return [rng.choice(['g', 'it', 'dec']), [rnode(rng, depth - 1) for _ in range(rng.randint(0, 3))]]
    if r < .9:
        return ['ff', [rng.choice(['g', 'it', 'dec']), [rnode(rng, depth - 1) for _ in range(rng.randint(0, 3))]]]
    if r < .95:
        return ['lit', rstr(rng)]
    return rng.choice([['none'], ['ff', ['none']], ['ff', ['lit', 'q']], ['g', []]])


def cases(run):
    rng = run.rng
    basic = [['v', ['n']], ['v', ['s', '']], ['v', ['i', 0]], ['v', ['b', False]], ['v', ['s', 'a']], ['g', []], ['g', [['v', ['s', 'b']]]], ['lit', 'l'],
             ['ff', ['g', [['v', ['i', 0]], ['v', ['n']]]]], ['none'], ['v', ['t', [['i', 1]]]], ['v', ['t', []]], ['v', ['t', [['i', 1], ['i', 2]]]]]
    yield 'stream', dict(nodes=[])
    for a in basic:
        yield 'stream', dict(nodes=[a])
        for b in basic:
            yield 'stream', dict(nodes=[a, b])
            yield 'stream', dict(nodes=[['g', [a, ['it', [b, a]]]], b])
    for n in (1, 2, 10, 60, 150):
        yield 'stream', dict(nodes=[['deep', n, ['v', ['s', 'core']]], ['v', ['i', 0]]])
        yield 'stream', dict(nodes=[['v', ['i', 0]], ['g', [['deep', n, ['v', ['n']]]]]])
    for v, s in ((['i', 0], '0'), (['n'], ''), (['s', '<&'], '<&'), (['b', False], 'False'), (['t', [['i', 1]]], '(1,)')):
        yield 'attrfn', dict(src='%def fn()\n<$v>${v}{%for i in [0, v]%}$i,{%end%}{%end%}x', ctx={'v': v}, expect='<%s>%s0,%s,' % (s, s, s))
    while True:
        r = rng.random()
        if r < .6:
            yield 'stream', dict(nodes=[rnode(rng, rng.choice([1, 2, 4, 6])) for _ in range(rng.randint(0, 5))])
        elif r < .85:
            yield xml_case(rng, features=['text', 'expr', 'el', 'callfn', 'callfn', 'call', 'call', 'for', 'if'])
        else:
            yield text_case(rng)
