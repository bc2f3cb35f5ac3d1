"""C14: a directive attribute means the same as the directive element around it."""
import itertools
import kajiki
from .lib import kind, context, diff
from . import xmlgen
from .xmlgen import attr_escape, DIRECTIVE_ORDER, ARG, el_source
from .c06 import xmltree, xml_case  # noqa


def surround(has, inner):
    """What must be around the element for its directives to make sense."""
    pre = '<py:def function="wrapfn(caller)">&lt;${caller()}|${caller()}&gt;</py:def><py:def function="ident(x)">${x}</py:def>'
    post = ''
    if 'def' in has:
        post = '[${fn1(1)}${fn1(a)}]'
    if 'case' in has:
        inner = '<py:switch test="i">%s<py:else>other</py:else></py:switch>' % inner
    if 'else' in has and 'case' not in has:
        inner = '<py:if test="%s">taken</py:if>%s' % ('t and i', inner)
    return '<root>%s%s%s</root>' % (pre, inner, post)


@kind('equiv')
def equiv(args):
    """{dirs: [[name, value]...], el, order}: attributes in the written order against nested elements in the documented order."""
    dirs = dict((d[0], d[1]) for d in args['dirs'])
    as_attr = el_source(args['el'], ''.join(' py:%s="%s"' % (n, attr_escape(dirs[n])) for n in args['order']))
    inner = el_source(args['el'])
    for name in reversed(DIRECTIVE_ORDER):
        if name in dirs:
            a = ARG[name]
            inner = '<py:%s%s>%s</py:%s>' % (name, ' %s="%s"' % (a, attr_escape(dirs[name])) if a else '', inner, name)
    ctx = args['ctx']
    outs = []
    for src in (surround(dirs, as_attr), surround(dirs, inner)):
        try:
            outs.append(kajiki.XMLTemplate(src, mode=args['mode'])(context(ctx)).render())
        except Exception as e:
            outs.append('%s' % type(e).__name__)
    d = diff(outs[1], outs[0])
    if d:
        return 'attributes %s\n  elements %s\n%s' % (as_attr, inner, d)
    if args.get('want') is not None:
        return diff(args['want'], outs[0])


def rdirs(rng, names):
    out = []
    # values that tell the nestings apart: each reads a variable another one sets
    var = rng.choice([v for n, v in (('for', 'k'), ('def', 'x')) if n in names] or [None]) if rng.random() < .5 else None
    for n in names:
        v = {'def': 'fn1(x)', 'call': rng.choice(['wrapfn(%caller)']), 'case': rng.choice(['i', '1', "'q'"]), 'else': '', 'for': rng.choice(['k in l', 'k in range(2)', 'k, m in [(1, 2)]']),
             'if': rng.choice(['t', 'f', 'i', "defined('k') or t"]), 'switch': 'i', 'with': rng.choice(['w=a', 'w=i; u=w', "w='1'"]), 'replace': rng.choice(['a', "'r'", 'literal(a)', 'None']),
             'block': 'blk'}[n]
        if var and n in ('if', 'with', 'replace') or n == 'for' and var == 'k':
            v = {'if': var + ' == 1', 'with': '%s=%s+1' % (var, var), 'replace': var, 'for': 'k in [0, 1, 2]'}[n]
        out.append([n, v])
    return out


ALL = ['def', 'call', 'case', 'else', 'for', 'if', 'with', 'replace', 'block']


def relement(rng):
    g = xmlgen.Gen(rng, maxdepth=1, features=['text', 'expr', 'el', 'if'])
    e = g.element(0, [])
    if rng.random() < .3:
        e[3].pop('content', None)
    return e


def usable(names):
    names = set(names)
    if 'case' in names and 'else' in names:
        return False
    if names & {'case', 'else'} and names & {'def', 'call'}:
        return False            # these would not be directly inside the switch
    return True


def cases(run):
    rng = run.rng
    plain = ['el', 'b', [['c', [['x', 'a']]]], {}, [['text', 'x'], ['expr', 'a', 'braced']]]
    empty = ['el', 'br', [], {}, []]
    strip = ['el', 'p', [], {'strip': ''}, [['text', 'y']]]
    cont = ['el', 'i', [], {'content': 'a', 'attrs': "{'q': i}"}, []]
    for n in ALL:
        for e in (plain, empty, strip, cont):
            for mode in ('xml', 'html'):
                yield 'equiv', dict(dirs=rdirs(rng, [n]), el=e, order=[n], ctx=xmlgen.rcontext(rng), mode=mode)
    use = ['el', 'b', [['c', [['x', "value_of('k', 'nok')"]]]], {}, [['text', 'x'], ['expr', "str(locals().get('k')) + str(locals().get('w')) if True else ''", 'braced']]]
    for a, b in itertools.permutations(ALL, 2):
        if usable((a, b)):
            for e in (plain, use):
                yield 'equiv', dict(dirs=rdirs(rng, [a, b]), el=e, order=[a, b], ctx=xmlgen.rcontext(rng), mode='xml')
    # with the value of one directive depending on another: only one nesting works
    dep = {('for', 'if'): [['for', 'k in [1, 2, 3]'], ['if', 'k != 2']], ('for', 'with'): [['for', 'k in [1, 2]'], ['with', 'w=k*2']], ('for', 'replace'): [['for', 'k in [1, 2]'], ['replace', 'k']],
           ('with', 'replace'): [['with', 'w=5'], ['replace', 'w']], ('def', 'if'): [['def', 'fn1(x)'], ['if', 'x == 1']], ('def', 'for'): [['def', 'fn1(x)'], ['for', 'k in [x]']],
           ('def', 'replace'): [['def', 'fn1(x)'], ['replace', 'x']], ('def', 'with'): [['def', 'fn1(x)'], ['with', 'w=x']], ('call', 'if'): [['call', 'wrapfn(%caller)'], ['if', 't']],
           ('if', 'with'): [['if', 'not defined("nope")'], ['with', 'w=1']], ('if', 'replace'): [['if', 'f'], ['replace', '1 // 0']], ('if', 'block'): [['if', 'f'], ['block', 'blk']]}
    for key, dirs in sorted(dep.items()):
        for order in (list(key), list(reversed(key))):
            for e in (plain, empty, use):
                yield 'equiv', dict(dirs=dirs, el=e, order=order, ctx=dict(xmlgen.rcontext(rng), a=['s', 'A']), mode='xml')
    for order in itertools.permutations(['for', 'if', 'with', 'replace']):
        yield 'equiv', dict(dirs=[['for', 'k in [1, 2, 3]'], ['if', 'k != 2'], ['with', 'w=k*2'], ['replace', 'w']], el=plain, order=list(order), ctx={'a': ['s', 'A'], 't': ['b', True], 'i': ['i', 1]}, mode='xml',
                            want='<root>26</root>')
    for names in (['for', 'if', 'with'], ['for', 'with', 'replace'], ['for', 'if', 'replace'], ['for', 'if', 'with', 'replace']):
        for order in itertools.permutations(names):
            v = {'for': 'k in [0, 1, 2]', 'if': 'k == 1', 'with': 'k=k+1', 'replace': 'k'}
            yield 'equiv', dict(dirs=[[n, v[n]] for n in names], el=['el', 'b', [], {}, [['expr', 'k', 'braced']]], order=list(order), ctx={}, mode='xml')
    while True:
        if rng.random() < .75:
            names = rng.sample(ALL, rng.randint(1, 5))
            if not usable(names):
                continue
            order = list(names)
            rng.shuffle(order)
            yield 'equiv', dict(dirs=rdirs(rng, names), el=relement(rng), order=order, ctx=xmlgen.rcontext(rng), mode=rng.choice(['xml', 'html', 'html5']))
        else:
            yield xml_case(rng, features=['text', 'expr', 'el', 'if', 'for', 'with', 'replace', 'switch', 'multi', 'multi', 'multi'])
