"""C16: rendering is repeatable and leaves its inputs alone."""
import copy
import kajiki
from . import xmlgen, textgen
from .lib import kind, context, diff
from .c06 import xmltree, texttree  # noqa


def compile_(spec):
    if spec[0] == 'xml':
        return kajiki.XMLTemplate(xmlgen.source_of(spec[1]), is_fragment=True)
    src, _ = textgen.serialise(spec[1], spec[2])
    return kajiki.TextTemplate(src)


def oracle(spec, ctx):
    if spec[0] == 'xml':
        return xmlgen.Oracle(context(ctx, True)).doc(spec[1])
    _, toks = textgen.serialise(spec[1], spec[2])
    return textgen.TextOracle(context(ctx, True), False).doc(textgen.build(toks))


def snapshot(c):
    return sorted((k, id(v), repr(v) if not hasattr(v, 'text') else v.text) for k, v in c.items())


def cls_state(t):
    return sorted((k, repr(v)) for k, v in vars(t).items()), sorted((k, id(v)) for k, v in (t.base_globals or {}).items())


@kind('repeat')
def repeat(args):
    """{tpls, ctxs, plan}: plan steps are [op, template, context]; op render | start | step | finish | abandon."""
    tpls = [compile_(s) for s in args['tpls']]
    ctxs = [context(c) for c in args['ctxs']]
    snaps = [snapshot(c) for c in ctxs]
    states = [cls_state(t) for t in tpls]
    want = {}
    live = []

    def expected(ti, ci):
        if (ti, ci) not in want:
            want[ti, ci] = oracle(args['tpls'][ti], args['ctxs'][ci])
        return want[ti, ci]
    insts = {}
    for op, ti, ci in args['plan']:
        if op == 'render':
            d = diff(expected(ti, ci), tpls[ti](ctxs[ci]).render())
            if d:
                return 'template %d context %d: %s' % (ti, ci, d)
        elif op == 'again':
            if (ti, ci) not in insts:
                insts[ti, ci] = tpls[ti](ctxs[ci])
            d = diff(expected(ti, ci), insts[ti, ci].render())
            if d:
                return 'same instance again, template %d context %d: %s' % (ti, ci, d)
        elif op == 'start':
            live.append([iter(tpls[ti](ctxs[ci])), '', ti, ci])
        elif live:
            g = live[ti % len(live)]
            if op == 'step':
                for _ in range(ci + 1):
                    g[1] += next(g[0], '')
            elif op == 'finish':
                g[1] += ''.join(g[0])
                live.remove(g)
                d = diff(expected(g[2], g[3]), g[1])
                if d:
                    return 'interleaved, template %d context %d: %s' % (g[2], g[3], d)
            else:
                live.remove(g)
    for g in live:
        g[1] += ''.join(g[0])
        d = diff(expected(g[2], g[3]), g[1])
        if d:
            return 'interleaved, template %d context %d: %s' % (g[2], g[3], d)
    for i, c in enumerate(ctxs):
        if snapshot(c) != snaps[i]:
            return 'context %d was modified: %r -> %r' % (i, snaps[i], snapshot(c))
    for i, t in enumerate(tpls):
        if cls_state(t) != states[i]:
            return 'template class %d was modified' % i


@kind('prec')
def prec(args):
    """Which of context, base globals and built-in template names is seen."""
    name = args['name']
    src = "<p>${show(%s)}|${defined('%s')}|${show(value_of('%s', 'none'))}</p>" % (name, name, name)
    if not (args['ctx'] or args['base'] or args['builtin']):
        src = "<p>-|${defined('%s')}|${show(value_of('%s', 'none'))}</p>" % (name, name)
    vals = args.get('vals', ['base', 'ctx'])
    show = lambda v: repr(v) if 'vals' in args and not callable(v) else v if isinstance(v, str) else 'builtin'      # noqa
    base = dict(show=show, other='o')
    if args['base']:
        base[name] = vals[0]
    before = dict(base)
    ctx = {name: vals[1]} if args['ctx'] else {}
    b4 = dict(ctx)
    t = kajiki.XMLTemplate(src, base_globals=base)
    inst = t(ctx)
    val = vals[1] if args['ctx'] else vals[0] if args['base'] else 'builtin' if args['builtin'] else '-'
    have = bool(args['ctx'] or args['base'] or args['builtin'])
    none = 'none'
    if 'vals' in args:
        none = repr(none)
        if args['ctx'] or args['base']:
            val = repr(val)
    for _ in range(2):
        d = diff('<p>%s|%s|%s</p>' % (val, have, val if have else none), inst.render())
        if d:
            return d
    if base != before or ctx != b4:
        return 'inputs modified: %r %r' % (base, ctx)
    d = diff('<p>%s|%s|%s</p>' % (('base' if args['base'] else 'builtin' if args['builtin'] else None, True, '') if False else (val, have, val if have else none)), t(dict(ctx)).render())
    return d


SIDE = '''<p><?py
x = list(l)
x.append(1)
?><py:with vars="a='W'; b=a">${a}${b}</py:with><py:import href="lib" alias="al"/><py:include href="lib"/>${al.f()}<py:def function="loc()">L</py:def>${loc()}<py:for each="i in l">${i}</py:for>${len(x)}</p>'''


@kind('frame')
def frame(args):
    """Importing, including, assigning and defining never show up in the inputs."""
    loader = kajiki.loader.MockLoader({'lib': kajiki.XMLTemplate('<i><py:def function="f()">F${v}</py:def><py:with vars="v=5">$v</py:with></i>'),
                                       'm': kajiki.XMLTemplate(SIDE, base_globals={'bg': [1]}),
                                       'c': kajiki.XMLTemplate('<py:extends href="m"><py:def function="loc()">C</py:def></py:extends>')})
    ctx = {'l': [3, 4], 'v': 'V', 'i': 'I'}
    before = copy.deepcopy(ctx)
    bg = loader.import_('m').base_globals
    bgb = dict(bg)
    outs = {}
    for name in args['order']:
        got = loader.import_(name)(ctx).render()
        want = '<p>WW<i>5</i>FV%s343</p>' % ('L' if name == 'm' else 'C') if name != 'lib' else '<i>5</i>'
        d = diff(want, got)
        if d:
            return d
        outs.setdefault(name, got)
    if ctx != before:
        return 'context modified: %r' % ctx
    if bg != bgb:
        return 'base globals modified'


def rtpl(rng):
    if rng.random() < .65:
        return ['xml', xmlgen.Gen(rng, maxdepth=rng.choice([1, 2])).template()]
    tree, styles = textgen.TGen(rng, 2).template()
    return ['text', tree, styles]


def cases(run):
    rng = run.rng
    for name, builtin in (('foo', 0), ('literal', 1), ('Markup', 1), ('zz9', 0), ('other2', 0)):
        for c in (0, 1):
            for b in (0, 1):
                yield 'prec', dict(name=name, ctx=c, base=b, builtin=builtin)
                for v in ([0, 1], [1, 0], [None, 2], [2, None], [0, None], [None, False], [[], 0.0], [3, []]):
                    yield 'prec', dict(name=name, ctx=c, base=b, builtin=builtin, vals=v)
    for order in (['m', 'm', 'm'], ['c', 'm', 'c'], ['m', 'c', 'm', 'lib', 'c'], ['lib', 'm', 'lib']):
        yield 'frame', dict(order=order)
    while True:
        tpls = [rtpl(rng) for _ in range(rng.randint(1, 3))]
        ctxs = [xmlgen.rcontext(rng) for _ in range(rng.randint(1, 3))]
        plan = []
        for _ in range(rng.randint(3, 10)):
            op = rng.choice(['render', 'render', 'again', 'start', 'start', 'step', 'step', 'step', 'finish', 'abandon'])
            plan.append([op, rng.randrange(len(tpls)), rng.randrange(len(ctxs))])
        yield 'repeat', dict(tpls=tpls, ctxs=ctxs, plan=plan)
