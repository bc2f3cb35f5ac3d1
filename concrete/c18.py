"""C18: compiling does not depend on what was compiled before."""
import threading
import kajiki
import kajiki.util
from . import xmlgen, textgen
from .lib import kind, context, diff
from .c06 import xmltree, texttree  # noqa
from .c16 import compile_, oracle, rtpl


@kind('names')
def names(args):
    """gen_name never gives the same name twice in a thread."""
    gen = kajiki.util.gen_name
    seen = set()
    for i in range(args['n']):
        x = gen(args['hints'][i % len(args['hints'])]) if args['hints'] else gen()
        if x in seen:
            return 'the name %r was generated twice (after %d names)' % (x, i)
        seen.add(x)
        if not x.replace('_', 'a').isalnum() or x[0].isdigit():
            return 'not an identifier: %r' % x


def many(n, calls, deep):
    kids = [['def', 'wrapfn', ['p', 'caller'], [['expr', 'caller(p)', 'braced']], 'elem']]
    for i in range(n):
        kids.append(['el', 'a', [['h%d' % j, [['x', 'v%d' % ((i + j) % 3)], ['t', '-%d' % i]]] for j in range(3)], {'attrs': "{'k%d': v1}" % i}, []])
    for i in range(calls):
        kids.append(['call', 'wrapfn', ['%d' % i], ['y%d' % i], [['expr', 'y%d' % i, 'braced'], ['el', 'b', [['t', [['x', 'y%d' % i]]]], {}, []]]])
    inner = [['expr', 'z', 'braced']]
    for i in range(deep):
        inner = [['call', 'wrapfn', ["'%d'" % i], ['z'], [['el', 'u', [['q', [['x', 'z']]]], {}, inner]]]]
    return [['el', 'div', [], {}, kids + (inner if deep else [])]]


@kind('manynames')
def manynames(args):
    """One template with many generated names."""
    tree = many(args['n'], args['calls'], args['deep'])
    ctx = {'v0': ['s', 'a'], 'v1': ['s', 'b'], 'v2': ['n']}
    return xmltree(dict(tree=tree, ctx=ctx, mode=args.get('mode', 'xml')))


@kind('history')
def history(args):
    """{before: n, seed, tpl, ctx}: after other templates were compiled, and twice."""
    import random
    rng = random.Random(args['seed'])
    for _ in range(args['before']):
        t = rtpl(rng)
        compile_(t)
    want = oracle(args['tpl'], args['ctx'])
    a, b = compile_(args['tpl']), compile_(args['tpl'])
    return diff(want, a(context(args['ctx'])).render()) or diff(want, b(context(args['ctx'])).render()) or diff(want, a(context(args['ctx'])).render())


@kind('threads')
def threads(args):
    """Templates compiled and rendered in several threads at once."""
    want = [oracle(t, args['ctx']) for t in args['tpls']]
    errs = []
    start = threading.Barrier(args['n'])

    def work(k):
        try:
            start.wait()
            for r in range(args['rounds']):
                for i in range(len(args['tpls'])):
                    j = (i + k) % len(args['tpls'])
                    d = diff(want[j], compile_(args['tpls'][j])(context(args['ctx'])).render())
                    if d:
                        errs.append('thread %d template %d: %s' % (k, j, d))
                        return
        except Exception as e:
            errs.append('thread %d: %s: %s' % (k, type(e).__name__, e))
    import sys
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    try:
        ts = [threading.Thread(target=work, args=(k,)) for k in range(args['n'])]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        sys.setswitchinterval(old)
    return errs[0] if errs else None


@kind('collide')
def collide(args):
    """The random suffixes repeat as much as they can before a fresh one comes up."""
    util = kajiki.util
    old = getattr(util, 'randint', None)
    if old is None:
        return None
    state = [0]

    def biased(lo, hi):
        state[0] += 1
        if state[0] % args['period']:
            return min(hi, lo + (state[0] % 3))
        return old(lo, hi)
    util.randint = biased
    try:
        return names(dict(n=args['n'], hints=None)) or manynames(dict(n=args['k'], calls=args['k'], deep=2))
    finally:
        util.randint = old


def cases(run):
    rng = run.rng
    yield 'names', dict(n=3000, hints=None)
    yield 'names', dict(n=2000, hints=['_kj_', 'x', '_kj_x', 'x_1', 'x_2'])
    for n, c, d in ((1, 1, 1), (10, 5, 5), (60, 20, 8), (150, 40, 4), (0, 100, 0)):
        yield 'manynames', dict(n=n, calls=c, deep=d)
    for p in (2, 3, 7):
        yield 'collide', dict(n=300, period=p, k=20)
    for n in (2, 4, 8):
        yield 'threads', dict(n=n, rounds=2, tpls=[['xml', many(5, 3, 2)], rtpl(rng), rtpl(rng)], ctx=dict(xmlgen.rcontext(rng), v0=['s', 'a'], v1=['s', 'b'], v2=['n']))
    while True:
        r = rng.random()
        if r < .7:
            yield 'history', dict(before=rng.choice([0, 1, 5]), seed=rng.randint(0, 10 ** 9), tpl=rtpl(rng), ctx=xmlgen.rcontext(rng))
        elif r < .8:
            yield 'threads', dict(n=rng.choice([2, 3, 6]), rounds=rng.choice([1, 3]), tpls=[rtpl(rng) for _ in range(rng.randint(1, 4))], ctx=xmlgen.rcontext(rng))
        elif r < .95:
            yield 'manynames', dict(n=rng.randint(0, 12), calls=rng.randint(0, 6), deep=rng.randint(0, 5), mode=rng.choice(['xml', 'html']))
        else:
            yield 'names', dict(n=400, hints=rng.choice([None, ['a'], ['_kj_', 'b']]))
