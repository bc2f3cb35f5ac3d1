"""C08: inheritance."""
from .lib import *  # noqa
from .lib import harness, instance, must, Stage
from .dom import Dom, X
from .c17 import loader

HARNESSES = []
T = 'kajiki.template._Template.'


class Chain(object):
    """Specification. levels[i]: f: {name: parts}, b: {name: parts}; parts: text | ('call', how, name) | ('pb',) | ('body', hole)."""
    def __init__(self, S, levels, top):
        self.S, self.levels, self.top, self.runs = S, levels, top, {}
        self.out = []

    def find(self, kind, name, start):
        for i in range(start, len(self.levels)):
            if name in self.levels[i][kind]:
                return i
        return None

    def run(self, parts, level, block=None):
        for p in parts:
            if isinstance(p, str):
                self.out.append(p)
            elif p[0] == 'body':
                n = self.S.times[p[1]] = self.S.times.get(p[1], 0) + 1
                self.out.append(self.S.out(p[1], n))
            elif p[0] == 'call':
                start = {'': self.top, 'self.': self.top, 'local.': level, 'parent.': level + 1, 'child.': level - 1}[p[1]]
                i = self.find('f', p[2], start)
                self.run(self.levels[i]['f'][p[2]], i)
            elif p[0] == 'pb':
                i = self.find('b', block, level + 1)
                self.run(self.levels[i]['b'][block], i, block)
            elif p[0] == 'block':
                i = self.find('b', p[1], self.top)
                self.run(self.levels[i]['b'][p[1]], i, p[1])

    def render(self):
        n = len(self.levels)
        for i in range(self.top, n - 1):
            self.run(self.levels[i].get('before', ()), i)
        self.run(self.levels[n - 1]['main'], n - 1)
        for i in range(n - 2, self.top - 1, -1):
            self.run(self.levels[i].get('after', ()), i)
        return self.out


def nodes(D, parts):
    out = []
    for p in parts:
        if isinstance(p, str):
            out.append(D.text(p))
        elif p[0] == 'body':
            out.append(D.hole(p[1]))
        elif p[0] == 'call':
            out.append(D.text('${%s%s()}' % (p[1], p[2])))
        elif p[0] == 'pb':
            out.append(D.text('${parent_block()}'))
        elif p[0] == 'block':
            out.append(D.el('py:block', [('name', p[1])], *nodes(D, p[2])))
    return out


def xml(E, S, levels, i, form):
    D = Dom(E, S)
    l = levels[i]
    kids = [D.el('py:def', [('function', k + '()')], *nodes(D, v)) for k, v in sorted(l['f'].items())]
    if i == len(levels) - 1:
        D.doc(D.el('py:nop', (), *(kids + nodes(D, l['main']))))
    else:
        kids += [D.el('py:block', [('name', k)], *nodes(D, v)) for k, v in sorted(l['b'].items())]
        ext = D.el('py:extends', [('href', 't%d' % (i + 1))])
        if form:
            D.doc(D.el('py:nop', (), *(nodes(D, l.get('before', ())) + [ext] + kids + nodes(D, l.get('after', ())))))
        else:
            D.doc(D.el('py:extends', [('href', 't%d' % (i + 1))], *(kids + nodes(D, l.get('after', ())))))
    return D.compile(is_fragment=True)


def source(parts):
    return ''.join(p if isinstance(p, str) else '${%s%s()}' % p[1:] if p[0] == 'call' else '${parent_block()}' if p[0] == 'pb' else '{%%block %s%%}%s{%%end%%}' % (p[1], source(p[2])) for p in parts)


def text(E, S, levels, i):
    l = levels[i]
    s = ''.join('{%%def %s()%%}%s{%%end%%}' % (k, source(v)) for k, v in sorted(l['f'].items()))
    if i == len(levels) - 1:
        s += source(l['main'])
    else:
        s = source(l.get('before', ())) + '{%%extends t%d%%}' % (i + 1) + s + ''.join('{%%block %s%%}%s{%%end%%}' % (k, source(v)) for k, v in sorted(l['b'].items())) + source(l.get('after', ()))
    return E.call(E.get('kajiki.text.TextTemplate'), [s], {})


def play(E, S, levels, kind='xml', form=1, tops=(0,)):
    S.times = {}
    mods = {}
    for i in range(len(levels)):
        mods['t%d' % i] = xml(E, S, levels, i, form) if kind == 'xml' else text(E, S, levels, i)
    loader(E, **mods)
    for top in tops:
        r = S.render(mods['t%d' % top])
        S.check('rendering of template %s' % ('that extends' if top == 0 else 'that is extended, afterwards'), r, *Chain(S, levels, top).render())


def functions(E, n, kind, form):
    S = Stage(E)
    levels = [{'f': {}, 'b': {}} for i in range(n)]
    body = (lambda x: [('body', x)]) if kind == 'xml' and n <= 2 else (lambda x: [x])
    for i in range(n):
        if E.choose(2, 'f defined at level %d' % i):
            levels[i]['f']['f'] = ['f%d(' % i] + body('F%d' % i) + [')']
    c = E.choose(n, 'level of the caller')
    how = ('', 'self.', 'local.', 'parent.', 'child.')[E.choose(5, 'called through')]
    start = {'': 0, 'self.': 0, 'local.': c, 'parent.': c + 1, 'child.': c - 1}[how]
    if start < 0 or not any('f' in levels[i]['f'] for i in range(start, n)):
        return
    call = ['<', ('call', how, 'f'), '>']
    levels[c]['f']['g'] = call
    levels[n - 1]['main'] = ['main ', ('call', '', 'g')]
    if how != 'child.' and c == n - 1:
        levels[c]['main'] += call
    for i in range(n - 1):
        levels[i]['after'] = body('A%d' % i)
    # the parent can be rendered alone when it has all it needs
    tops = [0]
    if c >= 1 and n > 1 and how != 'child.' and any('f' in levels[i]['f'] for i in range(max(start, 1), n)):
        tops += [1, 0]
    play(E, S, levels, kind, form, tops)
    E.reachable('end')


for n_ in (1, 2, 3, 4):
    harness(HARNESSES, 'functions along a chain of %d XML templates' % n_, ([T + '_extend', T + '_inherit', X + '_Compiler._compile_extends'] if n_ > 1 else []) + [X + '_Compiler._compile_def'],
            bound='chain of %d; every distribution of one function, a caller at every level, every form of call; bodies arbitrary (from 3 levels on: one text each)' % n_)(lambda E, n=n_: functions(E, n, 'xml', 1))
harness(HARNESSES, 'functions along a chain of 3 text templates', [T + '_extend', T + '_inherit', 'kajiki.text._Parser._parse_extends', 'kajiki.text._Parser._parse_def'],
        bound='chain of 3; every distribution of one function, a caller at every level, every form of call')(lambda E: functions(E, 3, 'text', 1))


def blocks(E, n, kind, form):
    S = Stage(E)
    levels = [{'f': {}, 'b': {}} for i in range(n)]
    body = (lambda x: [('body', x)]) if kind == 'xml' and n <= 2 else (lambda x: [x])
    for i in range(n - 1):
        o = E.choose(5 if n < 4 else 4, 'block at level %d' % i)
        b = ['b%d(' % i] + body('B%d' % i)
        if o == 1:
            levels[i]['b']['b'] = b + [')']
        elif o == 2:
            levels[i]['b']['b'] = b + [('pb',), ')']
        elif o == 3:
            levels[i]['b']['b'] = [('pb',), '/', ('pb',)] + b + [')']
        elif o == 4:
            levels[i]['b']['b'] = []
        if form:
            levels[i]['before'] = ['pre'] + body('P%d' % i)
        levels[i]['after'] = body('A%d' % i)
    root = ['root('] + body('R') + [')']
    levels[n - 1]['main'] = ['main '] + body('M') + [('block', 'b', root), ' end']
    levels[n - 1]['b'] = {'b': root}
    play(E, S, levels, kind, form, [0, 1, 0] if n > 1 else [0])
    E.reachable('end')


for n_ in (1, 2, 3, 4):
    for form_ in (0, 1):
        if form_ == 0 and n_ not in (2, 3):
            continue
        harness(HARNESSES, 'blocks along a chain of %d XML templates%s' % (n_, '' if form_ else ', extends as root'), ([T + '_extend', T + '_inherit', X + '_Compiler._compile_extends'] if n_ > 1 else []) + [X + '_Compiler._compile_block'],
                bound='chain of %d; every distribution of one block, with and without parent_block(); bodies arbitrary (from 3 levels on: one text each)' % n_)(lambda E, n=n_, f=form_: blocks(E, n, 'xml', f))
harness(HARNESSES, 'blocks along a chain of 3 text templates', [T + '_extend', T + '_inherit', 'kajiki.text._Parser._parse_block'],
        bound='chain of 3; every distribution of one block, with and without parent_block()')(lambda E: blocks(E, 3, 'text', 1))


def nested(E, kind):
    """A block in a block, one in a function and one called from elsewhere, overridden or not."""
    S = Stage(E)
    levels = [{'f': {}, 'b': {}} for i in range(3)]
    for i in range(2):
        for b in ('outer', 'inner', 'infn'):
            if E.choose(2, '%s at level %d' % (b, i)):
                levels[i]['b'][b] = ['%s%d(' % (b, i), ('call', '', 'f'), ('pb',), ')']
    if E.choose(2, 'function overridden'):
        levels[E.choose(2, 'where')]['f']['f'] = ['newf']
    inner, infn = ['inner(', ('call', 'self.', 'f'), ')'], ['infn']
    outer = ['outer(', ('block', 'inner', inner), ')']
    levels[2]['b'] = {'inner': inner, 'outer': outer, 'infn': infn}
    levels[2]['f'] = {'f': ['f'], 'g': ['g(', ('block', 'infn', infn), ')']}
    levels[2]['main'] = ['<', ('block', 'outer', outer), ('call', '', 'g'), '>']
    play(E, S, levels, kind, 1, [0, 1, 2, 0])
    E.reachable('end')


for k_, fn_ in (('xml', [X + '_Compiler._compile_block', X + '_Compiler._compile_def']), ('text', ['kajiki.text._Parser._parse_block', 'kajiki.text._Parser._parse_def'])):
    harness(HARNESSES, 'blocks in blocks and functions, %s templates' % k_, [T + '_extend', T + '_inherit'] + fn_, bound='chain of 3, three blocks and two functions')(lambda E, k=k_: nested(E, k))


def tplfunc(E, name):
    f = instance(E, 'kajiki.template.TplFunc')
    f.name = name
    return f


def tpl(E, name, k, own, foreign, plain_):
    t = instance(E)
    t.name = name
    g = PyDict(E, [['other', 'o' + name], ['__main__', tplfunc(E, 'main ' + name)]])
    E.registry[g.id] = g
    c = PyDict(E)
    E.registry[c.id] = c
    if k:
        E.setitem(g, 'k', (None, own, foreign, plain_)[k])
    if k == 2:
        E.setitem(c, 'k', foreign)
    t.attrs['__globals__'] = g
    t.attrs['_context'] = c
    return t


@harness(HARNESSES, '_inherit', [T + '_inherit', T + '_is_foreign'])
def h_inherit(E):
    """One name, in any state, in any template of the chain; the templates below follow by the same contract."""
    k = E.choose(4, 'the name here')
    own, foreign, plain = tplfunc(E, 'own'), tplfunc(E, 'foreign'), E.any('plain', ('str', 'none'))
    t = tpl(E, 't', k, own, foreign, plain)
    if E.choose(2, 'attribute there'):
        t.attrs['k'] = own
    log = []
    child = PyObj(E, E.opaque_class('stand-in'), name='child')
    E.registry[child.id] = child
    child.attrs['_inherit'] = Host('_inherit', lambda I, a, kw: log.append((list(a), dict(kw))))
    c = E.choose(2, 'child')
    t.attrs['_child'] = child if c else None
    had = t.attrs.get('k')
    v = tplfunc(E, 'inherited')
    E.call_method(t, '_inherit', 'k', v)
    g = t.attrs['__globals__']
    want = (v, own, v, plain)[k]
    E.ensure('a name that is not defined here resolves to the inherited function, others stay', E.dict_get(g, 'k') is want)
    E.ensure('other names stay', E.dict_get(g, 'other') == 'ot')
    E.ensure('no name appears', len(list(E.iterate(g))) == 3)
    if had is not None:
        E.ensure('its own attribute stays', t.attrs.get('k') is had)
    else:
        E.ensure('reachable as attribute', t.attrs.get('k') is not None)
    E.ensure('the templates below learn it too', (len(log) == 1 and log[0][0][0] == 'k' and log[0][0][1] is v) if c else not log)
    E.reachable('end')


@harness(HARNESSES, '_extend', [T + '_extend', T + '_is_foreign'])
def h_extend(E):
    """One name, in any state in the template and in the one it extends; names are independent of each other."""
    own, foreign, plain = tplfunc(E, 'own'), tplfunc(E, 'foreign'), E.any('plain', ('str', 'none'))
    pown, pplain = tplfunc(E, 'parent own'), E.any('pplain', ('str', 'none'))
    k, p = E.choose(4, 'the name here'), E.choose(4, 'the name in the parent')
    t = tpl(E, 't', k, own, foreign, plain)
    me = E.choose(2, 'extended itself')
    slf = instance(E) if me else t
    g = t.attrs['__globals__']
    E.setitem(g, 'self', slf)
    pt = tpl(E, 'p', p, pown, foreign, pplain)
    pg = pt.attrs['__globals__']
    E.setitem(pg, 'self', pt)
    E.setitem(pg, 'local', pt)
    log, inh = [], []
    ctx = t.attrs['_context']

    def make(I, a, kw):
        log.append(list(a))
        return pt
    cls = Host('parent class', make)
    byname = E.choose(2, 'parent given by name')
    if byname:
        ld = PyObj(E, E.opaque_class('stand-in'), name='loader')
        E.registry[ld.id] = ld
        ld.attrs['import_'] = Host('import_', lambda I, a, kw: cls if a[0] == 'name' and not kw else None)
        t.attrs['loader'] = ld
    E.overrides[T + '_inherit'] = lambda I, a, kw: inh.append(list(a))
    r = E.call_method(t, '_extend', 'name' if byname else cls)
    E.ensure('gives the parent', r is pt)
    E.ensure('made once, with the same context', len(log) == 1 and len(log[0]) == 1 and log[0][0] is ctx)
    want = own if k == 1 else (None, pown, foreign, pplain)[p]
    got = E.dict_get(pg, 'k') if (k == 1 or p) else None
    E.ensure('a function defined here wins in the parent; nothing else of the parent changes', got is want)
    E.ensure('main stays', E.dict_get(pg, '__main__').name == 'main p' and E.dict_get(g, '__main__').name == 'main t')
    E.ensure('other names stay', E.dict_get(pg, 'other') == 'op' and E.dict_get(g, 'other') == 'ot')
    names = [x[1] for x in inh]
    fn = isinstance(want, PyObj) and want.cls.name == 'TplFunc'
    E.ensure('every function of the parent is inherited, main is not', '__main__' not in names and (('k' in names) if fn and want is not own and p != 2 else True) and all(x[0] is t and x[1] in ('k',) for x in inh))
    for x in inh:
        E.ensure('as the function it resolves to', x[2] is want)
    E.ensure('child, parent', E.dict_get(pg, 'child') is t and pt.attrs.get('_child') is t and E.dict_get(g, 'parent') is pt)
    E.ensure('local', E.dict_get(pg, 'local') is pt and E.dict_get(g, 'local') is t)
    E.ensure('self is the most derived template', E.dict_get(pg, 'self') is slf and E.dict_get(g, 'self') is slf)
    E.reachable('end')
