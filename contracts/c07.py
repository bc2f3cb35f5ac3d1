"""C07: py:with and py:switch state."""
from .lib import *  # noqa
from .lib import harness, instance, must, Stage
from pyvc.values import Match, PyGen

HARNESSES = []
T = 'kajiki.template._Template.'


def stack(E, name):
    """An arbitrary stack."""
    s = PyList(E, [Run((name,))])
    E.registry[s.id] = s
    E.add(s.items[0].length() >= 0)
    return s


def mapping(E, name):
    """An arbitrary mapping: any name may or may not be there."""
    d = PyDict(E, [], name=name)

    memo = []

    def base(k):
        for k2, v in memo:
            if E.key_eq(k2, k):
                return v
        if E.choose(2, '%r in %s' % (k, name)) == 0:
            v = ABSENT
        else:
            v = E.any('%s[%s]' % (name, k if isinstance(k, str) else E.fresh('k')), ('obj',))
        memo.append((k, v))
        return v
    base.memo = memo
    d.base = base
    E.registry[d.id] = d
    return d


class Values(Spec):
    """The value each name has: a local one, else a global one, else none."""
    streams = ('vals',)

    def __init__(self, loc, glo):
        self.loc, self.glo = loc, glo

    def step(self, E, g, elem):
        v = E.dict_get(self.loc, elem)
        if v is ABSENT:
            v = E.dict_get(self.glo, elem)
        if v is ABSENT:
            v = ()
        return g, {'vals': [v]}


@harness(HARNESSES, '_push_with, _pop_with', [T + '_push_with', T + '_pop_with'])
def h_with(E):
    """For any stack, names and values: push saves the current values, pop gives exactly them back and restores the stack."""
    tpl = instance(E)
    st = stack(E, 'stack')
    loc, glo = mapping(E, 'locals'), mapping(E, 'globals')
    tpl.attrs.update(_with_stack=st, __globals__=glo)
    names = SymSeq(E, 'names', lambda E, h: SymStr([Atom(h)]), Values(loc, glo))
    E.call_method(tpl, '_push_with', loc, names)
    r = E.force(E.call_method(tpl, '_pop_with'))
    E.ensure('the saved values, in order', isinstance(r, PyList) and r.items == [Run(('names', 'vals', 'full'))], repr(r))
    E.ensure('the stack is as before', tpl.attrs['_with_stack'].items == [Run(('stack',))])
    E.reachable('end')


@harness(HARNESSES, 'switch stack', [T + '_push_switch', T + '_pop_switch', T + '_case'])
def h_switch(E):
    """push v; (push w; pop); case compares with v; pop restores any stack."""
    tpl = instance(E)
    st = stack(E, 'stack')
    tpl.attrs['_switch_stack'] = st
    v, w, c = E.any('v', ('int', 'obj', 'none')), E.any('w', ('int', 'obj')), E.any('c', ('int', 'obj'))
    E.call_method(tpl, '_push_switch', v)
    k = E.choose(2, 'an inner switch before')
    if k:
        E.call_method(tpl, '_push_switch', w)
        E.call_method(tpl, '_case', c)
        E.call_method(tpl, '_pop_switch')
    r = E.call_method(tpl, '_case', c)
    E.ensure('a case compares with its own switch', E.truth(r) == E.truth(E.eq(c, v)))
    E.call_method(tpl, '_pop_switch')
    E.ensure('the stack is as before', tpl.attrs['_switch_stack'].items == [Run(('stack',))])
    E.reachable('end')


def show(S, *names):
    out = []
    for n in names:
        out += [S.node('TextNode', '['), S.node('ExprNode', n, True), S.node('TextNode', ']')]
    return out


def shown(*vals):
    out = []
    for v in vals:
        out += ['[', v, ']']
    return out


class With(Stage):
    def fn(self, name, n):
        """A function of the context: an arbitrary text for each call."""
        calls = PyList(self.E, [])
        self.E.registry[calls.id] = calls

        def f(I, a, kw):
            r = SymStr([Atom('%s(%s)' % (name, ','.join(repr(x) for x in a)))])
            return r
        return Host(name, f)


import re  # noqa: E402
ASSIGN = re.compile(r'(?:;|^)\s*(?P<name>[^;=]+)=(?:(?=[^=])|\Z)', re.M)


def assigns(t):
    """Runtime contracts for assignments on which the pattern differs."""
    for v in (t, t + '1', 'a=1;' + t, 'a=1;' + t + '2', t.replace('x', 'b') + '1', 'b' + t, 'a=1' + t + '1'):
        for form in ('elem', 'attr'):
            yield dict(property='C07', kind='withvars', args=dict(vars=v, form=form))


@harness(HARNESSES, 'assignments', ['kajiki.ir.WithNode.__init__', 'kajiki.util.window'], bound='at most 3 assignments, of arbitrary text')
def h_assign(E):
    """Whatever the text and wherever the assignments are found in it: names and values are exactly its parts."""
    from .scan import alike
    src = SymStr([Atom('vars')])
    n = E.str_len(src)
    k = 1 + E.choose(3, 'assignments')
    ms, at = [], z3.IntVal(0)
    for i in range(k):
        s, e = z3.Int('start%d' % i), z3.Int('end%d' % i)
        E.add(z3.And(s >= at, e > s + 1, e <= n.z))
        if i == 0:
            E.add(s == 0)
        name = SymStr([Atom('name%d' % i)])
        m = Match(SymInt(s), SymInt(e), {'1': name, 1: name}, strs.getitem(E, src, slice(SymInt(s), SymInt(e))), None)
        ms.append((m, name))
        at = e

    def hook(I, o, what, t, a):
        if what == 'finditer' and t is src:
            alike(E, 'an assignment: a name at the start, after ; or on a line of its own, up to an = that is not ==', o, [ASSIGN], (1,), assigns)
            return PyGen(I, iter([m for m, _ in ms]), 'finditer')
        return NotImplemented
    E.inputs['regex'] = hook
    w = E.call(E.get('kajiki.ir.WithNode'), [src], {})
    got = w.attrs['vars'].items
    E.ensure('as many as found', len(got) == k)
    for i, (m, name) in enumerate(ms):
        end = ms[i + 1][0].start if i + 1 < k else n
        must(E, 'the name', got[i][0], E.call(E.getattr(name, 'strip'), [], {}))
        must(E, 'the value: up to the next assignment', got[i][1], strs.getitem(E, src, slice(m.end, end)))
        must(E, 'saved and restored', w.attrs['var_names'].items[i], got[i][0])
    E.reachable('end')


@harness(HARNESSES, 'py:with', ['kajiki.ir.WithNode.__init__', 'kajiki.ir.WithNode.py', 'kajiki.ir.WithNode.__iter__', T + '_push_with', T + '_pop_with'])
def h_withnode(E):
    """Nested blocks reassigning the same names, around arbitrary content."""
    S = With(E)
    X = SymStr([Atom('X')])
    ctx = [('x', X), ('y', SymStr([Atom('Y')])), ('f', S.fn('f', 1)), ('g', S.fn('g', 1))]
    inner = S.node('WithNode', 'x=g(x); y=f(x)', *(show(S, 'x', 'y') + [S.body('C')]))
    outer = S.node('WithNode', 'x=f(1)', *(show(S, 'x') + [S.body('A'), inner] + show(S, 'x', 'y') + [S.body('B')]))
    r = S.render(S.template(outer, *show(S, 'x', 'y')), ctx)
    f1 = SymStr([Atom('f(1)')])
    gx = SymStr([Atom('g(%r)' % f1)])
    fgx = SymStr([Atom('f(%r)' % gx)])
    S.check('assigned inside, restored after', r, *(shown(f1) + [S.out('A')] + shown(gx, fgx) + [S.out('C')] + shown(f1, SymStr([Atom('Y')])) + [S.out('B')] + shown(X, SymStr([Atom('Y')]))))
    E.ensure('the stack is empty again', E.getattr(S.inst, '_with_stack').items == [])
    E.reachable('end')


@harness(HARNESSES, 'py:with without content', ['kajiki.ir.WithNode.__init__', 'kajiki.ir.WithNode.py', 'kajiki.ir.WithNode.__iter__', T + '_push_with', T + '_pop_with'])
def h_withempty(E):
    """A block without content, alone or inside another one, leaves nothing behind."""
    S = With(E)
    X, Y = SymStr([Atom('X')]), SymStr([Atom('Y')])
    ctx = [('x', X), ('y', Y), ('f', S.fn('f', 1))]
    k = E.choose(3, 'what is in the inner block')
    inner = S.node('WithNode', 'y=f(2)', *([], [S.node('TextNode', '')], [S.node('IfNode', 'y', S.body('B'))])[k])
    outer = S.node('WithNode', 'x=f(1)', inner, *show(S, 'x', 'y'))
    r = S.render(S.template(outer, *show(S, 'x', 'y')), ctx)
    S.check('restored after', r, *([S.out('B')] if S.count('stmt:B') else []), *(shown(SymStr([Atom('f(1)')]), Y) + shown(X, Y)))
    E.ensure('the stack is empty again', E.getattr(S.inst, '_with_stack').items == [])
    E.reachable('end')


@harness(HARNESSES, 'py:with in a loop', ['kajiki.ir.WithNode.py', 'kajiki.ir.ForNode.py', T + '_push_with', T + '_pop_with'])
def h_withloop(E):
    """In a loop of any length: the loop variable is reassigned in the block and back after it."""
    from .lib import Loop
    S = With(E)
    ctx = [('f', S.fn('f', 1))]

    def per(E, x):
        s = E.str_(x)
        return ['[', SymStr([Atom('f(%r)' % (x,))]), ']', S.run('A'), '[', s, ']']
    items = S.H.expr('ITEMS', lambda E: SymSeq(E, 'items', lambda E, h: E.any(h, ('str',)), Loop(per)))
    w = S.node('WithNode', 'x=f(x)', *(show(S, 'x') + [S.body('A')]))
    r = S.render(S.template(S.node('ForNode', mkstr(('x in ',) + items.parts), w, *show(S, 'x'))), ctx)
    S.check('every iteration has its value back', r, E.join_atom('', Run(('items', 'text', 'full'))))
    E.reachable('end')


@harness(HARNESSES, 'nested switches', ['kajiki.ir.SwitchNode.py', 'kajiki.ir.CaseNode.py', T + '_case'], bound='two levels')
def h_nested_switch(E):
    """A switch inside a case, and one in a function called by a case expression of the outer switch."""
    S = Stage(E)
    k2 = ('int', 'obj')
    v, w, u = [S.H.expr(n, lambda E, n=n: E.any(n.lower(), k2)) for n in 'VWU']
    c1, c2, d1, e1 = [S.H.expr(n, lambda E, n=n: E.any(n.lower(), k2)) for n in ('C1', 'C2', 'D1', 'E1')]
    f = S.node('DefNode', 'f()', S.node('SwitchNode', u, S.node('CaseNode', e1, S.body('F')), S.node('ElseNode', S.body('G'))))
    inner = S.node('SwitchNode', w, S.node('CaseNode', d1, S.body('B')))
    one = mkstr(('(str(f()), ',) + c1.parts + (')[1]',))
    one = mkstr(('(list(f()), ',) + c1.parts + (')[1]',))
    sw = S.node('SwitchNode', v, S.node('CaseNode', one, inner, S.body('C')), S.node('CaseNode', c2, inner2(S), S.body('D')), S.node('ElseNode', S.body('X')))
    r = S.render(S.template(S.body('A'), sw, S.body('Z'), defs=[f]))

    def equal(name, v):
        return S.count(name) >= 1 and E.truth(E.eq(S.value(name), S.value(v)))
    if equal('C1', 'V'):
        want = ([S.out('B')] if equal('D1', 'W') else []) + [S.out('C')]
    elif equal('C2', 'V'):
        want = [S.out('D')]
    else:
        want = [S.out('X')]
    S.check('the outer switch takes its own case', r, *([S.out('A')] + want + [S.out('Z')]))
    E.ensure('the switch stack is as before', E.getattr(S.inst, '_switch_stack').items == [])
    E.reachable('end')


def inner2(S):
    return S.node('SwitchNode', '3', S.node('CaseNode', '4', S.node('TextNode', 'no')))
