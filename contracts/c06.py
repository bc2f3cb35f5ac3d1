"""C06: directives mean what their Python counterparts mean."""
from .lib import *  # noqa
from .lib import harness, Stage, Loop, esc

HARNESSES = []
IR = 'kajiki.ir.'


@harness(HARNESSES, 'if/else', [IR + 'IfNode.py', IR + 'ElseNode.py', IR + 'HierNode.__iter__', IR + 'generate_python'])
def h_if(E):
    S = Stage(E)
    c = S.H.expr('COND')
    t = S.template(S.body('A'), S.node('IfNode', c, S.body('B')), S.node('ElseNode', S.body('C')), S.body('D'))
    r = S.render(t)
    E.ensure('the condition is evaluated once', S.count('COND') == 1)
    S.check('the taken branch only', r, S.out('A'), S.out('B' if E.truth(S.value('COND')) else 'C'), S.out('D'))
    E.reachable('end')


@harness(HARNESSES, 'if without else, empty bodies', [IR + 'IfNode.py', IR + 'PassNode.py'])
def h_if_empty(E):
    S = Stage(E)
    t = S.template(S.body('A'), S.node('IfNode', S.H.expr('COND')), S.node('IfNode', S.H.expr('COND2'), S.body('B')), S.body('D'))
    r = S.render(t)
    S.check('an empty body renders as nothing', r, S.out('A'), *(([S.out('B')] if E.truth(S.value('COND2')) else []) + [S.out('D')]))
    E.reachable('end')


@harness(HARNESSES, 'for', [IR + 'ForNode.py'])
def h_for(E):
    S = Stage(E)

    def per_item(E, x):
        return ['<', esc(E, E.str_(x)), S.run('B')]
    items = S.H.expr('ITEMS', lambda E: SymSeq(E, 'items', lambda E, h: E.any(h, ('str', 'obj')), Loop(per_item)))
    t = S.template(S.body('A'), S.node('ForNode', mkstr(('x in ',) + items.parts), S.node('TextNode', '<'), S.node('ExprNode', 'x'), S.body('B')), S.body('D'))
    r = S.render(t)
    E.ensure('the sequence is evaluated once', S.count('ITEMS') == 1)
    S.check('one copy of the body per item, in order', r, S.out('A'), E.join_atom('', Run(('items', 'text', 'full'))), S.out('D'))
    E.reachable('end')


@harness(HARNESSES, 'switch/case/else', [IR + 'SwitchNode.py', IR + 'CaseNode.py', 'kajiki.template._Template._case', 'kajiki.template._Template._push_switch'])
def h_switch(E):
    S = Stage(E)
    sw = S.H.expr('V', lambda E: E.any('v', ('none', 'int', 'str', 'obj')))
    c1 = S.H.expr('C1', lambda E: E.any('c1', ('int', 'obj')))
    c2 = S.H.expr('C2', lambda E: E.any('c2', ('int', 'obj')))
    t = S.template(S.body('A'), S.node('SwitchNode', sw, S.node('CaseNode', c1, S.body('B')), S.node('CaseNode', c2, S.body('C')), S.node('ElseNode', S.body('X'))), S.body('D'))
    r = S.render(t)
    v = S.value('V')

    def equal(name):
        return S.count(name) == 1 and E.truth(E.eq(S.value(name), v))
    if equal('C1'):
        E.ensure('later cases are not evaluated', S.count('C2') == 0)
        S.check('the first equal case', r, S.out('A'), S.out('B'), S.out('D'))
    elif equal('C2'):
        S.check('the second case only when the first is not equal', r, S.out('A'), S.out('C'), S.out('D'))
    else:
        S.check('else when no case is equal', r, S.out('A'), S.out('X'), S.out('D'))
    E.ensure('the switch value is evaluated once', S.count('V') == 1)
    E.ensure('the switch stack is as before', E.getattr(S.inst, '_switch_stack').items == [])
    E.reachable('end')


@harness(HARNESSES, 'switch without else', [IR + 'SwitchNode.py', IR + 'CaseNode.py'])
def h_switch2(E):
    S = Stage(E)
    sw = S.H.expr('V', lambda E: E.any('v', ('int', 'obj')))
    c1 = S.H.expr('C1', lambda E: E.any('c1', ('int', 'obj')))
    t = S.template(S.body('A'), S.node('SwitchNode', sw, S.node('CaseNode', c1, S.body('B'))), S.body('D'), S.node('SwitchNode', S.H.expr('W'), ), S.body('F'))
    r = S.render(t)
    taken = S.count('C1') == 1 and E.truth(E.eq(S.value('C1'), S.value('V')))
    S.check('nothing when no case is equal', r, S.out('A'), *(([S.out('B')] if taken else []) + [S.out('D'), S.out('F')]))
    E.reachable('end')


@harness(HARNESSES, 'def and calls', [IR + 'DefNode.py', IR + 'ExprNode.py', 'kajiki.template.TplFunc.__call__', 'kajiki.util.flattener.__iter__'])
def h_def(E):
    S = Stage(E)
    d = S.node('DefNode', 'f(x)', S.node('TextNode', '('), S.node('ExprNode', 'x'), S.body('B'), S.node('TextNode', ')'))
    a1 = S.H.expr('A1', lambda E: E.any(E.fresh('a1'), ('str',)))
    a2 = S.H.expr('A2', lambda E: E.any(E.fresh('a2'), ('str',)))
    t = S.template(S.body('A'), S.node('ExprNode', mkstr(('f(',) + a1.parts + (')',))), S.body('D'), S.node('ExprNode', mkstr(('f(x=',) + a2.parts + (')',))), defs=[d])
    r = S.render(t)
    S.check('the body with its argument at each call', r, S.out('A'), '(', esc(E, S.value('A1')), S.out('B'), ')', S.out('D'), '(', esc(E, S.value('A2')), S.out('B', 2), ')')
    E.reachable('end')


@harness(HARNESSES, 'nested def', [IR + 'InnerDefNode.__init__' if False else IR + 'DefNode.py', 'kajiki.util.flattener.decorate'])
def h_innerdef(E):
    S = Stage(E)
    a1 = S.H.expr('A1', lambda E: E.any(E.fresh('a1'), ('str',)))
    d = S.node('DefNode', 'f(x)', S.node('InnerDefNode', 'g(y)', S.node('ExprNode', 'x'), S.node('TextNode', '-'), S.node('ExprNode', 'y')), S.body('B'), S.node('ExprNode', mkstr(('g(',) + a1.parts + (')',))))
    t = S.template(S.node('ExprNode', 'f(1)'), defs=[d])
    r = S.render(t)
    S.check('the nested function sees the outer arguments', r, S.out('B'), '1-', esc(E, S.value('A1')))
    E.reachable('end')


@harness(HARNESSES, 'call', [IR + 'CallNode.py', IR + 'CallNode.__init__'])
def h_call(E):
    S = Stage(E)
    d = S.node('DefNode', 'w(c)', S.node('TextNode', '['), S.node('ExprNode', 'c(1)'), S.body('M'), S.node('ExprNode', 'c(2)'), S.node('TextNode', ']'))
    t = S.template(S.body('A'), S.node('CallNode', '$caller(n)', 'w($caller)', S.node('ExprNode', 'n'), S.body('B')), S.body('D'), defs=[d])
    r = S.render(t)
    S.check('the body is passed as a function and rendered at each call', r, S.out('A'), '[1', S.out('B'), S.out('M'), '2', S.out('B', 2), ']', S.out('D'))
    E.reachable('end')


@harness(HARNESSES, 'nesting', [IR + 'ForNode.py', IR + 'IfNode.py', IR + 'generate_python'], bound='one nest of three directives; bodies arbitrary')
def h_nest(E):
    """if in for in if: the layout of the generated code."""
    S = Stage(E)

    def per_item(E, x):
        return [S.run('B')] if E.truth(x) else [S.run('C')]
    items = S.H.expr('ITEMS', lambda E: SymSeq(E, 'items', lambda E, h: E.any(h, ('true', 'false')), Loop(per_item)))
    t = S.template(S.node('IfNode', S.H.expr('COND', lambda E: E.any('cond', ('true', 'false'))),
                          S.node('ForNode', mkstr(('x in ',) + items.parts), S.node('IfNode', 'x', S.body('B')), S.node('ElseNode', S.body('C'))), S.body('X')), S.node('ElseNode'), S.body('D'))
    r = S.render(t)
    want = [E.join_atom('', Run(('items', 'text', 'full'))), S.out('X')] if E.truth(S.value('COND')) else []
    S.check('blocks end where they should', r, *(want + [S.out('D')]))
    E.reachable('end')


# ---------------------------------------------------------------- merging adjacent static text
GUARD = z3.Function('condition_holds', z3.StringSort(), z3.BoolSort())


def produces(E, node):
    """What the code of a node produces, under an arbitrary outcome of every condition: its text, if its condition holds."""
    if node is None:
        return z3.StringVal('')
    if hasattr(node, 'opaque_text'):
        return node.opaque_text
    t, g = node.attrs['text'], E.norm(node.attrs['guard'])
    return strz(t) if g is None else z3.If(GUARD(strz(g)), strz(t), z3.StringVal(''))


def any_node(E, h, what=None):
    k = E.choose(4, 'kind of node') if what is None else what
    name = ('TextNode', 'TextNode', 'TranslatableTextNode', 'ExprNode')[k]
    n = PyObj(E, E.get('kajiki.ir.' + name), dict(filename='t', lineno=1, text=SymStr([Atom('%s.text' % h)])), name=h)
    E.registry[n.id] = n
    if k < 2:
        n.attrs['guard'] = SymStr([Atom('%s.guard' % h)]) if k else None
    else:
        n.attrs['guard'] = None
        n.opaque_text = z3.String('%s.output' % h)
    return n


class Last(object):
    """The node held back."""
    def initial(self, E, v, g):
        return v is None

    def value(self, E, g, v0, tag):
        k = E.choose(5, 'node held back')
        g['last'] = None if k == 4 else any_node(E, E.fresh('last'), k)
        return g['last']

    def holds(self, E, v, g, v0, outs, rule):
        return v is None or isinstance(v, PyObj)


class Yielded(object):
    """The nodes given out so far: with the node held back, they produce what the nodes read so far produce."""
    def __init__(self, spec):
        self.spec = spec

    def initial(self, E, v, g):
        return isinstance(v, list) and v == []

    def value(self, E, g, v0, tag):
        g['done'] = z3.String(E.fresh('done'))
        return [Run(('nodes', 'given out', tag))]

    def now(self, E, items, done):
        return z3.Concat(z3.StringVal(''), done, *[produces(E, x) for x in items if not isinstance(x, Run)])

    def holds(self, E, v, g, v0, outs, rule):
        if not v or not isinstance(v[0], Run) or any(x is None for x in v):
            return False
        last = self.spec.last_cell(rule)
        return E.valid(z3.Concat(self.now(E, v, g['done']), produces(E, last)) == g['prefix'])


class Opt(Spec):
    streams = ()

    def __init__(self):
        self.couplings = [Last(), Yielded(self)]

    def last_cell(self, rule):
        c = [c for c, k in rule.cells.items() if k == ('custom', 0)]
        return rule.get(c[0]) if c else None

    def init(self, E):
        return {}

    def arb(self, E):
        return {'prefix': z3.String(E.fresh('prefix'))}

    def final(self, E, g):
        return {'prefix': z3.String('everything')}

    def after_havoc(self, E, rule, generic):
        g = rule.g
        self.done = g.get('done')
        if 'done' in g and 'last' in g:
            E.add(g['prefix'] == z3.Concat(g['done'], produces(E, g['last'])))

    def step(self, E, g, elem):
        g2 = dict(g)
        g2['prefix'] = z3.Concat(g['prefix'], elem.read)
        return g2, {}


def node_read(E, h):
    n = any_node(E, h)
    n.read = produces(E, n)         # before anything is merged into it
    return n


@harness(HARNESSES, 'optimize: any sequence of nodes', [IR + 'optimize'])
def h_optimize(E):
    """The nodes given out produce, in order, what the nodes read produce, whatever the conditions are."""
    spec = Opt()
    r = E.drain(E.call(E.get('kajiki.ir.optimize'), [SymSeq(E, 'nodes', node_read, spec)], {}))
    done = spec.done if spec.done is not None else z3.String('unknown')
    got = spec.couplings[1].now(E, r.items, done)
    E.ensure('what they produce together is unchanged', got == z3.String('everything'), 'gives out %r' % (r.items,))
    E.reachable('end')


@harness(HARNESSES, 'optimize: no nodes', [IR + 'optimize'])
def h_optimize0(E):
    E.ensure('nothing', E.drain(E.call(E.get('kajiki.ir.optimize'), [E.newlist([])], {})).items == [])
    E.reachable('end')


@harness(HARNESSES, 'static text', [IR + 'TextNode.py', IR + 'optimize', IR + 'HierNode.body_iter'])
def h_static(E):
    """Adjacent texts, with and without conditions: each appears as it is, once per evaluation of its condition."""
    S = Stage(E)
    g1 = S.H.expr('G1', lambda E: E.any(E.fresh('g1'), ('true', 'false')))
    g2 = S.H.expr('G2', lambda E: E.any(E.fresh('g2'), ('true', 'false')))
    E.assume(strz(g1) != strz(g2))          # equal conditions: see optimize
    t = [SymStr([Atom('t%d' % i)]) for i in range(5)]
    r = S.render(S.template(S.node('TextNode', t[0]), S.node('TextNode', t[1], g1), S.node('TextNode', t[2], g2), S.node('TextNode', t[3]), S.body('A'), S.node('TextNode', t[4])))
    E.ensure('each condition is evaluated once', S.count('G1') == 1 and S.count('G2') == 1)
    S.check('the texts whose condition holds, in order', r, t[0], *(([t[1]] if E.truth(S.value('G1')) else []) + ([t[2]] if E.truth(S.value('G2')) else []) + [t[3], S.out('A'), t[4]]))
    E.reachable('end')
