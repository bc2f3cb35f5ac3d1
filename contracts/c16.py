"""C16: rendering is repeatable and leaves its inputs alone."""
from .lib import *  # noqa
from .lib import harness, instance, must, Stage, esc
from .c07 import mapping

HARNESSES = []
T = 'kajiki.template._Template.'
SPECIAL = ('local', 'self', 'defined', 'literal', 'Markup', 'gettext', '__builtins__', '__kj__', '_', 'value_of')


class Frame(object):
    """Records what is written to between here and check()."""
    def __init__(self, E):
        self.E, self.w = E, set()
        E.write_stack.append(self.w)

    def writes_to(self, *objs):
        ids = dict((getattr(o, 'id', None), o) for o in objs)
        return [c for c in self.w if c[1] in ids]


def tpl_class(E, methods=()):
    """A template class: a subclass of _Template with these functions."""
    base = E.get('kajiki.template._Template')
    cls = PyClass('template', [base], {})
    F = E.get('kajiki.template.TplFunc')
    ms = E.newlist([(n, E.call(F, [Host(n, lambda I, a, kw: None)], {})) for n in methods])
    cls.ns['__methods__'] = ms
    return cls


@harness(HARNESSES, '_Template.__init__', [T + '__init__', 'kajiki.template.TplFunc.bind_instance', T + '_is_foreign'])
def h_init(E):
    """Any context, base globals and name: what the name means in the template."""
    cls = tpl_class(E, ['f'])
    ctx, bg = mapping(E, 'context'), mapping(E, 'base_globals')
    cls.ns['base_globals'] = bg
    # which of the names the template itself provides are given in the context
    z = z3.String('name')
    name = SymStr([Atom('name', z)])
    E.add(z3.And(*[z != z3.StringVal(n) for n in SPECIAL + ('f',)]))
    n = E.norm(name)
    fr = Frame(E)
    k = E.choose(3, 'which name')
    t = E.call(cls, [ctx], {})
    w = fr.writes_to(ctx, bg)
    E.ensure('the context and the base globals are not modified', not w, repr(w))
    g = t.attrs['__globals__']
    E.ensure('the namespace is a new mapping', g is not ctx and g is not bg)
    if k == 0:
        got = E.dict_get(g, name)
        want = E.dict_get(ctx, name)
        if want is ABSENT:
            want = E.dict_get(bg, name)
    elif k == 1:
        got = E.dict_get(g, 'f')
        want = E.dict_get(ctx, 'f')
        if want is ABSENT:
            want = t.attrs['f']
            E.ensure('a function is bound to the instance', isinstance(got, PyObj) and got.attrs.get('_inst') is t)
    else:
        s = ('local', 'self', 'literal', 'Markup', 'gettext', '__kj__')[E.choose(6, 'special name')]
        got = E.dict_get(g, s)
        want = E.dict_get(ctx, s)
        if want is ABSENT:
            want = E.dict_get(bg, s)
        if want is ABSENT:
            want = {'local': t, 'self': t, 'literal': E.get('kajiki.util.literal'), 'Markup': E.get('kajiki.util.literal'), 'gettext': E.get('kajiki.i18n.gettext'), '__kj__': E.module('kajiki')}[s]
    E.ensure('context hides base globals, which hide the built-in names', got is want or E.valid(E.formula(got, want) if ABSENT not in (got, want) else got is want), '%r, specified %r' % (got, want))
    E.reachable('end')


@harness(HARNESSES, 'defined, value_of', [T + '__init__', T + 'defined'])
def h_defined(E):
    cls = tpl_class(E, ['f'])
    ctx = mapping(E, 'context')
    cls.ns['base_globals'] = None
    z = z3.String('name')
    name = SymStr([Atom('name', z)])
    E.add(z3.And(*[z != z3.StringVal(n) for n in SPECIAL + ('f',)]))
    t = E.call(cls, [ctx], {})
    g = t.attrs['__globals__']
    for n in ('defined', 'value_of'):       # a context that hides them is not the question here
        E.assume(E.dict_get(ctx, n) is ABSENT)
    inside = E.dict_get(ctx, name) is not ABSENT
    E.ensure('defined() says whether the name is available', E.truth(E.call(E.dict_get(g, 'defined'), [name], {})) == inside)
    E.ensure('self.defined() says whether the name was given', E.truth(E.call_method(t, 'defined', name)) == inside)
    d = E.any('default', ('obj',))
    got = E.call(E.dict_get(g, 'value_of'), [name, d], {})
    E.ensure('value_of() gives its value or the default', got is (E.dict_get(ctx, name) if inside else d))
    E.reachable('end')


@harness(HARNESSES, 'no context', [T + '__init__'])
def h_nocontext(E):
    """Instances without a context do not share one."""
    cls = tpl_class(E, ['f'])
    cls.ns['base_globals'] = None
    a, b = E.call(cls, [], {}), E.call(cls, [], {})
    for n in ('__globals__', '_context', '_switch_stack', '_with_stack', 'f'):
        E.ensure('instances share no state', a.attrs[n] is not b.attrs[n], n)
    E.ensure('the function of the class stays unbound', [f.attrs.get('_inst') for _, f in cls.ns['__methods__'].items] == [None])
    E.reachable('end')


def everything(S):
    """A template with every kind of state: with, switch, attributes, functions, calls."""
    E = S.E
    n = S.node
    f = n('DefNode', 'f(a)', n('TextNode', '('), n('ExprNode', 'a', True), n('ExprNode', 'x', True), n('TextNode', ')'))
    main = [n('ExprNode', 'x', True),
            n('WithNode', 'y=g(x)', n('ExprNode', 'y', True), n('ExprNode', 'f(y)', True)),
            n('SwitchNode', 'x', n('CaseNode', 'x', n('TextNode', 'same'), n('CallNode', '$caller()', 'f($caller())', n('TextNode', 'c'))), n('ElseNode', n('TextNode', 'other'))),
            n('AttrNode', 'k', E.newlist([n('ExprNode', 'x', True)])),
            n('IfNode', 'defined("x")', n('TextNode', 'def'))]
    return S.template(*main, defs=[f])


def ctx_for(E, tag):
    x = SymStr([Atom('x' + tag)])
    d = PyDict(E, [['x', x], ['g', Host('g', lambda I, a, kw: SymStr([Atom('g(%s)' % a[0])]))]], name='ctx' + tag)
    E.registry[d.id] = d
    return d


@harness(HARNESSES, 'rendering', [T + 'render', T + '__init__', 'kajiki.template.TplFunc.__call__', 'kajiki.template.TplFunc._bind_globals'])
def h_render(E):
    """Two instances with equal and different contexts, rendered one after the other and interleaved, and again."""
    S = Stage(E)
    cls = everything(S)
    c1, c2 = ctx_for(E, '1'), ctx_for(E, '2')
    r1 = E.call_method(E.call(cls, [c1], {}), 'render')
    fr = Frame(E)
    funcs = [f for _, f in cls.ns['__methods__'].items]
    a, b = E.call(cls, [c1], {}), E.call(cls, [c2], {})
    if E.choose(2, 'interleaved') == 0:
        rb = E.call_method(b, 'render')
        ra = E.call_method(a, 'render')
    else:
        ia, ib = E.call(E.builtins['iter'], [a], {}), E.call(E.builtins['iter'], [b], {})
        oa, ob = [], []
        na = nb = True
        while na or nb:
            for it, out in ((ia, oa), (ib, ob)):
                if it is ia and not na or it is ib and not nb:
                    continue
                try:
                    out.append(E.call(E.builtins['next'], [it], {}))
                except PyExc:
                    if it is ia:
                        na = False
                    else:
                        nb = False
        ra, rb = [mkstr([p for x in o for p in parts_of(x)]) for o in (oa, ob)]
    must(E, 'equal contexts give equal output', ra, r1)
    # the other instance gives what it gives on its own
    must(E, 'another instance is not influenced', rb, E.call_method(E.call(cls, [c2], {}), 'render'))
    must(E, 'rendering an instance again gives the same', E.call_method(a, 'render'), r1)
    w = fr.writes_to(c1, c2, cls.ns['base_globals'], cls.ns['__methods__'], *funcs)
    E.ensure('contexts, base globals and class are not modified', not w, repr(w))
    E.reachable('end')


@harness(HARNESSES, 'base globals', ['kajiki.template.from_ir'])
def h_base(E):
    """The mapping given as base_globals is copied when the template is made."""
    S = Stage(E)
    bg = PyDict(E, [['u', SymStr([Atom('u')])]])
    E.registry[bg.id] = bg
    fr = Frame(E)
    cls = S.template(S.node('ExprNode', 'u', True), options=dict(base_globals=bg))
    E.ensure('not modified', not fr.writes_to(bg))
    r1 = S.render(cls)
    must(E, 'visible in the template', r1, SymStr([Atom('u')]))
    E.dict_set(bg, 'u', 'changed')
    must(E, 'later changes of it have no effect', S.render(cls), r1)
    cls2 = S.template(S.node('ExprNode', 'defined("u")', True))
    must(E, 'other templates do not see it', S.render(cls2), 'False')
    E.reachable('end')
