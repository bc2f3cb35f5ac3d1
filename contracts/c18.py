"""C18: generated names are never used twice; compilation does not depend on history."""
from .lib import *  # noqa
from .lib import harness, instance, must, Stage

HARNESSES = []


def names_set(E, key='names'):
    """An arbitrary set of names already given out."""
    r = Run((key,))
    r.arbitrary = True
    s = PyList(E, [r], kind='set')
    E.registry[s.id] = s
    E.add(r.length() >= 0)
    return s, r


def in_set(E, s, x):
    v = E.contains(s, x)
    return v.z if isinstance(v, SymBool) else z3.BoolVal(bool(v))


@harness(HARNESSES, 'NameGen._gen', ['kajiki.util.NameGen._gen'])
def h_gen(E):
    """For any names given out before and any hint: a name not given out before, which is remembered."""
    o = instance(E, 'kajiki.util.NameGen')
    s, run = names_set(E)
    o.attrs['names'] = s
    hint = SymStr([Atom('hint')])
    r = E.norm(E.call_method(o, '_gen', hint))
    if not isinstance(r, (str, SymStr)):
        E.ensure('a name', False, repr(r))
        return
    E.ensure('was not given out before', z3.Not(run.member(strz(r))))
    now = o.attrs['names']
    E.ensure('is remembered', isinstance(now, PyList) and in_set(E, now, r))
    x = z3.String('any')
    E.ensure('names given out before stay remembered', z3.Implies(run.member(x), in_set(E, now, SymStr([Atom('any', x)]))))
    E.reachable('end')


@harness(HARNESSES, 'NameGen._gen: shape', ['kajiki.util.NameGen._gen'])
def h_shape(E):
    """The name is the hint, or the hint followed by _ and digits: an identifier whenever the hint is one."""
    E.int_text = True
    o = instance(E, 'kajiki.util.NameGen')
    s, run = names_set(E)
    o.attrs['names'] = s
    hint = z3.String('hint')
    ident = z3.Concat(z3.Union(z3.Range('a', 'z'), z3.Range('A', 'Z'), z3.Re('_')),
                      z3.Star(z3.Union(z3.Range('a', 'z'), z3.Range('A', 'Z'), z3.Range('0', '9'), z3.Re('_'))))
    E.assume(z3.InRe(hint, ident))

    class Shape(object):
        def initial(self, E, v, g):
            return isinstance(v, (str, SymStr)) and E.valid(z3.InRe(strz(v), ident))

        def value(self, E, g, v0, tag):
            a = Atom(E.fresh('r'))
            E.add(z3.InRe(a.z, ident))
            return SymStr([a])

        def holds(self, E, v, g, v0, outs, rule):
            return isinstance(v, (str, SymStr)) and E.valid(z3.InRe(strz(v), ident))

    class H(Spec):
        streams = ()
        couplings = [Shape()]

        def step(self, E, g, elem):
            return g, {}
    E.loop_hooks['kajiki.util.NameGen._gen'] = H()
    r = E.norm(E.call_method(o, '_gen', SymStr([Atom('hint', hint)])))
    E.ensure('an identifier', isinstance(r, (str, SymStr)) and z3.InRe(strz(r), ident))
    E.reachable('end')


@harness(HARNESSES, 'gen_name', ['kajiki.util.gen_name', 'kajiki.util.NameGen.gen', 'kajiki.util.NameGen.__init__', 'kajiki.util.NameGen._gen'])
def h_gen_name(E):
    """Two names generated one after the other in a thread differ, whatever was generated before."""
    cls = E.get('kajiki.util.NameGen')
    lcl = E.getattr(cls, 'lcl')
    if E.choose(2, 'first use in this thread') == 0:
        o = instance(E, 'kajiki.util.NameGen')
        s, run = names_set(E)
        o.attrs['names'] = s
        lcl.attrs['inst'] = o
    else:
        lcl.attrs.pop('inst', None)
        run = None
    hints = [[], [SymStr([Atom('h1')])]][E.choose(2, 'hint')]
    a = E.norm(E.call(E.get('kajiki.util.gen_name'), hints, {}))
    b = E.norm(E.call(E.get('kajiki.util.gen_name'), [], {}))
    E.ensure('two generated names differ', z3.Not(strz(a) == strz(b)))
    if run is not None:
        E.ensure('the first was not used before', z3.Not(run.member(strz(a))))
        E.ensure('the second was not used before', z3.Not(run.member(strz(b))))
    E.reachable('end')


@harness(HARNESSES, 'users of generated names', ['kajiki.ir.AttrNode.py', 'kajiki.ir.AttrsNode.py', 'kajiki.ir.CallNode.__init__'])
def h_users(E):
    """Attributes, py:attrs and py:call in one template, nested in each other, do not disturb each other."""
    S = Stage(E)
    e1, e2 = S.H.expr('e1', lambda E: SymStr([Atom('t1')])), S.H.expr('e2', lambda E: SymStr([Atom('t2')]))
    a1 = S.node('AttrNode', 'a', E.newlist([S.node('ExprNode', e1, True)]))
    a2 = S.node('AttrNode', 'b', E.newlist([S.node('ExprNode', e2, True), S.node('TextNode', 'k')]))
    at = S.node('AttrsNode', S.H.expr('m', lambda E: E.newlist([('c', '1')])))
    call = S.node('CallNode', '$caller()', 'f($caller)', a2, S.body('inner'))
    f = S.node('DefNode', 'f(x)', S.node('ExprNode', 'x()', True), S.node('TextNode', '|'), S.node('ExprNode', 'x()', True))
    out = S.render(S.template(a1, call, at, defs=[f]))
    from .c02 import attr
    b = lambda: attr(E, 'b', SymStr([Atom('t2'), 'k']))
    S.check('every attribute, call and pair renders as if alone', out, attr(E, 'a', SymStr([Atom('t1')])), b(), S.out('inner'), '|', b(), S.out('inner', 2), ' c="1"')
    E.reachable('end')
