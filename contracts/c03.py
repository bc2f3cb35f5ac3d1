"""C03: output is the in-order concatenation of all produced chunks."""
from .lib import *  # noqa
from .lib import harness, instance, must

HARNESSES = []
ALL = AnyVal.KINDS


class Raw(Spec):
    """An iterator of a template function: chunks of any kind, None and nested output included.

    out: the chunks that must reach the output; text: their text; parts: the
    text of every chunk that is not None, nested output collected into one."""
    streams = ('out', 'text', 'parts')

    def step(self, E, g, elem):
        v = elem
        if isinstance(elem, AnyVal):
            E.force(elem)
            v = elem.val
        if v is None:
            return g, {'out': [], 'text': [], 'parts': []}
        if isinstance(elem, AnyVal) and elem.kinds == ('flat',):
            nm = v.contract_iter.name
            return g, {'out': [Run((nm, 'out', 'full'))], 'text': [Run((nm, 'text', 'full'))], 'parts': [SymStr([Atom('text(%s)' % elem.name)])]}
        s = E.str_(elem)
        return g, {'out': [elem], 'text': [s], 'parts': [s]}


class Flat(Raw):
    """Iterating over nested output (induction hypothesis): no None, nothing nested."""


def flat_iterator(E):
    def mk(name):
        return SymSeq(E, 'raw(%s)' % name, lambda E, h: E.any(h), Raw(), oneshot=True)
    E.inputs['flat_iterator'] = mk


def fix(o, E):
    o.contract_iter.spec = Flat()
    return o


def flattener_of(E, name='f'):
    """An arbitrary flattener, to be iterated with the real __iter__."""
    o = PyObj(E, E.get('kajiki.util.flattener'), name=name)
    E.registry[o.id] = o
    o.attrs['iterator'] = SymSeq(E, 'raw', lambda E, h: E.any(h), Raw(), oneshot=True)
    return o


def replay(E):
    def stream(*leaves):
        return dict(property='C03', kind='stream', args=dict(tree=['n', list(leaves)]))
    return []


@harness(HARNESSES, 'flattener.__iter__', ['kajiki.util.flattener.__iter__'])
def h_iter(E):
    """Every chunk that is not None, in order, nested output in its place."""
    use_flat_spec(E)
    o = flattener_of(E)
    out = E.drain(o)
    E.ensure('all chunks, in order, None dropped', out.items == [Run(('raw', 'out', 'full'))], '%r' % (out.items,))
    E.reachable('end')


def use_flat_spec(E):
    old = E.make_flattener

    def mk(name, depth=0):
        o = type(E).make_flattener(E, name)
        o.contract_iter.spec = Flat()
        return o
    E.make_flattener = mk


@harness(HARNESSES, 'flattener.__init__', ['kajiki.util.flattener.__init__'])
def h_init(E):
    F = E.get('kajiki.util.flattener')
    it = SymSeq(E, 'raw', lambda E, h: E.any(h), Raw(), oneshot=True)
    k = E.choose(4, 'argument')
    if k == 0:
        o = E.call(F, [None], {})
        E.ensure('a function without output', E.drain(o).items == [])
    elif k == 1:
        o = E.call(F, [it], {})
        E.ensure('keeps its iterator', E.getattr(o, 'iterator') is it)
    elif k == 2:
        o = E.call(F, [E.call(F, [it], {})], {})
        E.ensure('output of output is that output', E.getattr(o, 'iterator') is it)
    else:
        o = E.call(F, [E.call(F, [E.call(F, [it], {})], {})], {})
        E.ensure('output of output is that output', E.getattr(o, 'iterator') is it)
    E.reachable('end')


class Stack(object):
    """Coupling for the stack of accumulate_str: the text still to come."""
    def __init__(self, total):
        self.total = total

    def initial(self, E, v, g):
        return isinstance(v, list) and len(v) == 1 and isinstance(v[0], SymIter)

    def value(self, E, g, v0, tag):
        low = Run(('stack', 'below', tag))
        lowtext = z3.String(E.fresh('below'))
        E.add(low.length() >= 0)
        E.add(z3.Implies(low.length() == 0, lowtext == z3.StringVal('')))
        g['low'], g['lowtext'] = low, lowtext
        top = SymIter(E, E.fresh('top'), ALL) if tag == 'prefix' else None
        g['top'] = top
        return [low] + ([top] if top is not None else [])

    def rest(self, E, v, g):
        if not v or v[0] != g['low']:
            return None
        ps = []
        for it in reversed(v[1:]):
            if not isinstance(it, SymIter):
                return None
            ps.append(it.rest.z)
        return ps + [g['lowtext']]

    def holds(self, E, v, g, v0, outs, rule):
        g['stack_now'] = v
        return self.rest(E, v, g) is not None


class Acc(object):
    """Coupling for the accumulated text: what is accumulated, then what the stack will still produce, is everything."""
    def __init__(self, stack):
        self.stack = stack

    def initial(self, E, v, g):
        return v == ''

    def value(self, E, g, v0, tag):
        a = Atom(E.fresh('acc'))
        g['acc'] = a
        return SymStr([a])

    def holds(self, E, v, g, v0, outs, rule):
        if not isinstance(v, (str, SymStr)):
            return False
        ps = self.stack.rest(E, g.get('stack_now') or rule.stack_items(), g)
        if ps is None:
            return False
        zs = [z3.StringVal(v) if isinstance(v, str) else v.z] + ps
        return E.valid(z3.Concat(*zs) == self.stack.total)


class AccSpec(Spec):
    streams = ()

    def __init__(self, E, total):
        st = Stack(total)
        self.st = st
        self.couplings = [st, Acc(st)]

    def init(self, E):
        return {}

    def arb(self, E):
        return {}

    def step(self, E, g, elem):
        return g, {}

    def after_havoc(self, E, rule, generic):
        g = rule.g
        if 'acc' in g and 'low' in g:
            ps = [g['acc'].z] + ([g['top'].rest.z] if g['top'] is not None else []) + [g['lowtext']]
            E.add(z3.Concat(*ps) == self.st.total)
        cells = [c for c, k in rule.cells.items() if k[0] == 'custom' and k[1] == 0]
        rule.stack_items = lambda: rule.get(cells[0])


@harness(HARNESSES, 'flattener.accumulate_str', ['kajiki.util.flattener.accumulate_str'])
def h_acc(E):
    """The text of nested output of any depth: the same as inserting it."""
    F = E.get('kajiki.util.flattener')
    o = PyObj(E, F, name='f')
    E.registry[o.id] = o
    it = SymIter(E, 'it', ALL)
    o.attrs['iterator'] = it
    total = z3.String('total')
    E.add(it.rest.z == total)
    E.loop_hooks['kajiki.util.flattener.accumulate_str'] = AccSpec(E, total)
    E.unroll_limit = 0
    r = E.call_method(o, 'accumulate_str')
    E.ensure('the text of everything it produces, in order', E.formula(r, SymStr([Atom('total', total)])), 'got %r' % (r,))
    E.reachable('end')


@harness(HARNESSES, '_collect', ['kajiki.template._Template._collect'])
def h_collect(E):
    use_flat_spec(E)
    E.overrides['kajiki.util.flattener.accumulate_str'] = lambda I, a, kw: SymStr([Atom('text(%s)' % a[0].name)])
    tpl = instance(E)
    it = SymSeq(E, 'raw', lambda E, h: E.any(h), Raw(), oneshot=True)
    r = E.call_method(tpl, '_collect', it)
    run = Run(('raw', 'parts', 'full'))
    if r is None:
        E.ensure('None only when nothing but None was produced', run.length() == 0)
    else:
        E.ensure('something was produced', run.length() > 0)
        must(E, 'the text of all parts, in order', E.norm(r), SymStr([E.join_atom('', run)]))
    E.reachable('end')


@harness(HARNESSES, 'rendering', ['kajiki.template._Template.__iter__', 'kajiki.template._Template.render'])
def h_render(E):
    use_flat_spec(E)
    tpl = instance(E)
    f = E.make_flattener('main')
    tpl.attrs['__main__'] = Host('__main__', lambda I, a, kw: f)
    if E.choose(2, 'iterate or render') == 0:
        out = E.drain(tpl)
        E.ensure('iterating gives the text of every chunk', out.items == [Run(('flat(main)', 'text', 'full'))], '%r' % (out.items,))
    else:
        r = E.call_method(tpl, 'render')
        must(E, 'render joins the chunks', r, SymStr([E.join_atom('', Run(('flat(main)', 'text', 'full')))]))
    E.reachable('end')


@harness(HARNESSES, 'literal', ['kajiki.util.literal', 'kajiki.util.flattener.__iter__', 'kajiki.util.flattener.accumulate_str'])
def h_literal(E):
    t = SymStr([Atom('t')])
    o = E.call(E.get('kajiki.util.literal'), [t], {})
    if E.choose(2, 'insert or collect') == 0:
        E.ensure('inserted verbatim', E.items_formula(E.drain(o).items, [t]))
    else:
        must(E, 'collected verbatim', E.call_method(o, 'accumulate_str'), t)
    E.reachable('end')
