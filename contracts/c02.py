"""C02: attributes."""
from .lib import *  # noqa
from .lib import harness, instance, must, esc, typed, Stage

HARNESSES = []
T = 'kajiki.template._Template.'
# from the property, not from the code
BOOL = ('checked', 'disabled', 'readonly', 'multiple', 'selected', 'nohref', 'ismap', 'declare', 'defer')
VALUES = ('none', 'true', 'false', 'int', 'str', 'flat', 'obj')


def attr(E, name, value):
    """Specification: a space, the name, the double-quoted value escaped once."""
    return mkstr([' '] + list(parts_of(name)) + ['="'] + list(parts_of(esc(E, value))) + ['"'])


def rendered(E, mode, k, v):
    """Specification of one pair: [] or [its text]"""
    v = E.force(v)
    if isinstance(k, str) and k in BOOL and isinstance(v, bool):
        v = k if v else None
    if isinstance(v, PyObj) and getattr(v, 'contract_iter', None) is not None:
        if E.truth(collected_none(v)):
            v = None
        else:
            v = SymStr([Atom('text(%s)' % v.name)])
    if v is None:
        return []
    if mode.startswith('html') and isinstance(k, str) and k in BOOL:
        return [' ' + k]
    return [attr(E, k, E.str_(v))]


def collected_none(v):
    return SymBool(z3.Bool('%s produces only None' % v.name))


def collect_contract(I, a, kw):
    """_collect (proved in C03): None when nothing but None is produced, else the text."""
    v = I.force(a[1])
    if isinstance(v, PyObj) and getattr(v, 'contract_iter', None) is not None:
        return None if I.truth(collected_none(v)) else SymStr([Atom('text(%s)' % v.name)])
    raise Unsupported('_collect of %r' % (v,))


class Pairs(Spec):
    streams = ('out',)

    def __init__(self, mode):
        self.mode = mode

    def step(self, E, g, elem):
        k, v = elem
        return g, {'out': rendered(E, self.mode, k, v)}


def pair(E, h):
    i = E.choose(3, 'name')
    if i == 0:
        k = BOOL[E.choose(len(BOOL), 'boolean name')]
    elif i == 1:
        k = 'CHECKED'
    else:
        z = z3.String('name')
        k = SymStr([Atom('name', z)])
        E.add(z3.And(*[z != z3.StringVal(b) for b in BOOL]))
    v = E.any('value', VALUES)
    if isinstance(k, str) and k in BOOL and E.split(v, ('int',)):
        n = E.norm(v)
        E.add(z3.And(n.z != 0, n.z != 1))      # 0 and 1 compare equal to False and True: not specified
    E.inputs['pair'] = (k, v)
    return (k, v)


def attr_replay(E):
    k, v = E.inputs['pair']
    if not isinstance(k, str):
        k = 'x'
    if isinstance(v, AnyVal) and v.kinds[0] == 'flat':
        tv = ['lit', 'a"<']
    else:
        tv = typed(E, v)
    out = []
    for mode in ('xml', 'html'):
        out.append(dict(property='C02', kind='xmltree', args=dict(tree=[['el', 'p', [], {'attrs': '{%r: v}' % k}, []]], ctx={'v': tv, 'w': ['obj', 'x', tv]}, mode=mode)))
    return out


@harness(HARNESSES, '_render_attrs', [T + '_render_attrs', T + '_escape'], overrides={T + '_collect': collect_contract}, assumes=['_collect as proved in C03'])
def h_render(E):
    """Any mapping or pair list: the pairs in sorted order, each rendered as specified."""
    tpl = instance(E)
    mode = ('xml', 'html', 'html5')[E.choose(3, 'mode')]
    E.inputs['replay'] = attr_replay
    s = SymSeq(E, 'pairs', pair, Pairs(mode))

    def view(I, kw):
        if [k for k, v in kw.items() if v not in (None, False)]:
            return SymSeq(E, 'sorted otherwise(pairs)', pair, Pairs(mode))
        return SymSeq(E, 'sorted(pairs)', pair, Pairs(mode))
    s.sorted_view = view
    if E.choose(2, 'mapping or pairs') == 0:
        m = PyObj(E, E.opaque_class('stand-in'), name='mapping')
        E.registry[m.id] = m
        m.attrs['items'] = Host('items', lambda I, a, kw: s)
    else:
        m = s
    out = E.drain(E.call_method(tpl, '_render_attrs', m, mode))
    E.ensure('every pair in sorted order, rendered as specified', out.items == [Run(('sorted(pairs)', 'out', 'full'))], repr(out.items))
    E.reachable('end')


@harness(HARNESSES, '_render_attrs: nothing', [T + '_render_attrs'])
def h_none(E):
    tpl = instance(E)
    v = [None, PyDict(E), PyList(E, []), ()][E.choose(4, 'empty')]
    if isinstance(v, (PyDict, PyList)):
        E.registry[v.id] = v
    out = E.drain(E.call_method(tpl, '_render_attrs', v, 'xml'))
    E.ensure('None and empty mappings add nothing', out.items == [])
    E.reachable('end')


@harness(HARNESSES, '_render_attrs: two pairs', [T + '_render_attrs'], bound='two pairs (their order)')
def h_two(E):
    """Sorted by name, from a mapping and from a pair list written in either order."""
    tpl = instance(E)
    a, b = SymStr([Atom('va')]), SymStr([Atom('vb')])
    pairs = [('b', b), ('a', a)]
    if E.choose(2, 'order'):
        pairs.reverse()
    if E.choose(2, 'mapping or pairs') == 0:
        m = PyDict(E, [list(p) for p in pairs])
    else:
        m = PyList(E, pairs)
    E.registry[m.id] = m
    out = E.drain(E.call_method(tpl, '_render_attrs', m, 'xml'))
    must(E, 'sorted by name', out, E.newlist([attr(E, 'a', a), attr(E, 'b', b)]))
    E.reachable('end')


class Parts(Spec):
    """What the parts of an attribute value produce; 'kept': their text, None dropped."""
    streams = ('kept',)

    def step(self, E, g, elem):
        v = E.force(elem)
        return g, {'kept': [] if v is None else [E.str_(v)]}


def value_body(S, name):
    E = S.E

    def produce(E):
        return SymSeq(E, name, lambda E, h: E.any(h, ('none', 'true', 'false', 'int', 'str', 'html', 'obj')), Parts(), oneshot=True)
    o = E.call(E.get('kajiki.ir.Node'), [], {})
    o.attrs['lineno'] = 1
    text = S.H.stmt('stmt:' + name, produce)
    o.attrs['py'] = Host('py', lambda I, a, kw: I.newlist([I.call_method(o, 'line', text)]))
    return o


@harness(HARNESSES, 'attribute node', ['kajiki.ir.AttrNode.__iter__', 'kajiki.ir.AttrNode.py', T + '_collect', T + '_render_attrs'])
def h_node(E):
    """The value is the text of all its parts; omitted when there is none."""
    S = Stage(E)
    mode = ('xml', 'html')[E.choose(2, 'mode')]
    name = ('href', 'checked')[E.choose(2, 'name')]
    guard = S.H.expr('G', lambda E: E.any('g', ('true', 'false', 'none', 'str'))) if E.choose(2, 'guard') else None
    n = S.node('AttrNode', name, E.newlist([value_body(S, 'v')]), guard, mode)
    r = S.render(S.template(S.body('A'), n, S.body('B')))
    kept = Run(('v', 'kept', 'full'))
    shown = guard is None or E.truth(S.value('G'))
    if shown and E.branch(kept.length() > 0):
        t = ' ' + name if name == 'checked' and mode == 'html' else attr(E, name, SymStr([E.join_atom('', kept)]))
        S.check('rendered with the text of its parts', r, S.out('A'), t, S.out('B'))
    else:
        S.check('omitted when there is no value or the tag is stripped', r, S.out('A'), S.out('B'))
    E.reachable('end')


@harness(HARNESSES, 'empty attribute', ['kajiki.ir.AttrNode.__iter__', T + '_collect', T + '_render_attrs'])
def h_empty(E):
    S = Stage(E)
    guard = S.H.expr('G', lambda E: E.any('g', ('true', 'false'))) if E.choose(2, 'guard') else None
    r = S.render(S.template(S.body('A'), S.node('AttrNode', 'title', E.newlist([]), guard), S.body('B')))
    if guard is None or E.truth(S.value('G')):
        S.check('an attribute written as empty keeps its empty value', r, S.out('A'), ' title=""', S.out('B'))
    else:
        S.check('omitted with the stripped tag', r, S.out('A'), S.out('B'))
    E.reachable('end')


@harness(HARNESSES, 'py:attrs node', ['kajiki.ir.AttrsNode.py', T + '_render_attrs'])
def h_attrs_node(E):
    S = Stage(E)
    guard = S.H.expr('G', lambda E: E.any('g', ('true', 'false', 'none'))) if E.choose(2, 'guard') else None
    v = SymStr([Atom('va')])
    k = E.choose(2, 'pairs or None')
    at = S.H.expr('M', lambda E: E.newlist([('k', v)]) if k == 0 else None)
    r = S.render(S.template(S.body('A'), S.node('AttrsNode', at, guard), S.body('B')))
    if (guard is None or E.truth(S.value('G'))) and k == 0:
        S.check('the pairs of the mapping', r, S.out('A'), attr(E, 'k', v), S.out('B'))
        E.ensure('evaluated once', S.count('M') == 1)
    else:
        S.check('nothing for None or a stripped tag', r, S.out('A'), S.out('B'))
    E.reachable('end')


class Attrs(Spec):
    """What the attributes of an element become."""
    streams = ('out',)

    def __init__(self, guard, mode):
        self.guard, self.mode = guard, mode

    def step(self, E, g, elem):
        k, v = elem
        return g, {'out': [Shape('AttrNode', attr=k, body=(Shape('TextNode', text=v),), guard=self.guard, mode=self.mode)]}


@harness(HARNESSES, 'attributes of an element: any number', ['kajiki.xml_template._Compiler._compile_xml', 'kajiki.ir.AttrNode.__init__', 'kajiki.ir.HierNode.__init__'],
         assumes=['_TextCompiler gives the nodes of the value (proved in C05 and C13)'])
def h_element(E):
    """Any attributes: each one once, sorted by name, with its own value; py:attrs after them."""
    from .dom import X
    Stage(E)
    mode = ('xml', 'html', 'html5')[E.choose(3, 'mode')]
    strip = ('', 'x', None)[E.choose(3, 'py:strip')]
    guard = {'': 'False', 'x': 'not (x)', None: None}[strip]

    def attribute(E, h):
        k = SymStr([Atom(h + '.name')])
        E.add(z3.And(*[strz(k) != z3.StringVal(s) for s in ('py:content', 'py:attrs', 'py:strip')]))
        return (k, SymStr([Atom(h + '.value')]))
    s = SymSeq(E, 'attributes', attribute, Attrs(guard, mode))
    s.sorted_view = lambda I, kw: SymSeq(E, 'sorted%s(attributes)' % (' otherwise' if [k for k, v in kw.items() if v not in (None, False)] else ''), attribute, Attrs(guard, mode))
    node = PyObj(E, E.opaque_class('stand-in'), name='element')
    E.registry[node.id] = node
    at = PyObj(E, E.opaque_class('stand-in'), name='attributes')
    E.registry[at.id] = at
    at.attrs['items'] = Host('items', lambda I, a, kw: s)
    removed = []
    node.attrs.update(tagName='p', lineno=1, childNodes=E.newlist([]), attributes=at,
                      hasAttribute=Host('hasAttribute', lambda I, a, kw: a[0] == 'py:strip' and strip is not None and not removed),
                      getAttribute=Host('getAttribute', lambda I, a, kw: strip if a[0] == 'py:strip' and strip is not None else ''),
                      removeAttribute=Host('removeAttribute', lambda I, a, kw: removed.append(a[0])))

    def value(I, a, kw):
        n = I.call(I.get('kajiki.ir.TextNode'), [I.getattr(a[0], 'source')], {})
        E.ensure('in an attribute', I.getattr(a[0], 'in_html_attr') is True)
        return iter_(I, [n])

    def iter_(I, xs):
        from pyvc.values import PyGen
        return PyGen(I, iter(xs), 'nodes')
    E.overrides[X + '_TextCompiler.__iter__'] = value
    from .dom import Dom
    c = Dom(E).compiler(mode=mode, is_fragment=True)
    got = E.drain(E.call_method(c, '_compile_xml', node)).items
    E.ensure('py:strip is not an attribute', removed == (['py:strip'] if strip is not None else []))
    want = [Shape('TextNode', text='<p', guard=guard), Run(('sorted(attributes)', 'out', 'full'))]
    E.ensure('<tag, then every attribute in the order of the names', len(got) >= 2 and E.items_formula(got[:2], want), '%r' % (got,))
    E.ensure('no other attribute', not any(isinstance(x, Run) or x.cls.name in ('AttrNode', 'AttrsNode') for x in got[2:]), '%r' % (got,))
    E.reachable('end')
