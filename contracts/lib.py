"""Helpers of the contract harnesses."""
import z3
from pyvc.engine import Unsupported, Cut
from pyvc.values import *  # noqa
from pyvc.values import strz, ABSENT, mkstr, parts_of, zunesc, zesc
from pyvc import strs

HARNESSES_DOC = 'name, fn, functions (functions of /repo that must have been executed), target'


def harness(out, name, functions=(), **kw):
    """Register a harness."""
    def deco(fn):
        out.append(dict(name=name, fn=fn, functions=list(functions), **kw))
        return fn
    return deco


ENT = {'&': '&amp;', '<': '&lt;', '>': '&gt;', '"': '&quot;'}


def esc(E, s):
    """Specification: every & < > " replaced by its entity, everything else unchanged."""
    out = []
    for p in parts_of(s):
        if isinstance(p, str):
            out.append(''.join(ENT.get(c, c) for c in p))
        else:
            b, m = strs.base_map(p)
            m2 = {c: ''.join(ENT.get(d, d) for d in v) for c, v in m.items()}
            for c, v in ENT.items():
                m2.setdefault(c, v)
            out.append(strs.mapped(b, m2))
    return mkstr(out)


def instance(E, cls='kajiki.template._Template', name='self', **attrs):
    o = PyObj(E, E.get(cls), dict(attrs), name=name)
    E.registry[o.id] = o
    return o


def model_str(E, z, default=''):
    v = E.model.eval(z, model_completion=True)
    try:
        return zunesc(v)
    except Exception:
        return default


def typed(E, v):
    """The value a model gives to an arbitrary value, as the runtime layer writes it."""
    if isinstance(v, AnyVal) and not v.done:
        ks = v.kinds
        if 'str' in ks:
            return ['s', model_str(E, z3.String(v.name))]
        if 'obj' in ks or 'int' in ks:
            t = model_str(E, z3.String('str(%s)' % v.name))
            return ['obj', t] if 'obj' in ks else ['i', 0]
        return {'none': ['n'], 'true': ['b', True], 'false': ['b', False], 'html': ['html', '<b>'], 'flat': ['lit', '<b>&']}[ks[0]]
    if isinstance(v, AnyVal):
        v = v.val
    if v is None:
        return ['n']
    if isinstance(v, bool):
        return ['b', v]
    if isinstance(v, SymInt):
        return ['i', E.model.eval(v.z, model_completion=True).as_long()]
    if isinstance(v, int):
        return ['i', v]
    if isinstance(v, SymStr):
        return ['s', model_str(E, v.z)]
    if isinstance(v, str):
        return ['s', v]
    if isinstance(v, PyObj):
        if '__html__' in v.attrs:
            return ['html', model_str(E, z3.String('html(%s)' % v.name))]
        if getattr(v, 'contract_iter', None) is not None:
            return ['lit', '<b>&']
        return ['obj', model_str(E, z3.String('str(%s)' % v.name))]
    raise Unsupported('no concrete value for %r' % (v,))


def holds(E, a, b):
    """Equality of two values as a formula."""
    return E.formula(a, b)


def must(E, name, a, b, detail=''):
    E.ensure(name, E.formula(a, b), detail or 'got %r, specified %r' % (a, b))


# ---------------------------------------------------------------- two-stage harnesses
class Body(Spec):
    """What a body produces: texts, in order; 'text' is what reaches the output."""
    streams = ('text',)

    def step(self, E, g, elem):
        return g, {'text': [E.str_(elem)]}


class Loop(Spec):
    """A sequence whose elements each contribute fn(E, elem) to the output."""
    streams = ('text',)

    def __init__(self, fn):
        self.fn = fn

    def step(self, E, g, elem):
        return g, {'text': self.fn(E, elem)}


class Stage(object):
    """Build a template from IR nodes with the real constructors, compile and run it."""
    CONTRACTS = {
        'kajiki.template.TplFunc.annotate_lnotab': 'line tables do not influence the output (C10 checks them)',
        'kajiki.util.gen_name': 'gen_name() gives an identifier not used before (proved in C18)',
        'kajiki.ir.source_lines': 'the number of lines of an expression does not influence the output (C10 checks it)',
    }

    def __init__(self, E):
        from pyvc.codegen import Holes
        self.E = E
        self.H = Holes(E)
        self.n = 0
        for k, why in self.CONTRACTS.items():
            E.assumed.add(why)
        E.overrides.update({
            'kajiki.template.TplFunc.annotate_lnotab': lambda I, a, kw: None,
            'kajiki.util.gen_name': self.gen_name,
            'kajiki.ir.source_lines': lambda I, a, kw: I.newlist([a[0]]),
        })

    def gen_name(self, I, a, kw):
        self.n += 1
        return '_kjgen_%d' % self.n

    def node(self, cls, *a, **kw):
        return self.E.call(self.E.get('kajiki.ir.' + cls), list(a), kw)

    def body(self, name, kinds=('str',)):
        """An arbitrary piece of template: a node whose code produces arbitrary chunks."""
        E = self.E
        k = [0]

        def produce(E):
            k[0] += 1
            nm = '%s#%d' % (name, k[0]) if k[0] > 1 else name
            s = SymSeq(E, nm, lambda E, h: E.any(h, kinds), Body(), oneshot=True)
            s.k = k[0]
            return s
        o = E.call(E.get('kajiki.ir.Node'), [], {})
        o.attrs['lineno'] = 1
        text = self.H.stmt('stmt:' + name, produce)
        o.attrs['py'] = Host('py', lambda I, a, kw: I.newlist([I.call_method(o, 'line', text)]))
        o.name = name
        return o

    def run(self, name, k=1):
        nm = '%s#%d' % (name, k) if k > 1 else name
        return Run((nm, 'text', 'full'))

    def count(self, name):
        return len([1 for x in self.H.log.items if not isinstance(x, Run) and x[0] == name])

    def value(self, name, k=0):
        return [x[1] for x in self.H.log.items if not isinstance(x, Run) and x[0] == name][k]

    def out(self, name, k=1):
        """What body *name* produces when it runs the k-th time, as output text."""
        nm = '%s#%d' % (name, k) if k > 1 else name
        return self.E.join_atom('', Run((nm, 'text', 'full')))

    def template(self, *main, **kw):
        E = self.E
        defs = [self.node('DefNode', '__main__()', *main)] + list(kw.get('defs', ()))
        t = self.node('TemplateNode', E.newlist(list(kw.get('mod_py', ()))), E.newlist(defs))
        t.attrs['filename'] = 't'
        return E.call(E.get('kajiki.template.from_ir'), [t], kw.get('options', {}))

    def render(self, cls, ctx=()):
        E = self.E
        self.ctx = PyDict(E, [list(x) for x in ctx])
        E.registry[self.ctx.id] = self.ctx
        self.inst = E.call(cls, [self.ctx], {})
        return E.call_method(self.inst, 'render')

    def check(self, name, got, *parts):
        want = mkstr([p for x in parts for p in (parts_of(x) if isinstance(x, (str, SymStr)) else [x])])
        must(self.E, name, got, want, 'renders %r, specified %r\n%s' % (got, want, self.H.text))
