"""Templates as trees: built with the DOM contract, transformed and compiled by the real code."""
from .lib import *  # noqa
from .lib import Stage

X = 'kajiki.xml_template.'


class Dom(object):
    """Builds documents; a hole is an arbitrary piece of template."""
    def __init__(self, E, S=None):
        self.E, self.S = E, S
        self.mini = E.module('xml.dom.minidom')
        self.d = E.call(self.mini.ns['Document'], [], {})
        self.d.attrs['_dtd'] = ''
        self.d.attrs['_source'] = ''
        self.holes = {}
        if S is not None:
            real = E.get(X + '_Compiler._compile_node')

            def compile_node(I, a, kw):
                h = self.holes.get(a[1].id) if isinstance(a[1], PyObj) else None
                if h is not None:
                    return I.newlist([h])
                del I.overrides[X + '_Compiler._compile_node']
                try:
                    return I.call(real, a, kw)
                finally:
                    I.overrides[X + '_Compiler._compile_node'] = compile_node
            E.overrides[X + '_Compiler._compile_node'] = compile_node

    def line(self, n, lineno=1):
        n.attrs['lineno'] = lineno
        return n

    def make(self, how, *a, **kw):
        return self.line(self.E.call_method(self.d, how, *a), kw.get('lineno', 1))

    def el(self, tag, attrs=(), *children, **kw):
        e = self.make('createElement', tag, **kw)
        for k, v in (attrs.items() if isinstance(attrs, dict) else attrs):
            self.E.call_method(e, 'setAttribute', k, v)
        for c in children:
            self.E.call_method(e, 'appendChild', c)
        return e

    def text(self, data, cdata=False, escaped=True, **kw):
        t = self.make('createTextNode', data, **kw)
        if cdata:
            t.attrs['_cdata'] = True
        else:
            t.attrs['escaped'] = escaped
        return t

    def comment(self, data, **kw):
        return self.make('createComment', data, **kw)

    def pi(self, data, target='py', **kw):
        return self.make('createProcessingInstruction', target, data, **kw)

    def hole(self, name, kinds=('str',)):
        """An arbitrary subtree: what it compiles to produces arbitrary chunks."""
        e = self.make('createElement', 'hole-' + name)
        self.holes[e.id] = self.S.body(name, kinds)
        return e

    def doc(self, *nodes, **kw):
        self.d.attrs['_dtd'] = kw.get('dtd', '')
        for n in nodes:
            self.E.call_method(self.d, 'appendChild', n)
        return self.d

    def transform(self, strip_text=False):
        t = self.E.call(self.E.get(X + '_DomTransformer'), [self.d], dict(strip_text=strip_text))
        return self.E.call_method(t, 'transform')

    def compiler(self, **kw):
        return self.E.call(self.E.get(X + '_Compiler'), ['t', self.d], kw)

    def compile(self, doc=None, strip_text=False, **kw):
        doc = self.transform(strip_text)
        c = self.E.call(self.E.get(X + '_Compiler'), ['t', doc], kw)
        ir = self.E.call_method(c, 'compile')
        return self.E.call(self.E.get('kajiki.template.from_ir'), [ir], {})


def plain(E, name):
    """An arbitrary text without $ (what static text and static values are made of)."""
    E.cache[('lacks', name)] = '$'
    return SymStr([Atom(name)])


def pure(name, kinds):
    """The meaning of an expression that gives the same value each time it is evaluated."""
    memo = []

    def fn(E):
        if not memo:
            memo.append(E.any(name, kinds))
        return memo[0]
    return fn
