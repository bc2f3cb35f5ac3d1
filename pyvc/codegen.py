"""Two-stage execution: the Python text kajiki generates, with symbolic pieces.

The intermediate representation is built and turned into Python text by the
real code (interpreted symbolically); the text is a rope of constants and
atoms.  Every atom stands for an arbitrary expression (or for repr() of a
symbolic text): it is replaced by a fresh name, the text is parsed as Python,
and the resulting code is executed by the same interpreter; evaluating such a
name runs the meaning the harness gave to that expression.
"""
import ast
import re
import z3
from .engine import Unsupported
from .values import *  # noqa
from .values import parts_of, mkstr


class Holes(object):
    """The expressions (and statements) a harness uses in template code."""
    def __init__(self, E):
        self.E = E
        self.meaning = {}       # atom key -> ('expr', fn) | ('stmt', fn)
        self.log = PyList(E, [])          # evaluations, in order
        E.registry[self.log.id] = self.log
        self.counts = {}
        E.cache['codegen'] = self
        E.inputs['exec'] = self.exec_

    def expr(self, name, fn=None):
        """Text of an arbitrary expression; each evaluation calls fn(E) or gives an arbitrary value."""
        def default(E):
            n = E.fresh('val(%s)' % name)
            return E.any(n)
        self.meaning[name] = ('expr', fn or default)
        self.E.add(z3.String(name) != z3.StringVal(''))
        self.E.cache[('decomp', name)] = (None, None, None, None)      # no white space around it
        return SymStr([Atom(name)])

    def stmt(self, name, fn):
        """A line that stands for arbitrary statements producing fn(E)'s elements."""
        self.meaning[name] = ('stmt', fn)
        return SymStr([Atom(name)])

    def evaluate(self, name):
        E = self.E
        v = self.meaning[name][1](E)
        E.list_append(self.log, (name, v))
        return v

    # ------------------------------------------------------------------
    def source(self, rope):
        holes, text = {}, ''
        ps = parts_of(rope)
        for i, p in enumerate(ps):
            if isinstance(p, str):
                text += p
                continue
            self.nholes = getattr(self, 'nholes', 0) + 1
            ph = '__hole%d__' % self.nholes
            if text and (text[-1].isalnum() or text[-1] == '_'):
                raise Unsupported('expression glued to %r' % text[-20:])
            nxt = ps[i + 1] if i + 1 < len(ps) else ''
            if not isinstance(nxt, str) or (nxt and (nxt[0].isalnum() or nxt[0] == '_')):
                raise Unsupported('expression glued to what follows')
            holes[ph] = p.key
            text += ph
        return text, holes

    def parse(self, rope):
        text, holes = self.source(rope)
        try:
            tree = ast.parse(text)
        except SyntaxError as e:
            self.E.ensure('the generated code is valid Python', False, '%s in %r' % (e, text))
            raise Unsupported('generated code does not parse: %s\n%s' % (e, text))
        for n in ast.walk(tree):
            if isinstance(n, ast.Constant) and isinstance(n.value, str) and '__hole' in n.value:
                raise Unsupported('expression inside a string of the generated code')
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and '__hole' in n.name:
                raise Unsupported('symbolic function name')
            if isinstance(n, ast.arg) and '__hole' in n.arg:
                raise Unsupported('symbolic parameter')
        E = self.E
        known = E.cache.get('holes', {})
        ns = {}

        class T(ast.NodeTransformer):
            def visit_Expr(self, n):
                if isinstance(n.value, ast.Name) and n.value.id in holes and meaning(holes[n.value.id])[0] == 'stmt':
                    call = ast.Call(ast.Name('__stmt__' + n.value.id, ast.Load()), [], [])
                    ns['__stmt__' + n.value.id] = Host('stmt', lambda I, a, kw, k=holes[n.value.id]: me.evaluate(k))
                    return ast.copy_location(ast.Expr(ast.YieldFrom(call)), n)
                return self.generic_visit(n)

            def visit_Name(self, n):
                if n.id not in holes:
                    return n
                if not isinstance(n.ctx, ast.Load):
                    raise Unsupported('assignment to an expression')
                key = holes[n.id]
                m = meaning(key)
                if m[0] == 'value':
                    ns[n.id] = m[1]
                    return n
                if m[0] == 'stmt':
                    raise Unsupported('statements inside an expression')
                ns[n.id] = Host('expr', lambda I, a, kw, k=key: me.evaluate(k))
                return ast.Call(n, [], [])
        me = self

        def meaning(key):
            if key in known:
                return known[key]
            if key in me.meaning:
                return me.meaning[key]
            raise Unsupported('unknown text %r in the generated code' % (key,))
        tree = ast.fix_missing_locations(T().visit(tree))
        return tree, ns, text

    def exec_(self, E, a, kw):
        from .interp import Frame
        rope, dct = E.force(a[0]), a[1]
        tree, ns, text = self.parse(rope)
        self.text, self.rope = text, rope
        m = Module('generated')
        g = GlobalsView(E, dct)
        for k, v in ns.items():
            E.builtins[k] = v          # visible whatever the globals of the function are
        fr = Frame(E, g, None, None, '', module=m)
        fr.locals = g
        E.run(E.exec_block(tree.body, fr))
        return None


class GlobalsView(dict):
    """A namespace kept in an interpreted dict."""
    def __init__(self, E, d):
        dict.__init__(self)
        self.E, self.d = E, d

    def __contains__(self, k):
        from .values import ABSENT
        return self.E.dict_get(self.d, k) is not ABSENT

    def __getitem__(self, k):
        from .values import ABSENT
        v = self.E.dict_get(self.d, k)
        if v is ABSENT:
            raise KeyError(k)
        return v

    def get(self, k, default=None):
        from .values import ABSENT
        v = self.E.dict_get(self.d, k)
        return default if v is ABSENT else v

    def __setitem__(self, k, v):
        self.E.dict_set(self.d, k, v)

    def items(self):
        from .values import ABSENT
        return [(k, v) for k, v in self.d.entries if v is not ABSENT]
