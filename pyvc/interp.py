"""A symbolic interpreter for the Python subset kajiki is written in.

It executes the abstract syntax of /repo's files, parsed on every run.
Statements are executed by host generators, so that generator functions of the
program are host generators as well.
"""
import ast
import os
import z3
from .engine import Engine, Cut, Restart, Unsupported
from .values import *  # noqa
from .values import ABSENT, zesc, mkstr, parts_of, atom_of

REPO = os.environ.get('VERIF_REPO', '/repo')


class Frame(object):
    def __init__(self, E, globals_, closure, localnames, qualname, module=None, is_class=False):
        self.id = E.new_id()
        E.registry[self.id] = self
        self.locals = {}
        self.globals = globals_
        self.closure = closure           # enclosing Frame or None
        self.localnames = localnames     # names local to this frame (None: everything assigned)
        self.globalnames = set()
        self.qualname = qualname
        self.module = module
        self.is_class = is_class
        self.loops = 0
        self.func = None
        self.handling = []


class LoopInfo(object):
    def __init__(self):
        self.cells = {}        # cell -> index of coupling candidate
        self.dropped = set()   # dropped Houdini candidates
        self.use_rule = False
        self.failures = {}     # cell -> counterexamples to couplings
        self.final = {}        # cell -> coupling in use


def scan_names(node):
    """(local names, global names, nonlocal names, is generator) of a function body."""
    loc, glo, non, gen = set(), set(), set(), [False]

    def target(t):
        if isinstance(t, ast.Name):
            loc.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                target(e)
        elif isinstance(t, ast.Starred):
            target(t.value)

    def visit(n):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            loc.add(n.name)
            for d in n.decorator_list:
                visit(d)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for sub in ast.walk(n):
                if isinstance(sub, ast.NamedExpr):
                    target(sub.target)
            visit(n.generators[0].iter)
            return
        if isinstance(n, ast.Global):
            glo.update(n.names)
        elif isinstance(n, ast.Nonlocal):
            non.update(n.names)
        elif isinstance(n, (ast.Yield, ast.YieldFrom)):
            gen[0] = True
        elif isinstance(n, ast.Assign):
            for t in n.targets:
                target(t)
        elif isinstance(n, (ast.AugAssign, ast.AnnAssign, ast.NamedExpr)):
            target(n.target)
        elif isinstance(n, ast.For):
            target(n.target)
        elif isinstance(n, ast.With):
            for i in n.items:
                if i.optional_vars is not None:
                    target(i.optional_vars)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                loc.add((a.asname or a.name).split('.')[0])
        elif isinstance(n, ast.ExceptHandler) and n.name:
            loc.add(n.name)
        elif isinstance(n, ast.Delete):
            for t in n.targets:
                target(t)
        for c in ast.iter_child_nodes(n):
            visit(c)
    body = node.body if isinstance(node.body, list) else [node.body]
    for s in body:
        visit(s)
    return loc - glo - non, glo, non, gen[0]


class Interp(Engine):
    def __init__(self, name, **kw):
        Engine.__init__(self, name, **kw)
        self.scan_cache = {}
        self.ast_cache = {}
        self.loop_hooks = {}
        self.houdini_terms = None
        self.overrides = {}         # qualified name -> Host: assumed or separately proved contract
        self.used_overrides = set()

    def on_reset(self):
        from . import builtins_
        self.registry = {}
        self.modules = {}
        self.builtins = builtins_.make(self)
        self.depth = 0
        self.str_axioms = {}
        self.exc_stack = []
        self.axiomized = set()

    # =============================================================== modules
    def module(self, name):
        """A kajiki module (executed), or a modelled library module."""
        if name in self.modules:
            return self.modules[name]
        if name == 'kajiki' or name.startswith('kajiki.'):
            rel = name.replace('.', '/')
            path = os.path.join(REPO, rel + '.py')
            if not os.path.exists(path):
                path = os.path.join(REPO, rel, '__init__.py')
            m = Module(name)
            self.modules[name] = m
            if name == 'kajiki':
                # the package: names resolved on demand
                m.lazy = True
                m.ns['__name__'] = name
                return m
            tree = self.parse_file(path)
            m.ns['__name__'] = name
            fr = Frame(self, m.ns, None, None, name, module=m)
            fr.locals = m.ns
            self.run(self.exec_block(tree.body, fr))
            if '.' in name:
                self.module('kajiki').ns.setdefault(name.split('.')[1], m)
            return m
        from . import builtins_
        m = builtins_.library(self, name)
        self.modules[name] = m
        return m

    def parse_file(self, path):
        if path not in self.ast_cache:
            with open(path, encoding='utf-8') as f:
                self.ast_cache[path] = ast.parse(f.read())
        return self.ast_cache[path]

    PACKAGE = {'XMLTemplate': 'kajiki.xml_template', 'TextTemplate': 'kajiki.text', 'Template': 'kajiki.template', 'expose': 'kajiki.util', 'flattener': 'kajiki.util',
               'FileLoader': 'kajiki.loader', 'PackageLoader': 'kajiki.loader', 'MockLoader': 'kajiki.loader', 'i18n': None, 'template': None, 'ir': None}

    def get(self, dotted):
        """kajiki.template._Template._escape -> the value"""
        parts = dotted.split('.')
        m = self.module('.'.join(parts[:2]))
        v = self.module_attr(m, parts[2])
        for p in parts[3:]:
            v = v.lookup(p)
        return v

    def module_attr(self, m, name):
        if name in m.ns:
            return m.ns[name]
        if m.name == 'kajiki':
            if name in self.PACKAGE and self.PACKAGE[name]:
                return self.module_attr(self.module(self.PACKAGE[name]), name)
            return self.module('kajiki.' + name)
        if getattr(m, 'missing', None):
            v = m.missing(name)
            if v is not None:
                return v
        if m.name.startswith('kajiki.'):
            raise KeyError(name)
        raise Unsupported('%s.%s' % (m.name, name))

    # =============================================================== running
    def run(self, gen):
        """Drive a host generator that must not yield (a plain function)."""
        try:
            next(gen)
        except StopIteration as e:
            return e.value
        raise Unsupported('yield outside of a generator')

    def call_method(self, obj, name, *args, **kw):
        return self.call(self.getattr(obj, name), list(args), kw)

    def drain(self, it, out=None):
        """Consume an iterable; -> PyList of what it produced."""
        out = out if out is not None else PyList(self, [])
        self.registry[out.id] = out
        for v in self.iterate(it):
            self.list_append(out, v)
        return out

    # =============================================================== statements
    def exec_block(self, stmts, fr):
        for s in stmts:
            r = yield from self.exec(s, fr)
            if r is not None:
                return r
        return None

    def exec(self, s, fr):
        t = type(s)
        if t is ast.Expr:
            if isinstance(s.value, ast.Yield):
                v = self.eval(s.value.value, fr) if s.value.value is not None else None
                yield v
                return None
            if isinstance(s.value, ast.YieldFrom):
                for v in self.iterate(self.eval(s.value.value, fr)):
                    yield v
                return None
            if isinstance(s.value, ast.Constant):
                return None
            self.eval(s.value, fr)
            return None
        if t is ast.Assign:
            v = self.eval(s.value, fr)
            for tg in s.targets:
                self.assign(tg, v, fr)
            return None
        if t is ast.AugAssign:
            self.augassign(s, fr)
            return None
        if t is ast.If:
            if self.truth(self.eval(s.test, fr)):
                return (yield from self.exec_block(s.body, fr))
            return (yield from self.exec_block(s.orelse, fr))
        if t is ast.Return:
            return ('ret', self.eval(s.value, fr) if s.value is not None else None)
        if t is ast.For:
            return (yield from self.exec_for(s, fr))
        if t is ast.While:
            return (yield from self.exec_while(s, fr))
        if t is ast.Pass:
            return None
        if t is ast.Break:
            return ('brk',)
        if t is ast.Continue:
            return ('cont',)
        if t is ast.FunctionDef:
            self.bind(s.name, self.decorate(s, self.make_func(s, fr), fr), fr)
            return None
        if t is ast.ClassDef:
            self.bind(s.name, self.make_class(s, fr), fr)
            return None
        if t is ast.Raise:
            if s.exc is None:
                if not self.exc_stack:
                    raise Unsupported('bare raise')
                raise PyExc(self.exc_stack[-1])
            e = self.eval(s.exc, fr)
            if isinstance(e, (PyClass, HostType)):
                e = self.call(e, [], {})
            raise PyExc(e)
        if t is ast.Try:
            return (yield from self.exec_try(s, fr))
        if t is ast.Assert:
            if not self.truth(self.eval(s.test, fr)):
                msg = self.eval(s.msg, fr) if s.msg is not None else None
                self.throw('AssertionError', msg)
            return None
        if t in (ast.Import, ast.ImportFrom):
            self.exec_import(s, fr)
            return None
        if t is ast.Global:
            fr.globalnames.update(s.names)
            return None
        if t is ast.Nonlocal:
            return None
        if t is ast.Delete:
            for tg in s.targets:
                self.delete(tg, fr)
            return None
        if t is ast.With:
            return (yield from self.exec_with(s, fr))
        if t is ast.AnnAssign:
            if s.value is not None:
                self.assign(s.target, self.eval(s.value, fr), fr)
            return None
        raise Unsupported('statement %s' % t.__name__)

    def exec_for(self, s, fr):
        it = self.eval(s.iter, fr)
        ended = True
        for v in self.iterate(it):
            self.assign(s.target, v, fr)
            r = yield from self.exec_block(s.body, fr)
            if r is not None:
                if r[0] == 'brk':
                    ended = False
                    break
                if r[0] == 'cont':
                    continue
                return r
        if ended and s.orelse:
            return (yield from self.exec_block(s.orelse, fr))
        return None

    def exec_while(self, s, fr):
        site = ('while', fr.qualname, s.lineno - (fr.func.node.lineno if fr.func is not None else 0))
        pre = self.prefix()
        info = self.loopinfo.setdefault((site, pre), LoopInfo())
        if not info.use_rule:
            forky = 0
            while True:
                p0 = len([1 for k in self.trail[:self.tpos] if k[0] != 'f'])
                if not self.truth(self.eval(s.test, fr)):
                    if s.orelse:
                        return (yield from self.exec_block(s.orelse, fr))
                    return None
                r = yield from self.exec_block(s.body, fr)
                if r is not None:
                    if r[0] == 'brk':
                        return None
                    if r[0] != 'cont':
                        return r
                if len([1 for k in self.trail[:self.tpos] if k[0] != 'f']) > p0:
                    forky += 1
                    if forky > self.unroll_limit:
                        info.use_rule = True
                        raise Restart(len(pre))
        # ---- loop rule: havoc, assume the invariant, check it after one iteration
        rule = LoopRule(self, site, info, None, fr, depth=len(pre))
        rule.enter()
        generic = self.choose(2, 'while') == 0
        rule.havoc(generic)
        if generic:
            rule.begin()
            if not self.truth(self.eval(s.test, fr)):
                raise Cut('loop ends')
            r = yield from self.exec_block(s.body, fr)
            if r is not None:
                if r[0] == 'brk':
                    rule.leave()
                    return None
                if r[0] != 'cont':
                    rule.leave()
                    return r
            rule.end()
            raise Cut('iteration checked')
        if self.truth(self.eval(s.test, fr)):
            raise Cut('loop goes on')
        if s.orelse:
            return (yield from self.exec_block(s.orelse, fr))
        return None

    unroll_limit = 1

    def exec_try(self, s, fr):
        try:
            r = yield from self.exec_block(s.body, fr)
        except PyExc as e:
            for h in s.handlers:
                if h.type is None or self.exc_matches(e.value, self.eval(h.type, fr)):
                    if h.name:
                        self.bind(h.name, e.value, fr)
                    self.exc_stack.append(e.value)
                    try:
                        r = yield from self.exec_block(h.body, fr)
                    finally:
                        self.exc_stack.pop()
                    if h.name:
                        fr.locals.pop(h.name, None)
                    break
            else:
                r2 = yield from self.exec_block(s.finalbody, fr)
                if r2 is not None:
                    return r2
                raise
        else:
            if r is None and s.orelse:
                r = yield from self.exec_block(s.orelse, fr)
        r2 = yield from self.exec_block(s.finalbody, fr)
        return r2 if r2 is not None else r

    def exec_with(self, s, fr):
        if len(s.items) != 1:
            raise Unsupported('with')
        cm = self.eval(s.items[0].context_expr, fr)
        v = self.call_method(cm, '__enter__')
        if s.items[0].optional_vars is not None:
            self.assign(s.items[0].optional_vars, v, fr)
        r = yield from self.exec_block(s.body, fr)
        self.call_method(cm, '__exit__', None, None, None)
        return r

    def exec_import(self, s, fr):
        if isinstance(s, ast.Import):
            for a in s.names:
                m = self.module(a.name)
                if a.asname:
                    self.bind(a.asname, m, fr)
                else:
                    self.bind(a.name.split('.')[0], self.module(a.name.split('.')[0]), fr)
            return
        if s.module == '__future__':
            return
        name = s.module or ''
        if s.level:
            name = 'kajiki' + ('.' + name if name else '')
        for a in s.names:
            m = self.module(name)
            try:
                v = self.module_attr(m, a.name)
            except KeyError:
                raise Unsupported('import %s.%s' % (name, a.name))
            self.bind(a.asname or a.name, v, fr)

    # =============================================================== names
    def bind(self, name, v, fr):
        if name in fr.globalnames:
            self.gset(fr.globals, name, v)
            return
        if fr.localnames is not None and name not in fr.localnames and not fr.is_class:
            f = fr.closure          # nonlocal
            while f is not None:
                if name in f.locals or (f.localnames and name in f.localnames):
                    f.locals[name] = v
                    self.wrote(('local', f.id, name))
                    return
                f = f.closure
        fr.locals[name] = v
        self.wrote(('local', fr.id, name))

    def gset(self, g, name, v):
        if isinstance(g, PyDict):
            self.dict_set(g, name, v)
        else:
            g[name] = v

    def lookup(self, name, fr):
        if name in fr.globalnames:
            pass
        else:
            if name in fr.locals:
                v = fr.locals[name]
                if isinstance(v, Poison):
                    raise Unsupported('value of %r after a loop: %s' % (name, v.why))
                return v
            if fr.localnames is not None and name in fr.localnames and not fr.is_class:
                self.throw('UnboundLocalError', "local variable '%s' referenced before assignment" % name)
            f = fr.closure
            while f is not None:
                if not f.is_class:
                    if name in f.locals:
                        v = f.locals[name]
                        if isinstance(v, Poison):
                            raise Unsupported('value of %r after a loop' % name)
                        return v
                    if f.localnames is not None and name in f.localnames:
                        self.throw('NameError', "free variable '%s' referenced before assignment" % name)
                f = f.closure
        g = fr.globals
        if isinstance(g, PyDict):
            v = self.dict_get(g, name)
            if v is not ABSENT:
                return v
        elif name in g:
            return g[name]
        if name in self.builtins:
            return self.builtins[name]
        self.throw('NameError', "name '%s' is not defined" % name)

    def assign(self, tg, v, fr):
        if isinstance(tg, ast.Name):
            self.bind(tg.id, v, fr)
        elif isinstance(tg, (ast.Tuple, ast.List)):
            vals = self.unpack(v, len(tg.elts), any(isinstance(e, ast.Starred) for e in tg.elts))
            star = [i for i, e in enumerate(tg.elts) if isinstance(e, ast.Starred)]
            if star:
                i = star[0]
                after = len(tg.elts) - i - 1
                if len(vals) < len(tg.elts) - 1:
                    self.throw('ValueError', 'not enough values to unpack')
                groups = vals[:i] + [PyList(self, vals[i:len(vals) - after])] + vals[len(vals) - after:]
                for e, x in zip(tg.elts, groups):
                    self.assign(e.value if isinstance(e, ast.Starred) else e, x, fr)
                return
            for e, x in zip(tg.elts, vals):
                self.assign(e, x, fr)
        elif isinstance(tg, ast.Attribute):
            self.setattr(self.eval(tg.value, fr), tg.attr, v)
        elif isinstance(tg, ast.Subscript):
            self.setitem(self.eval(tg.value, fr), self.index(tg.slice, fr), v)
        else:
            raise Unsupported('assignment to %s' % type(tg).__name__)

    def unpack(self, v, n, star):
        vals = self.listed(v)
        if any(isinstance(x, Run) for x in vals):
            raise Unsupported('unpacking a sequence of unknown length')
        if not star and len(vals) != n:
            self.throw('ValueError', 'expected %d values to unpack, got %d' % (n, len(vals)))
        return vals

    def listed(self, v):
        """All elements of a concrete-length iterable."""
        v = self.norm(v)
        if isinstance(v, (tuple, list)):
            return list(v)
        if isinstance(v, PyList):
            return list(v.items)
        return self.drain(v).items

    def augassign(self, s, fr):
        if isinstance(s.target, ast.Name):
            cur = self.lookup(s.target.id, fr)
            self.bind(s.target.id, self.binop(s.op, cur, self.eval(s.value, fr), inplace=True), fr)
        elif isinstance(s.target, ast.Attribute):
            o = self.eval(s.target.value, fr)
            cur = self.getattr(o, s.target.attr)
            self.setattr(o, s.target.attr, self.binop(s.op, cur, self.eval(s.value, fr), inplace=True))
        elif isinstance(s.target, ast.Subscript):
            o = self.eval(s.target.value, fr)
            i = self.index(s.target.slice, fr)
            cur = self.getitem(o, i)
            self.setitem(o, i, self.binop(s.op, cur, self.eval(s.value, fr), inplace=True))
        else:
            raise Unsupported('augmented assignment')

    def delete(self, tg, fr):
        if isinstance(tg, ast.Name):
            if tg.id in fr.globalnames:
                fr.globals.pop(tg.id, None)
            elif tg.id in fr.locals:
                del fr.locals[tg.id]
                self.wrote(('local', fr.id, tg.id))
            else:
                self.throw('NameError', tg.id)
        elif isinstance(tg, ast.Subscript):
            self.delitem(self.eval(tg.value, fr), self.index(tg.slice, fr))
        elif isinstance(tg, ast.Attribute):
            o = self.norm(self.eval(tg.value, fr))
            if isinstance(o, PyObj) and tg.attr in o.attrs:
                del o.attrs[tg.attr]
                self.wrote(('attr', o.id, tg.attr))
            else:
                raise Unsupported('del attribute')
        else:
            raise Unsupported('del')

    # =============================================================== functions and classes
    def make_func(self, node, fr, qual=None):
        if node not in self.scan_cache:
            loc, glo, non, gen = scan_names(node)
            a = node.args
            for x in a.posonlyargs + a.args + a.kwonlyargs:
                loc.add(x.arg)
            if a.vararg:
                loc.add(a.vararg.arg)
            if a.kwarg:
                loc.add(a.kwarg.arg)
            if isinstance(node, ast.Lambda):
                gen = False
            self.scan_cache[node] = (loc, glo, non, gen)
        loc, glo, non, gen = self.scan_cache[node]
        name = getattr(node, 'name', '<lambda>')
        defaults = [self.eval(d, fr) for d in node.args.defaults]
        kwd = [None if d is None else self.eval(d, fr) for d in node.args.kw_defaults]
        closure = fr if fr.locals is not fr.globals else None
        return PyFunc(node, name, (fr.qualname + '.' if fr.qualname else '') + name, fr.globals, closure,
                      defaults, kwd, gen, module=fr.module, localnames=loc)

    def decorate(self, node, f, fr):
        for d in reversed(node.decorator_list):
            f = self.call(self.eval(d, fr), [f], {})
        return f

    def make_class(self, node, fr):
        bases = [self.eval(b, fr) for b in node.bases]
        cf = Frame(self, fr.globals, fr if fr.locals is not fr.globals else None, None, (fr.qualname + '.' if fr.qualname else '') + node.name, module=fr.module, is_class=True)
        self.run(self.exec_block(node.body, cf))
        c = PyClass(node.name, bases, cf.locals, module=fr.module)
        c.qualname = cf.qualname
        for v in cf.locals.values():
            if isinstance(v, PyFunc):
                v.owner = getattr(v, 'owner', c)
        for d in reversed(node.decorator_list):
            c = self.call(self.eval(d, fr), [c], {})
        return c

    def call(self, f, args, kwargs=None):
        kwargs = kwargs or {}
        f = self.norm(f)
        if isinstance(f, Bound):
            return self.call(f.func, [f.self] + list(args), kwargs)
        if isinstance(f, Host):
            return f.fn(self, list(args), kwargs)
        if isinstance(f, PyFunc):
            return self.call_func(f, list(args), kwargs)
        if isinstance(f, PyClass):
            return self.instantiate(f, list(args), kwargs)
        if isinstance(f, HostType):
            return f.new(self, list(args), kwargs)
        if isinstance(f, PyObj):
            m = self.class_attr(f.cls, '__call__')
            if m is not ABSENT:
                return self.call(m, [f] + list(args), kwargs)
            if callable(getattr(f, 'on_call', None)):
                return f.on_call(list(args), kwargs)
        if f is None or isinstance(f, (str, int, tuple, SymStr, SymInt, PyList, PyDict)):
            self.throw('TypeError', 'object is not callable')
        raise Unsupported('call of %r' % (f,))

    def call_func(self, f, args, kwargs):
        ov = self.overrides.get(f.qualname)
        if ov is not None:
            self.used_overrides.add(f.qualname)
            return ov(self, args, kwargs)
        if f.module is not None and f.module.name.startswith('kajiki'):
            self.functions.add(f.qualname)
        fr = Frame(self, f.globals, f.closure, f.localnames, f.qualname, module=f.module)
        fr.func = f
        _, glo, _, _ = self.scan_cache[f.node]
        fr.globalnames = set(glo)
        self.bind_args(f, fr, args, kwargs)
        if isinstance(f.node, ast.Lambda):
            return self.eval(f.node.body, fr)
        if f.is_gen:
            return PyGen(self, self.gen_body(f, fr), f.qualname)
        self.depth += 1
        if self.depth > 120:
            raise Unsupported('recursion deeper than 120 in %s' % f.qualname)
        try:
            r = self.run(self.exec_block(f.node.body, fr))
        finally:
            self.depth -= 1
        return r[1] if r is not None and r[0] == 'ret' else None

    def gen_body(self, f, fr):
        self.depth += 1
        if self.depth > 120:
            raise Unsupported('recursion deeper than 120 in %s' % f.qualname)
        try:
            yield from self.exec_block(f.node.body, fr)
        finally:
            self.depth -= 1

    def bind_args(self, f, fr, args, kwargs):
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        kwargs = dict(kwargs)
        loc = fr.locals
        n = len(pos)
        for i, v in enumerate(args[:n]):
            loc[pos[i]] = v
        rest = args[n:]
        if rest and not a.vararg:
            self.throw('TypeError', '%s() takes %d positional arguments but %d were given' % (f.name, n, len(args)))
        if a.vararg:
            loc[a.vararg.arg] = tuple(rest)
        for k in list(kwargs):
            if k in pos or k in [x.arg for x in a.kwonlyargs]:
                if k in loc:
                    self.throw('TypeError', '%s() got multiple values for argument %r' % (f.name, k))
                loc[k] = kwargs.pop(k)
        dstart = n - len(f.defaults)
        for i, p in enumerate(pos):
            if p not in loc:
                if i >= dstart:
                    loc[p] = f.defaults[i - dstart]
                else:
                    self.throw('TypeError', '%s() missing argument %r' % (f.name, p))
        for x, d in zip(a.kwonlyargs, f.kwdefaults):
            if x.arg not in loc:
                if d is None and a.kw_defaults[a.kwonlyargs.index(x)] is None:
                    self.throw('TypeError', 'missing keyword argument')
                loc[x.arg] = d
        if a.kwarg:
            loc[a.kwarg.arg] = PyDict(self, [[k, v] for k, v in kwargs.items()])
        elif kwargs:
            self.throw('TypeError', '%s() got an unexpected keyword argument %r' % (f.name, sorted(kwargs)[0]))

    def instantiate(self, cls, args, kwargs):
        ov = self.overrides.get(getattr(cls, 'qualname', None))
        if ov is not None:
            self.used_overrides.add(cls.qualname)
            return ov(self, args, kwargs)
        o = PyObj(self, cls)
        self.registry[o.id] = o
        init = self.class_attr(cls, '__init__')
        if init is not ABSENT:
            self.call(init, [o] + args, kwargs)
        elif args and any(isinstance(b, HostType) and issubclass(b.host, BaseException) for b in cls.mro):
            o.attrs['args'] = tuple(args)
        return o

    def class_attr(self, cls, name):
        if isinstance(cls, PyClass):
            for c in cls.mro:
                if isinstance(c, PyClass):
                    if name in c.ns:
                        return c.ns[name]
                elif isinstance(c, HostType):
                    v = getattr(c, 'attrs', {}).get(name, ABSENT)
                    if v is not ABSENT:
                        return v
        elif isinstance(cls, HostType):
            return getattr(cls, 'attrs', {}).get(name, ABSENT)
        return ABSENT

    # =============================================================== exceptions
    def throw(self, name, *args):
        raise PyExc(self.make_exc(name, *args))

    def make_exc(self, name, *args):
        o = PyObj(self, self.builtins[name])
        o.attrs['args'] = tuple(args)
        return o

    def exc_matches(self, v, cls):
        if isinstance(cls, tuple):
            return any(self.exc_matches(v, c) for c in cls)
        return self.subclass(self.typeof(v), cls)

    def subclass(self, c, d):
        if c is d:
            return True
        if isinstance(d, HostType) and d.host is object:
            return True
        if isinstance(c, PyClass):
            for b in c.mro[1:]:
                if b is d or (isinstance(b, HostType) and self.subclass(b, d)):
                    return True
            return False
        if isinstance(c, HostType) and isinstance(d, HostType):
            return issubclass(c.host, d.host)
        return False

    # =============================================================== expressions
    def eval(self, e, fr):
        t = type(e)
        if t is ast.Constant:
            return e.value
        if t is ast.Name:
            return self.lookup(e.id, fr)
        if t is ast.Attribute:
            return self.getattr(self.eval(e.value, fr), e.attr)
        if t is ast.Call:
            return self.eval_call(e, fr)
        if t is ast.BinOp:
            return self.binop(e.op, self.eval(e.left, fr), self.eval(e.right, fr))
        if t is ast.BoolOp:
            isand = isinstance(e.op, ast.And)
            for x in e.values[:-1]:
                v = self.eval(x, fr)
                if self.truth(v) != isand:
                    return v
            return self.eval(e.values[-1], fr)
        if t is ast.UnaryOp:
            v = self.eval(e.operand, fr)
            if isinstance(e.op, ast.Not):
                v = self.norm(v)
                if isinstance(v, SymBool):
                    return SymBool(z3.Not(v.z))
                return not self.truth(v)
            v = self.norm(v)
            if isinstance(e.op, ast.USub):
                return SymInt(-v.z) if isinstance(v, SymInt) else -v
            raise Unsupported('unary operator')
        if t is ast.Compare:
            left = self.eval(e.left, fr)
            for i, (op, r) in enumerate(zip(e.ops, e.comparators)):
                right = self.eval(r, fr)
                v = self.compare(op, left, right)
                if i == len(e.ops) - 1:
                    return v
                if not self.truth(v):
                    return False
                left = right
        if t is ast.IfExp:
            return self.eval(e.body if self.truth(self.eval(e.test, fr)) else e.orelse, fr)
        if t is ast.Tuple:
            return tuple(self.eval_elts(e.elts, fr))
        if t is ast.List:
            return self.newlist(self.eval_elts(e.elts, fr))
        if t is ast.Set:
            s = PyList(self, [], 'set')
            self.registry[s.id] = s
            for v in self.eval_elts(e.elts, fr):
                self.set_add(s, v)
            return s
        if t is ast.Dict:
            d = PyDict(self)
            self.registry[d.id] = d
            if len(e.keys) > 8 and all(isinstance(k, ast.Constant) for k in e.keys):
                tmp = {}
                for k, v in zip(e.keys, e.values):
                    tmp[k.value] = v.value if isinstance(v, ast.Constant) else self.eval(v, fr)
                d.entries = [[k, v] for k, v in tmp.items()]
                return d
            for k, v in zip(e.keys, e.values):
                if k is None:
                    self.dict_update(d, self.eval(v, fr))
                else:
                    kk = self.eval(k, fr)
                    self.dict_set(d, kk, self.eval(v, fr))
            return d
        if t is ast.Subscript:
            return self.getitem(self.eval(e.value, fr), self.index(e.slice, fr))
        if t is ast.Lambda:
            return self.make_func(e, fr)
        if t in (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp):
            return self.eval_comp(e, fr)
        if t is ast.JoinedStr:
            out = []
            for x in e.values:
                if isinstance(x, ast.Constant):
                    out.append(x.value)
                else:
                    v = self.eval(x.value, fr)
                    if x.format_spec is not None:
                        raise Unsupported('format spec')
                    v = self.repr_(v) if x.conversion == 114 else self.str_(v)
                    out.extend(parts_of(v))
            return mkstr(out)
        if t is ast.NamedExpr:
            v = self.eval(e.value, fr)
            self.assign(e.target, v, fr)
            return v
        if t is ast.Starred:
            raise Unsupported('starred expression')
        raise Unsupported('expression %s' % t.__name__)

    def newlist(self, items):
        l = PyList(self, items)
        self.registry[l.id] = l
        return l

    def eval_elts(self, elts, fr):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out.extend(self.listed(self.eval(x.value, fr)))
            else:
                out.append(self.eval(x, fr))
        return out

    def eval_call(self, e, fr):
        f = self.eval(e.func, fr)
        if isinstance(f, Host) and f.name in ('locals', 'super', 'globals', 'dir') and not e.args:
            return f.fn(self, [fr], {})
        args = self.eval_elts(e.args, fr)
        kwargs = {}
        for k in e.keywords:
            v = self.eval(k.value, fr)
            if k.arg is None:
                v = self.norm(v)
                if not isinstance(v, PyDict) or v.base is not None:
                    raise Unsupported('**mapping of unknown keys')
                for kk, vv in v.entries:
                    if vv is ABSENT:
                        continue
                    if not isinstance(kk, str):
                        raise Unsupported('symbolic keyword')
                    if kk in kwargs:
                        self.throw('TypeError', 'got multiple values for keyword argument %r' % kk)
                    kwargs[kk] = vv
            else:
                kwargs[k.arg] = v
        return self.call(f, args, kwargs)

    def eval_comp(self, e, fr):
        cf = Frame(self, fr.globals, fr if fr.locals is not fr.globals else None, None, fr.qualname + '.<comp>', module=fr.module)
        cf.func = fr.func
        if fr.is_class:
            cf.closure = fr.closure
        names = set()
        for g in e.generators:
            for n in ast.walk(g.target):
                if isinstance(n, ast.Name):
                    names.add(n.id)
        cf.localnames = names
        first = self.eval(e.generators[0].iter, fr)

        def rec(i):
            if i == len(e.generators):
                if isinstance(e, ast.DictComp):
                    yield (self.eval(e.key, cf), self.eval(e.value, cf))
                else:
                    yield self.eval(e.elt, cf)
                return
            g = e.generators[i]
            for v in self.iterate(first if i == 0 else self.eval(g.iter, cf)):
                self.assign(g.target, v, cf)
                if all(self.truth(self.eval(c, cf)) for c in g.ifs):
                    yield from rec(i + 1)
        if isinstance(e, ast.GeneratorExp):
            return PyGen(self, rec(0), fr.qualname + '.<genexpr>')
        if isinstance(e, ast.DictComp):
            d = PyDict(self)
            self.registry[d.id] = d
            for k, v in rec(0):
                self.dict_set(d, k, v)
            return d
        if isinstance(e, ast.SetComp):
            s = PyList(self, [], 'set')
            self.registry[s.id] = s
            for v in rec(0):
                self.set_add(s, v)
            return s
        out = self.newlist([])
        for v in rec(0):
            self.list_append(out, v)
        return out

    def index(self, s, fr):
        if isinstance(s, ast.Slice):
            return slice(*[None if x is None else self.eval(x, fr) for x in (s.lower, s.upper, s.step)])
        if isinstance(s, ast.Index):      # pragma no cover (old ASTs)
            s = s.value
        return self.eval(s, fr)


from . import ops        # noqa
from .loops import LoopRule      # noqa
for _n, _f in list(vars(ops.Ops).items()):
    if not _n.startswith('__'):
        setattr(Interp, _n, _f)
