"""Operations on values."""
import ast
import z3
from .engine import Cut, Restart, Unsupported
from .values import *  # noqa
from .values import strz, ABSENT, zesc, mkstr, parts_of, atom_of
from . import strs


class TypeOf(Val):
    def __init__(self, v):
        self.v = v


class DictItems(Val):
    def __init__(self, d, what):
        self.d, self.what = d, what


IMM = (type(None), bool, int, float, str, bytes)


def zi(v):
    if isinstance(v, SymInt):
        return v.z
    if isinstance(v, SymBool):
        return z3.If(v.z, 1, 0)
    return z3.IntVal(int(v))


class Ops(object):
    # ------------------------------------------------------------- arbitrary values
    def any(self, name, kinds=AnyVal.KINDS):
        v = AnyVal(self, name, kinds)
        if len(v.kinds) == 1:
            return self.norm(v)
        return v

    def norm(self, v):
        if isinstance(v, Poison):
            raise Unsupported('unknown value: %s' % v.why)
        if isinstance(v, AnyVal):
            if v.done:
                return v.val
            if len(v.kinds) == 1:
                return self.materialize(v)
        return v

    def split(self, v, kinds):
        """Is v of one of these kinds?  (forks)"""
        t = tuple(k for k in v.kinds if k in kinds)
        f = tuple(k for k in v.kinds if k not in kinds)
        if not f:
            return True
        if not t:
            return False
        c = self.choose(2, '%s in %s' % (v.name, '/'.join(t)))
        v.kinds = t if c == 0 else f
        self.note('%s is %s' % (v.name, '/'.join(v.kinds)))
        return c == 0

    def force(self, v):
        """Decide the kind of an arbitrary value."""
        if isinstance(v, AnyVal) and not v.done:
            k = v.kinds[self.choose(len(v.kinds), 'kind of ' + v.name)]
            v.kinds = (k,)
            self.note('%s is %s' % (v.name, k))
            return self.materialize(v)
        return self.norm(v)

    def materialize(self, v):
        k = v.kinds[0]
        n = v.name
        if k == 'none':
            r = None
        elif k == 'true':
            r = True
        elif k == 'false':
            r = False
        elif k == 'int':
            r = SymInt(z3.Int(n))
        elif k == 'str':
            r = SymStr([Atom(n)])
        elif k == 'flat':
            r = self.make_flattener(n)
        elif k in ('html', 'obj'):
            r = PyObj(self, self.opaque_class(k), name=n)
            self.registry[r.id] = r
            if k == 'html':
                r.attrs['__html__'] = Host('__html__', lambda I, a, kw, n=n: SymStr([Atom('html(%s)' % n)]))
        else:
            raise Unsupported('kind ' + k)
        v.val, v.done = r, True
        return r

    def opaque_class(self, k):
        c = self.cache.get(('opaque', k))
        if c is None:
            c = self.cache[('opaque', k)] = PyClass('<%s>' % k, [self.builtins['object']], {})
            c.opaque = True
        return c

    def make_flattener(self, name, depth=0):
        """A template function result: an arbitrary tree of outputs."""
        cls = self.get('kajiki.util.flattener')
        o = PyObj(self, cls, name=name)
        self.registry[o.id] = o
        mk = self.inputs.get('flat_iterator')
        o.attrs['iterator'] = mk(name) if mk else SymSeq(self, 'raw(%s)' % name, lambda E, h: E.any(h), Spec(), oneshot=True)
        o.contract_iter = SymSeq(self, 'flat(%s)' % name, lambda E, h: E.any(h, ('true', 'false', 'int', 'str', 'html', 'obj')), Spec(), oneshot=True)
        return o

    def kind_class(self, k):
        B = self.builtins
        if k == 'flat':
            return self.get('kajiki.util.flattener')
        if k in ('html', 'obj'):
            return self.opaque_class(k)
        return {'none': B['NoneType'], 'true': B['bool'], 'false': B['bool'], 'int': B['int'], 'str': B['str']}[k]

    def module_class(self):
        if not hasattr(self, '_module_class'):
            self._module_class = PyClass('module', [self.builtins['object']], {})
            self._module_class.qualname = None
        return self._module_class

    def typeof(self, v):
        v = self.norm(v)
        B = self.builtins
        if isinstance(v, AnyVal):
            ks = set(self.kind_class(k) for k in v.kinds)
            if len(ks) == 1:
                return ks.pop()
            return TypeOf(v)
        if v is None:
            return B['NoneType']
        if isinstance(v, (bool, SymBool)):
            return B['bool']
        if isinstance(v, (int, SymInt)):
            return B['int']
        if isinstance(v, float):
            return B['float']
        if isinstance(v, (str, SymStr)):
            return B['str']
        if isinstance(v, bytes):
            return B['bytes']
        if isinstance(v, tuple):
            return B['tuple']
        if isinstance(v, PyList):
            return B[v.kind] if v.kind in B else B['list']
        if isinstance(v, PyDict):
            return B['dict']
        if isinstance(v, PyObj):
            return v.cls
        if isinstance(v, SymSeq):
            return v.cls or B['list']
        if isinstance(v, (PyGen, SymIter)):
            return B['generator']
        if isinstance(v, (PyClass, HostType)):
            return B['type']
        if isinstance(v, (PyFunc, Bound, Host)):
            return B['function']
        if isinstance(v, Module):
            return self.module_class()
        raise Unsupported('type of %r' % (v,))

    def isinst(self, v, cls):
        if isinstance(cls, tuple):
            return any(self.isinst(v, c) for c in cls)
        v = self.norm(v)
        if isinstance(v, AnyVal):
            return self.split(v, [k for k in v.kinds if self.subclass(self.kind_class(k), cls)])
        return self.subclass(self.typeof(v), cls)

    # ------------------------------------------------------------- truth and comparison
    def truth(self, v):
        v = self.norm(v)
        if isinstance(v, AnyVal):
            if self.split(v, ('none', 'false')):
                return False
            if self.split(v, ('true', 'flat')):
                return True
            v = self.force(v)
        if isinstance(v, SymBool):
            return self.branch(v.z)
        if isinstance(v, SymInt):
            return self.branch(v.z != 0)
        if isinstance(v, SymStr):
            if any(isinstance(p, str) for p in v.parts):
                return True
            return self.branch(z3.Or(*[self.atom_len(p) > 0 for p in v.parts]))
        if isinstance(v, PyList):
            if any(not isinstance(x, Run) for x in v.items):
                return True
            if not v.items:
                return False
            for r in v.items:
                self.add(r.length() >= 0)
            return self.branch(z3.Or(*[r.length() > 0 for r in v.items]))
        if isinstance(v, PyDict):
            if any(x is not ABSENT for _, x in v.entries):
                return True
            if v.base is None:
                return False
            if not hasattr(v, 'empty'):
                v.empty = self.choose(2, '%s is empty' % (v.name,)) == 1
                if v.empty:
                    v.base = lambda k: ABSENT
            return not v.empty
        if isinstance(v, SymSeq):
            return self.branch(self.seq_len(v) > 0)
        if isinstance(v, PyObj):
            m = self.class_attr(v.cls, '__bool__')
            if m is not ABSENT:
                return self.truth(self.call(m, [v], {}))
            m = self.class_attr(v.cls, '__len__')
            if m is not ABSENT:
                return self.truth(self.call(m, [v], {}))
            if getattr(v.cls, 'opaque', False):
                return self.branch(z3.Bool('truth(%s)' % v.name))
            return True
        if isinstance(v, Val):
            return True
        return bool(v)

    def seq_len(self, s):
        z = z3.Int('len(%s)' % s.name)
        self.add(z >= 0)
        return z

    def is_(self, a, b):
        a, b = self.norm(a), self.norm(b)
        for x, y in ((a, b), (b, a)):
            if isinstance(x, AnyVal):
                if y is x:
                    return True
                if y is None:
                    return self.split(x, ('none',))
                if y is True:
                    return self.split(x, ('true',))
                if y is False:
                    return self.split(x, ('false',))
                if isinstance(y, AnyVal):
                    raise Unsupported('identity of two arbitrary values')
                return False
        if isinstance(a, TypeOf) or isinstance(b, TypeOf):
            return self.eq_types(a, b)
        if isinstance(a, IMM) and isinstance(b, IMM):
            return type(a) is type(b) and a == b
        if isinstance(a, SymBool) and isinstance(b, bool):
            return a if b else SymBool(z3.Not(a.z))
        if isinstance(a, SymInt) and isinstance(b, (SymInt, int)) and not isinstance(b, bool):
            raise Unsupported('identity of ints')
        if isinstance(a, SymStr) and isinstance(b, (SymStr, str)):
            if a is b:
                return True
            raise Unsupported('identity of strings')
        if isinstance(a, Bound) and isinstance(b, Bound):
            return False
        return a is b

    def eq_types(self, a, b):
        if isinstance(b, TypeOf) and not isinstance(a, TypeOf):
            a, b = b, a
        if isinstance(b, TypeOf):
            raise Unsupported('comparison of two types')
        v = self.norm(a.v)
        if isinstance(v, AnyVal):
            return self.split(v, [k for k in v.kinds if self.kind_class(k) is b])
        return self.typeof(v) is b

    def eq(self, a, b):
        """-> bool or SymBool"""
        a, b = self.norm(a), self.norm(b)
        if a is b:
            return True
        if isinstance(a, TypeOf) or isinstance(b, TypeOf):
            return self.eq_types(a, b)
        for x, y in ((a, b), (b, a)):
            if isinstance(x, AnyVal):
                if isinstance(y, AnyVal):
                    n = sorted([x.name, y.name])
                    return SymBool(z3.Bool('eq(%s,%s)' % tuple(n)))
                if y is None:
                    return self.split(x, ('none',))
                if isinstance(y, bool):
                    if self.split(x, ('true', 'false', 'int')):
                        return self.eq(self.force(x), y)
                    return False
                return self.eq(self.force(x), y)
        if isinstance(a, IMM) and isinstance(b, IMM):
            return a == b
        if isinstance(a, (str, SymStr)) or isinstance(b, (str, SymStr)):
            if not (isinstance(a, (str, SymStr)) and isinstance(b, (str, SymStr))):
                return self.eq_obj(a, b)
            return strs.eq(self, a, b)
        if isinstance(a, (int, SymInt, SymBool)) and isinstance(b, (int, SymInt, SymBool)):
            if isinstance(a, SymBool) and isinstance(b, SymBool):
                return SymBool(a.z == b.z)
            if isinstance(a, SymBool) and isinstance(b, bool):
                return a if b else SymBool(z3.Not(a.z))
            if isinstance(b, SymBool) and isinstance(a, bool):
                return b if a else SymBool(z3.Not(b.z))
            return SymBool(zi(a) == zi(b))
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            return self.conj([self.eq(x, y) for x, y in zip(a, b)])
        if isinstance(a, PyList) and isinstance(b, PyList):
            if any(isinstance(x, Run) for x in a.items + b.items):
                if self.same_items(a.items, b.items):
                    return True
                raise Unsupported('equality of lists of unknown length')
            if a.kind == 'set' or b.kind == 'set':
                raise Unsupported('set equality')
            if len(a.items) != len(b.items):
                return False
            return self.conj([self.eq(x, y) for x, y in zip(a.items, b.items)])
        return self.eq_obj(a, b)

    def eq_obj(self, a, b):
        for x, y in ((a, b), (b, a)):
            if isinstance(x, PyObj):
                m = self.class_attr(x.cls, '__eq__')
                if m is not ABSENT:
                    return self.call(m, [x, y], {})
                if getattr(x.cls, 'opaque', False) and isinstance(y, PyObj) and getattr(y.cls, 'opaque', False):
                    n = sorted([x.name, y.name])
                    return SymBool(z3.Bool('eq(%s,%s)' % tuple(n)))
        if isinstance(a, Bound) and isinstance(b, Bound):
            return a.func is b.func and a.self is b.self
        if isinstance(a, SymSeq) or isinstance(b, SymSeq):
            raise Unsupported('equality of symbolic sequences')
        if isinstance(a, PyDict) and isinstance(b, PyDict):
            raise Unsupported('dict equality')
        return a is b

    def conj(self, vs):
        zs = []
        for v in vs:
            if isinstance(v, SymBool):
                zs.append(v.z)
            elif not v:
                return False
        if not zs:
            return True
        return SymBool(z3.And(*zs))

    def compare(self, op, a, b):
        t = type(op)
        if t is ast.Is:
            return self.is_(a, b)
        if t is ast.IsNot:
            r = self.is_(a, b)
            return SymBool(z3.Not(r.z)) if isinstance(r, SymBool) else not r
        if t is ast.Eq:
            return self.eq(a, b)
        if t is ast.NotEq:
            r = self.eq(a, b)
            return SymBool(z3.Not(r.z)) if isinstance(r, SymBool) else not self.truth(r)
        if t is ast.In:
            return self.contains(b, a)
        if t is ast.NotIn:
            r = self.contains(b, a)
            return SymBool(z3.Not(r.z)) if isinstance(r, SymBool) else not r
        a, b = self.force(a), self.force(b)
        num = (int, float, SymInt, SymBool)
        if isinstance(a, num) and isinstance(b, num):
            if not isinstance(a, Val) and not isinstance(b, Val):
                return {ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b, ast.GtE: a >= b}[t]
            x, y = zi(a), zi(b)
            return SymBool({ast.Lt: x < y, ast.LtE: x <= y, ast.Gt: x > y, ast.GtE: x >= y}[t])
        if isinstance(a, tuple) and isinstance(b, tuple) and not any(isinstance(x, Val) for x in a + b):
            return {ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b, ast.GtE: a >= b}[t]
        if isinstance(a, str) and isinstance(b, str):
            return {ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b, ast.GtE: a >= b}[t]
        if isinstance(a, PyObj) and isinstance(b, PyObj) and hasattr(a, 'order') and hasattr(b, 'order'):
            x, y = a.order, b.order
            return SymBool({ast.Lt: x < y, ast.LtE: x <= y, ast.Gt: x > y, ast.GtE: x >= y}[t])
        if a is None or b is None:
            self.throw('TypeError', 'unorderable')
        raise Unsupported('comparison of %r and %r' % (a, b))

    def contains(self, c, x):
        c = self.force(c)
        if isinstance(c, (tuple, list)):
            items = list(c)
        elif isinstance(c, PyList):
            items = c.items
            if any(isinstance(i, Run) for i in items):
                if hasattr(c, 'membership'):
                    return c.membership(self, x)
                x = self.force(x)
                zs = []
                for i in items:
                    if not isinstance(i, Run):
                        r = self.eq(x, i)
                        if isinstance(r, SymBool):
                            zs.append(r.z)
                        elif r:
                            return True
                        continue
                    if not getattr(i, 'arbitrary', False) or not isinstance(x, (str, SymStr)):
                        raise Unsupported('membership in a list of unknown length')
                    m = i.member(strz(x))
                    self.add(z3.Implies(m, i.length() > 0))
                    zs.append(m)
                return SymBool(z3.Or(*zs))
        elif isinstance(c, (str, SymStr)):
            return strs.contains(self, c, self.force(x))
        elif isinstance(c, PyDict):
            return self.dict_get(c, x) is not ABSENT
        elif isinstance(c, (frozenset, set)):
            items = sorted(c, key=repr)
        elif isinstance(c, SymSeq):
            if hasattr(c, 'membership'):
                return c.membership(self, x)
            raise Unsupported('membership in a symbolic sequence')
        elif isinstance(c, PyObj):
            m = self.class_attr(c.cls, '__contains__')
            if m is not ABSENT:
                return self.call(m, [c, x], {})
            raise Unsupported('membership')
        else:
            raise Unsupported('membership in %r' % (c,))
        x = self.norm(x)
        if isinstance(x, AnyVal):
            # decide as few kinds as possible
            return any(self.truth(self.eq(x, i)) for i in items)
        if isinstance(x, (IMM, tuple)) and all(isinstance(i, IMM) for i in items) and not isinstance(x, tuple):
            return x in items
        zs = []
        for i in items:
            r = self.eq(x, i)
            if isinstance(r, SymBool):
                zs.append(r.z)
            elif r:
                return True
        if not zs:
            return False
        return SymBool(z3.Or(*zs))

    # ------------------------------------------------------------- provable sameness (couplings, postconditions)
    def map_facts(self, *vs):
        """A mapped text is empty exactly when its base is (no image is empty)."""
        for v in vs:
            if isinstance(v, SymStr):
                for p in v.parts:
                    if isinstance(p, Atom) and p.base is not None and p.key not in self.axiomized and all(p.cmap.values()):
                        self.axiomized.add(p.key)
                        self.add((p.z == z3.StringVal('')) == (p.base.z == z3.StringVal('')))

    def formula(self, a, b):
        self.map_facts(a, b)
        """A z3 formula (or bool) that implies a == b as observable values; exact unless it mentions mapped text."""
        a, b = self.norm(a), self.norm(b)
        if a is b:
            return True
        if isinstance(a, Shape):
            a, b = b, a
        if isinstance(b, Shape):
            if isinstance(a, Shape) or not isinstance(a, PyObj) or a.cls.name != b.cls:
                return False
            for k in b.attrs:
                if k not in a.attrs:        # what is kept in an object, and under which name, is its own business
                    raise Unsupported('%s objects have no attribute %s' % (b.cls, k))
            return self.zand([self.formula(a.attrs[k], v) for k, v in b.attrs.items()])
        if isinstance(a, AnyVal) or isinstance(b, AnyVal):
            if isinstance(a, AnyVal) and isinstance(b, AnyVal) and a.name == b.name:
                return True
            return False
        if isinstance(a, (str, SymStr)) and isinstance(b, (str, SymStr)):
            return strs.same(self, a, b)
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            fs = [self.formula(x, y) for x, y in zip(a, b)]
            return self.zand(fs)
        if isinstance(a, IMM) and isinstance(b, IMM):
            return type(a) is type(b) and a == b
        if isinstance(a, (int, SymInt)) and isinstance(b, (int, SymInt)) and not isinstance(a, bool) and not isinstance(b, bool):
            return zi(a) == zi(b)
        if isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)):
            za = a.z if isinstance(a, SymBool) else z3.BoolVal(a)
            zb = b.z if isinstance(b, SymBool) else z3.BoolVal(b)
            return za == zb
        if isinstance(a, PyList) and isinstance(b, PyList):
            return self.items_formula(a.items, b.items)
        if isinstance(a, Bound) and isinstance(b, Bound):
            return a.func is b.func and a.self is b.self
        return False

    def zand(self, fs):
        zs = []
        for f in fs:
            if isinstance(f, bool):
                if not f:
                    return False
            else:
                zs.append(f)
        return z3.And(*zs) if zs else True

    def items_formula(self, a, b):
        if len(a) != len(b):
            return False
        fs = []
        for x, y in zip(a, b):
            if isinstance(x, Run) or isinstance(y, Run):
                if x != y:
                    return False
            else:
                fs.append(self.formula(x, y))
        return self.zand(fs)

    def same(self, a, b):
        if a is ABSENT or b is ABSENT:
            return a is b
        if isinstance(a, Poison) or isinstance(b, Poison):
            return False
        return self.valid(self.formula(a, b))

    def same_items(self, a, b):
        f = self.items_formula(a, b)
        if isinstance(f, bool):
            return f
        return self.valid(f)

    def coupling_failed(self, rule, cell, c):
        """An iteration does something else than its specification: keep the counterexample."""
        if not self.exact:
            return
        if self.check() != z3.sat:
            return
        self.model = self.solver.model()
        rec = dict(what='%s: %s' % (rule.name, getattr(self, 'last_mismatch', '')), path='; '.join(self.path_notes[-12:]), replays=[])
        fn = self.inputs.get('replay')
        if fn is not None:
            try:
                rec['replays'] = list(fn(self))[:4]
            except Exception as e:
                rec['what'] += ' (no replay: %r)' % (e,)
        rule.info.failures.setdefault(cell, []).append(rec)

    # ------------------------------------------------------------- arithmetic and text
    def binop(self, op, a, b, inplace=False):
        t = type(op)
        a, b = self.norm(a), self.norm(b)
        if t is ast.Mod and isinstance(a, (str, SymStr)):
            return strs.format_mod(self, a, b)
        a, b = self.force(a), self.force(b)
        if t is ast.Add:
            if isinstance(a, (str, SymStr)) and isinstance(b, (str, SymStr)):
                return mkstr(parts_of(a) + parts_of(b))
            if isinstance(a, tuple) and isinstance(b, tuple):
                return a + b
            if isinstance(a, PyList) and inplace:
                for v in self.iterate(b):
                    self.list_append(a, v)
                return a
            if isinstance(a, PyList) and isinstance(b, PyList):
                return self.newlist(a.items + b.items)
            if isinstance(a, bytes) and isinstance(b, bytes):
                return a + b
        if t is ast.Mult:
            for x, y in ((a, b), (b, a)):
                if isinstance(x, str) and isinstance(y, int):
                    return x * y
                if isinstance(x, str) and isinstance(y, SymInt):
                    return strs.repeat(self, x, y)
                if isinstance(x, SymStr) and isinstance(y, int):
                    return mkstr(x.parts * y)
                if isinstance(x, PyList) and isinstance(y, int):
                    return self.newlist(x.items * y)
                if isinstance(x, tuple) and isinstance(y, int):
                    return x * y
        num = (int, float, SymInt, SymBool)
        if isinstance(a, num) and isinstance(b, num):
            if not isinstance(a, Val) and not isinstance(b, Val):
                import operator
                f = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul, ast.FloorDiv: operator.floordiv, ast.Mod: operator.mod, ast.Pow: operator.pow,
                     ast.BitAnd: operator.and_, ast.BitOr: operator.or_, ast.BitXor: operator.xor, ast.LShift: operator.lshift, ast.RShift: operator.rshift, ast.Div: operator.truediv}.get(t)
                if f is None:
                    raise Unsupported('operator')
                try:
                    return f(a, b)
                except ZeroDivisionError:
                    self.throw('ZeroDivisionError')
            x, y = zi(a), zi(b)
            if t is ast.Add:
                return SymInt(x + y)
            if t is ast.Sub:
                return SymInt(x - y)
            if t is ast.Mult:
                return SymInt(x * y)
            if t in (ast.FloorDiv, ast.Mod) and isinstance(b, int) and b > 0:
                return SymInt(x / y if t is ast.FloorDiv else x % y)
            if t is ast.BitAnd and isinstance(b, int) and b > 0 and (b & (b + 1)) == 0:
                return SymInt(x % (b + 1))
            raise Unsupported('operator %s on symbolic ints' % t.__name__)
        if isinstance(a, PyList) and isinstance(b, PyList) and a.kind == 'set' and t in (ast.BitOr, ast.Sub, ast.BitAnd):
            out = PyList(self, [], 'set')
            self.registry[out.id] = out
            for v in a.items:
                keep = True if t is ast.BitOr else self.truth(self.contains(b, v)) == (t is ast.BitAnd)
                if keep:
                    self.set_add(out, v)
            if t is ast.BitOr:
                for v in b.items:
                    self.set_add(out, v)
            return out
        if t is ast.Add and (a is None or b is None or isinstance(a, (str, SymStr)) != isinstance(b, (str, SymStr))):
            if isinstance(a, PyObj) or isinstance(b, PyObj):
                raise Unsupported('operator on objects')
            self.throw('TypeError', 'unsupported operand types')
        raise Unsupported('%s of %r and %r' % (t.__name__, a, b))

    int_text = False       # assume what the decimal text of a number looks like

    def str_(self, v):
        v = self.norm(v)
        if isinstance(v, AnyVal):
            if self.split(v, ('str',)):
                return self.str_(self.norm(v))
            if self.split(v, ('none',)):
                return 'None'
            if self.split(v, ('int', 'obj')):          # same shape: only the text matters
                return SymStr([Atom('str(%s)' % v.name)])
            v = self.force(v)
        if isinstance(v, (str, SymStr)):
            return v
        if isinstance(v, IMM):
            return str(v)
        if isinstance(v, SymInt):
            if v.z.decl().kind() == z3.Z3_OP_UNINTERPRETED and v.z.num_args() == 0:
                a = Atom('str(%s)' % v.z)
                if self.int_text:
                    self.add(z3.Implies(v.z >= 0, z3.InRe(a.z, z3.Plus(z3.Range('0', '9')))))
                return SymStr([a])
            a = Atom('str(%s)' % v.z, z3.If(v.z >= 0, z3.IntToStr(v.z), z3.Concat('-', z3.IntToStr(-v.z))))
            return SymStr([a])
        if isinstance(v, SymBool):
            return 'True' if self.truth(v) else 'False'
        if isinstance(v, PyObj):
            m = self.class_attr(v.cls, '__str__')
            if m is not ABSENT:
                return self.call(m, [v], {})
            if self.subclass(v.cls, self.builtins['BaseException']):
                args = v.attrs.get('args', ())
                if not args:
                    return ''
                if self.subclass(v.cls, self.builtins['KeyError']) and len(args) == 1:
                    return self.repr_(args[0])
                return self.str_(args[0]) if len(args) == 1 else SymStr([Atom('str(exc%d)' % v.id)])
            return SymStr([Atom('str(%s)' % (v.name or '%s#%d' % (getattr(v.cls, 'name', ''), v.id)))])
        if isinstance(v, (tuple, PyList, PyDict)):
            return self.repr_(v)
        raise Unsupported('str of %r' % (v,))

    def repr_(self, v):
        v = self.force(v)
        if isinstance(v, IMM):
            return repr(v)
        if isinstance(v, SymStr):
            key = ('repr',) + v.parts
            a = Atom('repr%r' % (v.parts,))
            self.cache.setdefault('holes', {})[a.key] = ('value', v)
            return SymStr([a])
        if isinstance(v, SymInt):
            return self.str_(v)
        if isinstance(v, tuple):
            out = ['(']
            for i, x in enumerate(v):
                if i:
                    out.append(', ')
                out.extend(parts_of(self.repr_(x)))
            out.append(',)' if len(v) == 1 else ')')
            return mkstr(out)
        if isinstance(v, PyList) and v.kind == 'list' and not any(isinstance(x, Run) for x in v.items):
            out = ['[']
            for i, x in enumerate(v.items):
                if i:
                    out.append(', ')
                out.extend(parts_of(self.repr_(x)))
            return mkstr(out + [']'])
        return SymStr([Atom('repr(%r)' % (v,))])

    def atom_len(self, a):
        if isinstance(a, str):
            return z3.IntVal(len(a))
        if a.slice is not None:
            return a.slice[2] - a.slice[1]
        return z3.Length(a.z)

    def str_len(self, s):
        if isinstance(s, str):
            return len(s)
        s = strs.expand(self, s)
        return SymInt(z3.simplify(z3.Sum([self.atom_len(p) for p in s.parts])))

    # ------------------------------------------------------------- attributes
    def getattr(self, o, name, default=ABSENT):
        o = self.norm(o)
        if isinstance(o, AnyVal):
            if name == '__html__':
                if not self.split(o, ('html',)):
                    return self.no_attr(o, name, default)
            else:
                self.force(o)
            o = self.norm(o)
        if isinstance(o, PyObj):
            if name in o.attrs:
                v = o.attrs[name]
                if v is not ABSENT:
                    if isinstance(v, Poison):
                        raise Unsupported('attribute %s after a loop' % name)
                    return v
            v = self.class_attr(o.cls, name)
            if v is not ABSENT:
                return self.bind_attr(v, o, o.cls)
            if name == '__class__':
                return o.cls
            if name == '__dict__':
                d = PyDict(self, [[k, v] for k, v in o.attrs.items() if v is not ABSENT])
                return d
            if o.lazy is not None:
                v = o.lazy(name)
                if v is not ABSENT:
                    o.attrs[name] = v
                    return v
            return self.no_attr(o, name, default)
        if isinstance(o, SuperObj):
            mro = o.self.cls.mro if isinstance(o.self, PyObj) else o.self.mro
            i = mro.index(o.cls)
            for c in mro[i + 1:]:
                if isinstance(c, PyClass) and name in c.ns:
                    return self.bind_attr(c.ns[name], o.self, c)
                if isinstance(c, HostType):
                    v = getattr(c, 'attrs', {}).get(name, ABSENT)
                    if v is not ABSENT:
                        return self.bind_attr(v, o.self, c)
            if name == '__init__':
                def init(I, a, kw):
                    if isinstance(o.self, PyObj) and a:
                        o.self.attrs['args'] = tuple(a)
                return Host('__init__', init)
            return self.no_attr(o, name, default)
        if isinstance(o, Module):
            try:
                return self.module_attr(o, name)
            except KeyError:
                return self.no_attr(o, name, default)
        if isinstance(o, PyClass):
            v = self.class_attr(o, name)
            if v is not ABSENT:
                if isinstance(v, ClassMethod):
                    return Bound(v.func, o)
                if isinstance(v, StaticMethod):
                    return v.func
                return v
            if name == '__name__':
                return o.name
            if name == '__init__':
                return Host('__init__', lambda I, a, kw: None)
            return self.no_attr(o, name, default)
        if isinstance(o, PyFunc):
            if name in o.attrs:
                return o.attrs[name]
            if name == '__name__':
                return o.name
            if name in ('__code__', '__defaults__', '__closure__', '__globals__'):
                return FuncPart(o, name)
            return self.no_attr(o, name, default)
        if isinstance(o, Bound):
            if name == '__func__':
                return o.func
            if name == '__self__':
                return o.self
            return self.getattr(o.func, name, default)
        if isinstance(o, (str, SymStr)):
            r = strs.method(self, o, name)
        else:
            from . import builtins_
            r = builtins_.method(self, o, name)
        if r is None:
            return self.no_attr(o, name, default)
        return r

    def no_attr(self, o, name, default):
        if isinstance(o, PyObj) and getattr(o.cls, 'name', '') == '<stand-in>':
            raise Unsupported('the stand-in for %s has no %s' % (o.name, name))
        if default is not ABSENT:
            return default
        self.throw('AttributeError', 'object has no attribute %r' % (name,))

    def bind_attr(self, v, o, cls):
        if isinstance(v, (PyFunc,)):
            return Bound(v, o)
        if isinstance(v, Host):
            return Bound(v, o) if v.attrs.get('method') else v
        if isinstance(v, ClassMethod):
            return Bound(v.func, o.cls if isinstance(o, PyObj) else o)
        if isinstance(v, StaticMethod):
            return v.func
        if isinstance(v, Prop):
            r = self.call(v.fget, [o], {})
            if v.cached and isinstance(o, PyObj):
                o.attrs[v.cached] = r
            return r
        return v

    def setattr(self, o, name, v):
        o = self.force(o)
        if isinstance(o, PyObj):
            c = self.class_attr(o.cls, name)
            if isinstance(c, Prop) and c.fset is not None:
                self.call(c.fset, [o, v], {})
                return
            if isinstance(c, Prop) and not c.cached:
                self.throw('AttributeError', "can't set attribute")
            o.attrs[name] = v
            self.wrote(('attr', o.id, name))
            hook = getattr(o, 'on_setattr', None)
            if hook is not None:
                hook(name, v)
            return
        if isinstance(o, PyClass):
            o.ns[name] = v
            o.attrs_written[name] = v
            return
        if isinstance(o, PyFunc) or (isinstance(o, Host) and o.settable):
            o.attrs[name] = v
            return
        if isinstance(o, Module):
            o.ns[name] = v
            return
        if o is None or isinstance(o, (str, int, SymStr, SymInt)):
            self.throw('AttributeError', 'cannot set %s' % name)
        raise Unsupported('setting an attribute of %r' % (o,))

    # ------------------------------------------------------------- items
    def getitem(self, o, i):
        o = self.force(o)
        if isinstance(o, PyDict):
            v = self.dict_get(o, i)
            if v is ABSENT:
                if o.default_factory is not None:
                    v = self.call(o.default_factory, [], {})
                    self.dict_set(o, i, v)
                    return v
                self.throw('KeyError', i)
            return v
        if isinstance(o, (str, SymStr)):
            return strs.getitem(self, o, i)
        if isinstance(o, (tuple, PyList, bytes)):
            return self.seq_getitem(o, i)
        if isinstance(o, PyObj):
            m = self.class_attr(o.cls, '__getitem__')
            if m is not ABSENT:
                return self.call(m, [o, i], {})
        if isinstance(o, SymSeq) and hasattr(o, 'getitem'):
            return o.getitem(self, i)
        if o is None:
            self.throw('TypeError', "'NoneType' object is not subscriptable")
        raise Unsupported('indexing %r' % (o,))

    def seq_getitem(self, o, i):
        items = list(o.items) if isinstance(o, PyList) else list(o)
        if isinstance(i, slice):
            lo, hi, st = [self.norm(x) for x in (i.start, i.stop, i.step)]
            if any(isinstance(x, Val) for x in (lo, hi, st)):
                raise Unsupported('symbolic slice of a list')
            if any(isinstance(x, Run) for x in items):
                if st is None and (lo is None or lo == 0) and hi is not None and hi < 0 and not any(isinstance(x, Run) for x in items[hi:]):
                    r = items[:hi]
                elif st is None and hi is None and lo is not None and lo >= 0 and not any(isinstance(x, Run) for x in items[:lo]):
                    r = items[lo:]
                elif st is None and hi is None and (lo is None):
                    r = items
                else:
                    raise Unsupported('slice of a list of unknown length')
            else:
                r = items[lo:hi:st]
            if isinstance(o, tuple):
                return tuple(r)
            if isinstance(o, bytes):
                return bytes(r)
            return self.newlist(r)
        i = self.norm(i)
        if isinstance(i, SymInt):
            if any(isinstance(x, Run) for x in items):
                raise Unsupported('symbolic index')
            for k in range(len(items)):
                if self.branch(z3.Or(i.z == k, i.z == k - len(items))):
                    return items[k]
            self.throw('IndexError', 'index out of range')
        if isinstance(i, bool):
            i = int(i)
        if not isinstance(i, int):
            self.throw('TypeError', 'indices must be integers')
        if any(isinstance(x, Run) for x in items):
            if i >= 0 and i < len(items) and not any(isinstance(x, Run) for x in items[:i + 1]):
                return items[i]
            if i < 0 and -i <= len(items) and not any(isinstance(x, Run) for x in items[i:]):
                return items[i]
            raise Unsupported('index into a list of unknown length')
        if not -len(items) <= i < len(items):
            self.throw('IndexError', 'index out of range')
        return items[i]

    def setitem(self, o, i, v):
        o = self.force(o)
        if isinstance(o, PyDict):
            self.dict_set(o, i, v)
        elif isinstance(o, PyList) and isinstance(self.norm(i), int) and not any(isinstance(x, Run) for x in o.items):
            if not -len(o.items) <= i < len(o.items):
                self.throw('IndexError', 'assignment index out of range')
            o.items[i] = v
            self.wrote(('list', o.id))
        elif isinstance(o, PyObj) and self.class_attr(o.cls, '__setitem__') is not ABSENT:
            self.call(self.class_attr(o.cls, '__setitem__'), [o, i, v], {})
        else:
            raise Unsupported('item assignment')

    def delitem(self, o, i):
        o = self.force(o)
        if isinstance(o, PyDict):
            if self.dict_get(o, i) is ABSENT:
                self.throw('KeyError', i)
            self.dict_set(o, i, ABSENT)
            return
        if isinstance(o, PyList) and isinstance(i, int):
            del o.items[i]
            self.wrote(('list', o.id))
            return
        raise Unsupported('item deletion')

    # ------------------------------------------------------------- lists, sets, dicts
    def list_append(self, l, v):
        l.items.append(v)
        if l.maxlen is not None and len(l.items) > l.maxlen:
            del l.items[0]
        self.wrote(('list', l.id))
        obs = getattr(l, 'observer_fn', None)
        if obs is not None:
            obs(self, l, v)

    def set_add(self, s, v):
        if self.truth(self.contains(s, v)):
            return
        s.items.append(v)
        self.wrote(('list', s.id))

    def key_eq(self, a, b):
        a, b = self.norm(a), self.norm(b)
        if a is b:
            return True
        if isinstance(a, (IMM, tuple)) and isinstance(b, (IMM, tuple)) and not any(isinstance(x, Val) for v in (a, b) if isinstance(v, tuple) for x in v):
            return a == b
        return self.truth(self.eq(a, b))

    def dict_get(self, d, k):
        """value or ABSENT"""
        if getattr(d, 'poisoned', False):
            raise Unsupported('dict modified by a loop')
        k = self.force(k)
        if isinstance(k, (PyList, PyDict)):
            self.throw('TypeError', 'unhashable')
        for e in d.entries:
            if self.key_eq(e[0], k):
                return e[1]
        if d.base is None:
            return ABSENT
        v = d.base(k)
        d.entries.append([k, v])
        return v

    def dict_set(self, d, k, v):
        if getattr(d, 'poisoned', False):
            raise Unsupported('dict modified by a loop')
        k = self.force(k)
        self.wrote(('dict', d.id))
        for e in d.entries:
            if self.key_eq(e[0], k):
                e[1] = v
                if v is ABSENT and d.base is None:
                    d.entries.remove(e)
                return
        if v is ABSENT and d.base is None:
            return
        d.entries.append([k, v])

    def dict_update(self, d, other):
        other = self.force(other)
        if isinstance(other, PyDict):
            if other.base is None:
                for k, v in list(other.entries):
                    if v is not ABSENT:
                        self.dict_set(d, k, v)
                return
            # symbolic mapping: overlay
            old_entries, old_base = d.entries, d.base
            hidden = PyDict(self, old_entries, old_base)
            for k, v in list(other.entries):       # already decided keys
                pass

            def base(k, other=other, hidden=hidden):
                v = self.dict_get(other, k)
                if v is not ABSENT:
                    return v
                return self.dict_get(hidden, k)
            # snapshot of the other mapping
            snap = PyDict(self, other.entries, other.base)
            d.entries = []

            def base2(k, snap=snap, hidden=hidden):
                v = self.dict_get(snap, k)
                if v is not ABSENT:
                    return v
                return self.dict_get(hidden, k)
            d.base = base2
            self.wrote(('dict', d.id))
            return
        if isinstance(other, (PyList, tuple, PyGen)):
            for kv in self.listed(other):
                k, v = self.listed(kv)
                self.dict_set(d, k, v)
            return
        raise Unsupported('dict.update')

    # ------------------------------------------------------------- iteration
    def active_gens(self):
        return self.cache.setdefault('active', [])

    def gen_next(self, g):
        """Next value of a PyGen; raises StopIteration at its end."""
        act = self.active_gens()
        act.append(g.id)
        try:
            if g.exhausted:
                raise StopIteration
            try:
                v = next(g.it)
            except StopIteration:
                g.exhausted = True
                raise
        finally:
            act.pop()
            self.wrote(('gen', g.id))
        return v

    def iterate(self, v):
        """Host iterator over the elements of a value."""
        v = self.force(v)
        if isinstance(v, tuple):
            return iter(v)
        if isinstance(v, str):
            return iter(v)
        if isinstance(v, bytes):
            return iter(v)
        if isinstance(v, PyList):
            return self.iter_list(v)
        if isinstance(v, PyGen):
            return self.iter_gen(v)
        if isinstance(v, SymSeq):
            return self.iter_symseq(v)
        if isinstance(v, PyDict):
            return self.iter_dict(v, 'keys')
        if isinstance(v, DictItems):
            return self.iter_dict(v.d, v.what)
        if isinstance(v, SymStr):
            return strs.iterate(self, v)
        if isinstance(v, PyObj):
            c = getattr(v, 'contract_iter', None)
            if c is not None and not getattr(v, 'inline_iter', False):
                return self.iter_symseq(c)
            m = self.class_attr(v.cls, '__iter__')
            if m is not ABSENT:
                return self.iterate(self.call(m, [v], {}))
            m = self.class_attr(v.cls, '__getitem__')
            if m is not ABSENT:
                raise Unsupported('old-style iteration')
            self.throw('TypeError', 'object is not iterable')
        if v is None or isinstance(v, (int, SymInt, SymBool, PyClass, PyFunc)):
            self.throw('TypeError', 'object is not iterable')
        raise Unsupported('iterating over %r' % (v,))

    def iter_list(self, l):
        i = 0
        while i < len(l.items):
            x = l.items[i]
            i += 1
            if isinstance(x, Run):
                for y in self.iter_run(x):
                    yield y
            else:
                yield x

    def iter_run(self, r):
        mk = getattr(r.seq, 'run_elem', None)
        if mk is None:
            raise Unsupported('iterating over %r' % (r,))
        s = mk(self, r)
        return self.iter_symseq(s)

    def iter_gen(self, g):
        while True:
            try:
                v = self.gen_next(g)
            except StopIteration:
                return
            yield v

    def iter_dict(self, d, what):
        if getattr(d, 'poisoned', False):
            raise Unsupported('dict modified by a loop')
        if d.base is not None:
            if not hasattr(d, 'iter_rule'):
                raise Unsupported('iterating over a symbolic dict')
            for e in d.iter_rule(self, d):
                yield e[0] if what == 'keys' else e[1] if what == 'values' else (e[0], e[1])
            return
        for e in list(d.entries):
            if e[1] is ABSENT:
                continue
            yield e[0] if what == 'keys' else e[1] if what == 'values' else (e[0], e[1])

    def iter_symseq(self, seq):
        from .interp import LoopInfo
        from .loops import LoopRule
        if seq.oneshot:
            if seq.consumed:
                return
            seq.consumed = True
        pre = self.prefix()
        site = ('seq', seq.name)
        info = self.loopinfo.setdefault((site, pre), LoopInfo())
        rule = LoopRule(self, site, info, seq, depth=len(pre))
        rule.enter()
        generic = self.choose(2, 'iteration of %s' % seq.name) == 0
        rule.havoc(generic)
        if not generic:
            self.note('after the loop over %s' % seq.name)
            return
        self.add(z3.Int('len(%s)' % seq.name) > 0)
        g_before = rule.g
        elem = seq.elem_with(self, rule.g) if hasattr(seq, 'elem_with') else seq.elem(self, '%s.elem' % seq.name)
        rule.begin()
        try:
            yield elem
        except GeneratorExit:
            rule.leave()
            raise
        rule.end(elem)
        raise Cut('iteration checked')

    # ------------------------------------------------------------- text of unknown length
    def join_atom(self, sep, run):
        key = 'join(%r,%s)' % (sep, run.key)
        return Atom(key)


class FuncPart(Val):
    def __init__(self, f, part):
        self.f, self.part = f, part
