"""Built-in functions and the library modules kajiki imports, as the verifier sees them."""
import ast as _ast
import re as _re
import z3
from .engine import Unsupported, Cut
from .values import *  # noqa
from .values import ABSENT, mkstr, parts_of, zesc
from . import strs
from .ops import DictItems, TypeOf, FuncPart

EXCEPTIONS = ['BaseException', 'Exception', 'KeyError', 'AttributeError', 'TypeError', 'ValueError', 'IndexError', 'NameError', 'UnboundLocalError', 'AssertionError', 'StopIteration', 'SyntaxError',
              'IndentationError', 'IOError', 'OSError', 'ZeroDivisionError', 'ImportError', 'RuntimeError', 'LookupError', 'NotImplementedError', 'UnicodeDecodeError', 'GeneratorExit', 'RecursionError',
              'FileNotFoundError', 'ArithmeticError', 'UnicodeError']


def reg(I, o):
    I.registry[o.id] = o
    return o


def make(I):
    import builtins
    B = {}
    for n in EXCEPTIONS:
        cls = getattr(builtins, n)

        def new(I, a, kw, n=n):
            return I.make_exc(n, *a)
        B[n] = HostType(n, cls, new)
    B['IOError'] = B['OSError']

    def t(name, host, new):
        B[name] = HostType(name, host, new)

    def nope(name):
        def f(I, a, kw):
            raise Unsupported('%s()' % name)
        return f
    t('object', object, lambda I, a, kw: reg(I, PyObj(I, B['object'])))
    t('NoneType', type(None), nope('NoneType'))
    t('bool', bool, lambda I, a, kw: I.truth(a[0]) if a else False)
    t('float', float, nope('float'))
    t('bytes', bytes, new_bytes)
    t('int', int, new_int)
    t('str', str, lambda I, a, kw: I.str_(a[0]) if a else '')
    t('tuple', tuple, lambda I, a, kw: tuple(no_runs(I, I.listed(a[0]))) if a else ())
    t('list', list, lambda I, a, kw: I.drain(a[0]) if a else I.newlist([]))
    t('set', set, new_set)
    t('frozenset', frozenset, new_set)
    t('deque', type('deque', (object,), {}), new_deque)
    t('dict', dict, new_dict)
    t('generator', type((x for x in ())), nope('generator'))
    t('type', type, new_type)
    t('function', type(make), nope('function'))
    t('slice', slice, nope('slice'))
    B['dict'].attrs = {'fromkeys': Host('fromkeys', nope('fromkeys'))}

    def h(name):
        def deco(fn):
            B[name] = Host(name, fn)
            return fn
        return deco

    @h('len')
    def len_(I, a, kw):
        v = I.force(a[0])
        if isinstance(v, (str, SymStr)):
            return I.str_len(v)
        if isinstance(v, (tuple, bytes)):
            return len(v)
        if isinstance(v, PyList):
            runs = [x for x in v.items if isinstance(x, Run)]
            n = len(v.items) - len(runs)
            if not runs:
                return n
            for r in runs:
                I.add(r.length() >= 0)
            return SymInt(z3.Sum([r.length() for r in runs]) + n)
        if isinstance(v, PyDict) and v.base is None:
            return len([1 for e in v.entries if e[1] is not ABSENT])
        if isinstance(v, SymSeq):
            return SymInt(I.seq_len(v))
        if isinstance(v, PyObj):
            m = I.class_attr(v.cls, '__len__')
            if m is not ABSENT:
                return I.call(m, [v], {})
        if v is None or isinstance(v, (int, SymInt)):
            I.throw('TypeError', 'object has no len()')
        raise Unsupported('len of %r' % (v,))

    @h('iter')
    def iter_(I, a, kw):
        v = I.force(a[0])
        if isinstance(v, PyGen):
            return v
        if isinstance(v, SymSeq) and v.oneshot:
            return v
        if isinstance(v, PyObj) and getattr(v, 'contract_iter', None) is not None and not getattr(v, 'inline_iter', False):
            return v.contract_iter
        if isinstance(v, PyObj):
            m = I.class_attr(v.cls, '__iter__')
            if m is not ABSENT:
                return I.call(m, [v], {})
        return reg(I, PyGen(I, I.iterate(v), 'iter'))

    @h('next')
    def next_(I, a, kw):
        v = I.force(a[0])
        if isinstance(v, SymSeq):
            raise Unsupported('next() of an arbitrary iterator')
        if isinstance(v, PyObj):
            m = I.class_attr(v.cls, '__next__')
            if m is ABSENT:
                I.throw('TypeError', 'object is not an iterator')
            return I.call(m, [v], {})
        if not isinstance(v, (PyGen, SymIter)):
            I.throw('TypeError', 'object is not an iterator')
        try:
            return v.next(I) if isinstance(v, SymIter) else I.gen_next(v)
        except StopIteration:
            if len(a) > 1:
                return a[1]
            I.throw('StopIteration')

    @h('isinstance')
    def isinstance_(I, a, kw):
        cls = a[1]
        if isinstance(cls, tuple):
            return any(I.isinst(a[0], c) for c in cls)
        return I.isinst(a[0], cls)

    @h('issubclass')
    def issubclass_(I, a, kw):
        return I.subclass(a[0], a[1])

    @h('hasattr')
    def hasattr_(I, a, kw):
        miss = object()
        return I.getattr(a[0], a[1], miss) is not miss

    @h('getattr')
    def getattr_(I, a, kw):
        name = I.force(a[1])
        if not isinstance(name, str):
            o = I.force(a[0])
            if isinstance(o, PyObj) and hasattr(o, 'dyn_getattr'):
                return o.dyn_getattr(I, name)
            raise Unsupported('getattr with a symbolic name')
        if len(a) > 2:
            miss = object()
            v = I.getattr(a[0], name, miss)
            return a[2] if v is miss else v
        return I.getattr(a[0], name)

    @h('setattr')
    def setattr_(I, a, kw):
        name = I.force(a[1])
        if not isinstance(name, str):
            o = I.force(a[0])
            if isinstance(o, PyObj) and hasattr(o, 'dyn_setattr'):
                return o.dyn_setattr(I, name, a[2])
            raise Unsupported('setattr with a symbolic name')
        I.setattr(a[0], name, a[2])

    @h('repr')
    def repr_(I, a, kw):
        return I.repr_(a[0])

    @h('callable')
    def callable_(I, a, kw):
        v = I.force(a[0])
        return isinstance(v, (PyFunc, Bound, Host, PyClass, HostType)) or (isinstance(v, PyObj) and I.class_attr(v.cls, '__call__') is not ABSENT)

    @h('sorted')
    def sorted_(I, a, kw):
        v = I.force(a[0])
        if hasattr(v, 'sorted_view'):
            return v.sorted_view(I, kw)
        if isinstance(v, DictItems) and v.d.base is not None:
            raise Unsupported('sorted symbolic items')
        items = no_runs(I, I.listed(v))
        items = list(items)
        keyed = [(I.call(kw['key'], [x], {}) if kw.get('key') is not None else x) for x in items]
        if len(items) <= 1:
            return I.newlist(items)
        try:
            ks = [sort_key(k) for k in keyed]
        except Unsupported:
            # tuples whose first components are concrete and all different: these decide
            if not all(isinstance(k, tuple) and k and isinstance(k[0], str) for k in keyed) or len(set(k[0] for k in keyed)) < len(keyed):
                raise
            ks = [k[0] for k in keyed]
        order = sorted(range(len(items)), key=lambda i: ks[i], reverse=bool(kw.get('reverse', False)))
        return I.newlist([items[i] for i in order])

    @h('map')
    def map_(I, a, kw):
        f = a[0]

        def gen():
            if len(a) == 2:
                for x in I.iterate(a[1]):
                    yield I.call(f, [x], {})
            else:
                for xs in zip(*[I.listed(y) for y in a[1:]]):
                    yield I.call(f, list(xs), {})
        return reg(I, PyGen(I, gen(), 'map'))

    @h('filter')
    def filter_(I, a, kw):
        def gen():
            for x in I.iterate(a[1]):
                if I.truth(x if a[0] is None else I.call(a[0], [x], {})):
                    yield x
        return reg(I, PyGen(I, gen(), 'filter'))

    @h('zip')
    def zip_(I, a, kw):
        ls = [no_runs(I, I.listed(x)) for x in a]
        return I.newlist([tuple(x) for x in zip(*ls)])

    @h('enumerate')
    def enumerate_(I, a, kw):
        start = a[1] if len(a) > 1 else kw.get('start', 0)

        def gen():
            cell = reg(I, PyObj(I, B['object'], {'i': start}))
            for x in I.iterate(a[0]):
                i = cell.attrs['i']
                I.setattr(cell, 'i', SymInt(i.z + 1) if isinstance(i, SymInt) else i + 1)
                yield (i, x)
        return reg(I, PyGen(I, gen(), 'enumerate'))

    @h('range')
    def range_(I, a, kw):
        a = [I.force(x) for x in a]
        if any(isinstance(x, Val) for x in a):
            return sym_range(I, a)
        return tuple(range(*a))

    @h('reversed')
    def reversed_(I, a, kw):
        return I.newlist(no_runs(I, I.listed(a[0]))[::-1])

    @h('sum')
    def sum_(I, a, kw):
        import ast
        tot = a[1] if len(a) > 1 else 0
        items = I.listed(a[0])
        for v in items:
            if isinstance(v, Run):
                tot = I.binop(ast.Add(), tot, SymInt(z3.Int('sum(%s)' % (v.key,))))
            else:
                tot = I.binop(ast.Add(), tot, v)
        return tot

    def minmax(name, op):
        def fn(I, a, kw):
            vals = no_runs(I, I.listed(a[0])) if len(a) == 1 else a
            vals = [I.force(v) for v in vals]
            if not vals:
                I.throw('ValueError', 'empty sequence')
            r = vals[0]
            for v in vals[1:]:
                if isinstance(r, (int, SymInt)) and isinstance(v, (int, SymInt)):
                    if isinstance(r, int) and isinstance(v, int):
                        r = max(r, v) if op > 0 else min(r, v)
                    else:
                        x, y = (r.z if isinstance(r, SymInt) else z3.IntVal(r)), (v.z if isinstance(v, SymInt) else z3.IntVal(v))
                        r = SymInt(z3.If((x >= y) if op > 0 else (x <= y), x, y))
                else:
                    raise Unsupported(name)
            return r
        B[name] = Host(name, fn)
    minmax('max', 1)
    minmax('min', -1)

    @h('any')
    def any_(I, a, kw):
        for x in I.iterate(a[0]):
            if I.truth(x):
                return True
        return False

    @h('all')
    def all_(I, a, kw):
        for x in I.iterate(a[0]):
            if not I.truth(x):
                return False
        return True

    @h('print')
    def print_(I, a, kw):
        return None

    @h('abs')
    def abs_(I, a, kw):
        v = I.force(a[0])
        if isinstance(v, SymInt):
            return SymInt(z3.If(v.z >= 0, v.z, -v.z))
        return abs(v)

    @h('ord')
    def ord_(I, a, kw):
        v = I.force(a[0])
        if isinstance(v, str):
            return ord(v)
        raise Unsupported('ord')

    @h('chr')
    def chr_(I, a, kw):
        v = I.force(a[0])
        if isinstance(v, int):
            return chr(v)
        raise Unsupported('chr')

    @h('id')
    def id_(I, a, kw):
        raise Unsupported('id')

    @h('vars')
    def vars_(I, a, kw):
        raise Unsupported('vars')

    @h('property')
    def property_(I, a, kw):
        p = Prop(a[0], a[1] if len(a) > 1 else None)
        return p
    B['classmethod'] = Host('classmethod', lambda I, a, kw: ClassMethod(a[0]))
    B['staticmethod'] = Host('staticmethod', lambda I, a, kw: StaticMethod(a[0]))

    @h('super')
    def super_(I, a, kw):
        if len(a) == 2:
            return SuperObj(a[0], a[1])
        fr = a[0]
        cls = getattr(fr.func, 'owner', None)
        first = fr.func.node.args.args[0].arg
        return SuperObj(cls, fr.locals[first])

    @h('locals')
    def locals_(I, a, kw):
        fr = a[0]
        return reg(I, PyDict(I, [[k, v] for k, v in fr.locals.items() if v is not ABSENT]))

    @h('globals')
    def globals_(I, a, kw):
        g = a[0].globals
        if isinstance(g, PyDict):
            return g
        return reg(I, PyDict(I, [[k, v] for k, v in g.items()]))

    @h('dir')
    def dir_(I, a, kw):
        v = a[0]
        if isinstance(v, PyClass):
            names = set()
            for c in v.mro:
                if isinstance(c, PyClass):
                    names.update(c.ns)
            return I.newlist(sorted(names))
        raise Unsupported('dir')

    @h('compile')
    def compile_(I, a, kw):
        hook = I.inputs.get('compile')
        if hook is not None:
            return hook(I, a, kw)
        if len(a) > 2 and a[2] == 'eval':
            return compile_expr(I, I.force(a[0]))
        raise Unsupported('compile')

    @h('exec')
    def exec_(I, a, kw):
        hook = I.inputs.get('exec')
        if hook is None:
            raise Unsupported('exec')
        return hook(I, a, kw)

    @h('__import__')
    def import_(I, a, kw):
        return I.module(a[0])
    B['True'], B['False'], B['None'] = True, False, None
    B['NotImplemented'] = Host('NotImplemented', nope('NotImplemented'))
    B['__builtins__'] = Module('builtins', {})
    B['open'] = Host('open', nope('open'))
    return B


def compile_expr(I, rope):
    """Contract of compile(text, name, 'eval').

    Valid expressions compile.  Text that starts with a valid expression followed by a
    closing brace raises SyntaxError at that brace (1-based column, Python's own lines);
    any other text raises SyntaxError somewhere else.  Atoms are valid expressions on one line."""
    I.assumed.add('compile(text, name, "eval") reports an unmatched } at its own line and column (PyPy and CPython 3.8+)')
    text, spans = '', []
    for p in parts_of(rope):
        if isinstance(p, str):
            spans.append((len(text), len(text) + len(p), p))
            text += p
        else:
            spans.append((len(text), len(text) + 7, p))
            text += '_h_%03d_' % len(spans)

    def valid(t):
        try:
            _ast.parse(t.strip(' \t'), mode='eval')
            return True
        except (SyntaxError, ValueError):
            return False
    if valid(text):
        return PyObj(I, I.opaque_class('stand-in'), name='code')
    k = -1
    while True:
        k = text.find('}', k + 1)
        if k < 0 or valid(text[:k]):
            break
    exc = I.make_exc('SyntaxError', 'invalid syntax')
    if k < 0:
        if any(not isinstance(p, str) for _, _, p in spans):
            raise Unsupported('location of a syntax error in symbolic text')
        try:
            _ast.parse(text, mode='eval')
        except SyntaxError as e:
            exc.attrs.update(lineno=e.lineno, offset=e.offset)
        raise PyExc(exc)
    line, col = 1, z3.IntVal(0)
    for lo, hi, p in spans:
        if lo > k:
            break
        if not isinstance(p, str):
            col = col + I.atom_len(p)
            continue
        q = p[:k + 1 - lo]
        ls = _re.findall(r'[^\r\n]*(?:\r\n?|\n)', q)
        if ls:
            line += len(ls)
            col = z3.IntVal(0)
            q = q[sum(map(len, ls)):]
        col = col + len(q)
    exc.attrs.update(lineno=line, offset=plus(col, 0))
    raise PyExc(exc)


def sort_key(k):
    if isinstance(k, tuple):
        return tuple(sort_key(x) for x in k)
    if isinstance(k, (str, int)):
        return k
    raise Unsupported('sorting symbolic values')


def sym_range(I, a):
    if len(a) == 1:
        lo, hi, st = 0, a[0], 1
    else:
        lo, hi, st = a[0], a[1], (a[2] if len(a) > 2 else 1)
    if not isinstance(st, int) or st <= 0:
        raise Unsupported('range step')
    zlo = lo.z if isinstance(lo, SymInt) else z3.IntVal(lo)
    zhi = hi.z if isinstance(hi, SymInt) else z3.IntVal(hi)
    n = I.fresh('range')

    class RangeSpec(Spec):
        streams = ()

        def init(self, E):
            return {'i': SymInt(zlo)}

        def arb(self, E):
            z = z3.Int(E.fresh('%s.i' % n))
            k = z3.Int(E.fresh('%s.k' % n))
            E.add(z3.And(k >= 0, z == zlo + st * k))
            E.add(z3.Or(k == 0, z - st < zhi))
            return {'i': SymInt(z)}

        def final(self, E, g):
            E.add(g['i'].z >= zhi)
            return g

        def step(self, E, g, elem):
            return {'i': SymInt(g['i'].z + st)}, {}
    s = SymSeq(I, n, None, RangeSpec())

    def elem_with(E, g):
        E.assume(g['i'].z < zhi)
        return SymInt(g['i'].z)
    s.elem_with = elem_with
    return s


def no_runs(I, items):
    if any(isinstance(x, Run) for x in items):
        raise Unsupported('sequence of unknown length')
    return list(items)


def new_int(I, a, kw):
    v = I.force(a[0]) if a else 0
    if isinstance(v, SymInt):
        if z3.is_real(v.z):  # towards zero
            return SymInt(z3.If(v.z >= 0, z3.ToInt(v.z), -z3.ToInt(-v.z)))
        return v
    if isinstance(v, SymBool):
        return SymInt(z3.If(v.z, 1, 0))
    if isinstance(v, (int, float, str)):
        try:
            return int(v)
        except ValueError as e:
            I.throw('ValueError', str(e))
    if isinstance(v, PyObj) and hasattr(v, 'to_int'):
        return v.to_int(I)
    raise Unsupported('int()')


def new_bytes(I, a, kw):
    if not a:
        return b''
    v = I.force(a[0])
    if isinstance(v, (tuple, PyList)):
        items = no_runs(I, I.listed(v))
        if all(isinstance(x, int) for x in items):
            return bytes(items)
        return reg(I, PyList(I, items, 'bytes'))
    raise Unsupported('bytes()')


def new_set(I, a, kw):
    s = reg(I, PyList(I, [], 'set'))
    if a:
        v = I.force(a[0])
        items = I.listed(v)
        if all(isinstance(x, str) for x in items):
            for x in items:
                if x not in s.items:
                    s.items.append(x)
        else:
            for x in items:
                I.set_add(s, x)
    return s


def new_deque(I, a, kw):
    m = kw.get('maxlen', a[1] if len(a) > 1 else None)
    d = reg(I, PyList(I, [], 'deque', maxlen=m))
    if a:
        for v in I.iterate(a[0]):
            I.list_append(d, v)
    return d


def new_dict(I, a, kw):
    d = reg(I, PyDict(I))
    if a:
        I.dict_update(d, a[0])
    for k, v in kw.items():
        I.dict_set(d, k, v)
    return d


def new_type(I, a, kw):
    if len(a) == 1:
        return I.typeof(a[0])
    name, bases, ns = a
    c = PyClass(name if isinstance(name, str) else 'template', list(bases), {k: v for k, v in ns.entries if v is not ABSENT})
    c.qualname = None
    return c


# ------------------------------------------------------------------ methods
def method(I, o, name):
    def host(fn):
        return Host(name, fn)
    if isinstance(o, PyList):
        return list_method(I, o, name, host)
    if isinstance(o, PyDict):
        return dict_method(I, o, name, host)
    if isinstance(o, tuple):
        if name == 'index':
            return host(lambda I, a, kw: o.index(a[0]))
        if name == 'count':
            return host(lambda I, a, kw: o.count(a[0]))
        return None
    if isinstance(o, bytes):
        if name == 'join':
            return host(lambda I, a, kw: bytes_join(I, o, a[0]))
        if name in ('decode', 'startswith', 'endswith'):
            return host(lambda I, a, kw: getattr(o, name)(*a))
        return None
    if isinstance(o, Regex):
        return regex_method(I, o, name, host)
    if isinstance(o, Match):
        return match_method(I, o, name, host)
    if isinstance(o, PyGen):
        if name == '__iter__':
            return host(lambda I, a, kw: o)
        if name in ('next', '__next__'):
            return host(lambda I, a, kw: I.call(I.builtins['next'], [o], {}))
        if name == 'close':
            return host(lambda I, a, kw: None)
        return None
    if isinstance(o, SymSeq):
        m = getattr(o, 'methods', {}).get(name)
        if m is not None:
            return host(m)
        if name == '__iter__':
            return host(lambda I, a, kw: o)
        return None
    if isinstance(o, HostType):
        v = getattr(o, 'attrs', {}).get(name, ABSENT)
        if v is not ABSENT:
            return v
        if name == '__name__':
            return o.name
        if name == '__init__':
            def init(I, a, kw):
                if a and isinstance(a[0], PyObj) and len(a) > 1:
                    a[0].attrs['args'] = tuple(a[1:])
            return host(init)
        if o.host in (str, dict, list) and name not in ('__html__', 'exposed', '__func__'):
            return host(lambda I, a, kw: I.call(I.getattr(a[0], name), a[1:], kw))
        return None
    if isinstance(o, Host):
        if name in o.attrs:
            return o.attrs[name]
        if name == '__name__':
            return o.name
        return None
    if isinstance(o, DictItems):
        return None
    if o is None or isinstance(o, (bool, int, float, SymInt, SymBool)):
        return None
    if isinstance(o, TypeOf):
        v = I.force(o.v)
        return I.getattr(I.typeof(v), name)
    if isinstance(o, (FuncPart, Prop)):
        return None
    raise Unsupported('attribute %s of %r' % (name, o))


def list_method(I, o, name, host):
    def wrote():
        I.wrote(('list', o.id))

    def append(I, a, kw):
        I.list_append(o, a[0])

    def extend(I, a, kw):
        for v in I.iterate(a[0]):
            I.list_append(o, v)

    def pop(I, a, kw):
        i = I.force(a[0]) if a else -1
        if not isinstance(i, int) or isinstance(i, bool):
            raise Unsupported('pop of a symbolic index')
        if not o.items:
            I.throw('IndexError', 'pop from empty list')
        if any(isinstance(x, Run) for x in o.items):
            k = o.items[i] if -len(o.items) <= i < len(o.items) else None
            side = o.items[i:] if i < 0 else o.items[:i + 1]
            if k is None or any(isinstance(x, Run) for x in side):
                h = getattr(o, 'pop_run', None)
                if h is not None:
                    return h(I, i)
                raise Unsupported('pop from a list of unknown length')
        elif not -len(o.items) <= i < len(o.items):
            I.throw('IndexError', 'pop index out of range')
        v = o.items.pop(i)
        wrote()
        return v

    def insert(I, a, kw):
        i = I.force(a[0])
        if not isinstance(i, int):
            raise Unsupported('insert at a symbolic index')
        if any(isinstance(x, Run) for x in o.items) and i not in (0, -1):
            raise Unsupported('insert into a list of unknown length')
        if i == -1 and o.items and isinstance(o.items[-1], Run):
            raise Unsupported('insert into a list of unknown length')
        o.items.insert(i, a[1])
        wrote()

    def remove(I, a, kw):
        for k, x in enumerate(no_runs(I, o.items)):
            if I.truth(I.eq(x, a[0])):
                del o.items[k]
                wrote()
                return
        I.throw('ValueError', 'not in list')

    def discard(I, a, kw):
        for k, x in enumerate(no_runs(I, o.items)):
            if I.truth(I.eq(x, a[0])):
                del o.items[k]
                wrote()
                return

    def index(I, a, kw):
        for k, x in enumerate(no_runs(I, o.items)):
            if I.truth(I.eq(x, a[0])):
                return k
        I.throw('ValueError', 'not in list')

    def copy(I, a, kw):
        return reg(I, PyList(I, o.items, o.kind))

    def clear(I, a, kw):
        o.items = []
        wrote()

    def sort(I, a, kw):
        r = I.call(I.builtins['sorted'], [o], kw)
        o.items = list(r.items)
        wrote()

    def reverse(I, a, kw):
        o.items = no_runs(I, o.items)[::-1]
        wrote()

    def update(I, a, kw):
        for x in I.listed(a[0]):
            I.set_add(o, x)

    def popleft(I, a, kw):
        return pop(I, [0], {})

    def appendleft(I, a, kw):
        return insert(I, [0, a[0]], {})

    def union(I, a, kw):
        import ast
        return I.binop(ast.BitOr(), o, a[0])
    m = dict(append=append, extend=extend, pop=pop, insert=insert, remove=remove, index=index, copy=copy, clear=clear, sort=sort, reverse=reverse)
    if o.kind == 'set':
        m = dict(add=lambda I, a, kw: I.set_add(o, a[0]), discard=discard, remove=remove, copy=copy, clear=clear, update=update, union=union)
    if o.kind == 'deque':
        m.update(popleft=popleft, appendleft=appendleft)
    if name == 'count' and o.kind != 'set':
        return host(lambda I, a, kw: len([1 for x in no_runs(I, o.items) if I.truth(I.eq(x, a[0]))]))
    if o.kind == 'bytes':
        return None
    return host(m[name]) if name in m else None


def bytes_join(I, sep, it):
    items = I.listed(it)
    out = []
    if sep != b'':
        raise Unsupported('bytes join')
    for x in items:
        if isinstance(x, Run):
            out.append(x)
        elif isinstance(x, bytes):
            out.extend(x)
        elif isinstance(x, PyList) and x.kind == 'bytes':
            out.extend(x.items)
        else:
            I.throw('TypeError', 'sequence item: expected bytes')
    if all(isinstance(x, int) for x in out):
        return bytes(out)
    return reg(I, PyList(I, out, 'bytes'))


def dict_method(I, o, name, host):
    def get(I, a, kw):
        v = I.dict_get(o, a[0])
        return (a[1] if len(a) > 1 else None) if v is ABSENT else v

    def pop(I, a, kw):
        v = I.dict_get(o, a[0])
        if v is ABSENT:
            if len(a) > 1:
                return a[1]
            I.throw('KeyError', a[0])
        I.dict_set(o, a[0], ABSENT)
        return v

    def setdefault(I, a, kw):
        v = I.dict_get(o, a[0])
        if v is ABSENT:
            v = a[1] if len(a) > 1 else None
            I.dict_set(o, a[0], v)
        return v

    def update(I, a, kw):
        for x in a:
            I.dict_update(o, x)
        for k, v in kw.items():
            I.dict_set(o, k, v)

    def copy(I, a, kw):
        d = PyDict(I, o.entries, o.base, o.default_factory)
        return reg(I, d)

    def clear(I, a, kw):
        o.entries, o.base = [], None
        I.wrote(('dict', o.id))
    m = dict(get=get, pop=pop, setdefault=setdefault, update=update, copy=copy, clear=clear,
             items=lambda I, a, kw: DictItems(o, 'items'), keys=lambda I, a, kw: DictItems(o, 'keys'), values=lambda I, a, kw: DictItems(o, 'values'),
             has_key=None)
    if name == '__contains__':
        return host(lambda I, a, kw: I.contains(o, a[0]))
    if name == '__getitem__':
        return host(lambda I, a, kw: I.getitem(o, a[0]))
    return host(m[name]) if m.get(name) else None


# ------------------------------------------------------------------ regular expressions
def single_chars(pattern, flags):
    """The set of characters of a pattern that matches exactly one of some characters, else None."""
    try:
        from re import _parser as sp
        p = sp.parse(pattern, flags)
    except Exception:
        return None
    out = set()

    def walk(items):
        for op, av in items:
            op = str(op)
            if op == 'LITERAL':
                out.add(chr(av))
            elif op == 'RANGE':
                if av[1] - av[0] > 40:
                    return False
                out.update(chr(c) for c in range(av[0], av[1] + 1))
            else:
                return False
        return True
    items = list(p)
    if len(items) != 1:
        return None
    op, av = str(items[0][0]), items[0][1]
    if op == 'LITERAL':
        return {chr(av)}
    if op == 'IN':
        return out if walk(av) else None
    if op == 'BRANCH':
        for br in av[1]:
            br = list(br)
            if len(br) != 1 or not walk(br):
                return None
        return out
    if op == 'SUBPATTERN':
        return None
    return None


def first_chars(pattern, flags):
    """The characters a match can start with, for patterns that never match the empty text; else None."""
    try:
        from re import _parser as sp
        p = sp.parse(pattern, flags)
    except Exception:
        return None

    def first(items):
        out = set()
        for op, av in items:
            op = str(op)
            if op == 'LITERAL':
                return out | {chr(av)}
            if op == 'IN':
                cs = set()
                for o2, v in av:
                    if str(o2) == 'LITERAL':
                        cs.add(chr(v))
                    elif str(o2) == 'RANGE' and v[1] - v[0] < 100:
                        cs.update(chr(c) for c in range(v[0], v[1] + 1))
                    else:
                        return None
                return out | cs
            if op == 'SUBPATTERN':
                r = first(av[-1])
                if r is None:
                    return None
                out |= r
                if av[-1].getwidth()[0] > 0:
                    return out
                continue
            if op == 'BRANCH':
                for br in av[1]:
                    r = first(br)
                    if r is None or br.getwidth()[0] == 0:
                        return None
                    out |= r
                return out
            if op in ('MAX_REPEAT', 'MIN_REPEAT'):
                r = first(av[2])
                if r is None:
                    return None
                out |= r
                if av[0] > 0 and av[2].getwidth()[0] > 0:
                    return out
                continue
            return None
        return None
    if p.getwidth()[0] == 0:
        return None
    r = first(p)
    if r is not None and p.state.flags & 2:
        r = r | set(c.lower() for c in r) | set(c.upper() for c in r)
    return r


NEXT = [chr(c) for c in range(1, 128)] + ['\xe9', '\u0661', '\u2028', '\U0001f600', '\xa0', '\u0131', '\u017f']


def rope_matches(I, rx, s):
    """All matches of a regex in a rope: they start at known characters of the constant parts.

    Requires that no atom contains a character a match can start with and that the end
    of every match is decided before the next atom begins."""
    fc = first_chars(rx.pattern, rx.flags)
    if fc is None:
        raise Unsupported('regex on symbolic text')
    out = []
    acc = z3.IntVal(0)
    ps = list(s.parts)
    for k, p in enumerate(ps):
        if not isinstance(p, str) and ('opaque', p.key) in I.cache:
            # an expression in braces, which may hold anything: also text that looks like a match
            names = sorted(rx.groupindex)
            j = I.choose(2 + len(names), 'a match inside %s' % p.key)
            if j:
                i, w = z3.Int('at(%s)' % p.key), z3.Int('width(%s)' % p.key)
                I.add(z3.And(i >= 0, w > 0, i + w <= I.atom_len(p)))
                g = {n: None for n in names}
                if j > 1:
                    g[names[j - 2]] = SymStr([Atom('group(%s)' % p.key)])
                out.append(Match(SymInt(acc + i), SymInt(acc + i + w), g, SymStr([Atom('match(%s)' % p.key)]), None))
        elif not isinstance(p, str):
            for c in sorted(fc):
                f = to_z(strs.contains(I, SymStr([p]), c))
                if not I.valid(z3.Not(f)):
                    raise Unsupported('regex on a text that may contain %r' % c)
        else:
            pos = 0
            while True:
                m = rx.search(p, pos)
                open_ = k + 1 < len(ps)
                if open_:
                    # the first place where a match might start must be decided
                    tails = [rx.search(p + c, pos) for c in NEXT]
                    spans = set(None if t is None or t.start() >= len(p) else (t.span(), t.groups()) for t in tails)
                    if len(spans) > 1:
                        raise Unsupported('regex match that depends on symbolic text')
                    if m is not None and spans != {(m.span(), m.groups())} or m is None and spans != {None}:
                        raise Unsupported('regex match that depends on symbolic text')
                if m is None:
                    break
                r = host_match(m)
                r.start = plus(acc, m.start())
                r.end = plus(acc, m.end())
                out.append(r)
                pos = m.end()
        acc = z3.simplify(acc + I.atom_len(p))
    return out


def sub_images(I, rx, rep, s):
    """re.sub where every match in a mapped atom is exactly the image of one character.

    Holds when the characters a match can start with are all mapped, each image is one
    match or holds none, whatever follows it, and images and text do not combine."""
    fc = first_chars(rx.pattern, rx.flags)
    if fc is None:
        raise Unsupported('re.sub on symbolic text')

    def one(t):
        v = I.force(I.call(rep, [host_match(t)], {}))
        if not isinstance(v, str):
            raise Unsupported('re.sub with a symbolic replacement')
        return v
    out = []
    ps = list(s.parts)
    for k, p in enumerate(ps):
        if isinstance(p, str):
            if any(c in p for c in fc):
                if k + 1 < len(ps) and any((rx.search(p + c) or rx.search(c)) is not None and [m.span() for m in rx.finditer(p + c)] != [m.span() for m in rx.finditer(p)] for c in NEXT):
                    raise Unsupported('re.sub match that depends on symbolic text')
                out += list(parts_of(rx_sub_const(I, rx, one, p)))
            else:
                out.append(p)
            continue
        b, m = strs.base_map(p)
        m2 = {}
        for c in sorted(fc):
            if c not in m:
                f = to_z(strs.contains(I, SymStr([b]), c))
                if not I.valid(z3.Not(f)):
                    raise Unsupported('re.sub on a text that may contain %r' % c)
        for c, img in m.items():
            if not any(x in img for x in fc):
                m2[c] = img
                continue
            for x in [''] + NEXT:
                t = rx.match(img + x)
                if t is None or t.end() != len(img):
                    raise Unsupported('re.sub match that depends on symbolic text')
            m2[c] = one(rx.match(img))
        m2 = {c: v for c, v in m2.items() if v != c}
        out.append(strs.mapped(b, m2) if m2 else b)
    return mkstr(out)


def rx_sub_const(I, rx, one, s):
    out, pos = '', 0
    for m in rx.finditer(s):
        out += s[pos:m.start()] + one(m)
        pos = m.end()
    return out + s[pos:]


def plus(z, n):
    r = z3.simplify(z + n)
    return r.as_long() if z3.is_int_value(r) else SymInt(r)


def regex_method(I, o, name, host):
    def concrete(a):
        return all(isinstance(x, (str, int)) for x in a)

    def search(I, a, kw):
        s = I.force(a[0])
        if isinstance(s, str) and concrete(a[1:]):
            m = getattr(o.host, name)(s, *a[1:])
            return None if m is None else host_match(m)
        hook = I.inputs.get('regex')
        if hook is not None:
            r = hook(I, o, name, s, a[1:])
            if r is not NotImplemented:
                return r
        if name == 'search' and isinstance(s, SymStr):
            cs = single_chars(o.host.pattern, o.host.flags)
            if cs is not None:
                f = z3.Or(*[b for b in (to_z(strs.contains(I, s, c)) for c in sorted(cs))])
                if I.branch(f):
                    return OpaqueMatch(I)
                return None
        if name in ('search', 'match') and isinstance(s, SymStr) and len(a) <= 2:
            from . import rx
            m = rx.match(I, o.host, name, s, I.norm(a[1]) if len(a) > 1 else 0)
            return m if m is None or isinstance(m, Match) else host_match(m)
        raise Unsupported('regex %s on symbolic text' % name)

    def finditer(I, a, kw):
        s = I.force(a[0])
        if isinstance(s, str) and concrete(a[1:]):
            return reg(I, PyGen(I, iter([host_match(m) for m in o.host.finditer(s, *a[1:])]), 'finditer'))
        hook = I.inputs.get('regex')
        if hook is not None:
            r = hook(I, o, 'finditer', s, a[1:])
            if r is not NotImplemented:
                return r
        if isinstance(s, SymStr) and len(a) == 1:
            return reg(I, PyGen(I, iter(rope_matches(I, o.host, s)), 'finditer'))
        raise Unsupported('finditer on symbolic text')

    def sub(I, a, kw):
        s = I.force(a[1])
        rep = I.force(a[0])
        if isinstance(s, str) and isinstance(rep, str):
            return o.host.sub(rep, s)
        if isinstance(s, str) and not isinstance(rep, SymStr):
            out, pos = [], 0
            for m in o.host.finditer(s):
                v = I.force(I.call(rep, [host_match(m)], {}))
                if not isinstance(v, (str, SymStr)):
                    raise Unsupported('re.sub replacement')
                out += [s[pos:m.start()]] + list(parts_of(v))
                pos = m.end()
            return mkstr(out + [s[pos:]])
        cs = single_chars(o.host.pattern, o.host.flags)
        if cs is not None and isinstance(s, SymStr):
            m = {}
            for c in sorted(cs):
                if isinstance(rep, str):
                    if '\\' in rep:
                        raise Unsupported('template in re.sub')
                    m[c] = rep
                else:
                    m[c] = I.call(rep, [host_match(o.host.search(c))], {})
                if not isinstance(m[c], str):
                    raise Unsupported('re.sub with a symbolic replacement')
            out = []
            for p in s.parts:
                if isinstance(p, str):
                    out.append(''.join(m.get(c, c) for c in p))
                else:
                    b, cm = strs.base_map(p)
                    m2 = {c: ''.join(m.get(d, d) for d in v) for c, v in cm.items()}
                    for c, v in m.items():
                        m2.setdefault(c, v)
                    out.append(strs.mapped(b, m2))
            return mkstr(out)
        if isinstance(s, SymStr) and not isinstance(rep, (str, SymStr)):
            return sub_images(I, o.host, rep, s)
        raise Unsupported('re.sub on symbolic text')
    if name in ('search', 'match', 'fullmatch'):
        return host(search)
    if name == 'finditer':
        return host(finditer)
    if name == 'sub':
        return host(sub)
    if name in ('findall', 'split'):
        def f(I, a, kw):
            s = I.force(a[0])
            if isinstance(s, str):
                r = getattr(o.host, name)(s)
                return I.newlist(r)
            hook = I.inputs.get('regex')
            if hook is not None:
                r = hook(I, o, name, s, a[1:])
                if r is not NotImplemented:
                    return r
            raise Unsupported('regex %s on symbolic text' % name)
        return host(f)
    if name == 'pattern':
        return o.host.pattern
    return None


def to_z(b):
    return b.z if isinstance(b, SymBool) else z3.BoolVal(bool(b))


class OpaqueMatch(Match):
    def __init__(self, I):
        Match.__init__(self, None, None, None, None, None)


def host_match(m):
    r = Match(m.start(), m.end(), m.groupdict(), m.group(), None)
    r.host = m
    return r


def match_method(I, o, name, host):
    def need(v):
        if v is None and o.groups is None:
            raise Unsupported('details of a match in symbolic text')
        return v
    if name == 'start':
        return host(lambda I, a, kw: need(o.start) if not a or a[0] == 0 else o.host.start(*a))
    if name == 'end':
        return host(lambda I, a, kw: need(o.end) if not a or a[0] == 0 else o.host.end(*a))
    if name == 'groupdict':
        def gd(I, a, kw):
            need(o.groups)
            return reg(I, PyDict(I, [[k, v] for k, v in o.groups.items()]))
        return host(gd)
    if name == 'group':
        def group(I, a, kw):
            if not a or a[0] == 0:
                return need(o.text)
            if getattr(o, 'host', None) is not None:
                return o.host.group(*a)
            return need(o.groups)[a[0]]
        return host(group)
    if name == 'groups':
        return host(lambda I, a, kw: o.host.groups())
    if name == 'span':
        return host(lambda I, a, kw: (o.start, o.end))
    if name == 'lastgroup':
        return o.lastgroup if getattr(o, 'host', None) is None else o.host.lastgroup
    return None


# ------------------------------------------------------------------ library modules
def nope(name):
    def f(I, a, kw):
        raise Unsupported(name)
    return Host(name, f)


def library(I, name):
    B = I.builtins
    m = Module(name)
    ns = m.ns
    if name in ('nine', 'nine.decorator'):
        ident = Host('nine', lambda I, a, kw: a[0])

        def reify(I, a, kw):
            return Prop(a[0], None, cached=a[0].name)
        ns.update(IS_PYTHON2=False, basestring=B['str'], str=B['str'], nine=ident, native_str=B['str'], range=B['range'],
                  iteritems=Host('iteritems', lambda I, a, kw: I.call_method(a[0], 'items')),
                  itervalues=Host('itervalues', lambda I, a, kw: I.call_method(a[0], 'values')),
                  iterkeys=Host('iterkeys', lambda I, a, kw: I.call_method(a[0], 'keys')),
                  reify=Host('reify', reify))
        return m
    if name == 're':
        def compile_(I, a, kw):
            if isinstance(a[0], Regex):
                return a[0]
            if not isinstance(a[0], str):
                raise Unsupported('symbolic pattern')
            return Regex(_re.compile(a[0], *[int(x) for x in a[1:]], **{k: int(v) for k, v in kw.items()}))

        def short(fname):
            def f(I, a, kw):
                rx = compile_(I, [a[0]] + ([kw['flags']] if 'flags' in kw else []), {})
                return I.call(I.getattr(rx, fname), a[1:], {})
            return Host('re.' + fname, f)
        ns.update(compile=Host('re.compile', compile_), escape=Host('re.escape', lambda I, a, kw: _re.escape(a[0])))
        for f in ('search', 'match', 'sub', 'findall', 'finditer', 'split', 'fullmatch'):
            ns[f] = short(f)
        for f in ('VERBOSE', 'IGNORECASE', 'MULTILINE', 'DOTALL', 'I', 'M', 'X', 'S', 'UNICODE', 'U', 'ASCII'):
            ns[f] = int(getattr(_re, f))
        return m
    if name == 'types':
        ns['FunctionType'] = HostType('function', type(library), function_type)
        ns['CodeType'] = HostType('code', type(library.__code__), code_type)
        ns['MethodType'] = nope('MethodType')
        ns['GeneratorType'] = B['generator']
        return m
    if name == 'sys':
        ns.update(version_info=(3, 9, 0), stderr=None, maxunicode=0x10ffff)
        return m
    if name == 'collections':
        ns['deque'] = B['deque']

        def dd(I, a, kw):
            return reg(I, PyDict(I, default_factory=a[0] if a else None))
        ns['defaultdict'] = HostType('defaultdict', dict, dd)
        ns['OrderedDict'] = HostType('OrderedDict', dict, new_dict)
        return m
    if name == 'itertools':
        def chain(I, a, kw):
            def gen():
                for x in a:
                    for y in I.iterate(x):
                        yield y
            return reg(I, PyGen(I, gen(), 'chain'))
        ns['chain'] = Host('chain', chain, attrs={'from_iterable': Host('from_iterable', lambda I, a, kw: chain(I, I.listed(a[0]), {}))})

        def islice(I, a, kw):
            args = [I.norm(x) for x in a[1:]]

            def gen():
                import itertools
                for y in itertools.islice(I.iterate(a[0]), *args):
                    yield y
            return reg(I, PyGen(I, gen(), 'islice'))
        ns['islice'] = Host('islice', islice)

        def tee(I, a, kw):
            items = I.drain(a[0])
            return tuple(reg(I, PyGen(I, I.iter_list(items), 'tee')) for _ in range(2))
        ns['tee'] = Host('tee', tee)
        return m
    if name == 'random':
        def randint(I, a, kw):
            z = z3.Int(I.fresh('randint'))
            lo, hi = [x.z if isinstance(x, SymInt) else z3.IntVal(x) for x in (I.force(a[0]), I.force(a[1]))]
            I.add(z3.And(z >= lo, z <= hi))
            return SymInt(z)
        ns['randint'] = Host('randint', randint)
        return m
    if name == 'threading':
        c = PyClass('local', [B['object']], {})
        c.qualname = None
        ns['local'] = c
        ns['Lock'] = nope('Lock')
        ns['RLock'] = nope('RLock')
        return m
    if name == 'functools':
        def update_wrapper(I, a, kw):
            f = a[0]
            if isinstance(f, PyFunc) and isinstance(a[1], PyFunc):
                f.attrs.update(a[1].attrs)
                f.attrs['__name__'] = a[1].name
                f.attrs['__wrapped__'] = a[1]
            return f
        ns['update_wrapper'] = Host('update_wrapper', update_wrapper)
        ns['wraps'] = Host('wraps', lambda I, a, kw: Host('wraps', lambda I, b, kw2: update_wrapper(I, [b[0], a[0]], {})))

        def partial(I, a, kw):
            return Host('partial', lambda I, b, kw2: I.call(a[0], list(a[1:]) + list(b), dict(kw, **kw2)))
        ns['partial'] = Host('partial', partial)
        ns['reduce'] = nope('reduce')
        return m
    if name in ('os', 'os.path'):
        import posixpath
        P = Module('os.path')

        def pathfn(fn):
            def f(I, a, kw):
                a = [I.force(x) for x in a]
                if all(isinstance(x, str) for x in a):
                    return getattr(posixpath, fn)(*a)
                hook = I.inputs.get('os')
                if hook is not None:
                    return answered(hook(I, 'path.' + fn, a), fn)
                raise Unsupported('os.path.%s of symbolic text' % fn)
            return Host('os.path.' + fn, f)
        for fn in ('join', 'splitext', 'basename', 'dirname', 'normpath', 'split'):
            P.ns[fn] = pathfn(fn)

        def osfn(fn):
            def f(I, a, kw):
                hook = I.inputs.get('os')
                if hook is None:
                    raise Unsupported('os.' + fn)
                return answered(hook(I, fn, [I.force(x) for x in a]), fn)
            return Host('os.' + fn, f)
        for fn in ('exists', 'isfile', 'isdir', 'getmtime'):
            P.ns[fn] = osfn('path.' + fn)
        if name == 'os.path':
            return P
        ns['path'] = P
        ns['sep'] = '/'
        for fn in ('stat', 'listdir'):
            ns[fn] = osfn(fn)
        return m
    if name in ('codecs', 'io', 'shlex', 'pkg_resources', 'tokenize', 'xml', 'xml.sax', 'xml.dom', 'xml.dom.minidom', 'cStringIO', 'linecache', 'string', 'html', 'html.entities', 'babel',
                'babel.messages.extract', 'warnings', 'contextlib', 'operator', 'copy', 'time', 'math', 'traceback', 'inspect', 'keyword', 'ast', 'json', 'weakref', 'logging', 'hashlib', 'bisect', 'textwrap',
                'unicodedata', 'fnmatch', 'errno', 'locale', 'struct', 'array', 'uuid', 'importlib', 'abc', 'enum', 'numbers', 'typing', 'datetime', 'builtins', 'posixpath', 'heapq', 'gc', 'secrets', 'tempfile',
                'xml.sax.saxutils'):
        return lib2(I, name, m)
    raise Unsupported('import of %s' % name)


def answered(r, fn):
    if r is NotImplemented:
        raise Unsupported('os.' + fn)
    return r


def lib2(I, name, m):
    ns = m.ns
    B = I.builtins
    if name == 'tokenize':
        ns['TokenError'] = HostType('TokenError', type('TokenError', (Exception,), {}), lambda I, a, kw: I.make_exc('Exception', *a))
    if name == 'xml.sax':
        obj = PyClass('ContentHandler', [B['object']], {'__init__': Host('__init__', lambda I, a, kw: None)})
        obj.qualname = None
        ns['ContentHandler'] = obj
        exc = PyClass('SAXParseException', [B['Exception']], {})
        exc.qualname = None
        ns['SAXParseException'] = exc
        su = Module('xml.sax.saxutils')

        def escape(I, a, kw):
            # documented behaviour of the standard library: & < > in this order
            s = I.force(a[0])
            for x, y in (('&', '&amp;'), ('>', '&gt;'), ('<', '&lt;')):
                s = strs.replace(I, s, x, y)
            if len(a) > 1:
                raise Unsupported('saxutils.escape with entities')
            return s
        su.ns['escape'] = Host('saxutils.escape', escape)
        ns['saxutils'] = su
        hd = Module('xml.sax.handler')
        hd.ns.update(feature_external_pes='pes', feature_external_ges='ges', feature_namespaces='ns', property_lexical_handler='lex')
        ns['handler'] = hd
    if name == 'xml.sax.saxutils':
        return I.module_attr(I.module('xml.sax'), 'saxutils')
    if name in ('xml.dom', 'xml.dom.minidom'):
        mini = m if name == 'xml.dom.minidom' else I.module('xml.dom.minidom')
        if name == 'xml.dom':
            ns['minidom'] = mini
        else:
            from . import dom
            dom.fill(I, ns)
    if name == 'shlex':
        def shsplit(I, a, kw):
            import shlex
            v = [I.force(x) for x in a]
            if all(isinstance(x, str) for x in v) and not kw:
                return I.newlist(shlex.split(*v))
            raise Unsupported('shlex.split')
        ns['split'] = Host('shlex.split', shsplit)
    if name == 'pkg_resources':
        def res(fn):
            def f(I, a, kw):
                hook = I.inputs.get('os')
                if hook is None:
                    raise Unsupported('pkg_resources.' + fn)
                return answered(hook(I, fn, [I.force(x) for x in a]), fn)
            return Host('pkg_resources.' + fn, f)
        for fn in ('resource_listdir', 'resource_filename'):
            ns[fn] = res(fn)
    if name == 'xml':
        m.missing = lambda n: I.module('xml.' + n)
        return m
    if name == 'html':
        def hescape(I, a, kw):
            s = I.force(a[0])
            q = I.truth(a[1]) if len(a) > 1 else I.truth(kw.get('quote', True))
            for x, y in (('&', '&amp;'), ('<', '&lt;'), ('>', '&gt;')) + ((('"', '&quot;'), ("'", '&#x27;')) if q else ()):
                s = strs.replace(I, s, x, y)
            return s
        ns['escape'] = Host('html.escape', hescape)
    if name == 'operator':
        def itemgetter(I, a, kw):
            return Host('itemgetter', lambda I, b, k2: I.getitem(b[0], a[0]) if len(a) == 1 else tuple(I.getitem(b[0], x) for x in a))
        ns['itemgetter'] = Host('itemgetter', itemgetter)
        ns['attrgetter'] = Host('attrgetter', lambda I, a, kw: Host('attrgetter', lambda I, b, k2: I.getattr(b[0], a[0])))
    if name == 'typing':
        m.missing = lambda n: Host(n, lambda I, a, kw: None)
        return m
    m.missing = lambda n: nope('%s.%s' % (name, n))
    return m


def function_type(I, a, kw):
    """types.FunctionType(code, globals, name, defaults, closure): the same function with other globals."""
    code, g = a[0], a[1]
    if not isinstance(code, FuncPart) or code.part != '__code__':
        raise Unsupported('FunctionType')
    f = code.f
    for i, part in ((3, '__defaults__'), (4, '__closure__')):
        if len(a) > i and not (isinstance(a[i], FuncPart) and a[i].f is f and a[i].part == part):
            raise Unsupported('FunctionType with other %s' % part)
    d = f.defaults if len(a) > 3 else []
    n = PyFunc(f.node, f.name, f.qualname, g, f.closure, d, f.kwdefaults, f.is_gen, module=f.module, localnames=f.localnames)
    return n


def code_type(I, a, kw):
    raise Unsupported('CodeType')
