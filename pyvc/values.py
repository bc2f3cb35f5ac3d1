"""Values of the symbolic interpreter.

Concrete None, bool, int, float, str, bytes, tuple and frozenset are host values.
"""
import z3
from .engine import Unsupported


class Val(object):
    pass


class SymInt(Val):
    def __init__(self, z):
        self.z = z

    def __repr__(self):
        return 'SymInt(%s)' % self.z


class SymBool(Val):
    def __init__(self, z):
        self.z = z

    def __repr__(self):
        return 'SymBool(%s)' % self.z


class Atom(object):
    """A symbolic piece of text: z is its z3 string; key identifies it.

    mapped atoms: the image of text *base* under the character map *cmap*
    (dict char -> str, identity elsewhere).
    slices: base[a:b] of an atom, with a and b z3 ints known to be in range.
    """
    __slots__ = ('key', 'z', 'base', 'cmap', 'slice')

    def __init__(self, key, z=None, base=None, cmap=None, slice=None):
        self.key = key
        self.z = z if z is not None else z3.String(str(key))
        self.base = base
        self.cmap = cmap
        self.slice = slice

    def __eq__(self, other):
        return isinstance(other, Atom) and self.key == other.key

    def __ne__(self, other):
        return not self == other

    def __hash__(self):
        return hash(self.key)

    def __repr__(self):
        return '<%s>' % (self.key,)


class SymStr(Val):
    """A rope of constant text and atoms."""
    def __init__(self, parts):
        out = []
        for p in parts:
            if isinstance(p, str):
                if not p:
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] += p
                    continue
            out.append(p)
        self.parts = tuple(out)

    @property
    def z(self):
        ps = [z3.StringVal(zesc(p)) if isinstance(p, str) else p.z for p in self.parts]
        if not ps:
            return z3.StringVal('')
        if len(ps) == 1:
            return ps[0]
        return z3.Concat(*ps)

    def __repr__(self):
        return 'SymStr%r' % (self.parts,)


def zesc(s):
    """Text as z3 wants it in a StringVal."""
    return ''.join(c if 32 <= ord(c) < 127 and c != '\\' else '\\u{%x}' % ord(c) for c in s)


def zunesc(z):
    """The Python text of a z3 string value."""
    s = z.as_string()
    import re
    return re.sub(r'\\u\{([0-9a-fA-F]+)\}', lambda m: chr(int(m.group(1), 16)), s)


def mkstr(parts):
    s = SymStr(parts)
    if not s.parts:
        return ''
    if len(s.parts) == 1 and isinstance(s.parts[0], str):
        return s.parts[0]
    return s


def parts_of(s):
    if isinstance(s, str):
        return (s,) if s else ()
    return s.parts


def atom_of(s):
    """The single atom of a symbolic string, or None."""
    if isinstance(s, SymStr) and len(s.parts) == 1 and isinstance(s.parts[0], Atom):
        return s.parts[0]
    return None


class PyClass(Val):
    def __init__(self, name, bases, ns, module=None):
        self.name, self.bases, self.ns, self.module = name, bases, ns, module
        self.mro = [self]
        for b in bases:
            for c in (b.mro if isinstance(b, PyClass) else [b]):
                if c not in self.mro:
                    self.mro.append(c)
        self.attrs_written = {}

    def lookup(self, name):
        for c in self.mro:
            if isinstance(c, PyClass) and name in c.ns:
                return c.ns[name]
        raise KeyError(name)

    def __repr__(self):
        return '<class %s>' % self.name


class PyObj(Val):
    def __init__(self, E, cls, attrs=None, lazy=None, name=None):
        self.id = E.new_id()
        self.cls = cls
        self.attrs = attrs if attrs is not None else {}
        self.lazy = lazy           # function (name) -> value, for attributes not set yet
        self.name = name

    def __repr__(self):
        return '<%s #%d %s>' % (getattr(self.cls, 'name', self.cls), self.id, self.name or '')


class PyFunc(Val):
    def __init__(self, node, name, qualname, globals_, closure, defaults, kwdefaults, is_gen, module=None, localnames=None):
        self.node, self.name, self.qualname = node, name, qualname
        self.globals, self.closure = globals_, closure
        self.defaults, self.kwdefaults, self.is_gen = defaults, kwdefaults, is_gen
        self.module = module
        self.localnames = localnames
        self.attrs = {}

    def __repr__(self):
        return '<function %s>' % self.qualname


class Bound(Val):
    def __init__(self, func, self_):
        self.func, self.self = func, self_

    def __repr__(self):
        return '<bound %r>' % (self.func,)


class Host(Val):
    """A function of the interpreter itself: fn(I, args, kwargs)."""
    settable = False

    def __init__(self, name, fn, attrs=None):
        self.name, self.fn = name, fn
        self.attrs = attrs or {}

    def __repr__(self):
        return '<builtin %s>' % self.name


class PyList(Val):
    """items: values and Run pieces (unknown number of elements)."""
    def __init__(self, E, items, kind='list', maxlen=None):
        self.id = E.new_id()
        self.items = list(items)
        self.kind = kind           # list | set | deque
        self.maxlen = maxlen

    def __repr__(self):
        return 'PyList%r' % (self.items,)


class Run(object):
    """The elements a ghost stream has produced: an unknown number of values."""
    def __init__(self, key, seq=None, stream=None):
        self.key = key
        self.seq = seq
        self.stream = stream

    def __eq__(self, other):
        return isinstance(other, Run) and self.key == other.key

    def __ne__(self, other):
        return not self == other

    def __hash__(self):
        return hash(self.key)

    def __repr__(self):
        return '*%s*' % (self.key,)

    def length(self):
        return z3.Int('len(%s)' % (self.key,))

    arbitrary = False

    def member(self, z):
        """Membership in an arbitrary collection of texts: an uninterpreted predicate."""
        return z3.Function('in(%s)' % (self.key,), z3.StringSort(), z3.BoolSort())(z)


ABSENT = type('Absent', (), {'__repr__': lambda s: 'ABSENT'})()


class PyDict(Val):
    """entries: list of [key, value or ABSENT]; base: for keys not decided yet,
    base(key) -> value or ABSENT (memoised); focus: see interp.for_items."""
    def __init__(self, E, entries=(), base=None, default_factory=None, name=None):
        self.id = E.new_id()
        self.entries = [list(e) for e in entries]
        self.base = base
        self.default_factory = default_factory
        self.name = name

    def __repr__(self):
        return 'PyDict%s%r' % (self.name or '', self.entries)


class SymSeq(Val):
    """A finite sequence of unknown length.

    elem(E, hint) -> a fresh arbitrary element (with its precondition assumed)
    spec: a Spec, the ghost that consumes the elements in lockstep
    oneshot: an iterator (a second iteration gives nothing)
    """
    def __init__(self, E, name, elem, spec=None, nonempty=None, oneshot=False, cls=None):
        self.id = E.new_id()
        self.name, self.elem, self.spec = name, elem, spec
        self.oneshot = oneshot
        self.consumed = False
        self.cls = cls
        self.E = E

    def __repr__(self):
        return '<seq %s>' % self.name


class Spec(object):
    """Ghost semantics of consuming a sequence (or of one loop step).

    scalars: names of ghost variables; init(E) gives their values before the
    first element, arb(E) arbitrary values after some prefix, step(E, g, elem)
    -> (new g, {stream: [values]}).
    """
    streams = ('out',)

    def init(self, E):
        return {}

    def arb(self, E):
        return {}

    def step(self, E, g, elem):
        return g, {'out': [elem]}


class Ident(Spec):
    pass


class Poison(Val):
    """The value of a variable after a loop, about which nothing is known."""
    def __init__(self, why):
        self.why = why


class AnyVal(Val):
    """An arbitrary Python value of one of several kinds, decided when inspected."""
    KINDS = ('none', 'true', 'false', 'int', 'str', 'flat', 'html', 'obj')

    def __init__(self, E, name, kinds=KINDS):
        self.id = E.new_id()
        self.name = name
        self.kinds = tuple(kinds)
        self.val = None
        self.done = False

    def __repr__(self):
        return '<any %s %s>' % (self.name, '/'.join(self.kinds) if not self.done else repr(self.val))


class PyGen(Val):
    """A generator or any other one-pass iterator: it is a host iterator."""
    def __init__(self, E, it, name=''):
        self.id = E.new_id()
        self.it = it
        self.name = name
        self.exhausted = False

    def __repr__(self):
        return '<generator %s>' % self.name


class Module(Val):
    def __init__(self, name, ns=None):
        self.name = name
        self.ns = ns if ns is not None else {}

    def __repr__(self):
        return '<module %s>' % self.name


class HostType(Val):
    """A built-in class: host is the Python class it stands for."""
    def __init__(self, name, host, new):
        self.name, self.host, self.new = name, host, new
        self.mro = [self]

    def __repr__(self):
        return '<type %s>' % self.name


class PyExc(Exception):
    """An exception of the interpreted program."""
    def __init__(self, value):
        Exception.__init__(self, value)
        self.value = value


class Prop(Val):
    def __init__(self, fget, fset=None, cached=None):
        self.fget, self.fset, self.cached = fget, fset, cached


class ClassMethod(Val):
    def __init__(self, func):
        self.func = func


class StaticMethod(Val):
    def __init__(self, func):
        self.func = func


class Regex(Val):
    def __init__(self, host):
        self.host = host

    def __repr__(self):
        return '<regex %r>' % self.host.pattern


class Match(Val):
    """A match object: s the subject, start/end values, groups dict."""
    def __init__(self, start, end, groups, text, names, lastgroup=None):
        self.start, self.end, self.groups, self.text, self.names = start, end, groups, text, names


class Shape(Val):
    """Specification of an object: its class and some of its attributes."""
    def __init__(self, cls, **attrs):
        self.cls, self.attrs = cls, attrs

    def __repr__(self):
        return '%s(%s)' % (self.cls, ', '.join('%s=%r' % x for x in sorted(self.attrs.items())))


class SuperObj(Val):
    def __init__(self, cls, self_):
        self.cls, self.self = cls, self_


class SymIter(Val):
    """An iterator about which only the text it will still produce is known."""
    def __init__(self, E, name, kinds):
        self.id = E.new_id()
        self.name, self.kinds = name, kinds
        self.rest = Atom('rest(%s)' % name)
        E.registry[self.id] = self

    def __repr__(self):
        return '<iterator %s>' % self.name

    def next(self, E):
        """-> an element; raises StopIteration"""
        E.wrote(('iter', self.id))
        if getattr(self, 'dead', False):
            raise Unsupported('iterator advanced by a loop')
        k = ('end',) + tuple(self.kinds)
        k = k[E.choose(len(k), 'next of %s' % self.name)]
        E.note('next(%s): %s' % (self.name, k))
        if k == 'end':
            E.add(self.rest.z == z3.StringVal(''))
            raise StopIteration
        n = E.fresh('%s.next' % self.name)
        after = Atom(E.fresh('rest(%s)' % self.name))
        if k == 'flat':
            x = PyObj(E, E.get('kajiki.util.flattener'), name=n)
            E.registry[x.id] = x
            it = SymIter(E, n + '.iterator', self.kinds)
            x.attrs['iterator'] = it
            x.text_atom = it.rest
            t = [it.rest.z]
        else:
            x = E.norm(E.any(n, (k,)))
            t = [] if k == 'none' else [strz(E.str_(x))]
        E.add(self.rest.z == (z3.Concat(*(t + [after.z])) if t else after.z))
        self.rest = after
        return x


def strz(s):
    return z3.StringVal(zesc(s)) if isinstance(s, str) else s.z
