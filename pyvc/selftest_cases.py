"""Programs whose meaning the engine and the real interpreter must agree on (see selftest.py).

c_*: run as they are.  s_*(a, b: any text; n: any int): run symbolically by the engine,
then every path is compared with the real interpreter on a model of that path."""
import functools
import itertools
from collections import deque
from itertools import chain


def d_index(x):
    return x["a"]


def outcome(f, *a):
    try:
        return f(*a)
    except Exception as e:
        return type(e).__name__


# ---------------------------------------------------------------- control flow
def c_loops():
    out = []
    for i in range(5):
        if i == 1:
            continue
        if i == 4:
            break
        out.append(i)
    else:
        out.append('else')
    for i in []:
        pass
    else:
        out.append('empty')
    while len(out) < 8:
        out.append(len(out))
    return out


def c_try():
    out = []

    def f(n):
        try:
            out.append(('try', n))
            if n == 1:
                raise KeyError('k')
            if n == 2:
                return 'two'
            if n == 3:
                raise ValueError('v')
        except KeyError as e:
            out.append(str(e))
            return 'key'
        else:
            out.append('else')
        finally:
            out.append('finally')
        return 'end'
    return [outcome(f, i) for i in range(4)], out


def c_generators():
    log = []

    def g(n):
        try:
            for i in range(n):
                log.append(i)
                yield i
        finally:
            log.append('done')

    def h():
        for x in g(2):
            yield x * 10
        yield 'h'
    it = h()
    a = next(it)
    rest = list(it)
    return a, rest, log, list(x for x in g(1)), next(iter([]), 'default'), [y for x in [[1, 2], [3]] for y in x if y != 2]


def c_lazy_generator():
    log = []

    def g():
        log.append('started')
        yield 1
    x = g()
    log.append('made')
    next(x)
    return log


def c_closures():
    fs = []
    for i in range(3):
        fs.append(lambda: i)
    gs = [lambda j=j: j for j in range(3)]
    n = [0]

    def bump():
        n[0] += 1
        return n[0]
    bump()
    return [f() for f in fs], [g() for g in gs], bump(), n


def c_arguments():
    def f(a, b=2, *rest, **kw):
        return a, b, rest, sorted(kw.items())

    def g(a, *, k=1):
        return a, k
    return [f(1), f(1, 3, 4, 5, z=1, y=2), f(b=1, a=0), f(*[1, 2, 3], **{'q': 1}), g(1), g(1, k=2), outcome(g), outcome(lambda: g(1, 2)), outcome(lambda: g(1, z=1))]


def c_classes():
    class A(object):
        x = 1
        seen = []

        def __init__(self, n=0):
            self.n = n

        def f(self):
            return ('A', self.n)

        @classmethod
        def make(cls, n):
            return cls(n)

        @property
        def p(self):
            return self.n + 1

        @staticmethod
        def s(x):
            return x

    class B(A):
        x = 2

        def f(self):
            return ('B',) + super(B, self).f()
    b = B.make(3)
    a = A()
    a.x = 9
    A.seen.append(1)
    return b.f(), b.p, b.x, a.x, A.x, isinstance(b, A), isinstance(a, B), B.seen, B.s(4), hasattr(b, 'zz'), getattr(b, 'zz', 'd'), getattr(b, 'n'), type(b).__name__, b.__class__ is B


def c_scopes():
    x = 'outer'
    y = [x for x in 'ab']

    def f():
        return x

    def g():
        x = 'local'
        return x, f()
    return x, y, g()


def c_unpacking():
    (a, b), *c = (1, 2), 3, 4
    d, e = e2, d2 = 'xy'
    f = a, b
    return a, b, c, d, e, e2, d2, f


def c_chained():
    return 1 < 2 < 3, 1 < 3 < 2, (1 or 2), (0 or 'x'), ('' and 1), (None is None), not [], 1 == 1.0, 'a' in 'cat', 3 not in [1, 2], 'x' if 0 else 'y'


def c_truth():
    class N(object):
        pass
    return [bool(v) for v in (0, 1, '', ' ', [], [0], {}, {1: 2}, (), (0,), None, 0.0, N(), N)]


def c_dicts():
    d = {'b': 1, 'a': 2}
    d['c'] = 3
    d['b'] = 4
    e = dict(d, z=1)
    e.update({'a': 5}, y=6)
    p = d.pop('a')
    return list(d), list(d.items()), sorted(e), p, d.get('q'), d.get('q', 0), d.setdefault('b', 7), d.setdefault('n', 8), 'n' in d, len(d), dict([('k', 'v')]), outcome(lambda: d['no']), outcome(lambda: d.pop('no')), d.pop('no', None), [k for k in d], {k: v for k, v in e.items() if v == 6}


def c_lists():
    a = [3, 1, 2]
    b = a
    b.append(0)
    c = list(a)
    c.sort()
    a.extend((9, 8))
    a.insert(1, 'i')
    x = a.pop()
    a[0] = 'z'
    d = a[1:3] + a[-1:] + [1] * 2
    e = a[:]
    e.reverse()
    a += ['q']
    return a, b is a, c, x, d, e, a.index('i'), outcome(lambda: a[99]), outcome(lambda: [].pop()), sorted(['b', 'a', 'C'], key=lambda s: s.lower()), list(reversed([1, 2])), list(enumerate('ab', 1)), list(zip([1, 2], 'abc')), any([0, 1]), all([]), min(3, 1), max([1, 5]), sum([1, 2]), 2 in a, a == b, [1] == [1], (1, 2) + (3,)


def c_aliases():
    a = []
    b = [a, a]
    b[0].append(1)
    c = list(b)
    c.append(2)
    d = dict(k=a)
    d['k'].append(2)
    return a, b, c


def c_deque():
    d = deque(maxlen=2)
    for i in range(4):
        d.append(i)
    return list(d), len(d), tuple(d)


def c_itertools():
    it = iter([1, 2, 3])
    return list(chain([1], (2,), 'a')), list(itertools.islice(it, 2)), next(it), list(map(lambda x: x + 1, [1, 2])), list(filter(None, [0, 1, '', 'a']))


def c_partial():
    f = functools.partial(lambda *a, **k: (a, sorted(k)), 1, k=2)
    return f(3, j=4)


def c_strings():
    s = '  a,b;c\nd\r\n '
    return [s.strip(), s.lstrip(), s.rstrip(), s.split(','), s.split(), s.splitlines(), s.partition(','), s.find('b'), s.find('zz'), s.count('\n'), s.replace('\n', '|'), s.upper(), s[2:5], s[-3:], s[::-1] if 0 else '',
            'a'.join(['x', 'y']), ''.join([]), 'abc'.startswith('ab'), 'abc'.startswith(('x', 'a')), 'abc'.endswith('bc'), '%s-%r-%d' % ('a', 'b', 3), '%(k)s' % {'k': 1}, '{} {0}'.format if 0 else '{} {}'.format(1, 'x'),
            'abc'.isidentifier() if 0 else 1, len(s), s.rsplit(',', 1), 'a.b.c'.rsplit('.', 1), 'a.b.c'.split('.', 1), 'Abc'.lower(), 'a' * 3, 'x' < 'y', ord('a'), chr(98), repr("it's"), str(None), str(True), str(3), 'a\tb'.expandtabs() if 0 else '', '\n'.join('ab'), 'abc'.rfind('c'), s.isspace(), ' '.isspace(), ''.isspace(), 'a1'.isalnum()]


def c_errors():
    return [outcome(lambda: 1 + 'a'), outcome(lambda: undefined_name), outcome(lambda: None.x), outcome(lambda: {}['a']), outcome(lambda: [][0]), outcome(lambda: int('x')), outcome(lambda: next(iter([]))), outcome(lambda: d_index((1, 2)))]


def c_exceptions():
    class E1(Exception):
        pass

    class E2(E1):
        def __init__(self, a, b):
            super(E2, self).__init__(a)
            self.b = b
    out = []
    try:
        try:
            raise E2('m', 2)
        except (KeyError, E1) as e:
            out.append((str(e), e.b, e.args))
            raise
    except E1 as e:
        out.append(type(e).__name__)
    try:
        assert False, 'why'
    except AssertionError as e:
        out.append(str(e))
    return out


def c_conditional_binding():
    def f(x):
        if x:
            y = 1
        return y
    return outcome(f, 1), outcome(f, 0)


def c_del():
    d = {1: 2, 3: 4}
    del d[1]
    x = [1, 2, 3]
    del x[0]

    class O(object):
        pass
    o = O()
    o.a = 1
    del o.a
    return d, x, hasattr(o, 'a')


def c_ints():
    return 7 // 2, -7 // 2, 7 % 3, -7 % 3, 2 ** 5, 1 - 2, -3, 3.5 + 1, int('12'), abs(-2), divmod(7, 2) if 0 else 0, 5 & 3 if 0 else 0, True + 1


def c_shadow():
    def len(x):
        return 'mine'
    return len([1])


# ---------------------------------------------------------------- any text
def s_strip(a, b, n):
    return a.strip(), a.lstrip(), a.rstrip()


def s_startswith(a, b, n):
    if a.startswith('ab'):
        return 'yes'
    if a.endswith('b'):
        return 'end'
    return 'no'


def s_eq(a, b, n):
    if a == b:
        return 'same'
    if a == 'x':
        return 'x'
    return a != b


def s_truth(a, b, n):
    return ('full' if a else 'empty', a or b, a and b, not a)


def s_concat(a, b, n):
    return '<' + a + '>' + b, '%s=%s' % (a, b), ''.join([a, ',', b]), '{}{}'.format(a, b)


def s_slice(a, b, n):
    return a[1:], a[:1], a[:-1], a[-1:], a[1:3]


def s_find(a, b, n):
    i = a.find('k')
    if i < 0:
        return 'none', i
    return a[:i], a[i:], i


def s_replace(a, b, n):
    return a.replace('&', '&amp;').replace('<', '&lt;')


def s_in(a, b, n):
    if 'q' in a:
        return 'has'
    return 'lacks'


def s_len(a, b, n):
    if len(a) > 2:
        return 'long'
    return len(a)


def s_int(a, b, n):
    if n > 3:
        return n - 1
    if n == 3:
        return 'three'
    return n + 2, n < 0


def s_index(a, b, n):
    try:
        return [10, 20, 30][n]
    except IndexError:
        return 'out'


def s_dict(a, b, n):
    d = {}
    d[a] = 1
    d[b] = 2
    return d[a], len(d), b in d, d.get('z', 'no')


def s_list(a, b, n):
    xs = [a, b]
    return a in ['x', 'y'], xs.index(b) if b in xs else None, sorted(['b', 'a']), xs[::-1] if 0 else xs


def s_partition(a, b, n):
    h, s, t = a.partition(':')
    return h, s, t


def s_split(a, b, n):
    return a.split('=', 1)


def s_map(a, b, n):
    out = []
    for c in (a, b, 'lit'):
        if c:
            out.append(c)
    return '|'.join(out)


def s_char(a, b, n):
    if a[:1] == 'x':
        return a[1:2]
    if a[-1:] == '\n':
        return 'nl'
    return '-'


def s_getitem(a, b, n):
    try:
        return a[0]
    except IndexError:
        return 'empty'


def s_bool(a, b, n):
    x = n > 0 and a != ''
    y = n > 5 or b == 'p'
    return (x, y, x and y, not x)
