"""Contract of regular expressions on symbolic text.

match(s, pos) and search(s, pos) give None or a match: a slice of s that belongs to the
language of the pattern (translated for the solver where that is possible); a pattern
that accepts the empty text everywhere always matches."""
import re
import sre_parse
import sre_constants as sc
import z3
from .values import SymStr, SymInt, Atom, Match
from .engine import Unsupported
from . import strs

SPACE = [chr(i) for i in list(range(9, 14)) + list(range(28, 33)) + [0x85, 0xa0, 0x1680] + list(range(0x2000, 0x200b)) + [0x2028, 0x2029, 0x202f, 0x205f, 0x3000]]
FOLD = ['\u017f', '\u212a', '\u0131', '\u0130']


class NoRe(Exception):
    pass


NEXT = ['', 'a', ' ', '\n', '<', '>', '%', '{', '}', '$', '"', "'", '\\', '-', '?', '!', '=', '\u2028', '0', '_', ']', '/']


def decided(rx, name, p, pos):
    """The result on constant text p is the same whatever follows it."""
    f = getattr(rx, name)
    rs = [f(p + c + d, pos) for c in NEXT for d in NEXT]
    spans = set(None if r is None else r.span() for r in rs)
    return len(spans) == 1 and all(r is None or r.end() < len(p) for r in rs) and not (name != 'match' and None in spans)


def match(I, rx, name, s, pos=0):
    s = strs.expand(I, s)
    if isinstance(s.parts[0], str) and isinstance(pos, int) and pos <= len(s.parts[0]):
        if decided(rx, name, s.parts[0], pos):
            return getattr(rx, name)(s.parts[0], pos)
    if name == 'search' and (len(s.parts) > 1 or not isinstance(pos, int) or pos):
        raise Unsupported('regex search in composed text')
    try:
        Nfa(rx.pattern, rx.flags)
    except NoRe:
        raise Unsupported('regex %r on symbolic text' % rx.pattern)
    n = I.str_len(s)
    nz = n.z if isinstance(n, SymInt) else z3.IntVal(n)
    a = pos.z if isinstance(pos, SymInt) else z3.IntVal(pos)
    if len(s.parts) == 1 and s.parts[0].base is None and s.parts[0].slice is None and isinstance(pos, int) and pos == 0 and name == 'match':
        # whether there is a match is a property of the text itself
        hit = True if rx.match('') is not None else I.branch(member(I, s.parts[0], rx.pattern, rx.flags))
    else:
        hit = rx.match('') is not None or I.branch(z3.Bool(I.fresh('match')))
    if not hit:
        return None
    I.exact = False
    e = z3.Int(I.fresh('end'))
    if name == 'search':
        a = z3.Int(I.fresh('start'))
        I.add(a >= 0)
    I.add(z3.And(e >= a, e <= nz))
    text = strs.getitem(I, s, slice(SymInt(a) if not z3.is_int_value(a) else a.as_long(), SymInt(e)))
    if isinstance(text, SymStr):
        if len(text.parts) == 1 and isinstance(text.parts[0], Atom):
            I.add(member(I, text.parts[0], rx.pattern, rx.flags, anything_after=False))
    r = Match(SymInt(a) if not z3.is_int_value(a) else a.as_long(), SymInt(e), None if rx.groupindex else {}, text, None)
    return r


# ---------------------------------------------------------------- a decision procedure for memberships
class Nfa(object):
    """Thompson automaton of a pattern; a character class is a predicate."""
    def __init__(self, pattern, flags, anything_after=True):
        self.eps, self.moves, self.chars = {}, {}, set()
        self.n = 0
        self.start = self.new()
        self.flags = flags
        self.end = self.seq(sre_parse.parse(pattern, flags), self.start)
        if anything_after:
            self.moves.setdefault(self.end, []).append((lambda c: True, self.end))

    def new(self):
        self.n += 1
        return self.n

    def edge(self, a, pred, b):
        self.moves.setdefault(a, []).append((pred, b))

    def e(self, a, b):
        self.eps.setdefault(a, []).append(b)

    def lit(self, o):
        c = chr(o)
        if self.flags & re.IGNORECASE:
            r = re.compile(re.escape(c), self.flags)
            cs = frozenset(x for x in [c, c.lower(), c.upper()] + FOLD if len(x) == 1 and r.match(x))
        else:
            cs = frozenset([c])
        self.chars |= cs
        return lambda x: x in cs

    def cls(self, items):
        neg, ps = False, []
        for op, a in items:
            if op is sc.NEGATE:
                neg = True
            elif op is sc.LITERAL:
                ps.append(self.lit(a))
            elif op is sc.RANGE and a[1] - a[0] < 200:
                ps += [self.lit(i) for i in range(a[0], a[1] + 1)]
            elif op is sc.CATEGORY and a is sc.CATEGORY_SPACE:
                ps.append(lambda c: c in SPACE)
            else:
                raise NoRe(op, a)
        return (lambda c: not any(p(c) for p in ps)) if neg else (lambda c: any(p(c) for p in ps))

    def seq(self, t, a):
        for op, v in t:
            if op is sc.LITERAL:
                b = self.new()
                self.edge(a, self.lit(v), b)
            elif op is sc.NOT_LITERAL:
                b, p = self.new(), self.lit(v)
                self.edge(a, lambda c, p=p: not p(c), b)
            elif op is sc.IN:
                b = self.new()
                self.edge(a, self.cls(v), b)
            elif op is sc.ANY:
                b = self.new()
                self.chars.add('\n')
                dot = bool(self.flags & re.DOTALL)
                self.edge(a, lambda c, dot=dot: dot or c != '\n', b)
            elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
                lo, hi, body = v
                b = a
                for i in range(lo):
                    b = self.seq(body, b)
                if hi is sc.MAXREPEAT:
                    x = self.new()
                    self.e(b, x)
                    self.e(self.seq(body, x), x)
                    b = x
                else:
                    out = self.new()
                    self.e(b, out)
                    for i in range(hi - lo):
                        b = self.seq(body, b)
                        self.e(b, out)
                    b = out
            elif op is sc.SUBPATTERN and not v[1] and not v[2]:
                b = self.seq(v[3], a)
            elif op is sc.BRANCH:
                b = self.new()
                for alt in v[1]:
                    self.e(self.seq(alt, a), b)
            else:
                raise NoRe(op)
            a = b
        return a

    def close(self, qs):
        todo = list(qs)
        seen = set(todo)
        while todo:
            for b in self.eps.get(todo.pop(), ()):
                if b not in seen:
                    seen.add(b)
                    todo.append(b)
        return frozenset(seen)

    def step(self, qs, c):
        return self.close(b for q in qs for p, b in self.moves.get(q, ()) if p(c))


def vectors(nfas):
    """All combinations of memberships some text has."""
    sigma = set()
    for n in nfas:
        sigma |= n.chars
    sigma |= set([' ', '\t', '\n'])
    sigma.add(next(c for c in SPACE if c not in sigma))
    sigma.add(next(chr(i) for i in range(0x4e00, 0x5000) if chr(i) not in sigma))
    start = tuple(n.close([n.start]) for n in nfas)
    todo, seen, out = [start], {start}, set()
    memo = [dict() for n in nfas]
    while todo:
        st = todo.pop()
        out.add(tuple(n.end in q for n, q in zip(nfas, st)))
        for c in sigma:
            nx = []
            for i, (n, q) in enumerate(zip(nfas, st)):
                k = (q, c)
                if k not in memo[i]:
                    memo[i][k] = n.step(q, c)
                nx.append(memo[i][k])
            nx = tuple(nx)
            if nx not in seen:
                seen.add(nx)
                todo.append(nx)
    return out


NFAS, VECTORS = {}, {}


def member(I, atom, pattern, flags=0, anything_after=True):
    """Formula: the text is in the language of the pattern (followed by anything).

    All memberships stated about one text are related exactly: the combinations some
    text has are computed with finite automata and given to the solver."""
    k = (pattern, flags & (re.I | re.S), anything_after)
    if k not in NFAS:
        NFAS[k] = Nfa(pattern, flags, anything_after)
    ls = I.cache.setdefault(('languages', atom.key), ())
    if k not in ls:
        ls = I.cache[('languages', atom.key)] = ls + (k,)
        if ls not in VECTORS:
            VECTORS[ls] = vectors([NFAS[x] for x in ls])
        vs = [z3.Bool('in(%s,%r)' % (atom.key, x)) for x in ls]
        I.add(z3.Or([z3.And([v if b else z3.Not(v) for v, b in zip(vs, vec)]) for vec in sorted(VECTORS[ls])]))
    return z3.Bool('in(%s,%r)' % (atom.key, k))
