"""Do two patterns match alike?  Decided for all texts, by automata.

same(p, q, groups): for every text and every position in it, p.match(text, pos) and
q.match(text, pos) agree: both fail, or both match up to the same end and give the same
spans to *groups*.  (So do search, finditer, sub and split, which are made of match.)

A backtracking matcher explores alternatives in order of preference and takes the first
that succeeds; the lockstep simulation keeps the list of alternatives alive in that order
(a later one in the same place can never be the first to succeed, so it is dropped). The
product of two such simulations over the classes of characters that the patterns tell
apart has finitely many states once positions are named by their order; a state in which
both are over and differ gives a shortest text on which the patterns differ."""
import re
import sre_parse
import sre_constants as sc
from collections import deque
from .rx import NoRe

ALL = None
MEMO = {}
EOT = 'EOT'      # no character: before the first, after the last


def chars(pattern, flags):
    """The characters a one-character pattern matches."""
    global ALL
    k = (pattern, flags & (re.I | re.A | re.S))
    if k not in MEMO:
        if ALL is None:
            ALL = ''.join(map(chr, range(0x110000)))
        MEMO[k] = frozenset(ord(m) for m in re.findall(pattern, ALL, k[1]))
    return MEMO[k]


def esc(o):
    return '\\U%08x' % o


CATEGORY = {sc.CATEGORY_SPACE: r'\s', sc.CATEGORY_NOT_SPACE: r'\S', sc.CATEGORY_WORD: r'\w', sc.CATEGORY_NOT_WORD: r'\W', sc.CATEGORY_DIGIT: r'\d', sc.CATEGORY_NOT_DIGIT: r'\D'}


def single(op, v):
    """The one-character pattern of a node, or None."""
    if op is sc.LITERAL:
        return esc(v)
    if op is sc.NOT_LITERAL:
        return '[^%s]' % esc(v)
    if op is sc.ANY:
        return '.'
    if op is sc.IN:
        out = ''
        for o, a in v:
            if o is sc.NEGATE:
                out = '^' + out
            elif o is sc.LITERAL:
                out += esc(a)
            elif o is sc.RANGE:
                out += '%s-%s' % (esc(a[0]), esc(a[1]))
            elif o is sc.CATEGORY and a in CATEGORY:
                out += CATEGORY[a]
            else:
                raise NoRe(o, a)
        return '[%s]' % out
    return None


class Prog(object):
    """code[pc]: ('char', set, next) | ('split', [pcs in order of preference]) | ('save', slot, next) | ('at', test, next) | ('match',)"""
    def __init__(self, rx, groups):
        self.code = []
        self.slots = {}
        if isinstance(rx, str):
            rx = re.compile(rx)
        for i, g in enumerate(groups):
            n = g if isinstance(g, int) else rx.groupindex.get(g)
            if n is not None:
                self.slots[n] = i
        self.ngroups = len(groups)
        end = self.emit('match')
        self.start = self.seq(list(sre_parse.parse(rx.pattern, rx.flags)), rx.flags, end)

    def emit(self, *ins):
        self.code.append(ins)
        return len(self.code) - 1

    def nullable(self, seq):
        return seq.getwidth()[0] == 0

    def seq(self, nodes, flags, k):
        for op, v in reversed(nodes):
            k = self.node(op, v, flags, k)
        return k

    def node(self, op, v, flags, k):
        p = single(op, v)
        if p is not None:
            return self.emit('char', chars(p, flags), k)
        if op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
            lo, hi, body = v
            greedy = op is sc.MAX_REPEAT
            if hi is sc.MAXREPEAT:
                if self.nullable(body):
                    raise NoRe('empty loop')
                at = self.emit('split', [])
                b = self.seq(list(body), flags, at)
                self.code[at] = ('split', [b, k] if greedy else [k, b])
                k = at
            else:
                if hi - lo > 40 or lo > 40:
                    raise NoRe('large repeat')
                if self.nullable(body) and hi > 1:
                    raise NoRe('empty loop')
                out = k
                for _ in range(hi - lo):
                    b = self.seq(list(body), flags, k)
                    k = self.emit('split', [b, out] if greedy else [out, b])
            for _ in range(lo):
                k = self.seq(list(body), flags, k)
            return k
        if op is sc.SUBPATTERN:
            gid, add, rem, body = v
            f = (flags | add) & ~rem
            s = self.slots.get(gid)
            if s is None:
                return self.seq(list(body), f, k)
            k = self.emit('save', 2 * s + 1, k)
            k = self.seq(list(body), f, k)
            return self.emit('save', 2 * s, k)
        if op is sc.BRANCH:
            return self.emit('split', [self.seq(list(x), flags, k) for x in v[1]])
        if op is sc.AT:
            if v is sc.AT_BEGINNING:
                t = ('prev', chars(r'\n', 0) if flags & re.M else frozenset(), True, True)
            elif v is sc.AT_BEGINNING_STRING:
                t = ('prev', frozenset(), True, True)
            elif v is sc.AT_END and flags & re.M:
                t = ('next', chars(r'\n', 0), True, True)
            elif v is sc.AT_END_STRING:
                t = ('next', frozenset(), True, True)
            elif v in (sc.AT_BOUNDARY, sc.AT_NON_BOUNDARY):
                t = ('boundary', chars(r'\w', flags), v is sc.AT_BOUNDARY, None)
            else:
                raise NoRe(op, v)
            return self.emit('at', t, k)
        if op in (sc.ASSERT, sc.ASSERT_NOT):
            d, body = v
            body = list(body)
            if len(body) != 1 or single(*body[0]) is None:
                raise NoRe('look around')
            yes = op is sc.ASSERT
            return self.emit('at', ('next' if d > 0 else 'prev', chars(single(*body[0]), flags), yes, not yes), k)
        raise NoRe(op)

    def sets(self):
        for ins in self.code:
            if ins[0] == 'char':
                yield ins[1]
            elif ins[0] == 'at':
                yield ins[1][1]

    def test(self, t, prev, nxt):
        what, cs, yes, at_end = t
        if what == 'boundary':
            return ((prev is not EOT and prev in cs) != (nxt is not EOT and nxt in cs)) == yes
        c = prev if what == 'prev' else nxt
        if c is EOT:
            return at_end
        return (c in cs) == yes

    def close(self, threads, prev, nxt, now):
        """-> threads waiting for a character, in order, and the match reached if any (cutting what is less preferred)"""
        out, seen, hit = [], set(), None
        for pc, caps in threads:
            stack = [(pc, caps)]
            while stack:
                pc, caps = stack.pop()
                if pc in seen:
                    continue
                seen.add(pc)
                ins = self.code[pc]
                if ins[0] == 'char':
                    out.append((pc, caps))
                elif ins[0] == 'match':
                    hit = (now,) + tuple(x for i in range(self.ngroups) for x in ((caps[2 * i], caps[2 * i + 1]) if caps[2 * i + 1] is not None else (None, None)))
                    break
                elif ins[0] == 'split':
                    stack += [(x, caps) for x in reversed(ins[1])]
                elif ins[0] == 'save':
                    stack.append((ins[2], caps[:ins[1]] + (now,) + caps[ins[1] + 1:]))
                elif self.test(ins[1], prev, nxt):
                    stack.append((ins[2], caps))
            if hit is not None:
                break
        return out, hit

    def step(self, threads, c):
        return [(self.code[pc][2], caps) for pc, caps in threads if c in self.code[pc][1]]


def partition(sets):
    """One character of every class that the sets tell apart."""
    classes = [frozenset(range(0x110000))]
    for s in set(sets):
        new = []
        for c in classes:
            a = c & s
            new += [x for x in ((a, c - a) if len(a) < len(c) else (c,)) if x]
        classes = new

    def nice(c):
        for o in [ord(x) for x in 'axb1 $%{}-\n'] + list(range(33, 127)):
            if o in c:
                return o
        return min(c)
    return sorted(nice(c) for c in classes)


def canon(st):
    """Name positions by their order."""
    ps = sorted(set(p for ts, best in st for _, caps in ts for p in caps if p is not None) | set(p for _, best in st for p in (best or ()) if p is not None))
    name = {p: i for i, p in enumerate(ps)}
    name[None] = None
    return tuple((tuple((pc, tuple(name[p] for p in caps)) for pc, caps in ts), None if best is None else tuple(name[p] for p in best)) for ts, best in st), len(ps)


def same(p, q, groups=(), limit=200000):
    """-> (True, states) or (False, (text before, text from the position on, what p gives, what q gives))"""
    A, B = Prog(p, groups), Prog(q, groups)
    sigma = partition(list(A.sets()) + list(B.sets()))
    todo, seen = deque(), {}

    def first(prog):
        return [(prog.start, (None,) * (2 * len(groups)))], None
    start, _ = canon((first(A), first(B)))
    for prev in [EOT] + sigma:
        todo.append((start, prev))
        seen[(start, prev)] = None
    n = 0
    while todo:
        st, prev = todo.popleft()
        n += 1
        if n > limit:
            raise NoRe('too many states')
        now = 1 + max([p for ts, best in st for _, caps in ts for p in caps if p is not None] + [p for _, best in st for p in (best or ()) if p is not None] + [-1])
        for c in [EOT] + sigma:
            nx = []
            for prog, (ts, best) in zip((A, B), st):
                w, hit = prog.close(ts, prev, c, now)
                nx.append(([] if c is EOT else prog.step(w, c), best if hit is None else hit))
            if not nx[0][0] and not nx[1][0]:
                if nx[0][1] != nx[1][1]:
                    return False, text(seen, (st, prev), c)
                continue
            k = (canon(nx)[0], c)
            if k not in seen:
                seen[k] = (st, prev)
                todo.append(k)
    return True, n


def text(seen, k, c):
    out = [] if c is EOT else [c]
    while seen[k] is not None:
        out.append(k[1])
        k = seen[k]
    return ('' if k[1] is EOT else chr(k[1]), ''.join(map(chr, reversed(out))))
