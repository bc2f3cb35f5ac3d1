"""Scanners: any source, cut by any sequence of matches of their pattern."""
from .lib import *  # noqa
from pyvc.values import Shape, Match


def lines(source):
    return strs.count_fn(source.parts[0], '\n')


class Scan(Spec):
    """Ghost: how much of the source is consumed. An arbitrary match leaves alone what was consumed before it,
    else gives the text before it and then what it stands for."""
    streams = ('out',)
    lineno = None

    def __init__(self, text, source, n, first=None):
        self.text, self.source, self.n, self.first = text, source, n, first

    def state(self, pos):
        g = {'pos': pos}
        if self.first is not None:
            g['line'] = self.line(pos)
        return g

    def line(self, pos):
        """The line of the source that position *pos* is on."""
        return SymInt(self.first + lines(self.source)(pos.z if isinstance(pos, SymInt) else z3.IntVal(pos)))

    def init(self, E):
        E.add(lines(self.source)(z3.IntVal(0)) == 0)
        return self.state(0)

    def arb(self, E):
        self.p = SymInt(z3.Int(E.fresh('pos')))
        return self.state(self.p)

    def invariant(self, E, g):
        p = g['pos'].z if isinstance(g['pos'], SymInt) else z3.IntVal(g['pos'])
        return z3.And(p >= 0, p <= self.n + 1)

    def step(self, E, g, m):
        p, s = g['pos'], m.start
        if E.branch(s.z < p.z):
            return g, {'out': []}
        out = []
        if E.branch(s.z > p.z):
            out.append(self.text(strs.getitem(E, self.source, slice(p, s)), p, s))
        tok = m.token(m)
        if tok is not None:
            out.append(tok)
        return self.state(m.after), {'out': out}


ALIKE = {}


def alike(E, name, o, specs, groups=(), replays=None):
    """Obligation: pattern o matches as one of the specified patterns does, whatever the text and the place in it.

    Another division of the work between pattern and code is no error by itself: a difference is reported
    if the text that shows it is treated wrongly by the real code, else the harness is undecided."""
    from pyvc import rxeq
    rx = getattr(o, 'host', None)
    if rx is None or any(g not in rx.groupindex for g in groups if isinstance(g, str)):
        raise Unsupported('other groups in the pattern')
    k = (rx.pattern, rx.flags, tuple(s.pattern for s in specs), groups)
    if k not in ALIKE:
        ALIKE[k] = None
        try:
            for s in specs:
                ALIKE[k] = rxeq.same(rx, s, groups)
                if ALIKE[k][0]:
                    break
        except rxeq.NoRe as e:
            ALIKE[k] = (None, 'pattern outside of the decision procedure: %s' % (e,))
    ok, what = ALIKE[k]
    if ok:
        E._event(name, 'discharged', 'automata')
        return
    if ok is None:
        raise Unsupported(what)
    E._event(name, 'undecided', None, detail='the pattern differs from the specified one on %r, from position %d' % (what[0] + what[1], len(what[0])), replays=list(replays(what[0] + what[1])) if replays else [])
    raise Unsupported('the pattern differs from the specified one on %r' % (what[0] + what[1]))


def check_alternatives(alts):
    """What the scanner contract takes for granted about the specified alternatives: (group, pattern, may hold line ends)."""
    from pyvc import rxeq
    import re
    for g, p, lines in alts:
        rx = re.compile(p, re.I | re.M)
        assert g is None or g in rx.groupindex
        assert rx.match('') is None
        assert lines or not any(10 in ins[1] for ins in rxeq.Prog(rx, ()).code if ins[0] == 'char'), p


def matches(E, source, kinds, names, spec, cur, rx=None, alts=None, replays=None):
    """The matches of the pattern: each one non-empty and inside the source; kinds: (group, width before its text, make)."""
    import re
    n = E.str_len(source)
    nz = n.z
    check_alternatives(alts)
    spell = '|'.join(p for _, p, _ in alts)
    alike(E, 'the pattern matches what is specified, whatever the source', rx, [re.compile(spell, re.I | re.M), re.compile(spell.replace('a-z', 'a-zA-Z'), re.M)], names, replays)
    E.assumed.add('finditer gives the matches of its pattern from left to right, none overlapping (any matches are allowed for)')

    def elem(E, h):
        s, e = SymInt(z3.Int(h + '.start')), SymInt(z3.Int(h + '.end'))
        E.add(z3.And(s.z >= 0, e.z > s.z, e.z <= nz))
        k = E.choose(len(kinds), 'kind of match')
        group, text, make = kinds[k]
        gs = dict((x, None) for x in names)
        m = Match(s, e, gs, strs.getitem(E, source, slice(s, e)), None)
        m.h = h
        if group:
            gs[group] = text(E, m) if callable(text) else text
        m.kind, m.group_text = group, gs.get(group)
        m.after, m.token = make(E, m)
        cur[:] = [m]
        return m
    return SymSeq(E, 'matches', elem, spec)
