"""The loop rule.

A loop over a sequence of unknown length (or a while loop with symbolic
conditions) is checked by induction: on one path an arbitrary iteration is
executed from an arbitrary state that satisfies the invariant and the invariant
is checked again at its end; on the other path execution continues after the
loop.  What the loop modifies is discovered (cells written by the iteration);
the invariant is a conjunction of couplings between modified cells and the
ghost state of the sequence's Spec, and of arithmetic candidates, dropped when
they do not hold (Houdini).
"""
import z3
from .engine import Cut, Restart, Unsupported
from .values import *  # noqa
from .values import ABSENT, mkstr, parts_of


def is_int(v):
    return isinstance(v, SymInt) or (isinstance(v, int) and not isinstance(v, bool))


def zint(v):
    return v.z if isinstance(v, SymInt) else z3.IntVal(int(v))


class LoopRule(object):
    def __init__(self, E, site, info, seq=None, fr=None, depth=0):
        self.depth = depth
        self.E, self.site, self.info, self.seq, self.fr = E, site, info, seq, fr
        self.spec = seq.spec if seq is not None and seq.spec is not None else None
        self.hook = None
        if seq is None:
            h = E.loop_hooks.get(site[1])
            if h is not None:
                self.hook = h
                self.spec = h
        self.name = seq.name if seq is not None else '%s@%s' % (site[1], site[2])

    # ------------------------------------------------------------ cells
    def get(self, cell):
        E = self.E
        o = E.registry.get(cell[1])
        if o is None:
            raise Unsupported('cell %r' % (cell,))
        if cell[0] == 'local':
            return o.locals.get(cell[2], ABSENT)
        if cell[0] == 'attr':
            return o.attrs.get(cell[2], ABSENT)
        if cell[0] == 'list':
            return list(o.items)
        if cell[0] == 'dict':
            return [list(e) for e in o.entries]
        if cell[0] == 'obs':
            return o.observer[cell[2]]
        if cell[0] == 'iter':
            return o
        raise Unsupported('loop modifies %r' % (cell,))

    def set(self, cell, v):
        E = self.E
        o = E.registry[cell[1]]
        if cell[0] == 'local':
            if v is ABSENT:
                o.locals.pop(cell[2], None)
            else:
                o.locals[cell[2]] = v
        elif cell[0] == 'attr':
            o.attrs[cell[2]] = v
        elif cell[0] == 'list':
            o.items = v if isinstance(v, list) else [v]
        elif cell[0] == 'obs':
            o.observer[cell[2]] = v
        elif cell[0] == 'iter':
            o.dead = True
        elif cell[0] == 'dict':
            if isinstance(v, Poison):
                o.poisoned = True
            else:
                o.entries = [list(e) for e in v]
        E.wrote(cell)

    # ------------------------------------------------------------ candidates
    def candidates(self, cell, entry):
        """Couplings to try, best first: (label, check at entry, value)"""
        out = []
        spec = self.spec
        if cell[0] in ('dict', 'iter'):
            return [('poison',)]
        if cell[0] == 'list':
            if spec is not None:
                out += [('stream', s) for s in spec.streams]
                out += [('custom', i) for i in range(len(getattr(spec, 'couplings', ())))]
            out.append(('extended',))
            out.append(('poison',))
            return out
        if spec is not None:
            out += [('ghost', g) for g in sorted(self.g0)]
            out += [('custom', i) for i in range(len(getattr(spec, 'couplings', ())))]
        if entry is ABSENT:
            return out + [('poison',)]
        if entry is None and getattr(spec, 'optional', False):
            return out + [('opt',), ('poison',)]
        if isinstance(entry, (str, SymStr)) and spec is not None:
            out += [('join', s) for s in spec.streams]
        if is_int(entry):
            out.append(('int',))
        elif isinstance(entry, (bool, SymBool)):
            if spec is not None and isinstance(entry, bool):
                out += [('nonempty', s, entry) for s in spec.streams]
            out.append(('bool',))
        elif isinstance(entry, (str, SymStr)):
            out.append(('str',))
        out.append(('poison',))
        return out

    def enter(self):
        E = self.E
        self.entry_ids = E.ids
        self.entry = {}
        self.g0 = self.spec.init(E) if self.spec is not None else {}
        self.cells = {}
        for cell, i in self.info.cells.items():
            if cell[1] not in E.registry:
                raise Unsupported('loop cell vanished')
            v = self.get(cell)
            self.entry[cell] = v
            cands = self.candidates(cell, v)
            # initial coupling
            while True:
                c = cands[i]
                if c[0] == 'ghost' and not E.same(v, self.g0[c[1]]):
                    i += 1
                    continue
                if c[0] == 'custom' and not self.spec.couplings[c[1]].initial(E, v, self.g0):
                    i += 1
                    continue
                break
            self.info.cells[cell] = i
            self.cells[cell] = cands[i]
            self.info.final[cell] = cands[i]
        self.ints = [c for c, k in self.cells.items() if k[0] == 'int']
        self.opts = [c for c, k in self.cells.items() if k[0] == 'opt']
        self.preds = self.houdini()
        vals = self.numbers(self.entry)
        g = {k: zint(v) for k, v in self.g0.items() if is_int(v)}
        for label, fn in self.preds:
            if label not in self.info.dropped and not E.valid(fn(vals, g)):
                self.info.dropped.add(label)
        self.e0 = vals
        if hasattr(self.spec, 'invariant'):
            E.ensure('loop invariant holds before the loop', self.spec.invariant(E, self.g0))

    def numbers(self, values=None):
        f = values.get if values is not None else self.get
        d = {c: zint(f(c)) for c in self.ints}
        for c in self.opts:
            v = f(c)
            d[c] = None if v is None else zint(v)
        return d

    def houdini(self):
        E = self.E
        out = []
        cs = sorted(self.ints, key=str)
        e0 = {c: zint(self.entry[c]) for c in cs}
        gs = [k for k, v in self.g0.items() if is_int(v)]
        terms = E.houdini_terms(E) if E.houdini_terms is not None else {}

        def add(label, fn):
            out.append((label, fn))
        for c in cs:
            add(('ge0', c), lambda v, g, c=c: v[c] >= 0)
            add(('eqentry', c), lambda v, g, c=c: v[c] == e0[c])
            add(('geentry', c), lambda v, g, c=c: v[c] >= e0[c])
            add(('leentry', c), lambda v, g, c=c: v[c] <= e0[c])
            for k in gs:
                add(('eqg', c, k), lambda v, g, c=c, k=k: v[c] == g[k])
                add(('geg', c, k), lambda v, g, c=c, k=k: v[c] >= g[k])
                add(('leg', c, k), lambda v, g, c=c, k=k: v[c] <= g[k])
            for n, t in terms.items():
                add(('let', c, n), lambda v, g, c=c, t=t: v[c] <= t)
                add(('eqt', c, n), lambda v, g, c=c, t=t: v[c] == t)
        for i, a in enumerate(cs):
            for b in cs[i + 1:]:
                add(('eq', a, b), lambda v, g, a=a, b=b: v[a] == v[b])
                add(('sum', a, b), lambda v, g, a=a, b=b: v[a] + v[b] == e0[a] + e0[b])
                add(('dif', a, b), lambda v, g, a=a, b=b: v[a] - v[b] == e0[a] - e0[b])
        # equalities under a condition given by the Spec, also with values that may be None
        for n, guard in getattr(self.spec, 'guards', ()):
            ks = [('c', c) for c in cs] + [('c', c) for c in sorted(self.opts, key=str)] + [('g', k) for k in gs]

            def val(k, v, g):
                return v[k[1]] if k[0] == 'c' else g[k[1]]
            for i, a in enumerate(ks):
                for b in ks[i + 1:]:
                    def fn(v, g, a=a, b=b, guard=guard):
                        x, y = val(a, v, g), val(b, v, g)
                        return z3.BoolVal(True) if x is None or y is None else z3.Implies(guard(v, g), x == y)
                    add(('guarded', n, a, b), fn)
        return out

    # ------------------------------------------------------------ states
    def havoc(self, generic):
        E = self.E
        self.generic = generic
        spec = self.spec
        if spec is not None:
            self.g = spec.arb(E)
            if not generic and hasattr(spec, 'final'):
                self.g = spec.final(E, self.g)
            if getattr(spec, 'inexact', False):
                E.exact = False
        else:
            self.g = {}
        tag = 'prefix' if generic else 'full'
        for cell, c in self.cells.items():
            v0 = self.entry[cell]
            if c[0] == 'ghost':
                v = self.g[c[1]]
            elif c[0] == 'custom':
                v = self.spec.couplings[c[1]].value(E, self.g, v0, tag)
            elif c[0] == 'stream':
                v = v0 + [Run((self.name, c[1], tag), self.seq, c[1])]
            elif c[0] == 'extended':
                v = v0 + [Run((self.name, str(cell), 'some'), self.seq, None)]
                E.exact = False
            elif c[0] == 'join':
                v = mkstr(list(parts_of(v0)) + [E.join_atom('', Run((self.name, c[1], tag), self.seq, c[1]))])
            elif c[0] == 'int':
                v = SymInt(z3.Int(E.fresh('%s.%s' % (self.name, cell[2] if len(cell) > 2 else ''))))
                E.exact = False
            elif c[0] == 'opt':
                v = None
                if E.choose(2, 'None or a number'):
                    v = SymInt(z3.Int(E.fresh('%s.%s' % (self.name, cell[2] if len(cell) > 2 else ''))))
                E.exact = False
            elif c[0] == 'nonempty':
                n = Run((self.name, c[1], tag), self.seq, c[1]).length()
                E.add(n >= 0)
                v = SymBool(n == 0) if c[2] else SymBool(n > 0)
            elif c[0] == 'bool':
                v = SymBool(z3.Bool(E.fresh('%s.%s' % (self.name, cell[2]))))
                E.exact = False
            elif c[0] == 'str':
                v = SymStr([Atom(E.fresh('%s.%s' % (self.name, cell[2])))])
                E.exact = False
            else:
                v = Poison('modified by the loop over %s' % self.name)
            self.set(cell, v)
        self.h = self.numbers()
        g = {k: zint(v) for k, v in self.g.items() if is_int(v)}
        for label, fn in self.preds:
            if label not in self.info.dropped:
                E.add(fn(self.h, g))
        if hasattr(self.spec, 'invariant'):
            E.add(self.spec.invariant(E, self.g))
        if self.spec is not None and hasattr(self.spec, 'after_havoc'):
            self.spec.after_havoc(E, self, generic)

    def begin(self):
        E = self.E
        self.writes = set()
        self.active = set(E.active_gens())
        E.write_stack.append(self.writes)
        self.ids0 = E.ids
        E.note('arbitrary iteration of %s' % self.name)

    def leave(self):
        if self.writes in self.E.write_stack:
            self.E.write_stack = [w for w in self.E.write_stack if w is not self.writes]

    def end(self, elem=None):
        E = self.E
        self.leave()
        new = False
        for cell in sorted(self.writes, key=str):
            if cell[0] == 'gen':
                if cell[1] not in self.active and cell[1] <= self.entry_ids:
                    raise Unsupported('loop advances another iterator')
                continue
            if cell[1] > self.entry_ids or cell in self.info.cells:
                continue
            self.info.cells[cell] = 0
            new = True
        if new:
            raise Restart(self.depth)
        E.audit('iteration of %s' % self.name)
        if self.spec is not None:
            g2, outs = self.spec.step(E, self.g, elem)
        else:
            g2, outs = {}, {}
        for cell, c in self.cells.items():
            v, v0 = self.get(cell), self.entry[cell]
            ok = True
            if c[0] == 'ghost':
                ok = E.same(v, g2[c[1]])
            elif c[0] == 'custom':
                ok = self.spec.couplings[c[1]].holds(E, v, g2, v0, outs, self)
            elif c[0] == 'stream':
                want = v0 + [Run((self.name, c[1], 'prefix'), self.seq, c[1])] + list(outs.get(c[1], []))
                ok = E.same_items(v, want)
                if not ok:
                    E.last_mismatch = 'iteration produced %r, specified %r' % (v[len(v0) + 1:], outs.get(c[1]))
            elif c[0] == 'extended':
                n = len(v0) + 1
                ok = len(v) >= n and E.same_items(v[:len(v0)], v0) and isinstance(v[len(v0)], Run)
            elif c[0] == 'join':
                want = mkstr(list(parts_of(v0)) + [E.join_atom('', Run((self.name, c[1], 'prefix'), self.seq, c[1]))]
                             + [p for x in outs.get(c[1], []) for p in parts_of(E.str_(x))])
                ok = isinstance(v, (str, SymStr)) and E.same(v, want)
            elif c[0] == 'nonempty':
                n = Run((self.name, c[1], 'prefix'), self.seq, c[1]).length() + len(outs.get(c[1], []))
                want = SymBool(n == 0) if c[2] else SymBool(n > 0)
                ok = E.same(v, want)
            elif c[0] == 'int':
                ok = is_int(v)
            elif c[0] == 'opt':
                ok = v is None or is_int(v)
            elif c[0] == 'bool':
                ok = isinstance(v, (bool, SymBool))
            elif c[0] == 'str':
                ok = isinstance(v, (str, SymStr))
            if not ok:
                # the mismatch is a definite refutation only if no other coupling works
                self.info.cells[cell] += 1
                self.info.why = (cell, c, getattr(E, 'last_mismatch', ''))
                cands = self.candidates(cell, v0)
                if self.info.cells[cell] >= len(cands):
                    raise Unsupported('no coupling for %r' % (cell,))
                if c[0] in ('stream', 'join', 'ghost'):
                    E.coupling_failed(self, cell, c)
                raise Restart(self.depth)
        vals = self.numbers()
        g = {k: zint(v) for k, v in g2.items() if is_int(v)}
        dropped = False
        for label, fn in self.preds:
            if label not in self.info.dropped and not E.valid(fn(vals, g)):
                self.info.dropped.add(label)
                dropped = True
        if dropped:
            raise Restart(self.depth)
        if hasattr(self.spec, 'invariant'):
            E.ensure('loop invariant is preserved', self.spec.invariant(E, g2))
