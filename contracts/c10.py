"""C10: line tables and line numbers."""
from .lib import *  # noqa
from .lib import harness, instance, must, Stage, esc
from .dom import Dom, X, plain, pure

HARNESSES = []
L = 'kajiki.lnotab.'


def zi(v):
    return v.z if isinstance(v, SymInt) else z3.IntVal(v)


def observed(E, fn, **state):
    """A list that feeds what is appended to it to a ghost machine."""
    out = PyList(E, [])
    E.registry[out.id] = out
    out.observer = dict(state)

    def obs(E, l, v):
        new = fn(E, dict(l.observer), v)
        for k, x in new.items():
            if x is not l.observer[k]:
                l.observer[k] = x
                E.wrote(('obs', l.id, k))
    out.observer_fn = obs
    return out


def norm(z):
    z = z3.simplify(z)
    return z.as_long() if z3.is_int_value(z) else SymInt(z)


class Table(Spec):
    """Pairs (offset, line) in ascending order; ghost: the last pair."""
    streams = ('out',)

    def __init__(self, first):
        self.first = first
        self.cur = None

    def init(self, E):
        return {'byte': self.first[0], 'line': self.first[1]}

    def arb(self, E):
        self.g = {'byte': SymInt(z3.Int(E.fresh('byte'))), 'line': SymInt(z3.Int(E.fresh('line')))}
        E.add(self.g['byte'].z >= zi(self.first[0]))
        E.add(self.g['line'].z >= zi(self.first[1]))
        return self.g

    def elem(self, E, h):
        b, l = SymInt(z3.Int(E.fresh('next byte'))), SymInt(z3.Int(E.fresh('next line')))
        E.add(z3.And(b.z >= self.g['byte'].z, l.z >= self.g['line'].z))
        self.cur = (b, l)
        return (b, l)

    def step(self, E, g, elem):
        return {'byte': elem[0], 'line': elem[1]}, {'out': [elem]}


@harness(HARNESSES, 'lnotab: encoding any table', [L + 'lnotab'])
def h_encode(E):
    """Decoding what is produced, as the interpreter does, gives at every offset the line recorded for it."""
    first = SymInt(z3.Int('first'))
    b0, l0 = SymInt(z3.Int('b0')), SymInt(z3.Int('l0'))
    E.add(z3.And(first.z >= 0, b0.z >= 0, l0.z >= first.z))
    spec = Table((b0, l0))
    spec.cur = (b0, l0)
    seq = SymSeq(E, 'pairs', spec.elem, spec)
    seq.run_elem = lambda E, r: seq
    pairs = PyList(E, [(b0, l0), Run(('pairs', 'out', 'full'), seq, 'out')])
    E.registry[pairs.id] = pairs

    def machine(E, s, v):
        z = zi(v)
        if s['half'] == 0 or isinstance(s['half'], SymInt) and E.valid(s['half'].z == 0):
            E.ensure('an unsigned byte', z3.And(z >= 0, z <= 255))
            s['addr'] = norm(zi(s['addr']) + z)
            s['half'] = 1
        else:
            E.ensure('a non-negative signed byte', z3.And(z >= 0, z <= 127))
            E.ensure('the line changes only at the offset it is recorded for', z3.Or(z == 0, zi(s['addr']) == zi(spec.cur[0])))
            s['line'] = norm(zi(s['line']) + z)
            s['half'] = 0
        return s
    out = observed(E, machine, addr=0, line=first, half=0)
    E.drain(E.call(E.get(L + 'lnotab'), [pairs, first], {}), out)
    E.ensure('the offset reached is the last one', zi(out.observer['addr']) == zi(spec.g['byte']))
    E.ensure('the line reached is the last one', zi(out.observer['line']) == zi(spec.g['line']))
    E.ensure('whole pairs', out.observer['half'] == 0 or E.valid(zi(out.observer['half']) == 0))
    E.reachable('end')


class Bytes(Spec):
    """Pairs of bytes of a line table; ghost: offset and line decoded so far, and the line of the probed offset."""
    streams = ('out',)
    optional = True

    def __init__(self, first, probe):
        self.first, self.probe = first, probe
        self.guards = [('before the probe', lambda v, g: g['addr'] <= probe), ('after the probe', lambda v, g: g['addr'] > probe)]

    def init(self, E):
        return {'addr': 0, 'line': self.first, 'at': self.first}

    def arb(self, E):
        self.g = {k: SymInt(z3.Int(E.fresh(k))) for k in ('addr', 'line', 'at')}
        E.add(self.g['addr'].z >= 0)
        return self.g

    def elem(self, E, h):
        b, l = SymInt(z3.Int(E.fresh('byte'))), SymInt(z3.Int(E.fresh('delta')))
        E.add(z3.And(b.z >= 0, b.z <= 255, l.z >= 0, l.z <= 255))
        return (b, l)

    def step(self, E, g, elem):
        b, l = elem[0].z, elem[1].z
        addr, line = zi(g['addr']) + b, zi(g['line']) + z3.If(l > 127, l - 256, l)
        return dict(addr=SymInt(addr), line=SymInt(line), at=SymInt(z3.If(addr <= self.probe, line, zi(g['at'])))), {'out': [elem]}


@harness(HARNESSES, 'lnotab_numbers: decoding any table', [L + 'lnotab_numbers'])
def h_decode(E):
    """The last pair not after an offset has the line the table records for it, for any offset."""
    first, probe = SymInt(z3.Int('first')), z3.Int('probe')
    E.add(z3.And(first.z >= 0, probe >= 0))
    spec = Bytes(first, probe)
    seq = SymSeq(E, 'bytes', spec.elem, spec)
    seq.run_elem = lambda E, r: seq
    E.overrides[L + 'byte_pairs'] = lambda I, a, kw: seq
    E.assumed.add('byte_pairs: the bytes, in pairs (proved below for tables of up to 6 pairs)')

    def machine(E, s, v):
        b, l = zi(v[0]), zi(v[1])
        E.ensure('offsets ascend', b >= zi(s['last']))
        s['got'] = norm(z3.If(b <= probe, l, zi(s['got'])))
        s['last'] = norm(b)
        return s
    out = observed(E, machine, got=first, last=0)
    E.drain(E.call(E.get(L + 'lnotab_numbers'), [SymStr([Atom('table')]), first], {}), out)
    E.ensure('the line recorded for the offset', zi(out.observer['got']) == zi(spec.g['at']))
    E.reachable('end')


@harness(HARNESSES, 'byte_pairs', [L + 'byte_pairs'], bound='tables of up to 6 pairs')
def h_pairs(E):
    n = E.choose(7, 'pairs')
    bs = [SymInt(z3.Int('b%d' % i)) for i in range(2 * n)]
    t = PyList(E, bs)
    E.registry[t.id] = t
    got = E.drain(E.call(E.get(L + 'byte_pairs'), [t], {})).items
    E.ensure('the bytes, in pairs', len(got) == n and all(len(p) == 2 and p[0] is bs[2 * i] and p[1] is bs[2 * i + 1] for i, p in enumerate(got)))
    E.reachable('end')


def lines_of(E, S):
    """Physical lines of the generated code before each generated line, and the line table it was given."""
    tables = []
    E.overrides['kajiki.template._Template.annotate_lnotab'] = lambda I, a, kw: tables.append([tuple(x) for x in a[1].items])
    return tables


def h_table(E, which):
    """Each line generated for an expression is recorded as the line of the node, whatever is around it."""
    S = Stage(E)
    heights = {}

    def source_lines(I, a, kw):
        for name, k in heights.items():
            if any(isinstance(p, Atom) and p.key == name for p in parts_of(a[0])):
                return I.newlist(['x'] * k)
        return I.newlist([a[0]])
    E.overrides['kajiki.ir.source_lines'] = source_lines
    tables = lines_of(E, S)
    order = []
    seen = []

    def expr(name, lo):
        h = S.H.expr(name)
        n = SymInt(z3.Int('line(%s)' % name))
        E.add(z3.And(n.z >= 1, n.z >= lo))
        heights[name] = 1 + E.choose(2, 'lines of ' + name)
        order.append((name, n))
        return h, n

    def at(node, n):
        node.attrs['lineno'] = n
        return node
    a, la = expr('a', 1)
    if which == 0:
        b, lb = expr('b', la.z)
        main = [at(S.node('ExprNode', a), la), at(S.node('ExprNode', b), lb)]
    else:
        kind = ('IfNode', 'ForNode', 'SwitchNode')[which - 1]
        b, lb = expr('b', la.z)
        inner = at(S.node('ExprNode', b), lb)
        if kind == 'ForNode':
            n = S.node('ForNode', mkstr(['i in '] + list(parts_of(a))), inner)
        elif kind == 'SwitchNode':
            n = S.node('SwitchNode', a, at(S.node('CaseNode', b), lb))
        else:
            n = S.node('IfNode', a, inner)
        main = [at(n, la)]
    c, lc = expr('c', 1)
    f = at(S.node('DefNode', 'f()', at(S.node('ExprNode', c), lc)), lc)
    d, ld = expr('d', la.z)
    main.append(at(S.node('ExprNode', d), ld))
    E.add(ld.z >= lb.z)
    defs = [at(S.node('DefNode', '__main__()', *main), 1), f]
    if E.choose(2, 'order of the functions'):
        defs.reverse()
    t = S.node('TemplateNode', E.newlist([]), E.newlist(defs))
    t.attrs['filename'] = 't'
    E.call(E.get('kajiki.template.from_ir'), [t], {})
    E.ensure('one table', len(tables) == 1)
    table = dict(tables[0])
    E.ensure('every line once', sorted(table) == list(range(1, len(table) + 1)))
    # physical position of each expression in the code
    texts = code_lines(S.H.rope)
    pos = 1
    for t in texts:
        names = [p.key for p in t if isinstance(p, Atom) and p.key in heights]
        k = heights[names[0]] if names else 1
        for nm in names:
            for j in range(k):
                must(E, 'the line of the node', table.get(pos + j), dict(order)[nm], '%s at line %d of the code: %r' % (nm, pos + j, table))
                seen.append(nm)
        pos += k
    E.ensure('every expression is in the code', set(seen) == set(heights))
    E.reachable('end')


def code_lines(rope):
    out = [[]]
    for p in parts_of(rope):
        if isinstance(p, str):
            xs = p.split('\n')
            out[-1].append(xs[0])
            out += [[x] for x in xs[1:]]
        else:
            out[-1].append(p)
    return out


for w, what in enumerate(('expressions', 'py:if', 'py:for', 'py:switch')):
    harness(HARNESSES, 'line table of a template: %s' % what, ['kajiki.template.from_ir', 'kajiki.ir.generate_python'], bound='2 functions, 4 expressions of 1 or 2 lines; any line numbers')(lambda E, w=w: h_table(E, w))


@harness(HARNESSES, 'text templates: lines of tokens in any source', ['kajiki.text._Scanner.__iter__', 'kajiki.text._Scanner.text', 'kajiki.text._Scanner.expr'])
def h_text_lines(E):
    """Each text and expression is given the line it ends on, each tag the line its name is on."""
    from . import c04
    c04.scan(E, lines=True)


@harness(HARNESSES, 'XML templates: lines of expressions in any text', [X + '_TextCompiler.__iter__', X + '_TextCompiler.text', X + '_TextCompiler.expr', X + '_TextCompiler.real_lineno'])
def h_xml_lines(E):
    """Each text and expression is given the line it starts on."""
    from . import c05
    c05.scan(E, lines=True)


@harness(HARNESSES, 'text templates: lines of tags', ['kajiki.text._Scanner._get_tag_bare', 'kajiki.text._Scanner.tag'])
def h_bare_line(E):
    """A %tag in any source is on the line its name is on; what follows on the next one."""
    from . import c04
    c04.bare(E, lines=True)


SOURCES = [('a}b', 0, 0), (' a }\nb', 0, 0), ('\n a}b', 1, 1), ('\n\n\na}', 3, 3), ('(a +\n b)}\n', 0, 1), ('\n(a +\n\n b)}c\n', 1, 3), ("'''\n\n'''}", 0, 2)]


@harness(HARNESSES, 'XML templates: lines of ${ }', [X + '_TextCompiler._get_braced_expr'], bound='%d expressions, any line before' % len(SOURCES))
def h_braced_lines(E):
    D = Dom(E)
    first = SymInt(z3.Int('line'))
    for src, start, all_ in SOURCES:
        tc = E.call(E.get(X + '_TextCompiler'), ['f', '${' + src, first], dict(compiler_instance=D.compiler()))
        E.setattr(tc, 'pos', 2)
        n = E.call_method(tc, '_get_braced_expr')
        must(E, 'the line it starts on', n.attrs['lineno'], SymInt(first.z + start), repr(src))
        E.ensure('every line counted', E.getattr(tc, 'lineno') == all_, repr(src))
    E.reachable('end')
