"""Text: ropes of constants and symbolic atoms."""
import re
import z3
from .engine import Unsupported, Cut
from .values import *  # noqa
from .values import ABSENT, zesc, mkstr, parts_of, atom_of


def zs(s):
    return z3.StringVal(zesc(s)) if isinstance(s, str) else s.z


def base_map(a):
    """(base atom, character map) of an atom."""
    return (a.base, a.cmap) if a.base is not None else (a, {})


def mapped(base, cmap):
    cmap = {c: v for c, v in cmap.items() if v != c}
    if not cmap:
        return base
    return Atom('map(%s,%r)' % (base.key, sorted(cmap.items())), base=base, cmap=cmap)


def has_mapped(s):
    return isinstance(s, SymStr) and any(isinstance(p, Atom) and p.base is not None for p in s.parts)


def _align(a, b):
    """Strip what is equal at both ends: -> (conditions, rest a, rest b)"""
    a, b = list(parts_of(a)), list(parts_of(b))
    conds = []

    def strip(x, y, end):
        i = -1 if end else 0
        while x and y:
            p, q = x[i], y[i]
            if isinstance(p, str) and isinstance(q, str):
                n = 0
                m = min(len(p), len(q))
                if end:
                    while n < m and p[-1 - n] == q[-1 - n]:
                        n += 1
                else:
                    while n < m and p[n] == q[n]:
                        n += 1
                if n == 0:
                    return
                p2, q2 = (p[:len(p) - n], q[:len(q) - n]) if end else (p[n:], q[n:])
                x[i], y[i] = p2, q2
                if not p2:
                    x.pop(i)
                if not q2:
                    y.pop(i)
                if p2 and q2:
                    return
                continue
            if isinstance(p, Atom) and isinstance(q, Atom):
                if p == q:
                    x.pop(i)
                    y.pop(i)
                    continue
                (pb, pm), (qb, qm) = base_map(p), base_map(q)
                if pb == qb:
                    for c in sorted(set(pm) | set(qm)):
                        if pm.get(c, c) != qm.get(c, c):
                            conds.append(z3.Not(z3.Contains(pb.z, z3.StringVal(zesc(c)))))
                    x.pop(i)
                    y.pop(i)
                    continue
            return
    strip(a, b, False)
    strip(a, b, True)
    return conds, a, b


def expand(I, s):
    """The rope with every text that was split into space, core, space written as these pieces."""
    if not isinstance(s, SymStr):
        return s
    out, changed = [], False
    for p in s.parts:
        if isinstance(p, Atom) and p.slice is None:
            b, m = base_map(p)
            d = I.cache.get(('strip', (b,)))
            if d is not None:
                out += [d[0], mapped(d[1], m), d[2]]
                changed = True
                continue
        out.append(p)
    return mkstr(out) if changed else s


def same(I, a, b):
    """bool or a z3 formula that implies (and is implied by, where I.exact stays) a == b"""
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    a, b = expand(I, a), expand(I, b)
    conds, x, y = _align(a, b)
    if x or y:
        # adjacent slices of one text
        x, y = merge_slices(I, x), merge_slices(I, y)
        c2, x, y = _align(mkstr(x), mkstr(y))
        conds += c2
    if x or y:
        # pieces known to be empty
        x2, y2 = [[p for p in w if isinstance(p, str) or p.slice is not None or not I.valid(z3.Length(base_map(p)[0].z) == 0)] for w in (x, y)]
        if len(x2) < len(x) or len(y2) < len(y):
            c2, x, y = _align(mkstr(x2), mkstr(y2))
            conds += c2
    if x or y:
        X, Y = mkstr(x), mkstr(y)
        if isinstance(X, str) and isinstance(Y, str):
            return False
        sl = slice_eq(I, x, y)
        if sl is not None:
            conds.append(sl)
        else:
            if has_mapped(X) or has_mapped(Y):
                I.exact = False
            conds.append(zs(X) == zs(Y))
    if not conds:
        return True
    return z3.And(*conds) if len(conds) > 1 else conds[0]


def slice_eq(I, x, y):
    """Slices of one text are equal when their ends are."""
    if len(x) > 1 or len(y) > 1:
        return None
    p, q = (x[0] if x else ''), (y[0] if y else '')

    def ends(s):
        if isinstance(s, Atom):
            if s.slice is not None:
                return s.slice
            return (s, z3.IntVal(0), z3.Length(s.z))
        return None
    ep, eq_ = ends(p), ends(q)
    if ep is not None and eq_ is not None and (p.slice is not None or q.slice is not None) and ep[0] == eq_[0]:
        return z3.Or(z3.And(ep[1] == eq_[1], ep[2] == eq_[2]), z3.And(ep[1] == ep[2], eq_[1] == eq_[2]))
    if ep is not None and q == '' and p.slice is not None:
        return ep[1] == ep[2]
    if eq_ is not None and p == '' and q.slice is not None:
        return eq_[1] == eq_[2]
    return None


def merge_slices(I, parts):
    out = []
    for p in parts:
        if out and isinstance(p, Atom) and p.slice and isinstance(out[-1], Atom) and out[-1].slice and out[-1].slice[0] == p.slice[0]:
            q = out[-1]
            if z3.eq(z3.simplify(q.slice[2]), z3.simplify(p.slice[1])) or I.valid(q.slice[2] == p.slice[1]):
                out[-1] = mkslice(q.slice[0], q.slice[1], p.slice[2])
                continue
        out.append(p)
    return out


def mkslice(base, a, b):
    a, b = z3.simplify(a), z3.simplify(b)
    return Atom('%s[%s:%s]' % (base.key, a, b), z3.SubString(base.z, a, b - a), slice=(base, a, b))


def eq(I, a, b):
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    f = same(I, a, b)
    return f if isinstance(f, bool) else SymBool(f)


def contains(I, s, x):
    if isinstance(s, str) and isinstance(x, str):
        return x in s
    if not isinstance(x, (str, SymStr)):
        I.throw('TypeError', 'requires string as left operand')
    s = expand(I, s)
    if isinstance(s, str):                     # symbolic needle in a constant
        n = len(s)
        subs = sorted(set(s[i:j] for i in range(n + 1) for j in range(i, n + 1))) if n <= 6 else None
        if subs is not None:
            return SymBool(z3.Or(*[zs(x) == z3.StringVal(zesc(t)) for t in subs]))
        return SymBool(z3.Contains(zs(s), zs(x)))
    if isinstance(x, str):
        if x == '':
            return True
        if any(isinstance(p, str) and x in p for p in s.parts):
            return True
        if len(x) == 1:
            cs = []
            for p in s.parts:
                if isinstance(p, Atom):
                    b, m = base_map(p)
                    lacks = I.cache.get(('lacks', b.key), '')
                    if ('space', b.key) in I.cache and not x.isspace() and not m:
                        continue
                    for d, img in sorted(m.items()):
                        if x in img and d not in lacks:
                            cs.append(z3.Contains(b.z, z3.StringVal(zesc(d))))
                    if x not in m and x not in lacks:
                        cs.append(z3.Contains(b.z, z3.StringVal(zesc(x))))
            return SymBool(z3.Or(*cs)) if cs else False
    if has_mapped(s):
        I.exact = False
    return SymBool(z3.Contains(zs(s), zs(x)))


def iterate(I, s):
    raise Unsupported('iterating over symbolic text')


def repeat(I, s, n):
    if s == '':
        return ''
    return SymStr([Atom('repeat(%r,%s)' % (s, z3.simplify(n.z)))])


def format_mod(I, fmt, args):
    if not isinstance(fmt, str):
        raise Unsupported('symbolic format')
    args = I.norm(args)
    if isinstance(args, PyDict):
        vals, named = [], args
    else:
        vals, named = (list(args) if isinstance(args, tuple) else [args]), None
    out = []
    pos = 0
    vi = 0
    for m in re.finditer(r'%(?:\((\w+)\))?([-0-9.]*)([srdi%x])', fmt):
        out.append(fmt[pos:m.start()])
        pos = m.end()
        if m.group(3) == '%':
            out.append('%')
            continue
        if m.group(1):
            v = I.getitem(named, m.group(1))
        else:
            if vi >= len(vals):
                I.throw('TypeError', 'not enough arguments for format string')
            v = vals[vi]
            vi += 1
        v = I.norm(v)
        if m.group(2):
            if isinstance(v, (int, str)):
                out.append(('%' + m.group(2) + m.group(3)) % v)
                continue
            out.append(Atom('fmt(%s,%r)' % (m.group(0), v)))
            continue
        if m.group(3) == 'r':
            out.extend(parts_of(I.repr_(v)))
        elif m.group(3) == 's':
            out.extend(parts_of(I.str_(v)))
        else:
            v = I.force(v)
            if isinstance(v, (SymInt, int)):
                out.extend(parts_of(I.str_(v)))
            else:
                I.throw('TypeError', '%d format: a number is required')
    if named is None and vi < len(vals):
        I.throw('TypeError', 'not all arguments converted during string formatting')
    out.append(fmt[pos:])
    if '%' in re.sub(r'%(?:\((\w+)\))?([-0-9.]*)([srdi%x])', '', fmt):
        raise Unsupported('format %r' % fmt)
    return mkstr(out)


def as_atom(I, s):
    a = atom_of(s)
    if a is not None:
        return a
    if has_mapped(s):
        raise Unsupported('position in mapped text')
    z = z3.simplify(s.z)
    return Atom('(%r)' % (s.parts,), z)


def getitem(I, s, i):
    if isinstance(i, slice):
        lo, hi, st = [I.norm(x) for x in (i.start, i.stop, i.step)]
        if isinstance(s, str) and not any(isinstance(x, Val) for x in (lo, hi, st)):
            return s[lo:hi:st]
        if st is not None and st != 1:
            raise Unsupported('string step')
        if (lo is None or lo == 0) and hi is None:
            return s
        # constant ends of a rope
        if isinstance(s, SymStr):
            ps = list(s.parts)
            if isinstance(lo, int) and lo > 0 and isinstance(ps[0], str) and len(ps[0]) >= lo and hi is None:
                return mkstr([ps[0][lo:]] + ps[1:])
            if (lo is None or lo == 0) and isinstance(hi, int) and hi < 0 and isinstance(ps[-1], str) and len(ps[-1]) >= -hi:
                return mkstr(ps[:-1] + [ps[-1][:hi]])
            if (lo is None or lo == 0) and isinstance(hi, int) and hi >= 0 and isinstance(ps[0], str) and len(ps[0]) >= hi:
                return ps[0][:hi]
            if hi is None and isinstance(lo, int) and lo < 0 and isinstance(ps[-1], str) and len(ps[-1]) >= -lo:
                return ps[-1][lo:]
        s = expand(I, s)
        n = z3.IntVal(len(s)) if isinstance(s, str) else z3.Sum([I.atom_len(p) for p in s.parts])
        # a rope cut exactly between its parts
        if isinstance(s, SymStr) and (len(s.parts) > 1 or has_mapped(s)):
            r = cut_rope(I, s, lo, hi, n)
            if r is not None:
                return r
        a = clamp(I, lo, 0, n)
        b = clamp(I, hi, n, n)
        if not I.valid(a <= b):
            if I.branch(a > b):
                return ''
        if isinstance(s, str):
            base = Atom(repr(s), zs(s))
        else:
            base = as_atom(I, s)
        off = z3.IntVal(0)
        if base.slice is not None:
            base, off = base.slice[0], base.slice[1]
        if base.base is not None:
            raise Unsupported('position in mapped text')
        if z3.eq(z3.simplify(a), z3.simplify(b)):
            return ''
        return SymStr([mkslice(base, off + a, off + b)])
    i = I.force(i)
    if isinstance(s, str) and isinstance(i, int):
        if not -len(s) <= i < len(s):
            I.throw('IndexError', 'string index out of range')
        return s[i]
    if isinstance(s, SymStr) and isinstance(i, int):
        if i == 0 and isinstance(s.parts[0], str):
            return s.parts[0][0]
        if i == -1 and isinstance(s.parts[-1], str):
            return s.parts[-1][-1]
    n = z3.IntVal(len(s)) if isinstance(s, str) else z3.Sum([I.atom_len(p) for p in s.parts])
    z = i.z if isinstance(i, SymInt) else z3.IntVal(i)
    if not I.branch(z3.And(z < n, z >= -n)):
        I.throw('IndexError', 'string index out of range')
    z = clamp(I, SymInt(z), 0, n)
    base = Atom(repr(s), zs(s)) if isinstance(s, str) else as_atom(I, s)
    off = z3.IntVal(0)
    if base.slice is not None:
        base, off = base.slice[0], base.slice[1]
    return SymStr([mkslice(base, off + z, off + z + 1)])


def cut_rope(I, s, lo, hi, n):
    """A slice whose ends are boundaries of the parts, or lie in constant parts."""
    def place(v, default):
        if v is None:
            return default
        z = v.z if isinstance(v, SymInt) else z3.IntVal(v)
        if isinstance(v, int) and v < 0 or isinstance(v, SymInt) and not I.valid(z >= 0) and I.branch(z < 0):
            z = z3.simplify(n + z)
        acc = z3.IntVal(0)
        for k, p in enumerate(s.parts):
            d = z3.simplify(z - acc)
            if isinstance(p, str) and z3.is_int_value(d) and 0 <= d.as_long() < len(p):
                return (k, d.as_long())
            if I.valid(z == acc):
                return (k, 0)
            if isinstance(p, str) and not I.valid(z3.Or(z <= acc, z >= acc + len(p))):
                for d in range(1, len(p)):
                    if I.valid(z == acc + d):
                        return (k, d)
            acc = acc + I.atom_len(p)
        if I.valid(z == acc):
            return (len(s.parts), 0)
        return None
    i = place(lo, (0, 0))
    j = place(hi, (len(s.parts), 0))
    if i is None or j is None:
        return None
    if j <= i:
        return ''
    out = list(s.parts[i[0]:j[0]])
    if j[1]:
        out.append(s.parts[j[0]][:j[1]])
    if i[1]:
        out[0] = out[0][i[1]:]
    return mkstr(out)


def clamp(I, v, default, n):
    """z3 int of a slice end, within 0..n"""
    if v is None:
        return z3.IntVal(default) if isinstance(default, int) else default
    z = v.z if isinstance(v, SymInt) else z3.IntVal(v)
    if I.valid(z3.And(z >= 0, z <= n)):
        return z
    if isinstance(v, int) and v < 0:
        return z3.If(n + z < 0, 0, n + z)
    return z3.If(z < 0, z3.If(n + z < 0, 0, n + z), z3.If(z > n, n, z))


def count_fn(base, c):
    """Number of c in the first k characters of base."""
    return z3.Function('count(%s,%r)' % (base.key, c), z3.IntSort(), z3.IntSort())


def count(I, s, c):
    if isinstance(s, str):
        return s.count(c)
    if not isinstance(c, str) or len(c) != 1:
        raise Unsupported('count of %r' % (c,))
    s = expand(I, s)
    tot = 0
    zt = []
    for p in s.parts:
        if isinstance(p, str):
            tot += p.count(c)
        else:
            if p.base is not None:
                if c in p.cmap or any(c in v for v in p.cmap.values()):
                    raise Unsupported('count in mapped text')
                p = p.base
            if p.slice is not None:
                f = count_fn(p.slice[0], c)
                a, b = p.slice[1], p.slice[2]
            else:
                f = count_fn(p, c)
                a, b = z3.IntVal(0), z3.Length(p.z)
            I.add(f(z3.IntVal(0)) == 0)
            I.add(z3.And(f(b) - f(a) >= 0, f(b) - f(a) <= b - a))
            zt.append(f(b) - f(a))
    return SymInt(z3.simplify(z3.Sum(zt + [z3.IntVal(tot)])))


SPACES = ''.join(chr(c) for c in range(0x3001) if chr(c).isspace())


def _ws():
    rs = []
    for c in SPACES:
        if rs and ord(c) == ord(rs[-1][1]) + 1:
            rs[-1][1] = c
        else:
            rs.append([c, c])
    return z3.Union(*[z3.Range(z3.StringVal(zesc(a)), z3.StringVal(zesc(b))) for a, b in rs])


WS = _ws()


def ws_facts(I, s, side):
    """Decomposition of s into leading space, core, trailing space (memoised)."""
    key = ('strip', s.parts)
    d = I.cache.get(key)
    if d is None:
        nm = '%r' % (s.parts,)
        l, core, r = Atom('lspace%s' % nm), Atom('core%s' % nm), Atom('rspace%s' % nm)
        if len(s.parts) > 1:
            I.add(z3.Concat(l.z, core.z, r.z) == s.z)
        else:
            # the text is written as its three pieces from now on (see expand)
            I.add(z3.Length(l.z) + z3.Length(core.z) + z3.Length(r.z) == I.atom_len(s.parts[0]))
            lacks = I.cache.get(('lacks', s.parts[0].key), '')
            for x in (l, core, r):
                I.cache[('lacks', x.key)] = lacks
        I.add(z3.Implies(z3.Length(core.z) == 0, z3.Length(r.z) == 0))
        # which characters are white space is left open: sound, and cheap for the solver
        I.exact = False
        sp = z3.Function('isspace', z3.StringSort(), z3.BoolSort())
        I.add(sp(l.z))
        I.add(sp(r.z))
        I.cache[('space', l.key)] = I.cache[('space', r.key)] = True
        fs = [count_fn(x, '\n') for x in (l, core, r)]
        for x, f in zip((l, core, r), fs):
            I.add(f(z3.IntVal(0)) == 0)
            n = z3.Length(x.z)
            I.add(z3.And(f(n) >= 0, f(n) <= n))
        a = atom_of(s)
        if a is not None and a.slice is None and a.base is None:
            f = count_fn(a, '\n')
            I.add(f(z3.IntVal(0)) == 0)
            I.add(f(z3.Length(a.z)) == z3.Sum([g(z3.Length(x.z)) for x, g in zip((l, core, r), fs)]))
        d = I.cache[key] = (l, core, r)
        I.cache[('decomp', core.key)] = (l, core, r, s)
    return d


def strip(I, s, which, chars):
    if isinstance(s, str):
        return getattr(s, which)(*([chars] if chars is not None else []))
    if chars is not None:
        if which == 'rstrip' and isinstance(chars, str) and len(chars) == 1:
            # a run of one character at the end
            if isinstance(s.parts[-1], str) and not s.parts[-1].endswith(chars):
                return s
            a = as_atom(I, s)
            core, r = Atom('rstrip(%s,%r)' % (a.key, chars)), Atom('rtail(%s,%r)' % (a.key, chars))
            I.add(z3.Concat(core.z, r.z) == a.z)
            I.add(z3.InRe(r.z, z3.Star(z3.Re(z3.StringVal(zesc(chars))))))
            I.add(z3.Not(z3.SuffixOf(z3.StringVal(zesc(chars)), core.z)))
            return SymStr([core])
        raise Unsupported('strip of %r' % (chars,))
    ps = list(s.parts)
    left, right = which in ('strip', 'lstrip'), which in ('strip', 'rstrip')

    def space(p):
        return isinstance(p, str) and not p.strip() or isinstance(p, Atom) and ('space', p.key) in I.cache
    while left and ps and space(ps[0]):
        ps.pop(0)
    while right and ps and space(ps[-1]):
        ps.pop()
    if not ps:
        return ''
    if left and isinstance(ps[0], str) and ps[0].lstrip():
        ps[0] = ps[0].lstrip()
        left = False
    if right and isinstance(ps[-1], str) and ps[-1].rstrip():
        ps[-1] = ps[-1].rstrip()
        right = False
    s = mkstr(ps)
    if not left and not right or isinstance(s, str):
        return s
    a = atom_of(s)
    if a is not None and a.base is not None:
        # the map leaves white space alone and makes none: it commutes with strip
        b, m = base_map(a)
        if any(c.isspace() or not v or v[0].isspace() or v[-1].isspace() for c, v in m.items()):
            raise Unsupported('strip of mapped text')
        if ('decomp', b.key) in I.cache:
            return s
        l, core, r = ws_facts(I, SymStr([b]), which)
        mc = mapped(core, m)
        I.map_facts(SymStr([mc]), s)
        I.add(z3.Length(a.z) == z3.Length(l.z) + z3.Length(mc.z) + z3.Length(r.z))
        I.cache[('decomp', mc.key)] = (l, mc, r, s)
        if left and right:
            return SymStr([mc])
        return SymStr([mc, r]) if left else SymStr([l, mc])
    # already stripped?
    if a is not None:
        if ('decomp', a.key) in I.cache:
            return s
        l, core, r = ws_facts(I, s, which)
        if left and right:
            return SymStr([core])
        return SymStr([core, r]) if left else SymStr([l, core])
    # (core, rspace) rope made by a previous lstrip, or (lspace, core)
    if len(s.parts) == 2 and all(isinstance(p, Atom) for p in s.parts):
        p, q = s.parts
        d = I.cache.get(('decomp', p.key))
        if d is not None and d[2] == q:
            return SymStr([p]) if right else s
        d = I.cache.get(('decomp', q.key))
        if d is not None and d[0] == p:
            return SymStr([q]) if left else s
    # a rope: from each side, drop what is only white space
    out = list(expand(I, s).parts)
    for side in ('lstrip', 'rstrip'):
        i = 0 if side == 'lstrip' else -1
        if not (left if i == 0 else right):
            continue
        while out:
            if space(out[i]):
                out.pop(i)
                continue
            if isinstance(out[i], str):
                out[i] = getattr(out[i], side)()
                break
            one = SymStr([out[i]])
            t = strip(I, one, side, None)
            if ('decomp', out[i].key) in I.cache:      # a core: empty or with an end that is no space
                if I.branch(z3.Length(out[i].z) == 0):
                    out.pop(i)
                    continue
                break
            out[i:i + 1 if i == 0 else None] = list(expand(I, one).parts)
    return mkstr(out)


def replace(I, s, a, b, n=None):
    if n is not None and not (isinstance(s, str) and isinstance(a, str) and isinstance(b, str)):
        raise Unsupported('replace with a count')
    if isinstance(s, str) and isinstance(a, str) and isinstance(b, str):
        return s.replace(a, b) if n is None else s.replace(a, b, n)
    if not isinstance(a, str) or not a:
        raise Unsupported('replace of symbolic text')
    if isinstance(s, str):
        parts = s.split(a)
        out = []
        for i, p in enumerate(parts):
            if i:
                out.extend(parts_of(b))
            out.append(p)
        return mkstr(out)
    if len(a) == 1 and isinstance(b, str):
        out = []
        for p in s.parts:
            if isinstance(p, str):
                out.append(p.replace(a, b))
            else:
                base, m = base_map(p)
                m2 = {c: v.replace(a, b) for c, v in m.items()}
                if a not in m:
                    m2[a] = b
                out.append(mapped(base, m2))
        return mkstr(out)
    # a longer needle: atoms that cannot contain its first character are left alone
    ps = list(s.parts)
    for i, p in enumerate(ps):
        if isinstance(p, Atom):
            if not I.valid(z3.Not(z3.Contains(p.z, z3.StringVal(zesc(a[0]))))):
                raise Unsupported('replace of %r in %r' % (a, s))
            if i and isinstance(ps[i - 1], str) and any(ps[i - 1].endswith(a[:k]) for k in range(1, len(a))):
                raise Unsupported('replace of %r in %r' % (a, s))
    out = []
    for p in ps:
        if isinstance(p, str):
            out.extend(parts_of(replace(I, p, a, b)))
        else:
            out.append(p)
    return mkstr(out)


def startswith(I, s, p, end=False):
    p = I.norm(p)
    if isinstance(p, tuple):
        rs = [startswith(I, s, q, end) for q in p]
        if any(r is True for r in rs):
            return True
        z = [r.z for r in rs if isinstance(r, SymBool)]
        return SymBool(z3.Or(*z)) if z else False
    if isinstance(s, str) and isinstance(p, str):
        return s.endswith(p) if end else s.startswith(p)
    if isinstance(s, SymStr) and isinstance(p, str):
        x = s.parts[-1 if end else 0]
        if isinstance(x, str):
            if len(x) >= len(p):
                return x.endswith(p) if end else x.startswith(p)
            if not (p.endswith(x) if end else p.startswith(x)):
                return False
    if has_mapped(s):
        I.exact = False
    f = z3.SuffixOf if end else z3.PrefixOf
    return SymBool(f(zs(p), zs(s)))


def join(I, sep, it):
    vals = I.listed(it)
    vals = [I.force(v) if not isinstance(v, Run) else v for v in vals]
    for v in vals:
        if not isinstance(v, (str, SymStr, Run)):
            I.throw('TypeError', 'sequence item: expected str instance')
    if not vals:
        return ''
    runs = [v for v in vals if isinstance(v, Run)]
    if not runs:
        out = []
        for i, v in enumerate(vals):
            if i:
                out.extend(parts_of(sep))
            out.extend(parts_of(v))
        return mkstr(out)
    if sep == '':
        out = []
        for v in vals:
            if isinstance(v, Run):
                out.append(I.join_atom('', v))
            else:
                out.extend(parts_of(v))
        return mkstr(out)
    if not isinstance(sep, str):
        raise Unsupported('symbolic separator')
    if len(vals) == 1:
        return SymStr([I.join_atom(sep, vals[0])])
    return SymStr([Atom('join(%r,%r)' % (sep, vals))])


def split(I, s, sep=None, maxsplit=-1, right=False):
    if isinstance(s, str) and (sep is None or isinstance(sep, str)):
        r = s.rsplit(sep, maxsplit) if right else s.split(sep, maxsplit)
        return I.newlist(r)
    if isinstance(s, SymStr) and isinstance(sep, str) and len(sep) == 1 and maxsplit == -1:
        # only if no atom can contain the separator
        for p in s.parts:
            if isinstance(p, Atom) and not I.valid(z3.Not(z3.Contains(p.z, z3.StringVal(zesc(sep))))):
                raise Unsupported('split of symbolic text')
        cur, out = [], []
        for p in s.parts:
            if isinstance(p, str):
                bits = p.split(sep)
                cur.append(bits[0])
                for b in bits[1:]:
                    out.append(mkstr(cur))
                    cur = [b]
            else:
                cur.append(p)
        out.append(mkstr(cur))
        return I.newlist(out)
    raise Unsupported('split of symbolic text')


def find(I, s, sub, start=0, end=None, last=False):
    if isinstance(s, str) and isinstance(sub, str) and isinstance(start, int) and (end is None or isinstance(end, int)):
        a = (sub, start) + ((end,) if end is not None else ())
        return s.rfind(*a) if last else s.find(*a)
    if end is not None or last:
        raise Unsupported('find with an end')
    a = Atom('c', zs(s)) if isinstance(s, str) else as_atom(I, s)
    z0 = start.z if isinstance(start, SymInt) else z3.IntVal(start)
    if not I.valid(z3.And(z0 >= 0)):
        raise Unsupported('find from a negative position')
    if not I.valid(z0 <= z3.Length(a.z)):
        if I.branch(z0 > z3.Length(a.z)):
            return -1
    return SymInt(z3.IndexOf(a.z, zs(sub), z0))


SIMPLE = ('lower', 'upper', 'splitlines', 'encode', 'isdigit', 'isspace', 'isalpha', 'isalnum', 'format', 'title', 'translate', 'isidentifier', 'expandtabs', 'partition', 'rpartition', 'swapcase', 'capitalize',
          'zfill', 'center', 'ljust', 'rjust', 'casefold', 'decode')


def method(I, s, name):
    def host(fn):
        return Host('str.' + name, fn)

    def a(args, i, default=None):
        return I.force(args[i]) if len(args) > i else default
    if name == 'replace':
        return host(lambda I, x, kw: replace(I, s, a(x, 0), a(x, 1), a(x, 2)))
    if name == 'startswith':
        return host(lambda I, x, kw: startswith(I, s, x[0]) if len(x) == 1 else startswith(I, getitem(I, s, slice(x[1], None, None)), x[0]))
    if name == 'endswith':
        return host(lambda I, x, kw: startswith(I, s, x[0], True))
    if name in ('strip', 'lstrip', 'rstrip'):
        return host(lambda I, x, kw: strip(I, s, name, a(x, 0)))
    if name == 'join':
        return host(lambda I, x, kw: join(I, s, x[0]))
    if name == 'count':
        return host(lambda I, x, kw: count(I, s, a(x, 0)))
    if name in ('find', 'rfind'):
        return host(lambda I, x, kw: find(I, s, a(x, 0), a(x, 1, 0), a(x, 2), name == 'rfind'))
    if name in ('split', 'rsplit'):
        return host(lambda I, x, kw: split(I, s, a(x, 0), a(x, 1, -1), name == 'rsplit'))
    if name == 'format':
        def fmt(I, x, kw):
            if not isinstance(s, str):
                raise Unsupported('symbolic format')
            out, i = [], 0
            for lit, field, spec, conv in __import__('string').Formatter().parse(s):
                out.append(lit)
                if field is None:
                    continue
                if spec or '.' in field or '[' in field:
                    raise Unsupported('format spec')
                if field == '':
                    v = x[i]
                    i += 1
                elif field.isdigit():
                    v = x[int(field)]
                else:
                    v = kw[field]
                out.extend(parts_of(I.repr_(v) if conv == 'r' else I.str_(v)))
            return mkstr(out)
        return host(fmt)
    if name in SIMPLE:
        def simple(I, x, kw):
            x = [I.force(v) for v in x]
            if isinstance(s, str) and not any(isinstance(v, Val) for v in x):
                r = getattr(s, name)(*x, **kw)
                if isinstance(r, list):
                    return I.newlist(r)
                return r
            if name in ('lower', 'upper', 'encode', 'casefold'):
                return SymStr([Atom('%s(%r)' % (name, parts_of(s)))])
            raise Unsupported('str.%s on symbolic text' % name)
        return host(simple)
    return None
