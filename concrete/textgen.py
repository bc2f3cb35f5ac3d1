"""Trees of text-template constructs: source text, and the output they stand for."""
from .lib import interp, Lit
from .xmlgen import bind, assign, walk, is_name, NAMECH, rstr

PIECES = ['a', 'Hi ', ' ', '\n', '\n', ' \n', '  ', '<', '&', '"', '$', '{', '}', '%', '% ', '%5', '\\', 'x.y', '\xe9', '{%', '%}', '%if',
          '{%if', '\t', '-', "'", '${', '\n%', '-%}', '\u20ac', '\\\n', '%%', '{{']


def rtext(rng, n=4):
    return ''.join(rng.choice(PIECES) for _ in range(rng.randint(1, n)))


def static_source(s, rng_bits):
    """Escape what would be read as a tag or expression."""
    out = ''
    for i, c in enumerate(s):
        nxt = s[i + 1:i + 2]
        if c == '$':
            out += '$$'
        elif c == '\\':
            out += '\\\\'
        elif c == '%' and (nxt == '' or nxt.isalpha() or s[i - 1:i] == '{' or i == 0 or (rng_bits >> (i % 7)) & 1):
            out += '\\%'
        elif c == '-' and out.endswith('{\\%'):
            out += c
        else:
            out += c
        if c == ' ' and (rng_bits >> (i % 5)) & 8:
            out += '\\\n'
    return out


class Emit(object):
    """Collects tokens; knows what the whitespace rules drop."""

    def __init__(self):
        self.toks = []      # ('T', source) | ('E', node) | ('O', opener, ...) tags
        self.src = ''

    def text(self, s):
        self.src += s
        self.toks.append(['T', s])

    def mark(self, m, source=''):
        self.src += source
        self.toks.append([m, source])

    def at_line_start(self):
        tail = self.src[self.src.rfind('\n') + 1:]
        return not tail.strip(' \t')

    def drop_blank_before(self):
        """The white space a line-start tag swallows: back to the earliest line start."""
        if not self.toks or self.toks[-1][0] != 'T':
            # indentation belongs to no text token
            return
        # Static text may be in several tokens; only real text tokens can be trimmed
        j = len(self.toks)
        while j and self.toks[j - 1][0] == 'T':
            j -= 1
        s = ''.join(t[1] for t in self.toks[j:])
        before = ''.join(t[1] for t in self.toks[:j])
        ws = len(s)
        while ws and s[ws - 1] in ' \t\n':
            ws -= 1
        # earliest line start in [ws, len(s)]
        for p in range(ws, len(s) + 1):
            at = (before + s)[:len(before) + p]
            if at == '' or at.endswith('\n'):
                del self.toks[j:]
                self.toks.append(['T', s[:p]])
                self.toks.append(['W', s[p:]])
                return


class TextTree(object):
    def __init__(self, tree, styles):
        self.styles = styles
        self.i = 0
        self.e = Emit()
        self.trim = False
        self.seq = []       # structure for the oracle: parallel tree with text indices
        self.tree = self.nodes(tree)

    def style(self):
        self.i += 1
        return self.styles[self.i % len(self.styles)]

    def put_text(self, s):
        if self.trim:
            stripped = s.lstrip(' \t')
            if s != stripped:
                self.e.mark('W', s[:len(s) - len(stripped)])
            s = stripped
            if not s:
                return None
            self.trim = False
        if not s:
            return None
        self.e.text(s)
        return self.e.toks[-1]

    def tag(self, body):
        st = self.style()
        e = self.e
        if st in ('bare', 'baret') or (st == 'ljust'):
            out = []
            if not e.at_line_start():
                self.trim = False if self.trim and not '\n'.lstrip(' \t') else self.trim
                self.put_text('\n')
            if e.toks and e.toks[-1][0] == 'T' or not e.toks or True:
                e.drop_blank_before()
        self.trim = False
        if st == 'bare':
            e.mark('G', '%' + body + '\n')
        elif st == 'baret':
            e.mark('G', '   %' + body + '\n')
        elif st == 'ljust':
            e.mark('G', '{%-' + body + '%}')
        elif st == 'rtrim':
            e.mark('G', '{%' + body + '-%}')
            self.trim = True
        else:
            e.mark('G', '{%' + body + '%}')

    def nodes(self, nodes):
        out = []
        for n in nodes:
            out.extend(self.node(n))
        return out

    def node(self, n):
        k = n[0]
        start = len(self.e.toks)
        if k == 'text':
            self.put_text(static_source(n[1], n[2]))
            return []
        if k == 'expr':
            self.trim = False
            self.e.mark('E', '${' + n[1] + '}')
            self.e.toks[-1].append(n)
            return []
        raise ValueError(n)


def serialise(tree, styles):
    """-> source, token list; tags carry ('open', node) so that the oracle can re-nest."""
    tt = TextTree([], styles)

    def go(nodes):
        for n in nodes:
            k = n[0]
            if k == 'text':
                tt.put_text(static_source(n[1], n[2]))
            elif k == 'expr':
                tt.trim = False
                tt.e.mark('E', '$' + n[1] if n[2] == 'named' and is_name(n[1]) else '${' + n[1] + '}')
                tt.e.toks[-1].append(n[1])
                if n[2] == 'named' and is_name(n[1]):
                    tt.put_text('|')     # ends the name
            elif k == 'if':
                op(['if', n[1]], 'if ' + n[1])
                go(n[2])
                if n[3] is not None:
                    op(['else'], 'else')
                    go(n[3])
                op(['end'], 'end')
            elif k == 'for':
                op(['for', n[1], n[2]], 'for %s in %s' % (n[1], n[2]))
                go(n[3])
                op(['end'], 'end')
            elif k == 'switch':
                op(['switch', n[1]], 'switch ' + n[1], inner=True)
                for value, body in n[2]:
                    op(['case', value], 'case ' + value)
                    go(body)
                if n[3] is not None:
                    op(['else'], 'else')
                    go(n[3])
                op(['end'], 'end')
            elif k == 'def':
                op(['def', n[1], n[2]], 'def %s(%s)' % (n[1], ', '.join(n[2])))
                go(n[3])
                op(['end'], 'end')
            elif k == 'call':
                op(['call', n[1], n[2], n[3]], 'call(%s)%s%s(%s%%caller)' % (', '.join(n[3]), ' ' if n[2][:1] == ['a'] else '', n[1], ''.join(p + ', ' for p in n[2])))
                go(n[4])
                op(['end'], 'end')
            elif k == 'py':
                op(['py', n[1]], 'py ' + n[1])
            elif k == 'block':
                op(['block', n[1]], 'block ' + n[1])
                go(n[2])
                op(['end'], 'end')
            else:
                raise ValueError(n)

    pending = []

    def op(what, body, inner=False):
        if pending and pending[-1]:      # directly after a switch: no text may come in between
            pending[-1] = False
            tt.trim = False
            tt.e.mark('G', '{%' + body + '%}')
        elif inner:
            tt.trim = False
            tt.e.mark('G', '{%' + body + '%}')
        else:
            tt.tag(body)
        if inner:
            pending.append(True)
        elif what[0] == 'end' and False:
            pass
        tt.e.toks[-1].append(what)

    go(tree)
    return tt.e.src, tt.e.toks


def unescape(s):
    out, i = '', 0
    while i < len(s):
        if s[i] == '\\' and i + 1 < len(s):
            if s[i + 1] != '\n':
                out += s[i + 1]
            i += 2
        else:
            out += s[i]
            i += 1
    return out


def build(toks):
    """Re-nest the token list into a tree whose texts are what reaches the output."""
    pos = [0]

    def texts(s):
        # '$$' is a dollar sign; texts around it are unescaped separately
        return '$'.join(unescape(p) for p in s.split('$$'))

    def body(stops):
        out, run = [], ''

        def flush():
            if run:
                out.append(['text', texts(run)])
        while pos[0] < len(toks):
            t = toks[pos[0]]
            if t[0] == 'W':
                pos[0] += 1
                continue
            if t[0] == 'T':
                run += t[1]
                pos[0] += 1
                continue
            flush()
            run = ''
            if t[0] == 'E':
                out.append(['expr', t[2]])
                pos[0] += 1
                continue
            what = t[2]
            if what[0] in stops:
                return out, what
            pos[0] += 1
            if what[0] == 'if':
                b, stop = body(('else', 'end'))
                orelse = None
                pos[0] += 1
                if stop[0] == 'else':
                    orelse, _ = body(('end',))
                    pos[0] += 1
                out.append(['if', what[1], b, orelse])
            elif what[0] in ('for', 'def', 'call', 'block'):
                b, _ = body(('end',))
                pos[0] += 1
                out.append(what + [b])
            elif what[0] == 'switch':
                cases, orelse = [], None
                while True:
                    w = toks[pos[0]]
                    if w[0] != 'G':
                        pos[0] += 1
                        continue
                    pos[0] += 1
                    if w[2][0] == 'case':
                        b, _ = body(('case', 'else', 'end'))
                        cases.append([w[2][1], b])
                    elif w[2][0] == 'else':
                        orelse, _ = body(('end',))
                    else:
                        break
                out.append(['switch', what[1], cases, orelse])
            elif what[0] == 'py':
                out.append(what)
        flush()
        return out, None
    return body(())[0]


class TextOracle(object):
    def __init__(self, ctx, autoescape):
        self.autoescape = autoescape
        self.globals = dict(ctx)
        self.globals.setdefault('literal', Lit)

    def ev(self, code, env):
        scope = dict(self.globals)
        scope.update(env)
        return eval(code.strip(), scope)

    def show(self, v):
        if self.autoescape:
            return interp(v)
        if v is None:
            return ''
        return v.text if isinstance(v, Lit) else str(v)

    def doc(self, nodes):
        self.defs(nodes)
        return self.render(nodes, {})

    def defs(self, nodes):
        for n in nodes:
            if n[0] == 'def':
                self.globals[n[1]] = self.fn(n)
            subs = {'if': lambda: [n[2], n[3] or []], 'for': lambda: [n[3]], 'switch': lambda: [c[1] for c in n[2]] + [n[3] or []],
                    'call': lambda: [n[4]], 'block': lambda: [n[2]], 'def': lambda: [n[3]]}.get(n[0], lambda: [])()
            for s in subs:
                self.defs(s)

    def fn(self, n):
        return lambda *a, **kw: Lit(self.render(n[3], bind(n[2], a, kw, lambda c: self.ev(c, {}))))

    def render(self, nodes, env):
        out = []
        for n in nodes:
            k = n[0]
            if k == 'text':
                out.append(n[1])
            elif k == 'expr':
                out.append(self.show(self.ev(n[1], env)))
            elif k == 'if':
                if self.ev(n[1], env):
                    out.append(self.render(n[2], env))
                elif n[3] is not None:
                    out.append(self.render(n[3], env))
            elif k == 'for':
                for v in self.ev(n[2], env):
                    assign(n[1], v, env)
                    out.append(self.render(n[3], env))
            elif k == 'switch':
                test = self.ev(n[1], env)
                for value, body in n[2]:
                    if self.ev(value, env) == test:
                        out.append(self.render(body, env))
                        break
                else:
                    if n[3] is not None:
                        out.append(self.render(n[3], env))
            elif k == 'call':
                def caller(*a, **kw):
                    inner = dict(env)
                    inner.update(bind(n[3], a, kw, lambda c: self.ev(c, env)))
                    return Lit(self.render(n[4], inner))
                v = self.ev(n[1], env)(*([self.ev(p, env) for p in n[2]] + [caller]))
                out.append(v.text if isinstance(v, Lit) else str(v))
            elif k == 'py':
                scope = dict(self.globals)
                scope.update(env)
                before = dict(scope)
                exec(n[1].strip(), scope)
                for key, v in scope.items():
                    if key != '__builtins__' and (key not in before or before[key] is not v):
                        env[key] = v
            elif k == 'block':
                out.append(self.render(n[2], {}))
        return ''.join(out)


class TGen(object):
    def __init__(self, rng, maxdepth=3):
        self.rng, self.maxdepth, self.n = rng, maxdepth, 0
        self.defs = []
        self.nblocks = 0

    def fresh(self, p='v'):
        self.n += 1
        return '%s%d' % (p, self.n)

    def text(self):
        return ['text', rtext(self.rng), self.rng.randint(0, 127)]

    def expr(self, scope):
        r = self.rng
        if r.random() < .6:
            return ['expr', r.choice(['a', 'b', 'c', 'i', 'o', 'o.attr', 'n', 'z', 'f', 'h', 'd'] + scope * 3), r.choice(['named', 'braced'])]
        return ['expr', r.choice(["a + b", "{'k': a}['k']", "'}' + b", "'$' + a", "'%d%%' % i", "[q for q in ls]", "literal(a)", "i > 1", "'{%if'",
                                  "'%}' + a", "0", "''", "None", "{1: {2: b}}[1][2]", "'\\n' + a", "'<' + a", "a if t else b"]), 'braced']

    def cond(self, scope):
        return self.rng.choice(['t', 'f', 'i', 'a', 'l', 'not t', 'i > 1', 'i == 1', 'a == b', 'n is None', 'i % 2'] + scope)

    def body(self, depth, scope, n=3):
        scope = list(scope)
        return [self.node(depth + 1, scope) for _ in range(self.rng.randint(0, n))]

    def node(self, depth, scope):
        r = self.rng
        k = r.choice(['text', 'text', 'expr', 'expr', 'if', 'for', 'switch', 'callfn', 'call', 'py', 'block'] if depth < self.maxdepth else ['text', 'expr'])
        if k == 'text':
            return self.text()
        if k == 'expr':
            return self.expr(scope)
        if k == 'if':
            return ['if', self.cond(scope), self.body(depth, scope), self.body(depth, scope) if r.random() < .5 else None]
        if k == 'for':
            v = self.fresh()
            return ['for', v, r.choice(['l', 'ls', 'range(i)', '[a, n, b]', "'ab'"]), self.body(depth, scope + [v])]
        if k == 'switch':
            return ['switch', r.choice(['i', 'a', '1', 'n', 'z']),
                    [[r.choice(['1', '2', 'i', 'a', "''", 'n']), self.body(depth, scope)] for _ in range(r.randint(1, 3))],
                    self.body(depth, scope) if r.random() < .5 else None]
        if k == 'callfn':
            if not self.defs:
                return self.text()
            name, params = r.choice(self.defs)
            return ['expr', '%s(%s)' % (name, ', '.join(r.choice(['a', 'i', "'x'"]) for _ in params)), 'braced']
        if k == 'call':
            y = self.fresh()
            return ['call', 'wrapfn', [r.choice(['a', "'p'"])], [y], self.body(depth, scope + [y])]
        if k == 'py':
            v = self.fresh()
            scope.append(v)
            return ['py', '%s = %s' % (v, r.choice(['a', 'i + 1', '[1]']))]
        if k == 'block':
            if scope:
                return self.text()
            self.nblocks += 1
            return ['block', 'b%d' % self.nblocks, self.body(depth, [])]

    def template(self):
        r = self.rng
        out = [['def', 'wrapfn', ['p', 'caller'], [['text', '[', 0], ['expr', 'caller(p)', 'braced'], ['text', ']', 0]]]]
        for _ in range(r.randint(0, 2)):
            name, p = self.fresh('fn'), self.fresh('p')
            params = r.choice([[], [p]])
            out.append(['def', name, params, self.body(1, params)])
            self.defs.append((name, params))
        out += [['text', 'S', 0]] + self.body(0, [], 5)
        styles = [r.choice(['bare', 'baret', 'ljust', 'rtrim', 'brace', 'brace']) for _ in range(r.randint(1, 7))]
        return out, styles
