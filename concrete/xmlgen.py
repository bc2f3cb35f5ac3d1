"""Trees of XML template constructs: source text, and the output they stand for.

The oracle below is written from the property statements; it evaluates the
Python expressions of a tree with eval() and never calls kajiki.
"""
from .lib import esc, esc_text, interp, Lit, Undefined

VOID = {'area', 'base', 'br', 'col', 'hr', 'img', 'input', 'link', 'meta', 'param'}
BOOL = {'checked', 'disabled', 'readonly', 'multiple', 'selected', 'nohref', 'ismap', 'declare', 'defer'}
NAMECH = set('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_0123456789.')
DIRECTIVE_ORDER = ['def', 'call', 'case', 'else', 'for', 'if', 'switch', 'with', 'replace', 'block']
ARG = {'def': 'function', 'call': 'function', 'case': 'value', 'else': '', 'for': 'each', 'if': 'test',
       'switch': 'test', 'with': 'vars', 'replace': 'value', 'block': 'name'}
ENTITIES = {'nbsp': '\xa0', 'eacute': '\xe9', 'copy': '\xa9', 'hellip': '\u2026', 'lt': '<', 'gt': '>',
            'amp': '&', 'quot': '"', 'apos': "'", '#65': 'A', '#x20AC': '\u20ac', 'rarr': '\u2192',
            'alpha': '\u03b1', 'euro': '\u20ac', 'Aacute': '\xc1', 'thinsp': '\u2009', 'ensp': '\u2002'}

# ---------------------------------------------------------------- source


def attr_escape(s):
    return s.replace('&', '&amp;').replace('<', '&lt;').replace('"', '&quot;')


def static_source(s, in_attr=False):
    s = s.replace('$', '$$')
    if in_attr:
        return s.replace('&', '&amp;').replace('<', '&lt;').replace('"', '&quot;')
    return s.replace('&', '&amp;').replace('<', '&lt;').replace(']>', ']&gt;').replace('>', '&gt;' if s.startswith('>') else '>')


def is_name(code):
    return code.replace('_', 'a').replace('.', 'a').isalnum() and not code[0].isdigit() and code[-1] != '.'


def expr_source(code, form, following):
    if form == 'named' and is_name(code) and not (following and (following[0] in NAMECH or following.startswith('&#'))):
        return '$' + code
    return '${' + code + '}'


def parts_source(parts, in_attr):
    out = ''
    for kind, val in reversed([tuple(p[:2]) for p in parts]):
        if kind == 't':
            out = static_source(val, in_attr) + out
        elif kind == 'x':      # braced expression
            code = attr_escape(val) if in_attr else val
            out = '${' + code + '}' + out
        else:                  # named expression if possible
            code = attr_escape(val) if in_attr else val
            out = expr_source(code, 'named', out) + out
    return out


def attrs_source(attrs, opts):
    out = ''
    for name, parts in attrs:
        out += ' %s="%s"' % (name, parts_source(parts, True))
    for k in ('strip', 'content', 'attrs'):
        if k in opts:
            out += ' py:%s="%s"' % (k, attr_escape(opts[k]))
    return out


def wrap(directive, value, body, form, extra=''):
    """A directive around body, as an element or as an attribute of the only element in body."""
    if form == 'attr' and len(body) == 1 and body[0][0] == 'el' and not extra:
        return el_source(body[0], ' py:%s="%s"' % (directive, attr_escape(value)))
    arg = ARG[directive]
    at = ' %s="%s"' % (arg, attr_escape(value)) if arg else ''
    return '<py:%s%s%s>%s</py:%s>' % (directive, at, extra, source_of(body), directive)


def el_source(node, extra=''):
    _, tag, attrs, opts, children = node
    inner = source_of(children, raw_ok=tag in ('script', 'style'))
    head = '<' + tag + extra + attrs_source(attrs, opts)
    if not children and opts.get('selfclose', True):
        return head + '/>'
    return head + '>' + inner + '</' + tag + '>'


def source_of(nodes, raw_ok=False):
    out = ''
    for node in reversed(nodes):
        out = node_source(node, out) + out
    return out


def node_source(node, following):
    k = node[0]
    if k == 'text':
        return static_source(node[1])
    if k == 'ent':
        return '&%s;' % node[1]
    if k == 'expr':
        return expr_source(node[1], node[2], following)
    if k == 'el':
        return el_source(node)
    if k == 'if':
        _, cond, body, orelse, form = node
        s = wrap('if', cond, body, form)
        if orelse is not None:
            s += wrap('else', '', orelse, form)
        return s
    if k == 'for':
        return wrap('for', '%s in %s' % (node[1], node[2]), node[3], node[4])
    if k == 'switch':
        _, test, cases, orelse, ws = node
        s = '<py:switch test="%s">' % attr_escape(test)
        for value, body, form in cases:
            s += ws + wrap('case', value, body, form)
        if orelse is not None:
            s += ws + wrap('else', '', orelse, 'elem')
        return s + ws + '</py:switch>'
    if k == 'with':
        return wrap('with', node[4].join('%s=%s' % (n, c) for n, c in node[1]), node[2], node[3])
    if k == 'def':
        return wrap('def', '%s(%s)' % (node[1], ', '.join(node[2])), node[3], node[4])
    if k == 'call':
        _, fn, pre, args, body = node
        extra = ' args="%s"' % ', '.join(args) if args is not None else ''
        return '<py:call%s function="%s">%s</py:call>' % (
            extra, attr_escape('%s(%s%%caller)' % (fn, ''.join(p + ', ' for p in pre))), source_of(body))
    if k == 'replace':
        return wrap('replace', node[1], node[2], node[3])
    if k == 'block':
        return wrap('block', node[1], node[2], node[3])
    if k == 'comment':
        return '<!--%s-->' % node[1]
    if k == 'cdata':
        return '<![CDATA[%s]]>' % node[1].replace('$', '$$')
    if k == 'py':
        return '<?py %s ?>' % node[1]
    if k == 'multi':   # several directive attributes on one element, in a written order
        _, dirs, el, order = node
        byname = dict((d[0], d) for d in dirs)
        extra = ''
        for name in order:
            extra += ' py:%s="%s"' % (name, attr_escape(dir_value(byname[name])))
        return el_source(el, extra)
    raise ValueError(node)


def dir_value(d):
    name = d[0]
    if name == 'for':
        return '%s in %s' % (d[1], d[2])
    if name == 'with':
        return '; '.join('%s=%s' % (n, c) for n, c in d[1])
    if name == 'def':
        return '%s(%s)' % (d[1], ', '.join(d[2]))
    return d[1]


def nest(node):
    """The element-form equivalent of a 'multi' node."""
    _, dirs, el, order = node
    body = [el]
    for name in reversed(DIRECTIVE_ORDER):
        for d in dirs:
            if d[0] != name:
                continue
            if name == 'for':
                body = [['for', d[1], d[2], body, 'elem']]
            elif name == 'if':
                body = [['if', d[1], body, None, 'elem']]
            elif name == 'with':
                body = [['with', d[1], body, 'elem', '; ']]
            elif name == 'replace':
                body = [['replace', d[1], body, 'elem']]
            elif name == 'block':
                body = [['block', d[1], body, 'elem']]
            elif name == 'def':
                body = [['def', d[1], d[2], body, 'elem']]
    return body


# ---------------------------------------------------------------- oracle

class Oracle(object):
    """translate: what gettext does; messages: the texts it was given, in order."""

    def __init__(self, ctx, mode='xml', translate=None, strip_text=False, cdata_scripts=True):
        self.mode = mode
        self.cdata_scripts = cdata_scripts
        self.translate = translate or (lambda s: s)
        self.strip_text = strip_text
        self.messages = []
        self.globals = dict(ctx)
        self.globals.setdefault('literal', Lit)
        self.globals.setdefault('Markup', Lit)
        self.globals.setdefault('defined', lambda n: n in self.globals)
        self.globals.setdefault('value_of', lambda n, d=None: self.globals.get(n, d))
        self.globals.setdefault('sv', lambda *a: sv(*a))

    def ev(self, code, env):
        scope = dict(self.globals)
        scope.update(env)
        return eval(code.strip(), scope)

    def doc(self, nodes):
        self.collect_defs(nodes)
        return self.render(nodes, {})

    def collect_defs(self, nodes):
        for n in walk(nodes):
            if n[0] == 'def':
                self.define(n)
            elif n[0] == 'block':
                self.globals['_kj_block_' + n[1]] = lambda n=n: Lit(self.render(n[2], {}))
            elif n[0] == 'multi':
                self.collect_defs(nest(n))

    def define(self, n):
        _, name, params, body = n[:4]

        def fn(*a, **kw):
            env = bind(params, a, kw, lambda c: self.ev(c, {}))
            return Lit(self.render(body, env))
        self.globals[name] = fn

    # Static text is handled in maximal runs, because the parser merges them.
    def render(self, nodes, env, raw=False):
        out = []
        for item in group(nodes, raw or self.strip_text):
            if item[0] == 'run':
                out.append(self.text_run(item[1], env, raw, False))
            else:
                out.append(self.node(item, env))
        return ''.join(out)

    def text_run(self, parts, env, raw, unescaped):
        """parts: static characters and expressions of one text node."""
        data = [p for p in parts]
        if self.strip_text or not raw:
            lead, data, trail = split_space(data)
        else:
            lead = trail = ''
        out = [] if self.strip_text else [lead]
        for p in data:
            if p[0] == 't':
                if not p[1]:
                    continue
                s = p[1] if (raw or unescaped) else esc_text(p[1])
                if not raw and s.strip():
                    self.messages.append(s)
                    s = self.translate(s)
                out.append(s)
            else:
                out.append(interp(self.ev(p[1], env)))
        if not self.strip_text:
            out.append(trail)
        return ''.join(out)

    def node(self, n, env):
        k = n[0]
        if k == 'el':
            return self.element(n, env)
        if k == 'if':
            if self.ev(n[1], env):
                return self.render(n[2], env)
            return self.render(n[3], env) if n[3] is not None else ''
        if k == 'for':
            out = []
            for v in self.ev(n[2], env):
                assign(n[1], v, env)
                out.append(self.render(n[3], env))
            return ''.join(out)
        if k == 'switch':
            test = self.ev(n[1], env)
            for value, body, _ in n[2]:
                if self.ev(value, env) == test:
                    return self.render(body, env)
            return self.render(n[3], env) if n[3] is not None else ''
        if k == 'with':
            missing = object()
            old = [(v, env.get(v, missing)) for v, _ in n[1]]
            for v, code in n[1]:
                env[v] = self.ev(code, env)
            out = self.render(n[2], env)
            for v, o in old:
                if o is missing:
                    env.pop(v, None)
                else:
                    env[v] = o
            return out
        if k in ('def', 'py', 'multi'):
            if k == 'multi':
                return self.render(nest(n), env)
            if k == 'py':
                scope = dict(self.globals)
                scope.update(env)
                before = dict(scope)
                exec(n[1].strip(), scope)
                for key, v in scope.items():
                    if key != '__builtins__' and (key not in before or before[key] is not v):
                        env[key] = v
            return ''
        if k == 'call':
            _, fn, pre, args, body = n

            def caller(*a, **kw):
                inner = dict(env)
                inner.update(bind(args or [], a, kw, lambda c: self.ev(c, env)))
                return Lit(self.render(body, inner))
            return _plain(self.ev(fn, env)(*([self.ev(p, env) for p in pre] + [caller])))
        if k == 'replace':
            return interp(self.ev(n[1], env))
        if k == 'block':
            return interp(self.globals['_kj_block_' + n[1]]())
        if k == 'comment':
            return '' if n[1].startswith('!') else '<!-- %s -->' % n[1]
        if k == 'cdata':
            return '<![CDATA[' + (self.text_run(merge([('t', n[1])]), env, False, True) if n[1] else '') + ']]>'
        raise ValueError(n)

    def element(self, n, env):
        _, tag, attrs, opts, children = n
        html = self.mode.startswith('html')
        strip = 'strip' in opts and (opts['strip'] == '' or bool(self.ev(opts['strip'], env)))
        head = ''
        if not strip:
            head = '<' + tag
            for name, parts in sorted(attrs):
                head += self.attribute(name, parts, env)
            if 'attrs' in opts:
                head += self.pyattrs(self.ev(opts['attrs'], env))
        else:
            pass
        if 'content' in opts:
            return (head + ('' if strip else '>') + interp(self.ev(opts['content'], env)) +
                    ('' if strip or (html and tag in VOID) else '</%s>' % tag))
        if children:
            if tag in ('script', 'style') and self.cdata_scripts:
                inner = ''
                for c in group(children, True):
                    if c[0] == 'run':
                        inner += self.text_run(c[1], env, True, False)
                    elif c[0] == 'cdata':
                        inner += self.text_run([('t', c[1])], env, True, True)
                    else:
                        raise Undefined()
                if self.mode == 'xml':
                    inner = '/*<![CDATA[*/' + inner + '/*]]>*/'
            elif tag in ('script', 'style'):
                raise Undefined()
            else:
                inner = self.render(children, env)
            end = '' if strip or (html and tag in VOID) else '</%s>' % tag
            return head + ('' if strip else '>') + inner + end
        if strip:
            return ''
        if tag == 'script':
            return head + '></script>'
        if not html:
            return head + '/>'
        return head + ('>' if tag in VOID else '></%s>' % tag)

    def attribute(self, name, parts, env):
        if not parts or all(p[0] == 't' and not p[1] for p in parts):
            value = ''
        else:
            vals = []
            for p in parts:
                if p[0] == 't':
                    if p[1]:
                        vals.append(p[1])
                    continue
                v = self.ev(p[1], env)
                if v is not None:
                    vals.append(_plain(v))
            if not vals:
                return ''
            value = ''.join(vals)
        if self.mode.startswith('html') and name in BOOL:
            return ' ' + name
        return ' %s="%s"' % (name, esc(value))

    def pyattrs(self, attrs):
        if attrs is None:
            return ''
        if hasattr(attrs, 'items'):
            attrs = attrs.items()
        out = ''
        attrs = list(attrs)
        try:
            attrs = sorted(attrs)
        except TypeError:
            if len(set(k for k, _ in attrs)) < len(attrs):
                raise Undefined()
            attrs = sorted(attrs, key=lambda kv: kv[0])
        for k, v in attrs:
            if k in BOOL and (v is True or v is False):
                v = k if v else None
            elif k in BOOL and isinstance(v, (int, float)):
                raise Undefined()
            if v is None:
                continue
            if self.mode.startswith('html') and k in BOOL:
                out += ' ' + k
            elif isinstance(v, Lit):
                out += ' %s="%s"' % (k, esc(v.text))
            elif hasattr(v, '__html__'):
                raise Undefined()
            else:
                out += ' %s="%s"' % (k, esc(str(v)))
        return out


def _plain(v):
    return v.text if isinstance(v, Lit) else str(v)


def sv(v, *r):
    return v


def assign(target, value, env):
    names = [t.strip() for t in target.split(',')]
    if len(names) == 1:
        env[names[0]] = value
    else:
        for nme, v in zip(names, value):
            env[nme] = v


def bind(params, a, kw, ev):
    env = {}
    for i, p in enumerate(params):
        name, _, default = p.partition('=')
        if i < len(a):
            env[name] = a[i]
        elif name in kw:
            env[name] = kw[name]
        else:
            env[name] = ev(default)
    return env


def walk(nodes):
    for n in nodes:
        yield n
        k = n[0]
        if k == 'el':
            subs = [n[4]]
        elif k == 'if':
            subs = [n[2], n[3] or []]
        elif k in ('for', 'def'):
            subs = [n[3]]
        elif k == 'switch':
            subs = [c[1] for c in n[2]] + [n[3] or []]
        elif k in ('with', 'replace', 'block'):
            subs = [n[2]]
        elif k == 'call':
            subs = [n[4]]
        elif k == 'multi':
            subs = [n[2][4]]
        else:
            subs = []
        for s in subs:
            for x in walk(s):
                yield x


def group(nodes, raw):
    """Merge text, entities and expressions that are adjacent into runs."""
    run = []
    for n in nodes:
        if n[0] == 'text':
            part = ('t', n[1])
        elif n[0] == 'ent':
            part = ('t', ENTITIES[n[1]])
        elif n[0] == 'expr':
            part = ('e', n[1])
        else:
            if run:
                yield ('run', merge(run))
                run = []
            yield n
            continue
        run.append(part)
    if run:
        yield ('run', merge(run))


def merge(parts):
    """Static text as the compiler sees it: '$' written as '$$' is a text of its own."""
    out = []
    for k, s in parts:
        if k == 't':
            for piece in split_dollar(s):
                if out and out[-1][0] == 't' and piece != '$' and out[-1][1] != '$':
                    out[-1] = ('t', out[-1][1] + piece)
                else:
                    out.append(('t', piece))
        else:
            out.append((k, s))
    return out


def split_dollar(s):
    piece = ''
    for c in s:
        if c == '$':
            if piece:
                yield piece
            yield '$'
            piece = ''
        else:
            piece += c
    if piece:
        yield piece


def split_space(parts):
    parts = [list(p) for p in parts]
    lead = trail = ''
    if parts and parts[0][0] == 't':
        s = parts[0][1]
        rest = s.lstrip()
        lead = s[:len(s) - len(rest)]
        if not rest and len(parts) == 1:
            return s, [], ''
        parts[0][1] = rest
    if parts and parts[-1][0] == 't':
        s = parts[-1][1]
        rest = s.rstrip()
        trail = s[len(rest):]
        parts[-1][1] = rest
    return lead, [tuple(p) for p in parts], trail


# ---------------------------------------------------------------- generator

TEXT_PIECES = ['a', 'Hi ', ' ', '\n', '  \n ', '<', '>', '&', '"', "'", '$', '{', '}', '%', '\\', 'x.y', '\xe9',
               '\u20ac', '&amp;', '$$', 'foo', '-', ';', '%s', '\\n', '{{', '\U0001f600', '\xa0', '0', ']]']
STR_PIECES = ['', 'a', '<', '>', '&', '"', "'", '&amp;', '&lt;', 'b c', '\n', '$', '%s', '\\', '\xe9', '\u20ac', '<b>', ']]>', '{', '}', '0']
TAGS = ['div', 'p', 'span', 'b', 'td', 'br', 'img', 'hr', 'input', 'x-y', 'a', 'link', 'h1', 'BR', 'option', 'textarea', 'area', 'base', 'col', 'meta', 'param', 'x:y']
ATTRS = ['class', 'id', 'title', 'href', 'data-x', 'alt', 'checked', 'selected', 'disabled', 'value', 'style', 'readonly', 'multiple', 'nohref', 'ismap', 'declare', 'defer']


def rtext(rng, n=4):
    return ''.join(rng.choice(TEXT_PIECES) for _ in range(rng.randint(1, n)))


def rstr(rng, n=3):
    return ''.join(rng.choice(STR_PIECES) for _ in range(rng.randint(0, n)))


def rvalue(rng, depth=0):
    r = rng.random()
    if r < .5:
        return ['s', rstr(rng)]
    if r < .6:
        return ['n']
    if r < .7:
        return ['i', rng.choice([0, 1, -1, 2, 7, 10 ** 20])]
    if r < .76:
        return ['b', rng.random() < .5]
    if r < .84:
        return ['obj', rstr(rng)]
    if r < .92:
        return ['html', rstr(rng)]
    if r < .95:
        return ['sub', rstr(rng)]
    return ['l', [['s', rstr(rng)], ['i', 3]]]


def rcontext(rng):
    return {
        'a': ['s', rstr(rng)], 'b': ['s', rstr(rng)], 'c': rvalue(rng), 'd': rvalue(rng),
        'n': ['n'], 't': ['b', True], 'f': ['b', False], 'i': ['i', rng.choice([0, 1, 2, 3, 5])],
        'l': ['l', [['i', k] for k in range(rng.randint(0, 3))]],
        'ls': ['l', [['s', rstr(rng)] for _ in range(rng.randint(0, 3))]],
        'o': ['obj', rstr(rng), ['s', rstr(rng)]],
        'h': ['html', rstr(rng)], 'z': ['s', ''], 'sp': rspecial(rng),
        'm': ['d', [['title', rvalue_attr(rng)], ['checked', rng.choice([['b', True], ['b', False], ['n'], ['s', 'x']])],
                    ['zz', ['s', rstr(rng)]]]],
        'prs': ['l', [['t', [['s', 'b'], ['s', rstr(rng)]]], ['t', [['s', 'a'], rvalue_attr(rng)]]]],
    }


def rspecial(rng):
    if rng.random() < .25:
        return ['nan']
    return ['spec', rstr(rng), [rng.choice(['noteq', 'alleq', 'falsy', 'len', 'call', 'iter', 'int', 'list', 'dict', 'tuple', 'exc', 'repr'])]]


def rvalue_attr(rng):
    v = rvalue(rng)
    return ['s', 'x<'] if v[0] == 'html' else v


class Gen(object):
    """Random trees.  names in self.scope can be read; everything assigned is unique per template."""

    def __init__(self, rng, features=None, maxdepth=3):
        self.rng = rng
        self.n = 0
        self.maxdepth = maxdepth
        self.features = features or ['text', 'text', 'expr', 'expr', 'el', 'el', 'if', 'for', 'switch', 'with', 'replace',
                                     'comment', 'cdata', 'callfn', 'call', 'ent', 'py', 'script', 'multi', 'block']
        self.defs = []
        self.blocks = 0

    def fresh(self, p='v'):
        self.n += 1
        return '%s%d' % (p, self.n)

    def expr(self, scope):
        r = self.rng
        locs = [s for s in scope]
        base = ['a', 'b', 'c', 'd', 'n', 't', 'f', 'i', 'o', 'o.attr', 'h', 'z'] + locs * 3
        k = r.random()
        if k < .55:
            return r.choice(base)
        return r.choice([
            'a + b', 'i + 1', 'literal(a)', "'x' + a", "{'k': a}['k']", "'}' + b", "'$' + a", "'$$'", "'{' + a + '}'",
            '[q for q in ls]', 'a if t else b', '(lambda q: q)(a)', 'None', "'%s|%s' % (a, i)", "''.join(ls)",
            "len(l)", "dict(k=a)['k']", "'\"' + a", '"\'" + a', "a*2", "{1: {2: b}}[1][2]", "'''}'''", "str(c)",
            "Markup(b)", "f and a", "i == 1", "not t", "'$a'", "'${a}'", "'\\\\}'", "0", "''", 'value_of("a")',
            "value_of('nope', 'D')", 'defined("a")', 'defined("nope")', "(a,)[0]", "ls[:1]", "1.5", "[]", "{}",
        ])

    def cond(self, scope):
        return self.rng.choice(['t', 'f', 'i', 'a', 'l', 'n', 'not t', 'i > 1', 'i == 1', 'a == b', 't and a', 'f or b',
                                'n is None', '1 < i < 3', "a != ''", 'z', 'i % 2', 'True', 'False'] + list(scope))

    def body(self, depth, scope, n=3):
        scope = list(scope)
        return [self.node(depth + 1, scope) for _ in range(self.rng.randint(0, n))]

    def parts(self, scope):
        r = self.rng
        out = []
        for _ in range(r.randint(0, 3)):
            if r.random() < .5:
                s = rtext(r, 2).replace('\n', ' ').replace('\t', ' ')
                out.append(['t', s])
            else:
                code = self.expr(scope)
                if '\\' in code:
                    code = 'a'
                out.append([r.choice('xe'), code])
        return out

    def element(self, depth, scope, children=None, tag=None):
        r = self.rng
        tag = tag or r.choice(TAGS)
        attrs = [[a, self.parts(scope)] for a in r.sample(ATTRS, r.choice([0, 0, 1, 2, 3]))]
        opts = {}
        if r.random() < .2:
            opts['strip'] = r.choice(['', self.cond(scope)])
        if r.random() < .15:
            opts['attrs'] = r.choice(['m', 'prs', 'None', 'n', "{'q': a}", "[('w', b), ('v', None)]", '{}', "dict(checked=t, disabled=f)",
                                      "{'q': i, 'p': o}", "(('k', a),)", "{'e': ''}", "{'q': literal(a)}"])
            attrs = [x for x in attrs if x[0] not in ('title', 'checked', 'disabled', 'q', 'w')]
        if children is None:
            children = self.body(depth, scope) if depth < self.maxdepth else [['text', rtext(r)]] * r.randint(0, 1)
            if r.random() < .1:
                opts['content'] = self.expr(scope)
        if not children and r.random() < .5:
            opts['selfclose'] = False
        return ['el', tag, attrs, opts, children]

    def maybe_el_body(self, depth, scope):
        r = self.rng
        if r.random() < .5:
            return [self.element(depth + 1, scope)], 'attr'
        return self.body(depth, scope), 'elem'

    def node(self, depth, scope):
        r = self.rng
        feats = self.features if depth < self.maxdepth else [f for f in self.features if f in ('text', 'expr', 'comment', 'ent', 'cdata', 'callfn')]
        k = r.choice(feats or ['text'])
        if k == 'text':
            return ['text', rtext(r)]
        if k == 'ent':
            return ['ent', r.choice(sorted(ENTITIES))]
        if k == 'expr':
            return ['expr', self.expr(scope), r.choice(['named', 'braced'])]
        if k == 'el':
            return self.element(depth, scope)
        if k == 'script':
            kids = []
            for _ in range(r.randint(0, 3)):
                kids.append(r.choice([['text', rtext(r)], ['expr', r.choice(['i', 'a', 'literal(b)']), 'braced'], ['ent', r.choice(['amp', 'lt', 'eacute'])]]))
            return ['el', r.choice(['script', 'style']), [], {}, kids]
        if k == 'if':
            body, form = self.maybe_el_body(depth, scope)
            orelse = None
            if r.random() < .5:
                orelse = [self.element(depth + 1, scope)] if form == 'attr' else self.body(depth, scope)
            return ['if', self.cond(scope), body, orelse, form]
        if k == 'for':
            v = self.fresh()
            tgt, seq = r.choice([(v, 'l'), (v, 'ls'), (v, 'range(i)'), (v, "'ab'"), (v, '[a, n, b]'),
                                 (v + ', ' + v + 'w', '[(1, a), (2, b)]'), (v + ', ' + v + 'w', 'enumerate(ls)'), (v, 'reversed(l)'), (v, 'sorted(l)')])
            names = [x.strip() for x in tgt.split(',')]
            inner = list(scope) + names
            body, form = self.maybe_el_body(depth, inner)
            return ['for', tgt, seq, body, form]
        if k == 'switch':
            cases = []
            for _ in range(r.randint(0, 3)):
                body, form = self.maybe_el_body(depth, scope)
                cases.append([r.choice(['1', '2', 'i', "'a'", 'a', 'i + 1', 'n', 't', "''", '0', 'False', 'sp', 'sp']), body, form])
            orelse = self.body(depth, scope) if r.random() < .6 or not cases else None
            return ['switch', r.choice(['i', '1', 'a', 'len(l)', 'n', 't', 'b', 'f', 'z', 'sp', 'sp'] + list(scope)), cases, orelse, r.choice(['', ' ', '\n  '])]
        if k == 'with':
            v, w = self.fresh(), self.fresh()
            pairs = [[v, r.choice(['a', 'i + 1', "'x' + b", 'None', '[1, 2]', 'i == 1', 'dict(q=1)', '0', "''"])]]
            if r.random() < .5:
                pairs.append([w, r.choice([v, '(%s, a)' % v, 'b'])])
            inner = list(scope) + [p[0] for p in pairs]
            body, form = self.maybe_el_body(depth, inner)
            if r.random() < .4:
                body2, _ = self.maybe_el_body(depth, inner)
                body = body + [['with', [[v, r.choice(['7', "'y'", v, '[%s]' % v, 'None'])]], body2, 'elem', ';']] + [['expr', 'str(%s)' % v, 'braced']]
                form = 'elem'
            return ['with', pairs, body, form, r.choice([';', '; ', ' ; '])]
        if k == 'replace':
            body, form = self.maybe_el_body(depth, scope)
            return ['replace', self.expr(scope), body, form]
        if k == 'comment':
            return ['comment', r.choice([' c ', '!x', ' !x', 'x!', '\n!', ' $a ', 'a&b', '<b>', ''])]
        if k == 'cdata':
            return ['cdata', rtext(r, 3).replace(']]', '')]
        if k == 'py':
            v = self.fresh()
            scope.append(v)
            return ['py', '%s = %s' % (v, r.choice(['a', 'i + 1', '[1]', "'q'"]))]
        if k == 'callfn':
            if not self.defs:
                return ['text', 'nodef']
            name, params = r.choice(self.defs)
            args = [r.choice(['a', 'b', 'i', "'q'", 'None']) for p in params if '=' not in p or r.random() < .5]
            return ['expr', '%s(%s)' % (name, ', '.join(args)), 'braced']
        if k == 'call':
            y = self.fresh()
            inner = list(scope) + [y]
            return ['call', 'wrapfn', [r.choice(['a', "'p'"])], [y], self.body(depth, inner)]
        if k == 'block':
            if scope or depth > 2:
                return ['text', 'noblock']
            self.blocks += 1
            return ['block', 'blk%d' % self.blocks, self.body(depth, []), r.choice(['elem', 'attr'])]
        if k == 'multi':
            v, w = self.fresh(), self.fresh()
            dirs = []
            inner = list(scope)
            if r.random() < .7:
                dirs.append(['for', v, r.choice(['l', 'ls', 'range(2)'])])
                inner.append(v)
            if r.random() < .7:
                dirs.append(['if', self.cond(inner)])
            if r.random() < .6:
                dirs.append(['with', [[w, r.choice(['a', '1'] + inner)]]])
                inner.append(w)
            if r.random() < .2:
                dirs.append(['replace', self.expr(inner)])
            order = [d[0] for d in dirs]
            r.shuffle(order)
            return ['multi', dirs, self.element(depth, inner), order]
        raise ValueError(k)

    def template(self):
        r = self.rng
        defs = []
        if 'call' in self.features:
            defs.append(['def', 'wrapfn', ['p', 'caller'], [['text', '['], ['expr', 'caller(p)', 'braced'], ['text', '|'],
                                                              ['expr', "caller(b)", 'braced'], ['text', ']']], 'elem'])
        if 'callfn' in self.features:
            for _ in range(r.randint(0, 2)):
                name, p = self.fresh('fn'), self.fresh('p')
                params = r.choice([[], [p], [p, p + 'd=' + r.choice(["'D'", '1'])]])
                scope = [x.split('=')[0] for x in params]
                body, form = self.maybe_el_body(1, scope)
                defs.append(['def', name, params, body, form])
                self.defs.append((name, params))
        root = ['el', r.choice(['div', 'html', 'root']), [], {}, defs + self.body(0, [], 5)]
        return [root]
