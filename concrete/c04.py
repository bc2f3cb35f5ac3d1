"""C04: text templates reproduce their source except for tags and expressions."""
import itertools
import kajiki
from .lib import kind, context, diff, Undefined
from . import textgen
from .c06 import texttree, text_case  # noqa
from .xmlgen import rcontext

LETTERS = set('abcdefghijklmnopqrstuvwxyz')
NAME0 = set('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_')
NAME = NAME0 | set('0123456789')
BLANK = ' \t\n\r\x0b\x0c\x1c\x1d\x1e\x1f\x85\xa0\u2028\u2029'


class Bad(Exception):
    """The template must be rejected."""


def name_end(s, i):
    """End of the name that starts at s[i]: identifiers, separated by single dots."""
    j = i
    while s[j:j + 1] and s[j] in NAME:
        j += 1
        if s[j:j + 1] == '.' and s[j + 1:j + 2] and s[j + 1] in NAME0:
            j += 1
    return j


def braced(s, i):
    """End of the expression that starts at s[i]: the first } that leaves an expression."""
    j = s.find('}', i)
    if j == -1 or s[i:].lstrip(' ')[:1] in ('?', '!', '$', ')', ']'):
        raise Bad()
    while j != -1:
        code = s[i:j]
        if '#' in code or '\\' in code:
            raise Undefined()
        try:
            compile(code.strip(), 'x', 'eval')
            return code, j + 1
        except (SyntaxError, ValueError):
            pass
        j = s.find('}', j + 1)
    raise Undefined()


def word(s, i):
    j = i
    while j < len(s) and s[j] in LETTERS:
        j += 1
    if j < len(s) and s[j] in NAME0 and s[j] not in LETTERS and s[j] != '_':
        raise Undefined()
    return s[i:j], j


def tag(name, body):
    body = body.strip()
    if name in ('end', 'else'):
        if body:
            raise Undefined()
        return [name]
    if name in ('if', 'switch', 'case'):
        return [name, body]
    if name == 'for':
        v, sep, seq = body.partition(' in ')
        if not sep:
            raise Undefined()
        return ['for', v.strip(), seq]
    if name == 'py':
        if len(body.splitlines()) > 1 or not body:
            raise Undefined()
        return ['py', body]
    if name == 'block':
        return ['block', body]
    if name == 'def':
        fn, _, params = body.partition('(')
        params = params.rstrip(')').strip()
        return ['def', fn, [p.strip() for p in params.split(',')] if params else []]
    raise Undefined()


def scan(s):
    """The tokens of a text template, as the documentation describes them."""
    toks, run, i, n = [], '', 0, len(s)

    def flush():
        if run:
            toks.append(['T', run])
    while i < n:
        if i == 0 or s[i - 1] == '\n':
            j = i
            while j < n and s[j] in BLANK:
                j += 1
            if s.startswith('%', j) and s[j + 1:j + 2] and s[j + 1] in NAME0 - set('_'):
                name, k = word(s, j + 1)
                if not name:
                    raise Undefined()
                end = s.find('\n', k)
                end = n if end == -1 else end
                flush()
                run = ''
                toks.append(['G', s[i:end + 1], tag(name, s[k:end])])
                i = min(end + 1, n)
                continue
            if s.startswith('{%-', j):
                if s[j + 3:j + 4] not in LETTERS:
                    raise Undefined()
                flush()
                run = ''
                t, i = brace_tag(s, j + 3)
                toks.append(['G', '', t])
                continue
        c = s[i]
        if c == '{' and s.startswith('{%', i):
            if s[i + 2:i + 3] not in LETTERS:
                raise Undefined()
            flush()
            run = ''
            t, i = brace_tag(s, i + 2)
            toks.append(['G', '', t])
            continue
        if c == '$':
            d = s[i + 1:i + 2]
            if d == '$':
                flush()
                run = ''
                toks.append(['D', '$$'])
                i += 2
                continue
            if d == '{':
                flush()
                run = ''
                code, i = braced(s, i + 2)
                if not code.strip():
                    raise Undefined()
                toks.append(['E', '', code])
                continue
            if d and d in NAME0:
                j = name_end(s, i + 1)
                flush()
                run = ''
                toks.append(['E', '', s[i + 1:j]])
                i = j
                continue
            raise Undefined()
        run += c
        i += 1
    flush()
    return toks


def brace_tag(s, i):
    name, k = word(s, i)
    end = s.find('%}', k)
    if end == -1:
        raise Undefined()
    body = s[k:end]
    if '\n' in body:
        raise Undefined()
    i = end + 2
    if body.endswith('-'):
        body = body[:-1]
        while i < len(s) and s[i] in ' \t':
            i += 1
    return tag(name, body), i


def nested(toks):
    depth, names = [], set()
    for t in toks:
        if t[0] == 'E' or (t[0] == 'G' and t[2][0] in ('if', 'switch', 'case', 'py', 'for')):
            what = t[2] if t[0] == 'E' else t[2][-1]
            try:
                compile(what.strip(), 'x', 'exec' if t[0] == 'G' and t[2][0] == 'py' else 'eval')
            except (SyntaxError, ValueError):
                raise Undefined()
        if t[0] == 'G' and t[2][0] in ('def', 'block'):
            if t[2][1] in names:
                raise Undefined()
            names.add(t[2][1])
        if t[0] != 'G':
            if depth and depth[-1] == 'switch':
                raise Undefined()
            continue
        w = t[2][0]
        if w in ('if', 'for', 'switch', 'def', 'block'):
            if depth and depth[-1] == 'switch':
                raise Undefined()
            depth.append(w)
        elif w == 'case':
            if not depth or depth[-1] not in ('switch', 'case'):
                raise Undefined()
            depth[-1] = 'case'
        elif w == 'else':
            if not depth or depth[-1] not in ('if', 'case'):
                raise Undefined()
            depth[-1] = 'else'
        elif w == 'end':
            if not depth:
                raise Undefined()
            depth.pop()
        elif depth and depth[-1] == 'switch':
            raise Undefined()
    if depth:
        raise Undefined()


@kind('textsrc')
def textsrc(args):
    src = args['src']
    if not src:
        raise Undefined()
    try:
        toks = scan(src)
    except Bad:
        try:
            kajiki.TextTemplate(src)
        except Exception:
            return None
        return 'not rejected: %r' % src
    nested(toks)
    # texts are separate around $$
    toks = [['T', '$$'] if t[0] == 'D' else t for t in toks]
    try:
        expected = textgen.TextOracle(context(args['ctx'], True), args.get('autoescape', False)).doc(textgen.build(toks))
    except Exception:
        raise Undefined()
    got = kajiki.TextTemplate(src, autoescape=args.get('autoescape', False))(context(args['ctx'])).render()
    return diff(expected, got)


TOK = ['a', '\n', ' ', '%', '\\', '$$', '$a', '${a}', '{%if t%}b{%end%}', '%if t\nc\n%end\n', '%py z = 1\n', '{%py z = 1-%}', '{%-py z = 1%}', '{', '}', '%5', "${'}$a'}",
       '-', '%}', '\t', '%py z = 1', '${ b }', '${\n a\n}', '${a +\n b}', '${{1: a}[1]}', '"', '#']
SOUP = TOK + ['\n', '\n', ' \n', '\n  ', 'x', '%%', '\\\n', '\\\\', '\\%', '\\$', '%if t\n', '%end\n', '%end', '{%end%}', '{%else%}', '%else\n', '{%if f%}', '{%if t-%}', '{%-if t%}',
              '{%-end-%}', '%for v in l\n', '$v', '${v}', '{%switch i%}', '{%case 1%}', '{%case i-%}', '\xe9', '\r', '<', '&', '$o.attr', '.', '5', '\n\n\n%if t\n', '\n\t%end\n', '{%for w in ls-%}  ', '$w', '${["\u2028",\n1][1]}', '${("\x0c",\n\n"}")[1]}', '${[1,\r\n2][1]}', '${(1,\r2)[0]}', '\\\r', '\\\r\n', '${(\na,\n)}', '\r\n',
              '%if t\r\n', '%end\r\n', '\u2028', '\x0c']


def soup(rng, depth=2):
    r = rng.random()
    if depth == 0 or r < .6:
        return ''.join(rng.choice(SOUP[:25] + ['\n', '\n', ' ', '\\', '\\\n', '%%', ' \n', '\xe9', '\\%', '.', '5']) for _ in range(rng.randint(0, 5)))
    op, end = rng.choice([('{%if t%}', '{%end%}'), ('\n%if t\n', '\n%end\n'), ('{%-if t-%}', '{%-end-%}'), ('{%if f%}', '{%else%}q{%end%}'), ('%if t\n', '%end\n'),
                          ('\n%for v in l\n$v', '%end\n'), ('{%for v in ls-%}', '{%end-%}'), ('\n  %if t\n', '\n  %end'), ('{%switch i%}{%case i%}', '{%end%}'),
                          ('\n%switch i\n%case 77\nno\n%else\n', '\n%end\n'), ('\n\n{%-if t%}', '\n \n{%-end%}'), ('{%block q%}', '{%end%}')])
    return soup(rng, depth - 1) + op + soup(rng, depth - 1) + end + soup(rng, depth - 1)


def cases(run):
    rng = run.rng
    ctx = {'a': ['s', 'A'], 'b': ['i', 0], 't': ['b', True], 'f': ['b', False], 'l': ['l', [['i', 0], ['i', 1]]], 'ls': ['l', [['s', 'x']]], 'i': ['i', 1],
           'o': ['obj', 'O', ['s', 'oa']]}
    for n in (1, 2):
        for c in itertools.product(TOK, repeat=n):
            yield 'textsrc', dict(src=''.join(c), ctx=ctx)
    big = list(itertools.product(TOK, repeat=3))
    rng.shuffle(big)
    for c in big if run.tier == 'thorough' else big[:2500]:
        yield 'textsrc', dict(src=''.join(c), ctx=ctx)
    while True:
        r = rng.random()
        if r < .3:
            yield 'textsrc', dict(src=''.join(rng.choice(SOUP) for _ in range(rng.randint(1, 9))), ctx=ctx)
        elif r < .75:
            yield 'textsrc', dict(src=soup(rng, rng.choice([1, 2, 3])), ctx=rng.choice([ctx, rcontext(rng)]), autoescape=rng.random() < .2)
        elif r < .77:
            yield 'textsrc', dict(src=soup(rng, 3) * rng.choice([5, 50]) + soup(rng), ctx=ctx)
        else:
            yield text_case(rng)
