"""C05: XML templates find every $ expression and keep all other text."""
import itertools
import kajiki
from .lib import kind, context, diff, Undefined, esc, esc_text, interp
from .xmlgen import Oracle, _plain, rcontext
from .c06 import xmltree, xml_case  # noqa
from .c04 import NAME0, name_end, Bad


def scan(s):
    """('t', text) and ('e', code) parts of the (decoded) text; Bad if it must be rejected."""
    out, run, i, n = [], '', 0, len(s)
    while i < n:
        c = s[i]
        d = s[i + 1:i + 2]
        if c == '$' and d == '$':
            run += '$'
            i += 2
        elif c == '$' and d == '{':
            i += 2
            j = s.find('}', i)
            while j != -1:
                code = s[i:j].strip()
                try:
                    if '#' in code or '\\' in code:
                        raise Undefined()
                    compile(code, 'x', 'eval')
                    break
                except (SyntaxError, ValueError):
                    j = s.find('}', j + 1)
            if j == -1:
                raise Bad()
            if run:
                out.append(('t', run))
                run = ''
            out.append(('e', code))
            i = j + 1
        elif c == '$' and d and d in NAME0:
            j = name_end(s, i + 1)
            if run:
                out.append(('t', run))
                run = ''
            out.append(('e', s[i + 1:j]))
            i = j
        else:
            run += c
            i += 1
    if run:
        out.append(('t', run))
    return out


@kind('xmldollar')
def xmldollar(args):
    """{text, ctx, place}: text is the decoded content of an element or attribute."""
    text, place = args['text'], args['place']
    ora = Oracle(context(args['ctx'], True))
    try:
        parts = scan(text)
    except Bad:
        parts = None
    if place == 'attr':
        src = '<p><b x="%s"/></p>' % text.replace('&', '&amp;').replace('<', '&lt;').replace('"', '&quot;').replace('\n', '&#10;').replace('\t', '&#9;').replace('\r', '&#13;')
    else:
        if parts is None:
            if any(c in text for c in '<>&'):
                raise Undefined()
        elif any(k == 'e' and any(c in code for c in '<>&') for k, code in parts) and not args.get('markup'):
            raise Undefined()
        src = '<p>|%s|</p>' % text.replace('&', '&amp;').replace('<', '&lt;').replace(']>', ']&gt;').replace('\r', '&#13;')
    if parts is None:
        try:
            kajiki.XMLTemplate(src)
        except (kajiki.xml_template.XMLTemplateError, kajiki.template.KajikiSyntaxError):
            return None
        return 'no compile error for %r' % src
    try:
        vals = [(k, c if k == 't' else ora.ev(c, {})) for k, c in parts]
    except Exception:
        raise Undefined()
    if place == 'attr':
        got_vals = [v if k == 't' else _plain(v) for k, v in vals if v is not None]
        if vals and not got_vals:
            expected = '<p><b/></p>'
        else:
            expected = '<p><b x="%s"/></p>' % esc(''.join(got_vals))
    else:
        expected = '<p>|%s|</p>' % ''.join(esc_text(v) if k == 't' else interp(v) for k, v in vals)
    got = kajiki.XMLTemplate(src)(context(args['ctx'])).render()
    d = diff(expected, got)
    return d and 'source %r\n%s' % (src, d)


TOK = ['a', '$', '{', '}', '$a', '${a}', '$$', ' ', "${'}'}", "${'$a'}", '.', '5', '%', "'", '"', '\\', '$o.attr', '${n}', '${', '${{1:a}[1]}', '$5', '\n', '$.', "$'", '${ a }', "${'{'}",
       '(', ')', '#', '\xe9', '$n', '<', '&', '>']
MORE = TOK + ['${a + "}"}', "${'$$'}", "${a+'${b}'}", '${[x for x in l]}', '${a b}', '${a +}', '${}', '${ }', "${'}", '${a)}', '${a;b}', '${dict(k=a)["k"]}', "${'''}'''}", '$_x', '$A', '$-', '${i:d}',
              '${1}', '$1', "don't", '${a\n}', '${(a,\nb)}', '$$a', '$$$a', '$$${a}', '$${a}', '{a}', '{{}}', '${{}}', "${'\xe9}'}", '${l[0:1]}', '${(lambda: 0)()}', '${a if t else b}', '; ', ']', '[', '\t',
              '${["\u2028",\n1][1]}', '${("\x85",\n\n"}")[1]}', '${[1,\r\n2][1]}', '${(1,\r2)[0]}', '${a\r\n}', '\r\n', '\u2028', '${(\na,\n)}',
              '${n or a}', 'x' * 50, '\u20ac', '${b}', '$b']


def cases(run):
    rng = run.rng
    ctx = {'a': ['s', 'A<'], 'b': ['s', 'B$a${a}'], 'i': ['i', 0], 'n': ['n'], 't': ['b', True], 'l': ['l', [['i', 0], ['i', 1]]], 'o': ['obj', 'O', ['s', 'oa&']], '_x': ['s', 'ux'], 'A': ['s', 'upper']}
    for n in (1, 2):
        for c in itertools.product(TOK, repeat=n):
            for place in ('text', 'attr'):
                yield 'xmldollar', dict(text=''.join(c), ctx=ctx, place=place)
    for c in MORE:
        for place in ('text', 'attr'):
            yield 'xmldollar', dict(text=c, ctx=ctx, place=place)
            yield 'xmldollar', dict(text='x' + c + 'y', ctx=ctx, place=place)
            yield 'xmldollar', dict(text=c + c, ctx=ctx, place=place)
    while True:
        r = rng.random()
        if r < .8:
            yield 'xmldollar', dict(text=''.join(rng.choice(MORE if rng.random() < .6 else TOK) for _ in range(rng.randint(1, 7))), ctx=ctx if rng.random() < .6 else rcontext(rng), place=rng.choice(['text', 'attr']))
        else:
            yield xml_case(rng, features=['text', 'expr', 'expr', 'el'])
