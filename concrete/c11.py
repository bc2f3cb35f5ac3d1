"""C11: static text is translated as a whole, and exactly what was extracted."""
from io import BytesIO
import kajiki
from kajiki import i18n
from . import xmlgen
from .lib import kind, context, diff
from .xmlgen import Oracle, group, split_space, nest, esc_text
from .c06 import xmltree  # noqa

SKIP = object()


def static_messages(nodes, strip_text, out):
    """The texts of the tree that are translatable, whether or not they are rendered."""
    for item in group(nodes, False):
        k = item[0]
        if k == 'run':
            lead, parts, trail = split_space([p for p in item[1]])
            for p in parts:
                if p[0] == 't' and p[1] and esc_text(p[1]).strip():
                    out.append(esc_text(p[1]))
        elif k == 'cdata':
            if item[1]:
                lead, parts, trail = split_space(xmlgen.merge([('t', item[1])]))
                out.extend(p[1] for p in parts if p[1].strip())
        elif k == 'multi':
            static_messages(nest(item), strip_text, out)
        elif k == 'replace':
            pass
        elif k == 'el':
            if item[1] in ('script', 'style') or 'content' in item[3]:
                continue
            static_messages(item[4], strip_text, out)
        else:
            subs = {'if': lambda: [item[2], item[3] or []], 'for': lambda: [item[3]], 'def': lambda: [item[3]],
                    'switch': lambda: [c[1] for c in item[2]] + [item[3] or []], 'with': lambda: [item[2]],
                    'block': lambda: [item[2]], 'call': lambda: [item[4]]}.get(k, lambda: [])()
            for s in subs:
                static_messages(s, strip_text, out)
    return out


def tr(style):
    return {'upper': lambda s: s.upper(), 'wrap': lambda s: '\u00ab' + s + '\u00bb', 'same': lambda s: s, 'empty': lambda s: '',
            'markup': lambda s: '<b>' + s.replace('e', '') + '&amp;</b>'}[style]


@kind('i18n')
def i18n_case(args):
    tree, ctx, strip = args['tree'], args['ctx'], args.get('strip_text', False)
    src = xmlgen.source_of(tree)
    mode = args['mode']
    translate = tr(args['style'])
    ora = Oracle(context(ctx, True), mode, translate=translate, strip_text=strip)
    expected = ora.doc(tree)
    seen = []

    def gettext(s):
        seen.append(s)
        return translate(s)
    tpl = kajiki.XMLTemplate(src, mode=mode, is_fragment=True, strip_text=strip)
    c = context(ctx)
    c['gettext'] = gettext
    d = diff(expected, tpl(c).render())
    if d:
        return 'source %r\n%s' % (src, d)
    # blocks and functions that yield nothing are looked up where they are rendered: compare as sequences
    if sorted(seen) != sorted(ora.messages):
        return 'source %r: messages looked up %r, expected %r' % (src, seen, ora.messages)
    extracted = [m[2] for m in i18n.extract(BytesIO(src.encode('utf-8')), ['_'], [], dict(mode=mode, strip_text=strip, is_fragment=True))]
    missing = set(seen) - set(extracted)
    if missing:
        return 'source %r: looked up but not extracted: %r' % (src, sorted(missing))
    want = static_messages(tree, strip, [])
    if sorted(set(want)) != sorted(set(extracted)):
        return 'source %r: extracted %r, expected %r' % (src, sorted(set(extracted)), sorted(set(want)))
    if args['style'] == 'same':
        plain = kajiki.XMLTemplate(src, mode=mode, is_fragment=True, strip_text=strip)(context(ctx)).render()
        return diff(plain, tpl(c).render())


@kind('i18nscope')
def i18nscope(args):
    """gettext comes from the context, the base globals or is the identity; _() is the same function."""
    src = "<p>Hi<b>you ${_('x')} ${gettext('y')}</b></p>"
    up = lambda s: s.upper()                     # noqa
    wr = lambda s: '[' + s + ']'                 # noqa
    base = dict(gettext=wr) if args['base'] else None
    ctx = dict(gettext=up) if args['ctx'] else {}
    t = kajiki.XMLTemplate(src, base_globals=base)
    f = up if args['ctx'] else wr if args['base'] else lambda s: s
    return diff('<p>%s<b>%s%s %s</b></p>' % (f('Hi'), f('you '), f('x'), f('y')), t(ctx).render())


@kind('i18nexpr')
def i18nexpr(args):
    """With extract_python, the messages of expressions are reported with their function, besides the static ones."""
    exprs = args['exprs']
    src = '<p>%s</p>' % ''.join('\n%s<b>${%s}</b>' % (t, e) for t, e, _ in exprs)
    opts = dict(mode=args['mode'])
    if args['python']:
        opts['extract_python'] = True
    got = [m[:3] for m in i18n.extract(BytesIO(src.encode('utf-8')), ['_', 'ngettext'], [], opts)]
    want = []
    for i, (t, e, ms) in enumerate(exprs):
        if t.strip():
            want.append((None, '_', t.strip()))
        if args['python']:
            want += [(i + 2, f, tuple(m) if isinstance(m, list) else m) for f, m in ms]
    got = [(None if f == '_' and m in [t.strip() for t, _, _ in exprs] else l, f, tuple(m) if isinstance(m, (list, tuple)) else m) for l, f, m in got]
    if sorted(got, key=repr) != sorted(want, key=repr):
        return 'source %r: extracted %r, expected %r' % (src, got, want)


EXPRS = [("_('one')", [['_', 'one']]), ("_('a') + _('b c')", [['_', 'a'], ['_', 'b c']]), ('v', []), ("ngettext('x', 'xs', 2)", [['ngettext', ['x', 'xs', None]]]), ("f(_('\xe9'))", [['_', '\xe9']]), ("'_(q)'", [])]


WORDS = ['Hello', 'world', ' ', '  ', '\n', 'a &lt', '<', '&', '$', '%s', '\xe9', '\u20ac', '\xa0', '0', 'don\'t', '"', '{}', '\t', 'e']


def cases(run):
    rng = run.rng
    for b in (0, 1):
        for c in (0, 1):
            yield 'i18nscope', dict(base=b, ctx=c)
    for e in EXPRS:
        for py in (0, 1):
            yield 'i18nexpr', dict(exprs=[['T ', e[0], e[1]]], python=py, mode='xml')
    while True:
        if rng.random() < .05:
            yield 'i18nexpr', dict(exprs=[(rng.choice(['', 'Text', ' t u ']),) + rng.choice(EXPRS) for _ in range(rng.randint(1, 4))], python=rng.random() < .7, mode=rng.choice(['xml', 'html', 'html5']))
        g = xmlgen.Gen(rng, maxdepth=rng.choice([1, 2, 3]), features=['text', 'text', 'text', 'expr', 'el', 'el', 'if', 'for', 'switch', 'with', 'comment', 'cdata', 'callfn', 'call', 'ent', 'script', 'multi', 'block'])
        tree = g.template()
        if rng.random() < .5:
            for n in xmlgen.walk(tree):
                if n[0] == 'text':
                    n[1] = ''.join(rng.choice(WORDS) for _ in range(rng.randint(1, 5)))
        yield 'i18n', dict(tree=tree, ctx=xmlgen.rcontext(rng), mode=rng.choice(['xml', 'html', 'html5']), style=rng.choice(['upper', 'wrap', 'same', 'empty', 'markup']), strip_text=rng.random() < .25)
