"""C10: errors are reported at the line of the template they come from."""
import traceback
import sys
import kajiki
from kajiki import lnotab
from .lib import kind

FN = '/tpl/x.kj'


def line_of(render):
    """Line of the innermost frame of the template in the traceback of the error."""
    try:
        render()
    except ZeroDivisionError:
        tb = sys.exc_info()[2]
        frames = [(f, l) for f, l, _, _ in traceback.extract_tb(tb) if f == FN]
        return frames
    return None


@kind('xmlline')
def xmlline(args):
    """{src: template with exactly one marker @@ replaced by the failing expression; ...}"""
    src = args['src']
    line = src[:src.index('@@')].count('\n') + 1
    if args.get('tagline'):          # expressions of a tag are reported at the line where the tag ends
        line = args['tagline']
    src = src.replace('@@', '1//zero')
    tpl = kajiki.XMLTemplate(src, filename=FN)
    frames = line_of(lambda: tpl(dict(zero=0, l=[1, 2], t=True)).render())
    if not frames:
        return 'no template frame in the traceback (%r)' % (frames,)
    if frames[-1][1] != line:
        return 'reported at line %d, expected %d in\n%s' % (frames[-1][1], line, src)


@kind('textline')
def textline(args):
    src = args['src']
    line = src[:src.index('@@')].count('\n') + 1
    src = src.replace('@@', '1//zero')
    tpl = kajiki.TextTemplate(src, filename=FN)
    frames = line_of(lambda: tpl(dict(zero=0, l=[1, 2], t=True)).render())
    if not frames:
        return 'no template frame in the traceback (%r)' % (frames,)
    if frames[-1][1] != line:
        return 'reported at line %d, expected %d in\n%s' % (frames[-1][1], line, src)


def lookup(table, first, offset):
    """The documented reading of a line table (signed line increments)."""
    line, addr = first, 0
    for i in range(0, len(table), 2):
        addr += table[i]
        if addr > offset:
            return line
        d = table[i + 1]
        line += d - 256 if d > 127 else d
    return line


@kind('lnotab')
def lnotab_case(args):
    pairs, first = [tuple(p) for p in args['pairs']], args['first']
    table = lnotab.lnotab_string(pairs, first)
    if len(table) % 2:
        return 'odd table'
    last = None
    want = {}
    for off, line in pairs:
        want[off] = line
    offs = sorted(want)
    for i, off in enumerate(offs):
        ends = [off, off + 1] + ([offs[i + 1] - 1] if i + 1 < len(offs) else [off + 1000])
        for o in ends:
            if i + 1 < len(offs) and o >= offs[i + 1]:
                continue
            got = lookup(table, first, o)
            if got != want[off]:
                return 'offset %d is at line %d, expected %d (table %r)' % (o, got, want[off], list(table))
    back = list(lnotab.lnotab_numbers(table, first))
    if any(back[i][0] >= back[i + 1][0] for i in range(len(back) - 1)):
        return 'offsets not increasing: %r' % back
    for o in sorted(set(offs + [x + 1 for x in offs])):
        got = [l for b, l in back if b <= o]
        exp = [want[b] for b in offs if b <= o]
        if exp and (not got or got[-1] != exp[-1]):
            return 'lnotab_numbers puts offset %d at %r, expected %d: %r' % (o, got[-1:], exp[-1], back)
    import types
    c = compile('pass', 'x', 'exec')
    if hasattr(c, 'replace'):
        c2 = c.replace(co_lnotab=table, co_firstlineno=first)
        import dis
        for b, l in dis.findlinestarts(c2):
            if b in want and want[b] != l:
                return 'the interpreter reads line %d at offset %d, expected %d' % (l, b, want[b])
    del types


NL = [0, 1, 2, 5, 30, 126, 127, 128, 129, 200, 254, 255, 256, 257, 300, 400, 600, 1000]
FILL_XML = [
    lambda n: '\n' * n, lambda n: '<p>x</p>\n' * n, lambda n: '<!-- ' + '\n' * n + ' -->', lambda n: '<b a="1"\n c="${2}"/>' * 2 + '\n' * n,
    lambda n: '<py:if test="t">\n' + '\n' * n + 'x</py:if>', lambda n: '${t}\n' * n, lambda n: '<i py:for="k in l">\n${k}' + '\n' * n + '</i>',
    lambda n: '<py:def function="f%d()">' + '\n' * n + '${t}</py:def>', lambda n: '<py:with vars="a=1">' + '\n' * n + '${a}</py:with>', lambda n: '<![CDATA[' + '\n' * n + ']]>',
    lambda n: '<py:switch test="t"><py:case value="True">' + '\n' * n + 'c</py:case><py:else>\nd</py:else></py:switch>\n', lambda n: '&nbsp;' + '\n' * n + '&eacute;\n&nbsp;',
    lambda n: "${(1,\n2)}" + '\n' * n, lambda n: '<?py\na = 1\nb = 2\n?>' + '\n' * n, lambda n: '<py:block name="bk%d">' + '\n' * n + '</py:block>',
    lambda n: '<script>' + '\n' * n + 'a &amp;&amp; ${1}</script>', lambda n: '$t ' * (n + 1), lambda n: '<u py:strip="t">' + '\n' * n + '</u>', lambda n: '<e py:content="t"/>' + '\n' * n,
    lambda n: '${\n\n t\n}' + '\n' * n, lambda n: '<b>\n $$ ${ \n1} \n ${\n2}</b>' + '\n' * n, lambda n: '<![CDATA[\n${\n t}\n]]>' + '\n' * n,
    lambda n: '<script>\n${\n t}\n</script>' + '\n' * n, lambda n: '<e>\n</e><py:replace value="t"/>' + '\n' * n,
]
FAIL_XML = [
    '${@@}', '<b>${@@}</b>', '<b>\n\n${@@}</b>', 'a\n$t ${@@} ${t}', '<b py:if="@@">\n</b>', '<b py:for="x in [@@]">\n\n</b>', '<b title="${@@}"/>', '<b title="x ${@@}" py:for="x in l"/>',
    '<py:with vars="q=@@">\n</py:with>', '<py:if test="t">\n\n<b>${@@}</b>\n</py:if>', '<py:for each="x in l">\n\n${t}\n${@@}\n</py:for>', '<b py:content="@@"/>', '<py:replace value="@@"/>',
    '<py:def function="boom()">\n\n${@@}\n</py:def>\n${boom()}', '${boom()}\n\n<py:def function="boom()">\n\n${t}\n${@@}\n</py:def>', '<py:block name="boom">\n\n${@@}</py:block>',
    '<b py:attrs="{1: @@}"/>', '<b py:strip="@@">\n</b>', '<py:switch test="@@"><py:case value="1">\n</py:case></py:switch>', '<py:switch test="t">\n<py:case value="@@">\n</py:case></py:switch>',
    '<py:def function="cl(caller)">\n${caller()}\n</py:def>\n<py:call function="cl(%caller)">\n\n${@@}\n</py:call>', '<py:if test="not t">x</py:if><py:else>\n\n${@@}</py:else>',
    '${t}\n${(\n1,\n2)}\n${@@}', '<p>\n  text\n  more ${@@} text\n</p>', '<script>\n\nvar a = ${@@};\n</script>', '&nbsp;\n&nbsp;\n${@@}', '<![CDATA[\n\n]]>\n${@@}', '${\n\n@@}', '${ \n\t@@}', '<![CDATA[\n\n${@@}\n]]>', '\n$$\n\n${@@}', 'a\n${\n\nt\n}\n${@@}',
    '<py:def function="o()"><py:def function="i()">\n${@@}\n</py:def>\n\n${i()}</py:def>\n${o()}', '<py:switch test="t"><py:case value="True">\n\n${@@}</py:case></py:switch>',
]
FILL_TEXT = [lambda n: '\n' * n, lambda n: 'x\n' * n, lambda n: '%if t\nx\n%end\n' * (n or 1), lambda n: '{%if t%}\n{%end%}' + '\n' * n, lambda n: '\n\n\n%py a = 1\n' + '\n' * n, lambda n: '$t\n' * n,
             lambda n: '{!def f%d()%}\n' + '\n' * n + '$t\n{!end%}\n', lambda n: '\\\n' * n + '\n', lambda n: '%for k in l\n$k' + '\n' * n + '\n%end\n', lambda n: '$$\n' * n, lambda n: '${\n t\n}' + '\n' * n, lambda n: '${(1,\n2)}$t' + '\n' * n, lambda n: '{%if t-%}   \n{%end-%}  \n' * (n or 1),
             lambda n: '{%if (t or' + '\n' * n + ' t)%}x{%end%}', lambda n: '{%py\na=1' + '\n' * n + '\nb=2\n%}', lambda n: '%py\na=1' + '\n' * n + '\nb=2\n%end\n',
             lambda n: '{!for k in (1,' + '\n' * n + '2)%}\n$k{!end%}', lambda n: '{!def f%d(a,' + '\n' * n + ' b)%}x{!end%}', lambda n: '{!switch (t,\n' + '\n' * n + '1)[0]%}{!case 1%}x{!end%}',
             lambda n: '%switch t\n%case True\n' + '\n' * n + '%else\nq\n%end\n']
FAIL_TEXT = ['${@@}', '$t\n${@@} $t', '\n%if @@\nx\n%end\n', '\n\n  %for k in [@@]\nx\n%end\n', '{%if t%}\n\n${@@}{%end%}', '\n%def boom()\n\n${@@}\n%end\n${boom()}', 'a\n\n${@@}\n\n%if t\n%end\n',
             '\n%switch @@\n%case 1\n%end\n', '\n%if not t\nx\n%else\n\n${@@}\n%end\n', '\n%for k in l\n\n$k\n${@@}\n%end\n', '\n%py q = @@\n', '${boom()}\n%def boom()\n$t\n\n${@@}%end\n%end\n' if False else '\n%def boom()\n$t\n\n${@@}\n%end\n\n\n\n${boom()}',
             '\n%def w(c)\n${c()}\n%end\n%call() w(%caller)\n\n${@@}\n%end\n', '\n%block bk\n\n${@@}\n%end\n']
DTDS = ['', '', '', '<!DOCTYPE html>\n', '<!DOCTYPE html PUBLIC "-//W3C//DTD XHTML 1.0 Strict//EN"\n  "http://www.w3.org/TR/xhtml1/DTD/xhtml1-strict.dtd">\n',
        '<?xml version="1.0"?>\n<!DOCTYPE html>\n', '<!-- c\nd -->\n', '<!DOCTYPE\n\n\nhtml>']


def num(s, counter):
    while '%d' in s:
        counter[0] += 1
        s = s.replace('%d', str(counter[0]), 1)
    return s


def xml_src(rng, fills, fail):
    c = [0]
    s = rng.choice(DTDS) + '<div>' + ''.join(num(f(n), c) for f, n in fills[:-1]) + fail
    if fills:
        f, n = fills[-1]
        s += num(f(n), c)
    return dict(src=s + '</div>')


def text_src(rng, fills, fail):
    c = [0]
    s = 'x' + ''.join('\n' + (num(f(n), c).replace('{!', '{%')) for f, n in fills[:-1])
    s += ('\n' if not fail.startswith('\n') else '') + fail
    if fills:
        f, n = fills[-1]
        s += '\n' + num(f(n), c).replace('{!', '{%')
    return dict(src=s)


def rpairs(rng):
    first = rng.choice([0, 1, 5, 300])
    off, line, out = 0, first, []
    for i in range(rng.randint(1, 12)):
        if i or rng.random() < .5:
            off += rng.choice([1, 2, 6, 40, 254, 255, 256, 257, 300, 511, 1000])
        line += rng.choice([0, 1, 1, 2, 126, 127, 128, 129, 254, 255, 256, 300, 1000])
        out.append([off, line])
    return dict(pairs=out, first=first)


def cases(run):
    rng = run.rng
    for f in FAIL_XML:
        yield 'xmlline', xml_src(rng, [(FILL_XML[0], 1), (FILL_XML[0], 1)], f)
    for f in FAIL_TEXT:
        yield 'textline', text_src(rng, [(FILL_TEXT[0], 1), (FILL_TEXT[0], 1)], f)
    for a in (0, 1, 254, 255, 256, 600):
        for b in (0, 1, 126, 127, 128, 129, 254, 255, 256, 381, 1000):
            yield 'lnotab', dict(pairs=[[0, 1], [a + 1, 1 + b], [a + 3, 2 + b]], first=1)
            yield 'lnotab', dict(pairs=[[a, 1 + b]], first=1)
    for n in NL:
        yield 'xmlline', xml_src(rng, [(FILL_XML[0], n), (FILL_XML[0], 1)], rng.choice(FAIL_XML))
        yield 'textline', text_src(rng, [(FILL_TEXT[0], n), (FILL_TEXT[0], 1)], rng.choice(FAIL_TEXT))
    while True:
        r = rng.random()
        if r < .5:
            k = rng.randint(1, 5)
            yield 'xmlline', xml_src(rng, [(rng.choice(FILL_XML), rng.choice(NL if rng.random() < .3 else NL[:4])) for _ in range(k)], rng.choice(FAIL_XML))
        elif r < .8:
            k = rng.randint(1, 5)
            yield 'textline', text_src(rng, [(rng.choice(FILL_TEXT), rng.choice(NL if rng.random() < .3 else NL[:4])) for _ in range(k)], rng.choice(FAIL_TEXT))
        else:
            yield 'lnotab', rpairs(rng)
