"""C15: doctype and rendering mode."""
import itertools
import xml.parsers.expat
import kajiki
from .lib import kind, diff, Undefined

KNOWN = [
    ('<!DOCTYPE html>', 'html5'),
    ('<!DOCTYPE html PUBLIC "-//W3C//DTD XHTML 1.0 Transitional//EN" "http://www.w3.org/TR/xhtml1/DTD/xhtml1-transitional.dtd">', 'xml'),
    ('<!DOCTYPE html PUBLIC "-//W3C//DTD XHTML 1.0 Strict//EN" "http://www.w3.org/TR/xhtml1/DTD/xhtml1-strict.dtd">', 'xml'),
    ('<!DOCTYPE html PUBLIC "-//W3C//DTD XHTML+RDFa 1.0//EN" "http://www.w3.org/MarkUp/DTD/xhtml-rdfa-1.dtd">', 'xml'),
    ('<!DOCTYPE html PUBLIC "-//W3C//DTD XHTML 1.1//EN" "http://www.w3.org/TR/xhtml11/DTD/xhtml11.dtd">', 'xml'),
    ('<!DOCTYPE html PUBLIC "-//W3C//DTD XHTML 1.0 Frameset//EN" "http://www.w3.org/TR/xhtml1/DTD/xhtml1-frameset.dtd">', 'xml'),
    ('<!DOCTYPE html PUBLIC "-//W3C//DTD XHTML Basic 1.1//EN" "http://www.w3.org/TR/xhtml-basic/xhtml-basic11.dtd">', 'xml'),
    ('<!DOCTYPE html PUBLIC "-//WAPFORUM//DTD XHTML Mobile 1.2//EN" "http://www.openmobilealliance.org/tech/DTD/xhtml-mobile12.dtd">', 'xml'),
    ('<!DOCTYPE html PUBLIC "-//W3C//DTD HTML 4.01 Transitional//EN" "http://www.w3.org/TR/html4/loose.dtd">', 'html'),
    ('<!DOCTYPE html PUBLIC "-//W3C//DTD HTML 4.01//EN" "http://www.w3.org/TR/html4/strict.dtd">', 'html'),
    ('<!DOCTYPE html PUBLIC "-//W3C//DTD HTML 4.01 Frameset//EN" "http://www.w3.org/TR/html4/frameset.dtd">', 'html'),
    ('<!DOCTYPE foo SYSTEM "foo.dtd">', 'xml'),
    ('<!DOCTYPE html SYSTEM "about:legacy-compat">', 'xml'),
    ('<!DOCTYPE html PUBLIC "-//W3C//DTD HTML 3.2 Final//EN">', 'xml'),
    ('<!DOCTYPE html5>', 'xml'),
    ('<!DOCTYPE root PUBLIC "a$b" "c%d\\1&amp;">', 'xml'),
    ('', 'xml'),
]


def vary(dtd, how):
    if how == 'upper':
        return '<!DOCTYPE' + dtd[9:].upper()
    if how == 'lower':
        return '<!DOCTYPE' + dtd[9:].lower()
    if how == 'mixed':
        return '<!DOCTYPE' + ''.join(c.upper() if i % 2 else c.lower() for i, c in enumerate(dtd[9:]))
    if how == 'newlines':
        return dtd.replace(' ', '\n')
    if how == 'wide':
        return dtd.replace(' ', ' \t\n  ')
    return dtd


@kind('doctype')
def doctype(args):
    """{dtd, mode: requested, implied, fragment, before, after}"""
    dtd, before, after = args['dtd'], args['before'], args['after']
    inner = 'x$v &amp; &lt;!DOCTYPE q&gt;<p/><br/><input checked="checked"/>' + args.get('inner', '')
    src = before + dtd + after + '<html>' + inner + '</html>'
    if args.get('maybe'):       # only if it is well-formed
        try:
            xml.parsers.expat.ParserCreate().Parse(src.replace('$v', '').encode('utf-8'), True)
        except (xml.parsers.expat.ExpatError, UnicodeError):
            raise Undefined()
    tpl = kajiki.XMLTemplate(src, mode=args['mode'], is_fragment=args['fragment'])
    mode = args['mode'] or args['implied']
    if mode == 'xml':
        body = '<html>x1 &amp; &lt;!DOCTYPE q&gt;<p/><br/><input checked="checked"/>%s</html>'
    else:
        body = '<html>x1 &amp; &lt;!DOCTYPE q&gt;<p></p><br><input checked>%s</html>'
    body = body % args.get('inner', '')
    head = ''
    if not args['fragment']:
        head = dtd or ('<!DOCTYPE html>' if mode == 'html5' else '')
        head = head and head + '\n'
    return diff(head + body, tpl(dict(v=1)).render())


@kind('related')
def related(args):
    """Included, imported and extending templates emit no doctype of their own."""
    d1, d2 = args['d1'], args['d2']
    how = args['how']
    inner = d2 + '<i><py:def function="f()">F</py:def><py:block name="b">n</py:block></i>'
    outer = d1 + {'include': '<p><py:include href="in"/>|<py:include href="in"/></p>', 'import': '<p><py:import href="in"/>${$in.f()}</p>'.replace('$in', 'q'),
                  'extends': '<py:extends href="in"><py:block name="b">o</py:block></py:extends>', 'extattr': '<p py:extends="in"><py:block name="b">o</py:block></p>'}[how]
    outer = outer.replace('<py:import href="in"/>', '<py:import href="in" alias="q"/>')
    import shutil, tempfile, os
    tmp = tempfile.mkdtemp(prefix='kjd')
    try:
        for n, s in (('in', inner), ('out', outer)):
            with open(os.path.join(tmp, n), 'w') as f:
                f.write(s)
        ldr = kajiki.FileLoader(tmp, force_mode=args['mode'])
        got = ldr.load('out')().render()
    finally:
        shutil.rmtree(tmp)
    h = lambda d: (d or ('<!DOCTYPE html>' if args['mode'] == 'html5' else '')) + ('\n' if d or args['mode'] == 'html5' else '')    # noqa
    want = {'include': h(d1) + '<p><i>n</i>|<i>n</i></p>', 'import': h(d1) + '<p>F</p>', 'extends': h(d2) + '<i>o</i>', 'extattr': None}[how]
    if how == 'extattr':
        want = '<p>' + h(d2) + '<i>o</i></p>'
    return diff(want, got)


@kind('history')
def history(args):
    """Whatever was loaded, included, imported or extended before, each template has its own doctype exactly once."""
    import shutil, tempfile, os
    d = args['dtd'] + '\n' if args['dtd'] else ''
    h = (args['dtd'] or ('<!DOCTYPE html>' if args['mode'] == 'html5' else ''))
    h = h and h + '\n'
    files = {'a': ('<i>${v}<py:def function="f()">F</py:def></i>', '<i>1</i>'),
             'inc': ('<p><py:include href="a"/><py:include href="a"/></p>', '<p><i>1</i><i>1</i></p>'),
             'imp': ('<p><py:import href="a" alias="q"/>${q.f()}</p>', '<p>F</p>'),
             'ext': ('<py:extends href="a"/>', '<i>1</i>'),
             'deep': ('<u><py:include href="inc"/><py:include href="ext"/></u>', None)}
    tmp = tempfile.mkdtemp(prefix='kjd')
    try:
        for n, (src, out) in files.items():
            with open(os.path.join(tmp, n), 'w') as f:
                f.write(d + src)
        ldr = kajiki.FileLoader(tmp, force_mode=args['mode'], reload=args['reload'])
        for n in args['order']:
            got = ldr.load(n)(dict(v=1)).render()
            want = files[n][1]
            r = diff(h + want, got) if want is not None else None
            if r:
                return 'loading %r: at %s: %s' % (args['order'], n, r)
    finally:
        shutil.rmtree(tmp)


def cases(run):
    rng = run.rng
    for order in (['a', 'inc', 'a'], ['inc', 'a', 'imp', 'ext'], ['ext', 'inc', 'a'], ['imp', 'a', 'ext'], ['deep', 'a', 'inc', 'ext']):
        for mode in ('xml', 'html5'):
            for dtd in ('', KNOWN[1][0]):
                yield 'history', dict(order=order, mode=mode, dtd=dtd, reload=True)
    for (dtd, implied), mode, frag in itertools.product(KNOWN, [None, 'xml', 'html', 'html5'], [False, True]):
        yield 'doctype', dict(dtd=dtd, implied=implied, mode=mode, fragment=frag, before='', after='\n' if dtd else '')
    for (dtd, implied), quoted, before in itertools.product(KNOWN, ['<!DOCTYPE html>', '<!DOCTYPE foo SYSTEM "foo.dtd">'], ['', '<!-- <!DOCTYPE html PUBLIC "q"> -->']):
        yield 'doctype', dict(dtd=dtd, implied=implied, mode=None, fragment=False, before=before, after='', inner='<![CDATA[%s]]>' % quoted)
        yield 'doctype', dict(dtd=dtd, implied=implied, mode=None, fragment=True, before=before, after='', inner='<![CDATA[%s]]>' % (dtd if dtd and '$' not in dtd else quoted))
    for (dtd, implied), how in itertools.product(KNOWN, ['upper', 'lower', 'mixed', 'newlines', 'wide']):
        if dtd and 'DTD' not in dtd and how in ('upper', 'lower', 'mixed') and dtd != '<!DOCTYPE html>':
            continue
        if not dtd:
            continue
        for mode in (None, 'html5'):
            yield 'doctype', dict(dtd=vary(dtd, how), implied=implied, mode=mode, fragment=False, before='', after='')
    for how, mode in itertools.product(['include', 'import', 'extends', 'extattr'], ['xml', 'html', 'html5']):
        for d1, d2 in (('', ''), (KNOWN[0][0], KNOWN[1][0]), ('', KNOWN[2][0]), (KNOWN[9][0], '')):
            yield 'related', dict(how=how, mode=mode, d1=d1, d2=d2)
    while True:
        if rng.random() < .1:
            yield 'history', dict(order=[rng.choice(['a', 'inc', 'imp', 'ext', 'deep']) for _ in range(rng.randint(1, 6))], mode=rng.choice(['xml', 'html', 'html5']),
                                  dtd=rng.choice(KNOWN)[0], reload=rng.random() < .5)
        dtd, implied = rng.choice(KNOWN)
        if dtd and rng.random() < .6 and ('DTD' in dtd or dtd == KNOWN[0][0]):
            dtd = vary(dtd, rng.choice(['upper', 'lower', 'mixed', 'newlines', 'wide']))
        before = rng.choice(['', '', '<!-- c -->', '<?xml version="1.0"?>\n', '\n', '<!-- a\nb -->\n']) if dtd else rng.choice(['', '<!-- c -->'])
        yield 'doctype', dict(dtd=dtd, implied=implied, mode=rng.choice([None, None, 'xml', 'html', 'html5']), fragment=rng.random() < .3, before=before, after=rng.choice(['', '\n', '<!-- d -->', '  \n\n']),
                              inner=rng.choice(['', 'q' + dtd.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;').replace('$', 'S')[:0], 'zz', '<a>b</a>']))
