"""C06: directives mean what their Python counterparts mean."""
from .lib import kind, context, diff
from . import xmlgen, textgen
import kajiki


@kind('xmltree')
def xmltree(args):
    """{tree, ctx, mode, ...}: the rendering of the tree's source is what the oracle says."""
    src = xmlgen.source_of(args['tree'])
    mode = args.get('mode')
    strip = args.get('strip_text', False)
    cds = args.get('cdata_scripts', True)
    expected = xmlgen.Oracle(context(args['ctx'], True), mode or 'xml', strip_text=strip, cdata_scripts=cds).doc(args['tree'])
    tpl = kajiki.XMLTemplate(src, mode=mode, is_fragment=True, strip_text=strip, cdata_scripts=cds)
    got = tpl(context(args['ctx'])).render()
    d = diff(expected, got) or diff(expected, ''.join(tpl(context(args['ctx']))))
    return d and 'source %r\n%s' % (src, d)


@kind('texttree')
def texttree(args):
    """{tree, styles, ctx, autoescape}: same for text templates."""
    src, toks = textgen.serialise(args['tree'], args['styles'])
    expected = textgen.TextOracle(context(args['ctx'], True), args['autoescape']).doc(textgen.build(toks))
    got = kajiki.TextTemplate(src, autoescape=args['autoescape'])(context(args['ctx'])).render()
    d = diff(expected, got)
    return d and 'source %r\n%s' % (src, d)


def xml_case(rng, **kw):
    g = xmlgen.Gen(rng, maxdepth=rng.choice([1, 2, 3, 4]), **kw)
    return 'xmltree', dict(tree=g.template(), ctx=xmlgen.rcontext(rng), mode=rng.choice(['xml', 'html', 'html5', None]))


def text_case(rng):
    tree, styles = textgen.TGen(rng, rng.choice([1, 2, 3])).template()
    return 'texttree', dict(tree=tree, styles=styles, ctx=xmlgen.rcontext(rng), autoescape=rng.random() < .5)


def cases(run):
    rng = run.rng
    while True:
        yield xml_case(rng)
        yield text_case(rng)
