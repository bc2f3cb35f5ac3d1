"""C01: interpolated values are escaped exactly once."""
from .lib import *  # noqa
from .lib import harness, instance, esc, typed, must, Stage
from .dom import Dom

HARNESSES = []


def positions(v, text=True):
    """The value at every place of a template where it can be interpolated."""
    V = ['expr', 'v', 'braced']
    p = ['el', 'p', [], {}, [['text', '['], V, ['text', ']']]]
    out = [dict(property='C01', kind='xmltree', args=dict(tree=[p], ctx={'v': v, 'w': ['obj', 'x', v]}, mode='xml'))]
    if text:
        out.append(dict(property='C01', kind='texttree', args=dict(tree=[['text', 'x&<', 0], V], styles=['brace'], ctx={'v': v, 'w': v}, autoescape=True)))
    return out


@harness(HARNESSES, '_escape', ['kajiki.template._Template._escape'])
def h_escape(E):
    """None and template output pass through, __html__ decides for itself, and
    any other value becomes its text with & < > \" replaced once."""
    tpl = instance(E)
    v = E.any('v')
    E.inputs['replay'] = lambda E: positions(typed(E, v))
    r = E.call_method(tpl, '_escape', v)
    r = E.norm(r)
    E.force(v)
    k = v.kinds[0]
    if k == 'none':
        E.ensure('None stays None', E.norm(r) is None)
    elif k == 'flat':
        E.ensure('template output is not touched', E.norm(r) is v.val)
    elif k == 'html':
        must(E, '__html__ is used verbatim', E.norm(r), SymStr([Atom('html(v)')]))
    else:
        must(E, 'every special character is replaced exactly once', E.norm(r), esc(E, E.str_(v)))
    E.reachable('end')


KINDS = ('none', 'true', 'false', 'int', 'str', 'html', 'obj')
PLACES = ('xml text', 'py:content', 'py:content and children', 'py:replace', 'py:replace element', 'attribute', 'attribute with text', 'text, autoescape', 'text')


def shown(E, v, place, lit):
    """Specification: what the value contributes to the output; None when it contributes nothing."""
    v = E.force(v)
    if v is None:
        return None
    if lit is not None:
        return esc(E, lit) if place.startswith('attribute') else lit
    if place in ('text', 'attribute', 'attribute with text'):
        t = E.str_(v)
        return t if place == 'text' else esc(E, t)
    if isinstance(v, PyObj) and '__html__' in v.attrs:
        return SymStr([Atom('html(v)')])
    return esc(E, E.str_(v))


def h_place(E, place):
    """The value at every place of a template, through the compiled code: any value, or any literal text."""
    S = Stage(E)
    how = E.choose(2 if place.startswith('text') else 3, 'value, literal, template function')
    lit = (None, SymStr([Atom('literal text')]), mkstr([S.out('F')]) if how == 2 else None)[how]
    v = E.any('v', KINDS) if how == 0 else E.call(E.get('kajiki.util.literal'), [lit], {})
    E.inputs['replay'] = lambda E: positions(typed(E, v)) if lit is None else []
    D = Dom(E, S)
    if place == 'xml text':
        c, a, b = D.el('p', (), D.text('[$v]')), '<p>[', ']</p>'
    elif place == 'py:content':
        c, a, b = D.el('p', [('py:content', 'v')]), '<p>', '</p>'
    elif place == 'py:content and children':
        c, a, b = D.el('p', [('py:content', 'v')], D.hole('A')), '<p>', '</p>'
    elif place == 'py:replace':
        c, a, b = D.el('p', (), D.el('q', [('py:replace', 'v')], D.hole('A')), D.text('.')), '<p>', '.</p>'
    elif place == 'py:replace element':
        c, a, b = D.el('p', (), D.el('py:replace', [('value', 'v')])), '<p>', '</p>'
    elif place == 'attribute':
        c, a, b = D.el('p', [('t', '$v')], D.text('.')), '<p t="', '">.</p>'
    elif place == 'attribute with text':
        c, a, b = D.el('p', [('t', '[$v]')], D.text('.')), '<p t="[', ']">.</p>'
    if place.startswith('text'):
        t = E.call(E.get('kajiki.text.TextTemplate'), ['<&[$v]'], dict(autoescape=place != 'text'))
        a, b = '<&[', ']'
    else:
        if how == 2:
            D.doc(D.el('d', (), D.el('py:def', [('function', 'f()')], D.hole('F')), D.el('py:with', [('vars', 'v=f()')], c)))
            a, b = '<d>' + a, b + '</d>'
        else:
            D.doc(c)
        t = D.compile(is_fragment=True)
    r = S.render(t, [('v', v)])
    w = shown(E, v, place, lit)
    if w is None and place == 'attribute':
        S.check('None contributes nothing', r, '<p>.</p>')
    else:
        S.check('escaped exactly once', r, a, '' if w is None else w, b)
    E.reachable('end')


for p in PLACES:
    harness(HARNESSES, 'value in ' + p, ['kajiki.ir.ExprNode.py', 'kajiki.template.from_ir'])(lambda E, p=p: h_place(E, p))
