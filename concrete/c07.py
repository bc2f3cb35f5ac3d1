"""C07: py:with and py:switch state is restored."""
import ast
import io
import re
import tokenize
import kajiki
from .lib import kind, Undefined, diff  # noqa
from .c06 import xmltree, xml_case  # noqa
from .c01 import el, fn

VALS = ["'p'", '1', 'None', "x + '+'", "y + '!'", '(x, y)', "z + '~'", '[x]', 'dict(a=x)', 'x', 'y', 'z', "'='", "x == y", "'a;b'.replace(';', x)", "i", "''", '0', 'False', '()']


class W(object):
    """Trees that reassign the names x, y and z again and again; f1..f3 are functions with parameters x, y, z."""

    def __init__(self, rng):
        self.rng, self.n = rng, 0

    def show(self):
        r = self.rng
        return [['text', '['], ['expr', r.choice(['str((x, y, z))', 'str(x)', 'str(y)', 'str(z)']), 'braced'], ['text', ']']]

    def assigns(self):
        r = self.rng
        names = [r.choice('xyz') for _ in range(r.choice([1, 1, 2, 3]))]
        out = []
        for n in names:
            v = r.choice(VALS)
            if v in ("x + '+'", "y + '!'", "z + '~'"):
                v = 'str(%s) + %s' % (v[0], v[4:])
            elif v.startswith("'a;b'"):
                v = "str(x) * 2"
            out.append([n, v])
        return out

    def body(self, d, infn):
        out = list(self.show())
        for _ in range(self.rng.randint(1, 3)):
            out += self.node(d, infn)
            out += self.show()
        return out

    def node(self, d, infn):
        r = self.rng
        if d <= 0:
            return self.show()
        k = r.choice(['with', 'with', 'with', 'for', 'if', 'switch', 'switch', 'fn', 'el', 'call', 'attr', 'forlocal'])
        if k == 'with':
            if r.random() < .3:
                return [['with', self.assigns(), [el(r.choice(['b', 'br']), self.body(d - 1, infn), [['t', [['x', 'str(x)']]]] if r.random() < .4 else ())], 'attr', r.choice([';', '; '])]]
            return [['with', self.assigns(), self.body(d - 1, infn), 'elem', r.choice([';', '; ', ' ; ', ';\n '])]]
        if k == 'for':
            self.n += 1
            return [['for', 'k%d' % self.n, r.choice(['range(2)', 'l', "'ab'"]), self.body(d - 1, infn), 'elem']]
        if k == 'forlocal':
            return [['for', r.choice('xyz'), r.choice(["[1, 2]", "'ab'"]), self.body(d - 1, infn), 'elem']]
        if k == 'if':
            return [['if', r.choice(['t', 'f', 'x == 1', 'i', 'x']), self.body(d - 1, infn), self.body(d - 1, infn) if r.random() < .5 else None, 'elem']]
        if k == 'switch':
            cases = [[r.choice(['1', 'i', 'x', 'y', "'p'", 'None', 'f', "sw(x)"]) if infn != 3 else r.choice(['1', 'x']), self.body(d - 1, infn), 'elem'] for _ in range(r.randint(1, 3))]
            return [['switch', r.choice(['i', 'x', 'y', '1', "'p'", 't']), cases, self.body(d - 1, infn) if r.random() < .7 else None, '']]
        if k == 'fn':
            if infn >= 3:
                return self.show()
            return [['expr', 'f%d(%s)' % (r.randint(infn + 1, 3), r.choice(['x, y, z', 'y, 1, x', 'i, x, None'])), 'braced']]
        if k == 'el':
            return [el(r.choice(['p', 'b']), self.body(d - 1, infn), [['t', [['x', 'str(x)'], ['t', '/'], ['x', 'str(y)']]]])]
        if k == 'attr':
            if infn >= 3:
                return self.show()
            return [el('i', [], [['u', [['x', 'f3(x, y, z)']]]])]
        if k == 'call':
            return [['call', 'wrapfn', ['str(x)'], ['q'], [['text', '{'], ['expr', 'q', 'braced'], ['expr', 'str(x)', 'braced'], ['text', '}']]]]

    def template(self, d):
        defs = [fn('wrapfn', ['p', 'caller'], [['text', '<'], ['switch', 'p', [['1', [['expr', 'caller(1)', 'braced']], 'elem']], [['expr', 'caller(p)', 'braced']], '']])]
        for j in (1, 2, 3):
            defs.append(fn('f%d' % j, ['x', 'y', 'z'], self.body(min(d, 2), j)))
        body = [['py', "x = 'X'"], ['py', "y = 2"], ['py', 'z = None']] + self.body(d, 0)
        return [el('div', defs + body)]


def ctx(rng):
    return {'i': ['i', rng.choice([0, 1, 2])], 't': ['b', True], 'f': ['b', False], 'l': ['l', [['i', 1], ['s', 'p']]],
            'c': ['s', 'C'], 'd': rng.choice([['n'], ['s', 'D'], ['i', 0], ['l', []], ['b', False]])}


def context_case(rng):
    """A name that comes from the context, assigned by py:with before it is read in that function."""
    def wi(pairs, body):
        return ['with', pairs, body, rng.choice(['elem']), ';']
    show = [['text', '['], ['expr', 'str((c, d))', 'braced'], ['text', ']']]
    v = lambda: rng.choice(["'n'", '1', 'None', 'i', '[]', '0', '()'])   # noqa
    both = lambda body: wi([['c', v()], ['d', v()]], body)          # noqa
    inner = rng.choice([show, [both(show)] + show, [['for', 'k', 'range(2)', [both(show)] + show, 'elem']]])
    body = [both(inner)] + show + [both(show)] + show + rng.choice([[], [['for', 'k', 'l', show + [both(show)] + show, 'elem']], [el('p', show, [['a', [['x', 'str(d)']]]])]])
    if rng.random() < .5:
        return [el('div', [fn('g', [], body), ['expr', 'g()', 'braced'], ['expr', 'str((c, d))', 'braced'], ['expr', 'g()', 'braced']])]
    return [el('div', body)]


@kind('withvars')
def withvars(args):
    """{vars, form}: assignments as Python reads them, in order, and undone after the block."""
    src = args['vars']
    try:
        if any(t.type == tokenize.STRING and ';' in t.string for t in tokenize.generate_tokens(io.StringIO(src).readline)):
            raise Undefined()
        body = ast.parse('\n'.join(x.strip() for x in src.split('\n')).strip()).body
    except (SyntaxError, ValueError, tokenize.TokenError, IndentationError):
        raise Undefined()
    names = 'abcx'
    if not body or not all(isinstance(b, ast.Assign) and len(b.targets) == 1 and isinstance(b.targets[0], ast.Name) and b.targets[0].id in names for b in body):
        raise Undefined()
    if '\n' in src and args['form'] != 'elem' or re.search(r'[(\[{][^)\]}]*\n', src):
        raise Undefined()
    env = dict(a='A', b=2, c=None, x=5)
    try:
        for b in body:
            env[b.targets[0].id] = eval(compile(ast.Expression(b.value), 'x', 'eval'), dict(env))
    except Exception:
        raise Undefined()
    shown = '+'.join('repr(%s)' % n for n in names if not callable(env[n]))
    val = src.replace('&', '&amp;').replace('<', '&lt;').replace('"', '&quot;').replace('\n', '&#10;')
    show = '[${%s}]' % shown
    if any('function' in repr(v) and not callable(v) for v in env.values()):
        raise Undefined()
    w = '<py:with vars="%s">%s</py:with>' % (val, show) if args['form'] == 'elem' else '<b py:with="%s">%s</b>' % (val, show)
    want = lambda e: '[%s]' % ''.join(repr(e[n]) for n in names if not callable(env[n])).replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;').replace('"', '&quot;')      # noqa
    inner = want(env)
    expected = '<p>%s%s</p>' % (inner if args['form'] == 'elem' else '<b>%s</b>' % inner, want(dict(a='A', b=2, c=None, x=5)))
    return diff(expected, kajiki.XMLTemplate("<p><?py a = 'A'; b = 2; c = None; x = 5 ?>%s%s</p>" % (w, show))().render())


STMTS = ['a=1', 'b=a', 'a = b == 1', 'b = b != 2', 'a=x<=1', 'c=dict(k=1)', 'c=lambda q=1: q', 'x = x >= 2', ' a = "="', 'b="=="', "x='a=1'", 'a=[b, x]', 'c={1: x}', 'a=x', 'b=(a,)', 'x=x+1', "b='' or a"]
BITS = ['a', 'b', 'x', '=', '==', '1', ';', ' ', '"s"', '<=', '!=', '(', ')', 'lambda q=2: q', '\n', ',', '[', ']']


def cases(run):
    rng = run.rng
    for s in STMTS:
        for form in ('elem', 'attr'):
            yield 'withvars', dict(vars=s, form=form)
            for t in STMTS:
                yield 'withvars', dict(vars=s + rng.choice([';', '; ', ' ;', ' ; ', ';\t']) + t + rng.choice(['', '', ';', ' ']), form=form)
    for outer in ([], [['text', 'o']]):
        for inner in ([], [['text', '']], [['if', 'False', [['text', 'q']], None, 'elem']], [el('br', [])]):
            show = [['text', '['], ['expr', 'str((x, y))', 'braced'], ['text', ']']]
            init = [['py', "x = 1"], ['py', 'y = 2']]
            for a, b in ('xy', 'xx', 'yx'):
                w = ['with', [[a, '3']], [['with', [[b, '4']], inner, 'elem', ';']] + outer + (show if outer else []), 'elem', ';']
                yield 'xmltree', dict(tree=[el('div', init + [w] + show)], ctx=ctx(rng), mode='xml')
                yield 'xmltree', dict(tree=[el('div', init + [['with', [['x', '9']], [w] + show, 'elem', ';']] + show)], ctx=ctx(rng), mode='xml')
    while True:
        if rng.random() < .15:
            if rng.random() < .5:
                yield 'withvars', dict(vars=rng.choice([';', '; ', '\n', ' \n ', ' ; ']).join(rng.choice(STMTS) for _ in range(rng.randint(1, 5))), form=rng.choice(['elem', 'attr']))
            else:
                yield 'withvars', dict(vars='a=' + ''.join(rng.choice(BITS) for _ in range(rng.randint(1, 7))), form=rng.choice(['elem', 'attr']))
        r = rng.random()
        if r < .6:
            t = W(rng).template(rng.choice([1, 2, 3]))
            yield 'xmltree', dict(tree=strip_sw(t), ctx=ctx(rng), mode='xml')
        elif r < .8:
            yield 'xmltree', dict(tree=context_case(rng), ctx=ctx(rng), mode='xml')
        else:
            yield xml_case(rng, features=['text', 'expr', 'el', 'with', 'with', 'switch', 'switch', 'for', 'if', 'callfn', 'call', 'multi'])


def strip_sw(t):
    """sw(x): a case value computed by a function that switches itself; written as a plain value."""
    if isinstance(t, list):
        return [strip_sw(x) for x in t]
    return 'str(f3(x, 1, 2)) and x' if t == 'sw(x)' else t
