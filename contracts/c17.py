"""C17: imported and included templates."""
from .lib import *  # noqa
from .lib import harness, instance, must, Stage, esc
from .c07 import mapping

HARNESSES = []
T = 'kajiki.template._Template.'


def loader(E, **modules):
    d = PyDict(E, [[k.replace('_dot_', '.').replace('_slash_', '/'), v] for k, v in modules.items()])
    E.registry[d.id] = d
    return E.call(E.get('kajiki.loader.MockLoader'), [d], {})


@harness(HARNESSES, '_import', [T + '_import'])
def h_import(E):
    """The loaded template, rendered with the namespace of the importing one, under its alias; for any names and namespaces."""
    t = instance(E)
    g, gl = mapping(E, 'gbls'), mapping(E, 'own')
    t.attrs['__globals__'] = gl
    log = []
    alias0 = SymStr([Atom('default alias')])
    r = instance(E, name='imported')
    rg = PyDict(E)
    E.registry[rg.id] = rg
    r.attrs['__globals__'] = rg
    name = SymStr([Atom('name')])

    def make(I, a, kw):
        log.append(('made', list(a), dict(kw)))
        return r
    ld = PyObj(E, E.opaque_class('stand-in'), name='loader')
    E.registry[ld.id] = ld
    ld.attrs['import_'] = Host('import_', lambda I, a, kw: (log.append(('import', a, kw)), Host('class', make))[1])
    ld.attrs['default_alias_for'] = Host('default_alias_for', lambda I, a, kw: alias0 if a[0] is name else 'wrong')
    t.attrs['loader'] = ld
    given = E.choose(2, 'alias given')
    alias = SymStr([Atom('alias')]) if given else None
    res = E.call_method(t, '_import', name, alias, g)
    E.ensure('gives the template', res is r)
    E.ensure('loaded once, as a fragment', len([1 for x in log if x[0] == 'import']) == 1 and log[0][1][0] is name and (log[0][2].get('is_fragment') is True))
    E.ensure('one instance, which sees the importing namespace', [x[1] for x in log if x[0] == 'made'] in ([[g]], [[gl]]) or (len(log) == 2 and log[1][1][0] is g))
    al = alias if given else alias0
    E.ensure('available under its alias', E.dict_get(g, al) is r)
    E.ensure('available in the template that imports', E.dict_get(gl, al) is r)
    E.ensure('local and self of the imported template are itself', E.dict_get(rg, 'local') is r and E.dict_get(rg, 'self') is r)
    z = z3.String('other')
    E.reachable('end')


@harness(HARNESSES, '_import leaves other names alone', [T + '_import'])
def h_import_frame(E):
    t = instance(E)
    old = [E.any('v%d' % i, ('obj',)) for i in range(4)]
    g = PyDict(E, [['self', old[0]], ['local', old[1]], ['f', old[2]], ['x', old[3]]])
    E.registry[g.id] = g
    t.attrs['__globals__'] = g
    r = instance(E, name='imported')
    rg = PyDict(E, [['f', 'own']])
    E.registry[rg.id] = rg
    r.attrs['__globals__'] = rg
    ld = PyObj(E, E.opaque_class('stand-in'), name='loader')
    E.registry[ld.id] = ld
    ld.attrs['import_'] = Host('import_', lambda I, a, kw: Host('class', lambda I, a, kw: r))
    t.attrs['loader'] = ld
    E.call_method(t, '_import', 'n', 'alias', g)
    for k, v in zip(('self', 'local', 'f', 'x'), old):
        E.ensure('self, local, functions and variables of the importing template stay', E.dict_get(g, k) is v, k)
    E.ensure('functions of the imported template stay', E.dict_get(rg, 'f') == 'own')
    E.reachable('end')


@harness(HARNESSES, 'default alias', ['kajiki.loader.Loader.default_alias_for'], bound='5 names')
def h_alias(E):
    ld = loader(E)
    for n, w in (('lib.html', 'lib'), ('a/b/lib.html', 'lib'), ('lib', 'lib'), ('a.b/lib', 'lib'), ('/x/lib.x.html', 'lib.x')):
        E.ensure('file name without directory and extension', E.call_method(ld, 'default_alias_for', n) == w, n)
    E.reachable('end')


def lib_template(S):
    n = S.node
    f = n('DefNode', 'f(a)', n('TextNode', 'lib('), n('ExprNode', 'a'), S.body('LF'), n('ExprNode', 'x'), n('TextNode', ')'))
    g = n('DefNode', 'g()', n('ExprNode', 'f(2)'))
    return S.template(n('TextNode', '<main'), n('ExprNode', 'f(0)'), n('TextNode', '>'), defs=[f, g])


X = SymStr([Atom('X')])


def lib_out(S, arg, k):
    return ['lib(', arg, S.out('LF', k), esc(S.E, X), ')']


@harness(HARNESSES, 'import', ['kajiki.ir.ImportNode.py', T + '_import', 'kajiki.loader.Loader.import_'], bound='one library with two functions; bodies and values arbitrary')
def h_import2(E):
    """A template with a function of the same name as one of the library it imports."""
    S = Stage(E)
    n = S.node
    alias = (None, 'other')[E.choose(2, 'alias')]
    f = n('DefNode', 'f(a)', n('TextNode', 'own'), n('ExprNode', 'a'))
    al = alias or 'lib'
    imp = n('ImportNode', 'lib.html', alias) if alias else n('ImportNode', 'lib.html')
    main = S.template(n('ExprNode', 'f(1)'), imp, S.body('A'), n('ExprNode', al + '.f(1)'), n('ExprNode', al + '.g()'), n('ExprNode', 'f(3)'), n('ExprNode', 'self is local', True), defs=[f])
    loader(E, lib_dot_html=lib_template(S), main=main)
    r = S.render(main, [('x', X)])
    S.check('its functions with their own names, and the importing context', r, *(['own1', S.out('A')] + lib_out(S, '1', 1) + lib_out(S, '2', 2) + ['own3True']))
    E.reachable('end')


@harness(HARNESSES, 'include', ['kajiki.ir.IncludeNode.py'], bound='one library with two functions, included twice; bodies and values arbitrary')
def h_include(E):
    """Included twice, between calls of the including template's own function."""
    S = Stage(E)
    n = S.node
    lib = ('lib.html', 'f.html', 'x.html')[E.choose(3, 'file named like a function or a variable')]
    f = n('DefNode', 'f(a)', n('TextNode', 'own'), n('ExprNode', 'a'))
    main = S.template(n('ExprNode', 'f(1)'), n('IncludeNode', lib), S.body('A'), n('IncludeNode', lib), n('ExprNode', 'f(3)'), n('ExprNode', 'local.f(4)'), n('ExprNode', 'self is local', True), n('ExprNode', 'x'), defs=[f])
    loader(E, **{lib: lib_template(S), 'main': main})
    r = S.render(main, [('x', X)])
    S.check('exactly its rendering, each time', r, *(['own1<main'] + lib_out(S, '0', 1) + ['>', S.out('A'), '<main'] + lib_out(S, '0', 2) + ['>own3own4True', esc(E, X)]))
    E.reachable('end')
