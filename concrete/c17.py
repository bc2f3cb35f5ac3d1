"""C17: imported and included templates render with their own functions."""
import os
import shutil
import tempfile
import kajiki
from .lib import kind, diff, esc


# args: {'mods': {name: mod}, 'main': name, 'ctx': {...}}
# mod: {'kind': 'xml'|'text', 'defs': {fn: parts}, 'body': parts}
# part: ['t', s] | ['v', var] | ['fn', name, how] | ['inc', mod] | ['imp', mod, alias or None] | ['ifn', alias, fn] | ['rep', n, parts]


def src_parts(parts, kind_):
    out = ''
    for p in parts:
        k = p[0]
        if k == 't':
            out += p[1]
        elif k == 'v':
            out += '${%s}' % p[1]
        elif k == 'fn':
            out += '${%s%s()}' % (p[2], p[1])
        elif k == 'inc':
            out += '<py:include href="%s"/>' % p[1] if kind_ == 'xml' else '{%%include "%s"%%}' % p[1]
        elif k == 'imp':
            if kind_ == 'xml':
                out += '<py:import href="%s"%s/>' % (p[1], ' alias="%s"' % p[2] if p[2] else '')
            else:
                out += '{%%import "%s"%s%%}' % (p[1], ' as ' + p[2] if p[2] else '')
        elif k == 'ifn':
            out += '${%s.%s()}' % (p[1], p[2])
        elif k == 'rep':
            if kind_ == 'xml':
                out += '<py:for each="k_ in range(%d)">%s</py:for>' % (p[1], src_parts(p[2], kind_))
            else:
                out += '{%%for k_ in range(%d)%%}%s{%%end%%}' % (p[1], src_parts(p[2], kind_))
    return out


def source(mod):
    if mod['kind'] == 'xml':
        defs = ''.join('<py:def function="%s()">%s</py:def>' % (n, src_parts(ps, 'xml')) for n, ps in sorted(mod['defs'].items()))
        return '%s<m>%s%s</m>' % (mod.get('dtd', ''), defs, src_parts(mod['body'], 'xml'))
    defs = ''.join('{%%def %s()%%}%s{%%end%%}' % (n, src_parts(ps, 'text')) for n, ps in sorted(mod['defs'].items()))
    return 'T' + defs + src_parts(mod['body'], 'text')


class O(object):
    def __init__(self, mods, ctx):
        self.mods, self.ctx = mods, ctx

    def parts(self, parts, name):
        mod = self.mods[name]
        out = ''
        for p in parts:
            k = p[0]
            if k == 't':
                out += p[1]
            elif k == 'v':
                v = str(self.ctx[p[1]])
                out += esc(v) if mod['kind'] == 'xml' else v
            elif k == 'fn':
                out += self.parts(mod['defs'][p[1]], name)
            elif k == 'inc':
                out += self.main(p[1], True)
            elif k == 'ifn':
                m = self.alias(p[1], mod['body'])
                out += self.parts(self.mods[m]['defs'][p[2]], m)
            elif k == 'rep':
                out += self.parts(p[2], name) * p[1]
        return out

    def alias(self, alias, body):
        for p in body:
            if p[0] == 'imp' and (p[2] or os.path.splitext(os.path.basename(p[1]))[0]) == alias:
                return p[1]
        raise KeyError(alias)

    def main(self, name, fragment):
        mod = self.mods[name]
        if mod['kind'] == 'xml':
            head = mod.get('dtd', '')
            return ('' if fragment or not head else head + '\n') + '<m>' + self.parts(mod['body'], name) + '</m>'
        return 'T' + self.parts(mod['body'], name)


@kind('modules')
def modules(args):
    mods, ctx = args['mods'], args['ctx']
    want = O(mods, ctx).main(args['main'], False)
    if args.get('files'):
        tmp = tempfile.mkdtemp(prefix='kji')
        try:
            for n, m in mods.items():
                fn = os.path.join(tmp, n)
                if not os.path.isdir(os.path.dirname(fn)):
                    os.makedirs(os.path.dirname(fn))
                with open(fn, 'w') as f:
                    f.write(source(m))
            ldr = kajiki.FileLoader(tmp)
            outs = [ldr.load(args['main'])(dict(ctx)).render() for _ in range(2)]
        finally:
            shutil.rmtree(tmp)
    else:
        ldr = kajiki.loader.MockLoader({n: kajiki.XMLTemplate(source(m), is_fragment=n != args['main']) if m['kind'] == 'xml' else kajiki.TextTemplate(source(m)) for n, m in mods.items()})
        outs = [ldr.import_(args['main'])(dict(ctx)).render() for _ in range(2)]
    for got in outs:
        d = diff(want, got)
        if d:
            return '%r\n%s' % ({n: source(m) for n, m in mods.items()}, d)


def rmods(rng, files):
    n = rng.randint(2, 4)
    names = []
    for i in range(n):
        k = rng.choice(['xml', 'xml', 'text']) if i else 'xml'
        d = rng.choice(['', '', 'sub/', 'a.b/']) if files else rng.choice(['', 'x/'])
        names.append((d + 'mod%d.%s' % (i, 'txt' if k == 'text' else 'xml'), k))
    mods = {}
    fns = ['f', 'g', 'h']
    for i in reversed(range(n)):
        name, k = names[i]
        defs = {}
        for j, f in enumerate(fns):
            if rng.random() < .7 or j == 2:
                ps = [['t', '%s%d' % (f, i)]]
                for g in fns[j + 1:]:
                    if g in defs or True:
                        pass
                defs[f] = ps
        for j, f in enumerate(fns):
            if f in defs:
                later = [g for g in fns[j + 1:] if g in defs]
                if later and rng.random() < .6:
                    defs[f] = defs[f] + [['fn', rng.choice(later), rng.choice(['', 'self.', 'local.'])]]
                if rng.random() < .4:
                    defs[f] = defs[f] + [['v', rng.choice(['a', 'b'])]]
        body, imported = [], []
        subs = [names[j][0] for j in range(i + 1, n)]
        for s in subs:
            if rng.random() < .6:
                alias = rng.choice([None, None, 'al%d_%s' % (rng.randint(0, 99), s[s.rindex('mod') + 3])])
                body.append(['imp', s, alias])
                imported.append((alias or os.path.splitext(os.path.basename(s))[0], s))
        if rng.random() < .4:
            # a definition of this module that uses an imported one
            if imported:
                al, s = rng.choice(imported)
                if mods[s]['defs']:
                    defs['u'] = [['t', 'u'], ['ifn', al, rng.choice(sorted(set(mods[s]['defs']) - {'u'}))]]
        for _ in range(rng.randint(1, 6)):
            r = rng.random()
            if r < .2:
                body.append(['t', rng.choice('xyz ')])
            elif r < .3:
                body.append(['v', rng.choice(['a', 'b'])])
            elif r < .55:
                body.append(['fn', rng.choice(sorted(defs)), rng.choice(['', 'self.', 'local.'])])
            elif r < .75 and imported:
                al, s = rng.choice(imported)
                if set(mods[s]['defs']) - {'u'}:
                    body.append(['ifn', al, rng.choice(sorted(set(mods[s]['defs']) - {'u'}))])
            elif subs:
                p = ['inc', rng.choice(subs)]
                body.append(['rep', rng.randint(0, 3), [p, ['t', '.']]] if rng.random() < .3 else p)
        # after everything, the own functions are still the own ones
        body += [['fn', f, h] for f in sorted(defs) for h in ('', 'self.')][:3]
        mods[name] = dict(kind=k, defs=defs, body=body)
        if k == 'xml' and rng.random() < .2:
            mods[name]['dtd'] = '<!DOCTYPE r SYSTEM "x">'
    return mods, names[0][0]


@kind('extended')
def extended(args):
    """An included template that extends another one does so with its own blocks and functions."""
    m = {'main': '<d><py:def function="f()">mainf</py:def><py:def function="g()">maing</py:def><py:block name="b">mainb</py:block>%s${f()}${self.f()}${local.g()}</d>' % ('<py:include href="inc"/>' * args['n']),
         'inc': '<py:extends href="base"><py:def function="f()">incf</py:def>%s</py:extends>' % ('<py:block name="b">incb${parent_block()}</py:block>' if args['blk'] else ''),
         'base': '<p>${f()}|${self.f()}|${q()}|<py:def function="f()">basef</py:def><py:def function="q()">baseq$v</py:def><py:def function="g()">baseg</py:def>${g()}<py:block name="b">baseb</py:block></p>'}
    ldr = kajiki.loader.MockLoader({k: kajiki.XMLTemplate(v) for k, v in m.items()})
    inc = '<p>incf|incf|baseq7|baseg%sbaseb</p>' % ('incb' if args['blk'] else '')
    for _ in range(2):
        d = diff('<d>mainb%smainfmainfmaing</d>' % (inc * args['n']), ldr.import_('main')(dict(v=7)).render())
        if d:
            return d


@kind('clash')
def clash(args):
    """Including a file named like a function or variable of the including template changes neither."""
    name, n = args['name'], args['n']
    inc = '<py:include href="%s"/>' % name if args['xml'] else '{%%include "%s"%%}' % name
    body = (inc + '|') * n + '${f()}${self.f()}${local.f()}${x}'
    if args['xml']:
        if args['infn']:
            body = '<py:def function="g()">%s</py:def>${g()}' % body
        t = kajiki.XMLTemplate('<m><py:def function="f()">F</py:def>%s</m>' % body)
    else:
        if args['infn']:
            body = '{%%def g()%%}%s{%%end%%}${g()}' % body
        t = kajiki.TextTemplate('<m>{%%def f()%%}F{%%end%%}%s</m>' % body)
    lib = kajiki.TextTemplate('{%def f()%}L{%end%}${f()}$x')
    ldr = kajiki.loader.MockLoader({name: lib, 'main': t})
    for _ in range(2):
        d = diff('<m>%sFFF1</m>' % ('L1|' * n), ldr.import_('main')(dict(x=1)).render())
        if d:
            return d


@kind('alias')
def alias(args):
    """The default alias is the file name without directory and extension."""
    got = kajiki.loader.MockLoader({}).default_alias_for(args['name'])
    if got != args['want']:
        return 'the default alias of %r is %r, expected %r' % (args['name'], got, args['want'])


def cases(run):
    rng = run.rng
    for d in ('', 'a/', '/a/b.c/', './', 'x.y/../'):
        for base in ('lib', 'lib_2', 'a.b', 'A', 'x.tar'):
            for ext in ('', '.html', '.txt', '.xml', '.html5'):
                if ext or '.' not in base:
                    yield 'alias', dict(name=d + base + ext, want=base)
    for name in ('f.txt', 'x.txt', 'a/f.txt', 'f', 'other.txt', 'self.txt', 'local'):
        for n in (0, 1, 2):
            for infn in (0, 1):
                for xml in (0, 1):
                    yield 'clash', dict(name=name, n=n, infn=infn, xml=xml)
    for n in (0, 1, 2, 3):
        for blk in (0, 1):
            yield 'extended', dict(n=n, blk=blk)
    while True:
        files = rng.random() < .3
        mods, main = rmods(rng, files)
        yield 'modules', dict(mods=mods, main=main, ctx={'a': rng.choice(['A', '<', '']), 'b': rng.choice([0, 1])}, files=files)
