"""C09: the loader returns the current template of the first matching path."""
import os
import shutil
import sys
import tempfile
import kajiki
from .lib import kind

EXT = ['xml', 'html', 'html5', 'txt']


def body(n, ext):
    """A template whose rendering shows its content number and how it was compiled."""
    if ext == 'txt':
        return 'v%d $x ${g}' % n if False else 'v%d $x' % n
    return '<d>  v%d $x<p/><br/><body>k</body></d>' % n


def render_of(n, ext, opts, x):
    from .lib import esc
    force = opts.get('force_mode')
    kind_ = {'text': 'txt'}.get(force, force) or ext
    if ext == 'txt' and force not in (None, 'text'):
        return None
    if kind_ == 'txt':
        src = body(n, ext)
        val = esc(x) if opts.get('autoescape_text') else x
        return src.replace('$x', val)
    lead = '' if opts.get('strip_text') else '  '
    blk = 'k' if 'body' in (opts.get('xml_autoblocks') or []) else '<body>k</body>'
    head = '<!DOCTYPE html>\n' if kind_ == 'html5' and not opts.get('is_fragment') else ''
    p, br = ('<p/>', '<br/>') if kind_ == 'xml' else ('<p></p>', '<br>')
    return head + '<d>%sv%d %s%s%s%s</d>' % (lead, n, esc(x), p, br, blk)


@kind('loader')
def loader(args):
    """{opts, npaths, ops}: ops are ['write', path, name, content, mtime] | ['del', path, name] | ['load', name] | ['same', name] | ['missing', name]"""
    tmp = tempfile.mkdtemp(prefix='kjl')
    try:
        dirs = [os.path.join(tmp, 'p%d' % i) for i in range(args['npaths'])]
        for d in dirs:
            os.mkdir(d)
        opts = dict(args['opts'])
        path = ';'.join(dirs) if args.get('joined') else list(dirs)
        ldr = kajiki.FileLoader(path, **opts)
        files = {}       # (dir, name) -> (content, mtime)
        cache = {}       # name -> (template, content, mtime)
        if args.get('joined') and ';' in tmp:
            return None
        for op in args['ops']:
            if op[0] == 'write':
                _, d, name, n, mt = op
                fn = os.path.join(dirs[d], name)
                if not os.path.isdir(os.path.dirname(fn)):
                    os.makedirs(os.path.dirname(fn))
                with open(fn, 'w') as f:
                    f.write(body(n, name.rsplit('.', 1)[1]))
                os.utime(fn, (mt, mt))
                files[d, name] = (n, mt)
            elif op[0] == 'del':
                if (op[1], op[2]) in files:
                    os.remove(os.path.join(dirs[op[1]], op[2]))
                    del files[op[1], op[2]]
            elif op[0] == 'load':
                name = op[1]
                frag = len(op) > 3 and op[3]
                key = (name, bool(frag))
                kw = dict(is_fragment=True) if frag else {}
                have = [d for d in range(len(dirs)) if (d, name) in files]
                reload_ = opts.get('reload', True)
                if not have:
                    if key in cache:
                        continue            # a cached template whose file is gone: nothing is promised
                    try:
                        t = ldr.load(name, **kw)
                    except Exception:
                        continue
                    return 'no error for the missing template %r: %r' % (name, t)
                n, mt = files[have[0], name]
                t = ldr.load(name, **kw) if op[2] else ldr.import_(name, **kw)
                if key in cache:
                    old, on, omt = cache[key]
                    fresh = reload_ and mt > omt
                    if fresh == (t is old):
                        return 'load %r: %s' % (name, 'the changed file was not compiled again' if fresh else 'a new template object although nothing changed')
                    if fresh:
                        cache[key] = (t, n, mt)
                    elif reload_ and (n, mt) != (on, omt):
                        continue            # another file with an older time took its place: nothing is promised
                    n = cache[key][1]
                else:
                    cache[key] = (t, n, mt)
                if t.loader is not ldr:
                    return 'template.loader is not the loader'
                want = render_of(n, name.rsplit('.', 1)[1], dict(opts, is_fragment=True) if frag else opts, 'a<b')
                if want is None:
                    continue
                got = t(dict(x='a<b')).render()
                if want != got:
                    return 'load %r: expected %r\n     got %r' % (name, want, got)
        return None
    finally:
        shutil.rmtree(tmp)


@kind('includes')
def includes(args):
    """A page that includes/extends others picks up their changes with reload on, from the first path."""
    tmp = tempfile.mkdtemp(prefix='kjl')
    try:
        def write(name, text, mt):
            fn = os.path.join(tmp, name)
            with open(fn, 'w') as f:
                f.write(text)
            os.utime(fn, (mt, mt))
        ldr = kajiki.FileLoader(tmp, reload=args['reload'])
        how = {'include': '<p><py:include href="in.xml"/></p>', 'import': '<p><py:import href="in.xml" alias="q"/>${q.f()}</p>',
               'extends': '<py:extends href="in.xml"><py:block name="z">!</py:block></py:extends>'}[args['how']]
        inner = '<i><py:def function="f()">f%d</py:def>n%d</i>'
        write('page.xml', how, 100)
        write('in.xml', inner % (1, 1), 100)
        want = {'include': '<p><i>n%d</i></p>', 'import': '<p>f%d</p>', 'extends': '<i>n%d</i>'}[args['how']]
        out = [(1, ldr.load('page.xml')().render())]
        for i, mt in enumerate(args['mtimes']):
            write('in.xml', inner % (i + 2, i + 2), mt)
            out.append(((i + 2) if args['reload'] else 1, ldr.load('page.xml')().render()))
        for n, got in out:
            if got != want % n:
                return 'expected %r got %r' % (want % n, got)
    finally:
        shutil.rmtree(tmp)


@kind('package')
def package(args):
    tmp = tempfile.mkdtemp(prefix='kjl')
    name = 'kjpkg%d' % (abs(hash(tmp)) % 10 ** 9)
    sys.path.insert(0, tmp)
    try:
        d = os.path.join(tmp, name)
        os.mkdir(d)
        with open(os.path.join(d, '__init__.py'), 'w'):
            pass
        for i, ext in enumerate(args['exts']):
            with open(os.path.join(d, 'tt.' + ext), 'w') as f:
                f.write(body(i, ext))
        ldr = kajiki.PackageLoader()
        t = ldr.load(name + '.tt')
        best = [e for e in EXT if e in args['exts']][0]
        want = render_of(args['exts'].index(best), best, {}, 'q')
        got = t(dict(x='q')).render()
        if want != got:
            return 'expected %r got %r' % (want, got)
        if ldr.load(name + '.tt') is not t:
            return 'not cached'
        try:
            ldr.load(name + '.nope')
        except IOError:
            return None
        return 'no error for a missing template'
    finally:
        sys.path.remove(tmp)
        sys.modules.pop(name, None)
        shutil.rmtree(tmp)


def rcase(rng):
    npaths = rng.choice([1, 2, 2, 3])
    opts = {}
    if rng.random() < .5:
        opts['reload'] = rng.random() < .5
    if rng.random() < .35:
        opts['force_mode'] = rng.choice(['text', 'xml', 'html', 'html5'])
    if rng.random() < .3:
        opts['autoescape_text'] = rng.random() < .7
    if rng.random() < .3:
        opts['strip_text'] = rng.random() < .7
    if rng.random() < .25:
        opts['xml_autoblocks'] = rng.choice([['body'], ['nope']])
    if rng.random() < .2:
        opts['is_fragment'] = True
    names = ['a.xml', 'b.html', 'c.html5', 'd.txt', 'a.txt', 'sub/a.xml', 'n.n.xml']
    if opts.get('force_mode') == 'text':
        names = ['d.txt', 'e.txt']
    elif opts.get('force_mode'):
        names = [n for n in names if not n.endswith('.txt')]
    names = rng.sample(names, rng.randint(1, min(3, len(names))))
    ops, clock = [], 1000
    for n in range(rng.randint(2, 10)):
        name = rng.choice(names)
        r = rng.random()
        if r < .4:
            clock += rng.choice([1, 2, 0.5, 0.001, 100])
            ops.append(['write', rng.randrange(npaths), name, n, clock])
        elif r < .48:
            ops.append(['del', rng.randrange(npaths), name])
        else:
            ops.append(['load', name, rng.random() < .5] + ([True] if rng.random() < .3 else []))
    return dict(opts=opts, npaths=npaths, ops=ops, joined=rng.random() < .4)


def cases(run):
    rng = run.rng
    for how in ('include', 'import', 'extends'):
        for rl in (True, False):
            yield 'includes', dict(how=how, reload=rl, mtimes=[200, 201, 201.5])
    for exts in (['xml'], ['txt', 'html'], ['html5', 'txt'], ['txt'], ['html', 'xml', 'txt', 'html5']):
        yield 'package', dict(exts=exts)
    for ext in EXT:
        nm = 'q.' + ext
        for opts in ({}, {'reload': False}, {'reload': True}):
            for dt in (0.001, 1, 1000):
                yield 'loader', dict(opts=opts, npaths=2, ops=[['load', nm, True], ['write', 1, nm, 1, 1000], ['load', nm, True], ['load', nm, False], ['write', 1, nm, 2, 1000 + dt],
                                                               ['load', nm, True], ['load', nm, True], ['write', 0, nm, 3, 3000], ['load', nm, True], ['write', 1, nm, 4, 4000],
                                                               ['load', nm, True], ['load', nm, True], ['del', 0, nm], ['load', nm, True], ['write', 0, nm, 5, 5000], ['load', nm, True]])
        for rl in (True, False):
            for seq in ('pfp', 'fpf', 'pff', 'ffp', 'ppf'):
                ops = []
                for k, c in enumerate(seq + seq):
                    ops += [['write', 0, nm, k, 1000 + k]] * (k < 3) + [['load', nm, True, c == 'f']]
                yield 'loader', dict(opts={'reload': rl}, npaths=1, ops=ops)
        for o in ({'strip_text': True}, {'xml_autoblocks': ['body']}, {'autoescape_text': True}, {'is_fragment': True}, {'force_mode': 'html'}, {'force_mode': 'html5'}, {'force_mode': 'xml'},
                  {'force_mode': 'html', 'xml_autoblocks': ['body'], 'strip_text': True}, {'force_mode': 'text', 'autoescape_text': True}):
            if (o.get('force_mode') == 'text') == (ext == 'txt') or not o.get('force_mode'):
                yield 'loader', dict(opts=o, npaths=1, ops=[['write', 0, nm, 1, 50], ['load', nm, True], ['write', 0, nm, 2, 60], ['load', nm, True]])
    while True:
        yield 'loader', rcase(rng)
