"""C09: loaders."""
from .lib import *  # noqa
from .lib import harness, instance, must, Stage

HARNESSES = []
LD = 'kajiki.loader.'
B = z3.Function('exists', z3.StringSort(), z3.BoolSort())


class Files(object):
    """The file system: which files exist and when they were modified."""
    def __init__(self, E):
        self.E = E
        self.exists = {}
        self.mtime = {}
        E.inputs['os'] = self.os

    def key(self, fn):
        return repr(parts_of(fn))

    def os(self, I, what, a):
        what = what.split('.')[-1]
        if what == 'join':
            return mkstr(list(parts_of(a[0])) + ['/'] + list(parts_of(a[1])))
        if what in ('exists', 'isfile'):
            k = self.key(a[0])
            if k not in self.exists:
                self.exists[k] = SymBool(z3.Bool('exists(%s)' % k))
            return self.exists[k]
        if what == 'getmtime':
            return self.mtime[self.key(a[0])]
        if what == 'stat':
            o = PyObj(I, I.opaque_class('stand-in'), name='stat')
            I.registry[o.id] = o
            k = self.key(a[0])
            o.attrs['st_mtime'] = self.mtime[k]
            return o
        if what == 'splitext':
            ps = list(parts_of(a[0]))
            if isinstance(ps[-1], str) and '.' in ps[-1] and '/' not in ps[-1]:
                r, x = ps[-1].rsplit('.', 1)
                return (mkstr(ps[:-1] + [r]), '.' + x)
        return NotImplemented


class Bases(Spec):
    """The search path; ghost: whether an entry seen so far has the file."""
    streams = ('out',)

    def __init__(self, fs, name):
        self.fs, self.name = fs, name

    def init(self, E):
        return {'found': False}

    def arb(self, E):
        return {'found': SymBool(z3.Bool(E.fresh('found before')))}

    def has(self, E, elem):
        return self.fs.os(E, 'exists', [self.fs.os(E, 'join', [elem, self.name])])

    def step(self, E, g, elem):
        h, f = self.has(E, elem), g['found']
        return {'found': SymBool(z3.Or(f.z if isinstance(f, SymBool) else z3.BoolVal(f), h.z))}, {'out': [elem]}

    def invariant(self, E, g):
        f = g['found']
        return z3.Not(f.z) if isinstance(f, SymBool) else not f


@harness(HARNESSES, '_filename: any search path', [LD + 'FileLoader._filename'])
def h_filename(E):
    """The file under the first entry that has it; None when none has it."""
    fs = Files(E)
    name = SymStr([Atom('name')])
    spec = Bases(fs, name)
    last = []

    def elem(E, h):
        last.append(SymStr([Atom(E.fresh('base'))]))
        return last[-1]
    seq = SymSeq(E, 'path', elem, spec)
    l = instance(E, LD + 'FileLoader', path=seq)
    r = E.call_method(l, '_filename', name)
    if r is None:
        E.ensure('None only when no entry has it', True)
    else:
        # the loop invariant says that no earlier entry has it
        must(E, 'an entry of the path and the name', r, fs.os(E, 'join', [last[-1], name]))
        E.ensure('which exists', spec.has(E, last[-1]).z)
    E.reachable('end')


def make_loader(E, path, fs, log, **kw):
    """A FileLoader made by its constructor; templates are recorded, not compiled."""
    def tpl(kind):
        def make(I, a, k):
            o = instance(I, 'kajiki.template._Template')
            log.append((kind, list(a), dict(k), o))
            return o
        return Host(kind, make)
    E.overrides['kajiki.xml_template.XMLTemplate'] = lambda I, a, k: tpl('xml').fn(I, a, k)
    E.overrides['kajiki.text.TextTemplate'] = lambda I, a, k: tpl('text').fn(I, a, k)
    E.get('kajiki.xml_template.XMLTemplate')
    E.get('kajiki.text.TextTemplate')
    return E.call(E.get(LD + 'FileLoader'), [path], kw)


@harness(HARNESSES, 'search path given as text', [LD + 'FileLoader.__init__'], bound='one search path')
def h_path(E):
    l = make_loader(E, 'a/b;c', Files(E), [])
    E.ensure('its entries, in order', [x for x in l.attrs['path'].items] == ['a/b', 'c'])
    E.reachable('end')


@harness(HARNESSES, 'kind and options of a template', [LD + 'FileLoader._load', LD + 'FileLoader._text_template'])
def h_kind(E):
    """The forced mode, else the extension; all options."""
    fs, log = Files(E), []
    force = (None, 'text', 'xml', 'html', 'html5')[E.choose(5, 'force_mode')]
    ext = ('txt', 'xml', 'html', 'html5')[E.choose(4, 'extension')]
    opts, want = {}, {}
    for o in ((), ('cdata_scripts', 'strip_text', 'base_globals'), ('strip_text',), ('base_globals', 'cdata_scripts'))[E.choose(4, 'options')]:
        opts[o] = want[o] = E.any('value of ' + o, ('obj',))
    call = {}
    if E.choose(2, 'per-call option'):
        call['strip_text'] = want['strip_text'] = E.any('call value', ('obj',))
    if E.choose(2, 'fragment'):
        call['is_fragment'] = want['is_fragment'] = True
    auto = E.choose(2, 'autoblocks')
    kw = dict(opts)
    if auto:
        kw['xml_autoblocks'] = ab = E.newlist(['div'])
        want['autoblocks'] = ab
    esc_ = bool(E.choose(2, 'autoescape'))
    l = make_loader(E, E.newlist([SymStr([Atom('base')])]), fs, log, force_mode=force, autoescape_text=esc_, **kw)
    name = mkstr([Atom('stem'), '.' + ext])
    fn = fs.os(E, 'join', [SymStr([Atom('base')]), name])
    fs.exists[fs.key(fn)] = SymBool(z3.BoolVal(True))
    fs.mtime[fs.key(fn)] = SymInt(z3.Real('mtime'))
    r = E.call_method(l, 'import_', name, **call)
    E.ensure('compiled once', len(log) == 1 and log[0][3] is r)
    kind, a, k, _ = log[0]
    mode = force or {'txt': 'text', 'xml': None, 'html': 'html', 'html5': 'html5'}[ext]
    E.ensure('positional arguments: none but the source', [x for x in a if x is not None] == [])
    must(E, 'from the file', k.pop('filename'), fn)
    k.pop('source', None)
    if mode == 'text':
        E.ensure('a text template', kind == 'text')
        E.ensure('its options', k == dict(autoescape=esc_), repr(k))
    else:
        E.ensure('an XML template', kind == 'xml')
        E.ensure('in its mode', k.pop('mode', None) == mode, repr((mode, log)))
        E.ensure('every option given', sorted(k) == sorted(want) and all(k[x] is want[x] for x in want), '%r instead of %r' % (k, want))
    E.ensure('knows its loader', r.attrs.get('loader') is l)
    E.reachable('end')


@harness(HARNESSES, 'unknown template', [LD + 'FileLoader._load'])
def h_unknown(E):
    fs, log = Files(E), []
    l = make_loader(E, E.newlist([SymStr([Atom('base')]), SymStr([Atom('base2')])]), fs, log)
    E.overrides[LD + 'FileLoader._filename'] = lambda I, a, kw: None
    try:
        E.call_method(l, 'import_', SymStr([Atom('name')]))
        bad = 'no error'
    except PyExc as e:
        bad = getattr(e.value.cls, 'name', '?')
    E.ensure('an error', bad in ('IOError', 'OSError'), bad)
    E.ensure('nothing compiled', log == [])
    E.reachable('end')


@harness(HARNESSES, 'what a load returns, after any loads', [LD + 'FileLoader.import_', LD + 'Loader.import_', LD + 'FileLoader._load'],
         bound='states reached by one load of each of two templates, as fragment or not, with any modification times (the cache keeps only the last load of each)')
def h_history(E):
    """The template loaded last, unless reload is on and the file is newer than it was then."""
    fs, log = Files(E), []
    reload_ = bool(E.choose(2, 'reload'))
    l = make_loader(E, E.newlist(['base']), fs, log, reload=reload_)
    record = {}
    n = [0]

    def load(name, frag, what):
        n[0] += 1
        fn = 'base/' + name
        fs.exists[fs.key(fn)] = SymBool(z3.BoolVal(True))
        m = fs.mtime[fs.key(fn)] = SymInt(z3.Real('mtime%d' % n[0]))
        E.add(m.z > 0)
        before = len(log)
        r = E.call_method(l, 'import_', name, **(dict(is_fragment=True) if frag else {}))
        made = log[before:]
        old = record.get((name, frag))
        if made:
            E.ensure('%s: compiled at most once' % what, len(made) == 1)
            E.ensure('%s: gives what was compiled' % what, r is made[0][3])
            must(E, '%s: from its file' % what, made[0][2]['filename'], fn)
            E.ensure('%s: as a fragment or not, as asked' % what, bool(made[0][2].get('is_fragment')) == frag)
            if old is not None:
                E.ensure('%s: compiled again only with reload, when the file is newer' % what, m.z > old[1].z if reload_ else False)
            record[(name, frag)] = (r, m)
        else:
            E.ensure('%s: something was loaded before' % what, old is not None)
            if old is not None:
                E.ensure('%s: the same object' % what, r is old[0])
                if reload_:
                    E.ensure('%s: compiled again when the file is newer' % what, m.z <= old[1].z)
    states = [('a.xml', False), ('a.xml', True), ('b.xml', False)]
    for s in states:
        if E.choose(2, 'loaded before: %r' % (s,)):
            load(s[0], s[1], 'first load')
    p = E.choose(3, 'load')
    load(states[p][0], states[p][1], 'load')
    load(states[p][0], states[p][1], 'next load')
    q = E.choose(3, 'another load')
    load(states[q][0], states[q][1], 'load of another')
    E.reachable('end')


@harness(HARNESSES, 'what a template extends, imports or includes', ['kajiki.template._Template._extend', 'kajiki.template._Template._import', LD + 'FileLoader.import_', LD + 'Loader.import_'],
         bound='one file, loaded before or not, with any modification times; names of the parent none')
def h_extend(E):
    """Templates reach other templates through the same cache rule as a load does."""
    fs, log, used = Files(E), [], []
    reload_ = bool(E.choose(2, 'reload'))
    l = make_loader(E, E.newlist(['base']), fs, log, reload=reload_)
    fn = 'base/p.xml'
    fs.exists[fs.key(fn)] = SymBool(z3.BoolVal(True))
    made = []

    def compiled(I, a, k):
        def make(I2, a2, k2):
            used.append(c)
            t = instance(I2, 'kajiki.template._Template')
            g = PyDict(I2)
            I2.registry[g.id] = g
            x = PyDict(I2)
            I2.registry[x.id] = x
            t.attrs['__globals__'], t.attrs['_context'] = g, x
            return t
        c = Host('compiled', make)
        c.settable = True
        made.append((c, bool(k.get('is_fragment'))))
        return c
    E.overrides['kajiki.xml_template.XMLTemplate'] = compiled
    frag = bool(E.choose(2, 'extend, import'))
    record = None
    for i, before in enumerate((True, False, False)):
        if before and not E.choose(2, 'loaded before'):
            continue
        m = fs.mtime[fs.key(fn)] = SymInt(z3.Real('mtime%d' % i))
        E.add(m.z > 0)
        n = len(made)
        if before:
            r = E.call_method(l, 'import_', 'p.xml', **(dict(is_fragment=True) if frag else {}))
        else:
            t = instance(E, 'kajiki.template._Template')
            g = PyDict(E, [['self', t]])
            E.registry[g.id] = g
            x = PyDict(E)
            E.registry[x.id] = x
            t.attrs['__globals__'], t.attrs['_context'], t.attrs['loader'] = g, x, l
            k = len(used)
            if frag:
                E.call_method(t, '_import', 'p.xml', 'alias', g)
            else:
                E.call_method(t, '_extend', 'p.xml')
            E.ensure('one instance', len(used) == k + 1)
            r = used[k]
        if len(made) > n:
            E.ensure('compiled at most once, as what it is used for', len(made) == n + 1 and made[n][1] == frag)
            E.ensure('uses what was compiled', r is made[n][0])
            if record:
                E.ensure('compiled again only with reload, when the file is newer', m.z > record[1].z if reload_ else False)
            record = (r, m)
        else:
            E.ensure('something was loaded before', record is not None)
            if record:
                E.ensure('uses the template loaded last', r is record[0])
                if reload_:
                    E.ensure('compiled again when the file is newer', m.z <= record[1].z)
    E.reachable('end')


@harness(HARNESSES, 'PackageLoader: which file', [LD + 'PackageLoader._filename'], bound='package folders with any of 6 files, listed in two orders')
def h_package(E):
    files = [f for f in ('other.html', 'page.txt', 'page.html5', 'page.html', 'page.xml', 'page.py', 'page2.xml') if E.choose(2, f)]
    if E.choose(2, 'order'):
        files.reverse()

    def os(I, what, a):
        if what == 'resource_listdir':
            E.ensure('lists the package', a[0] == 'some.pkg')
            return I.newlist(files)
        if what == 'resource_filename':
            return '<%s>/%s' % (a[0], a[1])
        return NotImplemented
    E.inputs['os'] = os
    l = E.call(E.get(LD + 'PackageLoader'), [], {})
    want = [f for f in ('page.xml', 'page.html', 'page.html5', 'page.txt') if f in files]
    try:
        r = E.call_method(l, '_filename', 'some.pkg.page')
        E.ensure('the file of that name, the best kind of it', bool(want) and r == '<some.pkg>/' + want[0], repr((files, r)))
    except PyExc as e:
        E.ensure('an IOError only when there is none', getattr(e.value.cls, 'name', '?') in ('IOError', 'OSError') and not want, repr(files))
    E.reachable('end')


@harness(HARNESSES, 'default_alias_for', [LD + 'Loader.default_alias_for'], bound='12 names')
def h_alias(E):
    l = E.call(E.get(LD + 'Loader'), [], {})
    for n, want in (('a.html', 'a'), ('x/a.html', 'a'), ('x/y/z.txt', 'z'), ('a', 'a'), ('x.y/a', 'a'), ('a.b.html', 'a.b'), ('./a.xml', 'a'), ('/r/a.xml', 'a'), ('a_b.xml', 'a_b'), ('x/..//q.html', 'q'), ('.a', '.a'), ('A.XML', 'A')):
        E.ensure('the name without folder and extension', E.call_method(l, 'default_alias_for', n) == want, n)
    E.reachable('end')
