"""C08: inheritance."""
import kajiki
from .lib import kind, diff, esc, Undefined

# A level is {'kind': 'xml'|'text', 'form': 'root'|'elem'|'attr', 'before': parts, 'defs': {name: parts}, 'blocks': {name: parts}, 'body': parts}
# A part is ['t', text] | ['call', how, name] | ['pb'] | ['var', name] | ['block', name, parts] (in the body of the last level only)


def parts_xml(parts):
    out = ''
    for p in parts:
        if p[0] == 't':
            out += p[1]
        elif p[0] == 'call':
            out += '${%s%s(%s)}' % (p[1], p[2], p[3] if len(p) > 3 else '')
        elif p[0] == 'pb':
            out += '${parent_block()}'
        elif p[0] == 'var':
            out += '${%s}' % p[1]
        elif p[0] == 'arg':
            out += '${a}'
        elif p[0] == 'block':
            out += '<py:block name="%s">%s</py:block>' % (p[1], parts_xml(p[2]))
    return out


def parts_text(parts):
    out = ''
    for p in parts:
        if p[0] == 'block':
            out += '{%%block %s%%}%s{%%end%%}' % (p[1], parts_text(p[2]))
        else:
            out += parts_xml([p])
    return out


def source(level, i, n):
    k = level['kind']
    last = i == n - 1
    parent = 't%d' % (i + 1)
    if k == 'text':
        s = '' if last else '{%%extends %s%%}' % parent
        for name, ps in sorted(level['defs'].items()):
            s += '{%%def %s(a=0)%%}%s{%%end%%}' % (name, parts_text(ps))
        if not last:
            for name, ps in sorted(level['blocks'].items()):
                s += '{%%block %s%%}%s{%%end%%}' % (name, parts_text(ps))
        return s + parts_text(level['body']) + 'e'
    defs = ''.join('<py:def function="%s(a=0)">%s</py:def>' % (name, parts_xml(ps)) for name, ps in sorted(level['defs'].items()))
    if last:
        return '<r>%s%s</r>' % (defs, parts_xml(level['body']))
    blocks = ''.join('<py:block name="%s">%s</py:block>' % (name, parts_xml(ps)) for name, ps in sorted(level['blocks'].items()))
    inner = defs + blocks + parts_xml(level['body'])
    if level['form'] == 'attr':
        return '<w py:extends="%s">%s</w>' % (parent, inner)
    if level['form'] == 'inner':
        return '<w>%s<py:extends href="%s"/>%s</w>' % ('pre', parent, inner)
    return '<py:extends href="%s">%s</py:extends>' % (parent, inner)


class Chain(object):
    def __init__(self, levels, ctx):
        self.levels, self.ctx = levels, ctx
        self.depth = 0

    def find(self, where, name, start):
        for j in range(start, len(self.levels)):
            if name in self.levels[j][where]:
                return j
        raise Undefined()

    def parts(self, parts, i, block=None, arg='0'):
        self.depth += 1
        if self.depth > 60:
            raise Undefined()
        out = ''
        for p in parts:
            if p[0] == 't':
                out += p[1]
            elif p[0] == 'var':
                v = self.ctx[p[1]]
                out += esc(str(v)) if self.levels[i]['kind'] == 'xml' else str(v)
            elif p[0] == 'arg':
                out += arg
            elif p[0] == 'call':
                start = {'': 0, 'self.': 0, 'local.': i, 'parent.': i + 1, 'child.': i - 1}[p[1]]
                if start < 0 or (p[1] == 'parent.' and i + 1 >= len(self.levels)):
                    raise Undefined()
                where = 'blocks' if p[2].startswith('_kj_block_') else 'defs'
                name = p[2][10:] if where == 'blocks' else p[2]
                j = self.find(where, name, start)
                out += self.parts(self.levels[j][where][name], j, name if where == 'blocks' else None, p[3] if len(p) > 3 else '0')
            elif p[0] == 'pb':
                j = self.find('blocks', block, i + 1)
                out += self.parts(self.levels[j]['blocks'][block], j, block)
            elif p[0] == 'block':
                j = self.find('blocks', p[1], 0)
                out += self.parts(self.levels[j]['blocks'][p[1]], j, p[1])
        self.depth -= 1
        return out

    def main(self, i):
        lv = self.levels[i]
        last = i == len(self.levels) - 1
        if lv['kind'] == 'text':
            return ('' if last else self.main(i + 1)) + self.parts(lv['body'], i) + 'e'
        if last:
            return '<r>' + self.parts(lv['body'], i) + '</r>'
        inner = self.main(i + 1) + self.parts(lv['body'], i)
        if lv['form'] == 'attr':
            return '<w>' + inner + '</w>'
        if lv['form'] == 'inner':
            return '<w>pre' + inner + '</w>'
        return inner


def collect_blocks(level):
    for p in level['body']:
        if p[0] == 'block':
            level['blocks'][p[1]] = p[2]
            for q in p[2]:
                if q[0] == 'block':
                    level['blocks'][q[1]] = q[2]


@kind('chain')
def chain(args):
    levels, ctx = args['levels'], args['ctx']
    n = len(levels)
    collect_blocks(levels[-1])
    # the blocks of an overriding template must exist further up when they run
    expected = []
    for i in range(n):
        try:
            expected.append(Chain(levels[i:], ctx).main(0))
        except Undefined:
            expected.append(None)
    if expected == [None] * n:
        raise Undefined()
    mods = {}
    for i, lv in enumerate(levels):
        src = source(lv, i, n)
        mods['t%d' % i] = kajiki.XMLTemplate(src) if lv['kind'] == 'xml' else kajiki.TextTemplate(src)
    loader = kajiki.loader.MockLoader(mods)
    for i in args['order']:
        if expected[i] is None:
            continue
        d = diff(expected[i], loader.import_('t%d' % i)(dict(ctx)).render())
        if d:
            return 'rendering level %d of %r\n%s' % (i, [source(lv, j, n) for j, lv in enumerate(levels)], d)


def rparts(rng, fns, level, n, block=None, fn=False):
    out = []
    for _ in range(rng.randint(0, 3)):
        r = rng.random()
        if r < .4:
            out.append(['t', rng.choice('abcdefgh') + str(level)])
        elif r < .5:
            out.append(['var', rng.choice(['v', 'u'])])
        elif r < .62 and block and level < n - 1:
            out.append(['pb'])
        elif r < .7 and fn:
            out.append(['arg'])
        elif fns:
            hows = ['', 'self.', 'local.'] + (['parent.'] if level < n - 1 else []) + (['child.'] if level and rng.random() < .3 else [])
            out.append(['call', rng.choice(hows), rng.choice(fns)] + ([rng.choice(['1', '23'])] if rng.random() < .4 else []))
    return out


def rchain(rng):
    n = rng.choice([1, 2, 2, 3, 3, 4, 5])
    kinds = rng.choice([['xml'], ['xml'], ['text'], ['xml', 'text']])
    fns = ['f0', 'f1', 'f2', 'f3']
    blocks = rng.choice([['b0', 'b1', 'b2'], ['b0', 'v', 'f1'], ['f3', 'u', 'v']])
    levels = []
    allkinds = rng.choice(kinds) if len(set(kinds)) == 1 or True else None
    for i in range(n):
        last = i == n - 1
        # a function may only call functions with a higher number (no recursion)
        defs = {}
        for j, f in enumerate(fns):
            if rng.random() < (.95 if last else .45):
                defs[f] = rparts(rng, fns[j + 1:], i, n, fn=True) or rng.random() < .6 and [['t', 'F%d%d' % (j, i)]] or []
        lv = dict(kind=allkinds, form=rng.choice(['elem', 'elem', 'attr', 'inner']), defs=defs, blocks={}, body=[])
        if last:
            body = []
            for b in blocks:
                body += rparts(rng, fns, i, n)
                if b == blocks[-1] and rng.random() < .5:
                    continue
                inner = rparts(rng, fns, i, n, b) or rng.random() < .6 and [['t', 'B' + b]] or []
                body.append(['block', b, inner])
            lv['body'] = body + rparts(rng, fns, i, n)
        else:
            for b in blocks:
                if rng.random() < .5:
                    lv['blocks'][b] = rparts(rng, fns, i, n, b) or rng.random() < .6 and [['t', 'O' + b + str(i)]] or []
            if rng.random() < .3:
                lv['body'] = rparts(rng, fns, i, n)
        levels.append(lv)
    order = [rng.randrange(n) for _ in range(rng.randint(1, 3))] + [0, n - 1]
    rng.shuffle(order)
    return levels, order


DYN = ('<r>[<py:def function="who()">A</py:def><py:block name="b">A0</py:block>${who()}]</r>',
       '<r>(<py:def function="who()">B</py:def><py:block name="b">B0</py:block>${who()})</r>',
       '<w><py:if test="p"><py:extends href="A"/></py:if><py:else><py:extends href="B"/></py:else><py:block name="b">C${parent_block()}</py:block>%s</w>')


@kind('dynamic')
def dynamic(args):
    own = '<py:def function="who()">C</py:def>' if args['own'] else ''
    loader = kajiki.loader.MockLoader({'A': kajiki.XMLTemplate(DYN[0]), 'B': kajiki.XMLTemplate(DYN[1]), 'C': kajiki.XMLTemplate(DYN[2] % own)})
    for p in args['order']:
        want = '<w><r>[CA0%s]</r></w>' if p else '<w><r>(CB0%s)</r></w>'
        got = loader.import_('C')(dict(p=p)).render()
        d = diff(want % ('C' if args['own'] else 'A' if p else 'B'), got)
        if d:
            return d
    return diff('<r>[A0A]</r>', loader.import_('A')().render())


def cases(run):
    rng = run.rng
    for own in (0, 1):
        yield 'dynamic', dict(own=own, order=[1, 0, 1])
    while True:
        levels, order = rchain(rng)
        yield 'chain', dict(levels=levels, order=order, ctx={'v': rng.choice(['V', '<', '']), 'u': rng.choice([0, 1])})
