"""Runtime-contract layer, run by the interpreter kajiki runs on.

Every case is (kind, args) with JSON-able args, so that a failing case can be
stored as a replay file and executed again.  A kind is a function args -> None
(contract held) or a string (what failed).
"""
import json
import os
import random
import signal
import sys
import time
import traceback

REPO = os.environ.get('VERIF_REPO', '/repo')
sys.dont_write_bytecode = True
if REPO not in sys.path:
    sys.path.insert(0, REPO)
import kajiki  # noqa
assert os.path.realpath(kajiki.__file__).startswith(os.path.realpath(REPO) + os.sep), kajiki.__file__

KINDS = {}


def kind(name):
    def deco(f):
        KINDS[name] = f
        return f
    return deco


class Undefined(Exception):
    """The oracle gives no verdict on this input."""


class Hang(BaseException):
    pass


class Html(object):
    def __init__(self, text):
        self.text = text

    def __html__(self):
        return self.text

    def __str__(self):
        return 'NOT-HTML<' + self.text


class Obj(object):
    """Any other object: only its str() counts."""
    def __init__(self, text, attr=None):
        self.text = text
        self.attr = attr

    def __str__(self):
        return self.text

    def __eq__(self, other):
        return isinstance(other, Obj) and other.text == self.text

    def __ne__(self, other):
        return not self == other

    def __hash__(self):
        return hash(self.text)


class Lit(object):
    """Oracle-side text that is inserted verbatim."""
    def __init__(self, text):
        self.text = text


class StrSub(str):
    """A str subclass (its text is its value)."""


def special(text, features):
    """An object whose str() is text and that looks like something else."""
    d = {'__str__': lambda self: text, '__hash__': lambda self: 7}
    for f in features:
        if f == 'call':
            d['__call__'] = lambda self, *a: 'CALLED'
        elif f == 'iter':
            d['__iter__'] = lambda self: iter(['ITERATED'])
        elif f == 'falsy':
            d['__bool__'] = lambda self: False
        elif f == 'len':
            d['__len__'] = lambda self: 0
        elif f == 'alleq':
            d['__eq__'], d['__ne__'] = (lambda self, o: True), (lambda self, o: False)
        elif f == 'noteq':
            d['__eq__'], d['__ne__'] = (lambda self, o: False), (lambda self, o: True)
        elif f == 'repr':
            d['__repr__'] = d['__format__'] = lambda self, *a: 'REPR'
    base = {'int': int, 'float': float, 'list': list, 'dict': dict, 'tuple': tuple, 'exc': Exception, 'bytes': bytes}
    bases = [base[f] for f in features if f in base]
    return type('Special', tuple(bases) or (object,), d)()


def decode(v, oracle=False):
    """Build a value from its JSON-able description."""
    t = v[0]
    if t == 'n':
        return None
    if t in 'bisf':
        return v[1]
    if t == 'sub':
        return StrSub(v[1])
    if t == 'html':
        return Html(v[1])
    if t == 'obj':
        return Obj(v[1], decode(v[2], oracle) if len(v) > 2 else None)
    if t == 'spec':
        return special(v[1], v[2])
    if t == 'nan':
        return float('nan')
    if t == 'lit':
        return Lit(v[1]) if oracle else kajiki.util.literal(v[1])
    if t == 'l':
        return [decode(x, oracle) for x in v[1]]
    if t == 't':
        return tuple(decode(x, oracle) for x in v[1])
    if t == 'd':
        return {k: decode(x, oracle) for k, x in v[1]}
    raise ValueError(v)


def context(spec, oracle=False):
    return {k: decode(v, oracle) for k, v in spec.items()}


def esc(s):
    """The oracle of escaping: one character at a time."""
    return ''.join({'&': '&amp;', '<': '&lt;', '>': '&gt;', '"': '&quot;'}.get(c, c) for c in s)


def esc_text(s):
    return ''.join({'&': '&amp;', '<': '&lt;', '>': '&gt;'}.get(c, c) for c in s)


def interp(value):
    """What a value interpolated in element text contributes."""
    if value is None:
        return ''
    if isinstance(value, Lit):
        return value.text
    if hasattr(value, '__html__'):
        return value.__html__()
    return esc(str(value))


UNDEFINED = [0]


def run_case(kind_, args, seconds=20):
    """-> None, or a description of the failure."""
    def on_alarm(*_):
        raise Hang()
    old = signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(seconds)
    try:
        return KINDS[kind_](args)
    except Undefined:
        UNDEFINED[0] += 1
        return None
    except Hang:
        return 'no result after %d s' % seconds
    except AttributeError as e:
        if str(e).startswith("module 'kajiki"):       # an internal name was renamed: nothing to judge here
            UNDEFINED[0] += 1
            return None
        return 'unexpected error: ' + traceback.format_exc()[-1500:]
    except RecursionError:
        return 'RecursionError: ' + traceback.format_exc()[-400:]
    except Exception:
        return 'unexpected error: ' + traceback.format_exc()[-1500:]
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def diff(expected, got):
    if expected == got:
        return None
    return 'expected %r\n     got %r' % (expected, got)


def load_known():
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    try:
        with open(os.path.join(here, 'known_findings.json')) as f:
            return json.load(f)
    except IOError:
        return {'findings': []}


class Runner(object):
    def __init__(self, prop, seed, tier, budget):
        self.prop, self.seed, self.tier = prop, seed, tier
        self.rng = random.Random('%s-%s' % (prop, seed))
        self.deadline = time.time() + budget
        self.evaluations = 0
        self.kinds = {}
        self.seen = set()
        self.failures = []
        self.samples = []
        known = load_known()
        self.known = [k for k in known['findings'] if k['property'] == prop]
        self.known_keys = set(json.dumps([k['kind'], k['args']], sort_keys=True) for k in self.known)
        self.known_open = []

    def out_of_time(self):
        return time.time() > self.deadline or len(self.failures) >= 8

    def try_case(self, kind_, args):
        key = json.dumps([kind_, args], sort_keys=True)
        self.evaluations += 1
        self.kinds[kind_] = self.kinds.get(kind_, 0) + 1
        if key in self.known_keys:
            return True
        h = hash(key)
        if h not in self.seen:
            self.seen.add(h)
            if len(self.samples) < 6 and (self.evaluations % 97 == 1):
                self.samples.append([kind_, args])
        err = run_case(kind_, args)
        if err is not None:
            self.failures.append(dict(kind=kind_, args=args, error=err, size=len(key)))
            return False
        return True

    def run_known(self):
        for k in self.known:
            if run_case(k['kind'], k['args']) is not None:
                self.known_open.append(k['what'])

    def result(self):
        self.failures.sort(key=lambda f: f['size'])
        return dict(property=self.prop, seed=self.seed, tier=self.tier,
                    evaluations=self.evaluations, distinct=len(self.seen), undefined=UNDEFINED[0],
                    kinds=self.kinds, failures=self.failures[:5], samples=self.samples,
                    known_open=self.known_open)
