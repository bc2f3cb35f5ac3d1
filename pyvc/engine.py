"""Path exploration, path conditions and verification conditions.

A harness is a Python function h(E) that builds symbolic inputs, runs functions
of /repo through pyvc.interp and states postconditions with E.ensure.  It is
re-executed once per path; every branch on a symbolic condition is recorded in
a decision trail.  E.ensure generates one verification condition per path:
path condition => postcondition.
"""
import os
import time
import z3


AUDIT = os.environ.get('PYVC_AUDIT')
AUDIT_SEEN, AUDIT_NOTES = {}, {}


class Cut(Exception):
    """This path ends here (loop iteration checked, assumption violated, ...)."""


class Restart(Exception):
    """A loop invariant candidate was dropped: explore again from that loop on."""
    def __init__(self, depth=0):
        Exception.__init__(self)
        self.depth = depth


class Unsupported(Exception):
    """Outside the verifier's reach."""


class Refuted(Exception):
    pass


class Engine(object):
    MAX_PATHS = 6000

    def __init__(self, name, timeout_ms=8000, limit_s=120):
        self.name = name
        self.timeout_ms = timeout_ms
        self.deadline = time.time() + limit_s
        self.runs, self.events = [], []
        self.loopinfo = {}       # (site, trail prefix) -> LoopInfo
        self.solver_s = 0.0
        self.assumed = set()
        self.functions = set()   # functions of /repo that were executed
        self.queries = 0
        self.summaries = {}
        self.replays = []

    # ------------------------------------------------------------- paths
    def explore(self, harness):
        self.restarts = 0
        self.runs = []           # (trail, events) of every explored path
        self.paths = 0
        trail = []
        while True:
            self._reset(trail)
            self.events = []
            try:
                harness(self)
            except Cut:
                pass
            except Restart as e:
                # a loop invariant changed: what was explored below that loop is void
                self.restarts += 1
                if self.restarts > 3000:
                    raise Unsupported('no loop invariant found')
                if time.time() > self.deadline:
                    raise Unsupported('out of time')
                n = e.depth
                pre = tuple((k, c) for k, c, _, _ in self.trail[:n])
                self.runs = [r for r in self.runs if r[0][:n] != pre]
                trail = self.trail[:n]
                continue
            self.runs.append((tuple((k, c) for k, c, _, _ in self.trail), self.events))
            self.events = []
            self.paths += 1
            if self.paths > self.MAX_PATHS or time.time() > self.deadline:
                raise Unsupported('more than %d paths or out of time' % self.paths)
            trail = self.trail
            while trail and trail[-1][1] + 1 >= trail[-1][2]:
                trail.pop()
            if not trail:
                return
            k, c, n, note = trail[-1]
            trail[-1] = (k, c + 1, n, note)

    @property
    def obl(self):
        """The obligations, from what every path contributed."""
        out = {}
        order = {'refuted': 3, 'undecided': 2, 'discharged': 1}
        for _, events in self.runs + [((), getattr(self, 'events', []))]:
            for ev in events:
                if ev.get('counted'):
                    continue
                r = out.setdefault(ev['name'], dict(name=ev['name'], vcs=0, status=None, detail=None, replays=[], backends={}, over=False))
                r['vcs'] += 1
                if ev['backend']:
                    r['backends'][ev['backend']] = r['backends'].get(ev['backend'], 0) + 1
                if r['status'] is None or order[ev['status']] > order[r['status']]:
                    r['status'] = ev['status']
                    if ev['status'] != 'discharged':
                        r['detail'] = ev['detail']
                        r['over'] = ev.get('over', False)
                for c in ev.get('replays', ()):
                    if len(r['replays']) < 12 and c not in r['replays']:
                        r['replays'].append(c)
        return out

    def _reset(self, trail):
        self.trail = trail
        self.tpos = 0
        self.solver = z3.Solver()
        self.solver.set('timeout', self.timeout_ms)
        self.pc = []
        self.exact = True
        self.ids = 0
        self.fresh_n = {}
        self.writes = None        # set of cells written, when a loop records them
        self.write_stack = []
        self.path_notes = []
        self.inputs = {}
        self.cache = {}
        self.on_reset()

    def on_reset(self):
        pass

    def prefix(self):
        return tuple((k, c) for k, c, n, _ in self.trail[:self.tpos])

    def new_id(self):
        self.ids += 1
        return self.ids

    def fresh(self, hint):
        """A name no other symbol has: names given directly never contain a !."""
        n = self.fresh_n.get(hint, 0)
        self.fresh_n[hint] = n + 1
        return '%s!%d' % (hint, n)

    # ------------------------------------------------------------- choices
    def choose(self, n, note=''):
        """Nondeterministic choice among n alternatives, all explored."""
        if n <= 1:
            return 0
        if self.tpos < len(self.trail):
            c = self.trail[self.tpos][1]
        else:
            self.trail.append(('c', 0, n, note))
            c = 0
        self.tpos += 1
        return c

    def branch(self, cond, note=''):
        """The truth value of a z3 Bool on this path."""
        if isinstance(cond, bool):
            return cond
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if self.tpos < len(self.trail):
            k, c, n, _ = self.trail[self.tpos]
            self.tpos += 1
            if k == 'f':           # forced
                self.add(cond if c == 0 else z3.Not(cond))
                return c == 0
            self.add(cond if c == 0 else z3.Not(cond))
            return c == 0
        t = self.check(cond)
        f = self.check(z3.Not(cond))
        if t == z3.unsat and f == z3.unsat:
            raise Cut('infeasible')
        if t == z3.unsat or f == z3.unsat:
            c = 1 if t == z3.unsat else 0
            self.trail.append(('f', c, 0, note))
            self.tpos += 1
            # implied by the path condition: no need to add it
            return c == 0
        self.trail.append(('b', 0, 2, note))
        self.tpos += 1
        self.add(cond)
        return True

    def add(self, cond):
        if isinstance(cond, bool):
            if not cond:
                raise Cut('assumption')
            return
        self.pc.append(cond)
        self.solver.add(cond)

    def assume(self, cond):
        """Restrict the inputs (precondition)."""
        if isinstance(cond, bool):
            if not cond:
                raise Cut('assumption')
            return
        if self.check(cond) == z3.unsat:
            raise Cut('assumption')
        self.add(cond)

    def check(self, *conds):
        t = time.time()
        self.queries += 1
        r = self.solver.check(*conds)
        self.solver_s += time.time() - t
        return r

    def valid(self, cond):
        """Does the path condition imply cond?  (True/False; unknown counts as False)"""
        if isinstance(cond, bool):
            return cond
        return self.check(z3.Not(cond)) == z3.unsat

    # ------------------------------------------------------------- obligations
    def _event(self, name, status, backend=None, **kw):
        self.events.append(dict(name=name, status=status, backend=backend, **kw))

    def audit(self, name):
        """Development aid: report conclusions drawn on contradictory paths."""
        if AUDIT:
            r = self.check()
            k = (name, str(r))
            AUDIT_SEEN[k] = AUDIT_SEEN.get(k, 0) + 1
            if r == z3.unsat:
                AUDIT_NOTES.setdefault(name, []).append('; '.join(str(n) for n in self.path_notes[-8:]))

    def ensure(self, name, cond, detail='', replay=None, model_check=None):
        """One verification condition of obligation *name*."""
        self.audit(name)
        if isinstance(cond, bool) or z3.is_true(z3.simplify(cond)) or z3.is_false(z3.simplify(cond)):
            ok = cond if isinstance(cond, bool) else z3.is_true(z3.simplify(cond))
            if ok:
                self._event(name, 'discharged', 'structural')
                return True
            res = self.check()
            if res == z3.unsat:
                self._event(name, 'discharged', 'z3')
                return True
            self._fail(name, res, detail, replay)
            return False
        res = self.check(z3.Not(cond))
        if res == z3.unsat:
            self._event(name, 'discharged', 'z3')
            return True
        if res == z3.unknown and self._cvc5(cond):
            self._event(name, 'discharged', 'cvc5')
            return True
        if res == z3.sat and model_check is not None:
            self.model = self.solver.model()
            if not model_check(self.model):
                res = z3.unknown
        self._fail(name, res, detail or str(cond)[:400], replay)
        return False

    def _fail(self, name, res, detail, replay):
        detail = '%s | path: %s' % (detail, '; '.join(str(n) for n in self.path_notes[-12:]))
        if res == z3.sat and self.exact:
            self.model = self.solver.model()
            detail += ' | model: %s' % str(self.model)[:600]
            replays = []
            try:
                fn = replay or self.inputs.get('replay')
                if fn is not None:
                    replays = list(fn(self))[:6]
            except Exception as e:       # a replay that cannot be built is only missing
                detail += ' | no replay: %r' % (e,)
            self._event(name, 'refuted', None, detail=detail, replays=replays)
        else:
            self._event(name, 'undecided', None, over=res == z3.sat,
                        detail=('solver answered %s' % res if res != z3.sat else 'not provable: sat on an over-approximated path') + ' | ' + detail)

    def _cvc5(self, cond):
        """Ask cvc5 for the same VC, as SMT-LIB text."""
        try:
            import cvc5
            s = z3.Solver()
            s.add(*self.pc)
            s.add(z3.Not(cond))
            text = s.to_smt2()
            tm = cvc5.TermManager() if hasattr(cvc5, 'TermManager') else None
            slv = cvc5.Solver(tm) if tm else cvc5.Solver()
            slv.setOption('tlimit-per', str(self.timeout_ms))
            slv.setOption('strings-exp', 'true')
            parser = cvc5.InputParser(slv)
            parser.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, '(set-logic ALL)\n' + text, 'vc')
            sm = parser.getSymbolManager()
            out = ''
            while True:
                cmd = parser.nextCommand()
                if cmd.isNull():
                    break
                out += cmd.invoke(slv, sm)
            return out.strip().endswith('unsat') and 'sat' not in out.replace('unsat', '')
        except Exception:
            return False

    def reachable(self, name):
        """Vacuity guard: this point must be reachable on some path."""
        if self.check() == z3.sat:
            self._event(name + ' [reachable]', 'discharged', 'z3')

    def note(self, s):
        self.path_notes.append(s)

    # ------------------------------------------------------------- write log
    def wrote(self, cell):
        for s in self.write_stack:
            s.add(cell)
