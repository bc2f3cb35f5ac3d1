"""python -m pyvc.prove C01 --out F [--tier quick] [--limit 300] [--only substring] [-v]

Generates the verification conditions of contracts/<id>.py from the current
source under VERIF_REPO and discharges them.
"""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import sys
import time
import traceback


def run_harness(h, seconds, timeout_ms):
    from .interp import Interp
    from .engine import Unsupported, Cut
    from .values import PyExc
    name, fn = h['name'], h['fn']
    E = Interp(name, timeout_ms=timeout_ms, limit_s=seconds)
    E.MAX_PATHS = h.get('max_paths', E.MAX_PATHS)
    if 'unroll' in h:
        E.unroll_limit = h['unroll']
    E.overrides.update(h.get('overrides', {}))
    t = time.time()
    why = None

    def wrapped(E):
        try:
            fn(E)
        except PyExc as e:
            v = e.value
            args = getattr(v, 'attrs', {}).get('args')
            E.ensure('raises nothing unexpected', False, 'uncaught %s%r' % (getattr(getattr(v, 'cls', None), 'name', v), args))
    try:
        E.explore(wrapped)
    except Unsupported as e:
        why = 'outside the verifier\'s reach: %s' % e
    except RecursionError:
        why = 'outside the verifier\'s reach: host recursion'
    except Exception as e:          # a bug of the verifier is no verdict
        why = 'verifier error: %s' % ''.join(traceback.format_exception_only(type(e), e)).strip()
        if os.environ.get('PYVC_DEBUG'):
            traceback.print_exc()
    out = []
    cf = [f for info in E.loopinfo.values() for cell, fs in info.failures.items() if info.final.get(cell, ('',))[0] in ('extended', 'poison') for f in fs]
    for r in E.obl.values():
        r = dict(r)
        if r['vcs'] == 0 and r['status'] is None:
            continue
        if r['status'] == 'undecided' and r.get('over') and not why and cf:
            # the loop body does not do what its specification says
            r['status'] = 'refuted'
            r['detail'] = 'loop specification not met: %s | path: %s' % (cf[-1]['what'][:600], cf[-1]['path'])
            r['replays'] = [c for f in cf for c in f['replays']][:6]
        if r['status'] == 'undecided' and r.pop('over', False) and not why:
            r['status'] = 'unproved'        # the verifier ran to completion and the obligation does not follow
        if why and r['status'] == 'discharged':
            r['status'] = 'undecided'
            r['detail'] = why
        out.append(r)
    if why and not any(r['status'] == 'undecided' for r in out):
        out.append(dict(name='all', vcs=0, status='undecided', detail=why, replays=[], backends={}))
    missing = [f for f in h.get('functions', ()) if f not in E.functions]
    if not why and (not out or missing):
        out.append(dict(name='functions under contract', vcs=0, status='undecided', detail='not executed: %s' % missing, replays=[], backends={}))
    if not why and not h.get('unreachable_ok') and not any(r['name'].endswith('[reachable]') for r in out):
        out.append(dict(name='vacuity', vcs=0, status='undecided', detail='no path reaches the end of the harness', replays=[], backends={}))
    for r in out:
        r['name'] = '%s: %s' % (name, r['name'])
        r['bound'] = h.get('bound')
        r['function'] = h.get('target') or ', '.join(h.get('functions', ()))
    return dict(harness=name, obligations=out, functions=sorted(E.functions), assumptions=sorted(E.assumed | set(h.get('assumes', ()))), solver_s=round(E.solver_s, 3), queries=E.queries,
                paths=getattr(E, 'paths', 0), restarts=getattr(E, 'restarts', 0), wall_s=round(time.time() - t, 2), used_contracts=sorted(E.used_overrides), bound=h.get('bound'), why=why)


def child(q, h, seconds, timeout_ms):
    sys.setrecursionlimit(20000)
    try:
        r = run_harness(h, seconds, timeout_ms)
    except BaseException as e:
        r = dict(harness=h['name'], obligations=[dict(name=h['name'] + ': all', vcs=0, status='undecided', detail='verifier error %r' % (e,), replays=[], backends={}, function=h.get('target'), bound=h.get('bound'))],
                 functions=[], assumptions=[], solver_s=0, queries=0, paths=0, restarts=0, wall_s=0, used_contracts=[], bound=None, why=repr(e))
    q.put(r)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--out')
    ap.add_argument('--tier', default='quick')
    ap.add_argument('--limit', type=float, default=300)
    ap.add_argument('--only')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--jobs', type=int, default=4)
    a = ap.parse_args()
    t0 = time.time()
    mod = importlib.import_module('contracts.' + a.prop.lower())
    hs = [h for h in mod.HARNESSES if not a.only or a.only in h['name']]
    timeout_ms = 8000 if a.tier == 'quick' else 60000
    each = a.limit * .8
    results = []
    pending = list(hs)
    running = []
    ctx = mp.get_context('fork')
    while pending or running:
        while pending and len(running) < a.jobs:
            h = pending.pop(0)
            q = ctx.Queue()
            p = ctx.Process(target=child, args=(q, h, min(each, a.limit - (time.time() - t0)), timeout_ms))
            p.start()
            running.append((p, q, h, time.time()))
        still = []
        for p, q, h, st in running:
            r = None
            try:
                r = q.get(timeout=.02)
            except Exception:
                if not p.is_alive():
                    try:
                        r = q.get(timeout=.2)
                    except Exception:
                        r = False
                elif time.time() - t0 > a.limit:
                    p.kill()
                    r = False
            if r is None:
                still.append((p, q, h, st))
                continue
            if r is False:
                r = dict(harness=h['name'], obligations=[dict(name=h['name'] + ': all', vcs=0, status='undecided', detail='out of time or killed', replays=[], backends={}, function=h.get('target'), bound=h.get('bound'))],
                         functions=[], assumptions=[], solver_s=0, queries=0, paths=0, restarts=0, wall_s=time.time() - st, used_contracts=[], bound=None, why='out of time')
            p.join(1)
            results.append(r)
            if a.v:
                print('%-60s %6.1fs paths %d restarts %d queries %d %s' % (r['harness'], r['wall_s'], r['paths'], r['restarts'], r['queries'], r['why'] or ''))
                for o in r['obligations']:
                    print('    %-11s %3d %s %s' % (o['status'], o['vcs'], o['name'].split(': ', 1)[1], '' if o['status'] == 'discharged' else (o['detail'] or '')[:1500]))
                    for c in o['replays'][:2]:
                        print('        replay', json.dumps(c)[:300])
        running = still
    order = {h['name']: i for i, h in enumerate(hs)}
    results.sort(key=lambda r: order[r['harness']])
    out = dict(obligations=[o for r in results for o in r['obligations']], functions=sorted(set(f for r in results for f in r['functions'])),
               assumptions=sorted(set(x for r in results for x in r['assumptions']) | set(getattr(mod, 'ASSUMPTIONS', []))),
               solver_s=round(sum(r['solver_s'] for r in results), 2),
               harnesses=[dict((k, r[k]) for k in ('harness', 'paths', 'restarts', 'queries', 'wall_s', 'solver_s', 'used_contracts', 'bound', 'why')) for r in results])
    if a.out:
        with open(a.out, 'w') as f:
            json.dump(out, f, default=str)
    if a.v:
        n = {}
        for o in out['obligations']:
            n[o['status']] = n.get(o['status'], 0) + 1
        print(n, 'in %.1f s' % (time.time() - t0))
    return 0


if __name__ == '__main__':
    sys.exit(main())
