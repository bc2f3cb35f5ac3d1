"""Which conclusions are drawn on contradictory paths (development aid): PYVC_AUDIT=1 python3-vt tools/audit.py C03 ..."""
import importlib, os, sys
os.environ['PYVC_AUDIT'] = '1'
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
from pyvc import prove, engine
for c in sys.argv[1:]:
    for h in importlib.import_module('contracts.' + c.lower()).HARNESSES:
        engine.AUDIT_SEEN.clear()
        engine.AUDIT_NOTES.clear()
        prove.run_harness(h, 200, 8000)
        names = sorted(set(n for n, _ in engine.AUDIT_SEEN))
        for n in names:
            s = {r: engine.AUDIT_SEEN[(n, r)] for r in ('sat', 'unsat', 'unknown') if (n, r) in engine.AUDIT_SEEN}
            if 'unsat' in s or 'sat' not in s:
                print('%s | %s | %s | %s' % (c, h['name'], n[:70], s))
                for x in sorted(set(engine.AUDIT_NOTES.get(n, [])))[:3]:
                    print('      ', x[-300:])
