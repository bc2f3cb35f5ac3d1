"""Writes /verif/known_findings.json."""
import json, os, subprocess
log = subprocess.check_output(['git', '-C', '/repo', 'log', '--format=%h %s', '--reverse']).decode().splitlines()
PROPS = ['C05', 'C04', 'C04', 'C02', 'C06', 'C10', 'C10', 'C10', 'C10', 'C10', 'C10', 'C07', 'C06', 'C06', 'C06', 'C08', 'C03', 'C17', 'C09', 'C09', 'C05', 'C14', 'C11', 'C17', 'C05', 'C04', 'C15', 'C10', 'C04', 'C15', 'C12', 'C17', 'C05', 'C04']
fixes = [l.split(' ', 1) for l in log if ' fix: ' in l]
assert len(fixes) == len(PROPS), (len(fixes), len(PROPS))
X = lambda e: ['expr', e, 'braced']
el = lambda t, k: ['el', t, [], {}, k]
F = [
 dict(property='C05', kind='xmldollar', args=dict(text='${3 > 2}', ctx={}, place='text', markup=True),
      what='XML element text expression containing ">" (<p>${3 > 2}</p>): XMLTemplateCompileError, because static text is escaped before it is scanned for expressions'),
 dict(property='C05', kind='xmldollar', args=dict(text="${'&'}", ctx={}, place='text', markup=True),
      what="XML element text expression containing an ampersand (<p>${'&amp;'}</p>) is rendered as &amp;amp; for the same reason"),
 dict(property='C07', kind='xmltree', args=dict(tree=[el('div', [X('c'), ['with', [['c', '1']], [X('c')], 'elem', ';'], X('c')])], ctx={'c': ['s', 'C']}, mode='xml'),
      what='<div>${c}<py:with vars="c=1">...: a context variable read before the py:with that assigns it in the same function raises UnboundLocalError (the assignment makes it a local variable of the generated function)'),
]
json.dump(dict(findings=F, fixed=['fixed: property=%s %s %s' % (p, h, s[5:]) for p, (h, s) in zip(PROPS, fixes)]),
          open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.json'), 'w'), indent=1)
