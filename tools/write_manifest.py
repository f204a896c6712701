"""Writes /verif/MANIFEST.json from the checks that exist."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
TECH = {
 'P01': 'runtime differential monitor: compiled against pure-Python execution',
 'P02': 'runtime monitor on the built generator and the reported state',
 'P03': 'runtime conservation monitor on lead currents',
 'P04': 'runtime monitor of equilibrium and thermodynamic inequalities',
 'P05': 'runtime monitor with an independent operator-form reference',
 'P06': 'runtime monitor with exact (Landauer) transport as oracle',
 'P07': 'runtime monitor with Jordan-Wigner operators as oracle',
 'P08': 'runtime bijection monitor on state and element tables',
 'P09': 'runtime metamorphic monitor over equivalent descriptions',
 'P10': 'runtime history monitor against a freshly built system',
 'P11': 'runtime monitor over solver/storage option combinations',
 'P12': 'runtime history monitor for restriction, restoration and approach switches',
 'P13': 'runtime monitor of input snapshots and instance isolation',
 'P14': 'runtime monitor of special functions against quadrature/mpmath-free references',
 'P15': 'runtime history monitor of the iteration protocol',
 'P16': 'runtime monitor of RTD scaling, additivity and reference diagrams',
 'P17': 'runtime monitor with an independent electron-phonon reference',
 'P18': 'AddressSanitizer/UBSan, bounds-checked build and allocator poisoning under stress workloads',
 'P19': 'ThreadSanitizer and schedule/thread-count differential monitoring',
 'P20': 'runtime monitor of accessors and listings against the stored solution',
 'P21': 'runtime fault injection with recovery monitors',
 'P22': 'runtime model-based monitor of staged solutions and the order of effects',
 'P23': 'runtime monitor of traced memory, remaining objects and process state over repeated operations',
}
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(V, 'checks', i.lower() + '.py')):
        checks.append(dict(property=i, quick_cmd='%s run_check.py %s --tier quick' % (PY, i),
                           thorough_cmd='%s run_check.py %s --tier thorough' % (PY, i),
                           evidence_file='evidence/%s.json' % i, technique=TECH[i], level='exploration',
                           level_note='Decided on the executions observed (counts in the evidence file); trusts '
                                      'numpy/scipy linear algebra and the oracle named in DESIGN.md.'))
    else:
        na.append(dict(property=i, reason='The check for this property is not built yet.'))
m = dict(version=1, setup_cmd='%s qmon/build.py plain' % PY,
         hooks=dict(guard='QMON', enable='No hooks are needed: the monitors observe public attributes and separately '
                    'compiled variants of the unmodified sources.', source_commits=[]),
         checks=checks, not_applicable=na,
         notes='Checks build /repo/qmeq into /verif/.cache (keyed by the source hash) and never write in /repo.')
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
