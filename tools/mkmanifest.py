"""writes /verif/MANIFEST.json and /verif/properties.jsonl from checks/specs.py and tools/props.py"""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
sys.path[:0] = [os.path.join(V, x) for x in ('lib', 'checks', 'tools')]
import props, specs
TECH = {'msym': 'forking symbolic execution of the LLVM bitcode of the real C code with Z3, counterexamples replayed natively',
        'cbmc': 'bounded model checking (CBMC/SAT) of the real C code, counterexamples replayed natively',
        'py': 'symbolic execution of the real Python functions on Z3 terms, counterexamples replayed concretely'}
checks, na = [], []
for q in props.P:
    i = q['id']
    if i in specs.SPECS:
        sp = specs.SPECS[i]
        kinds = []
        for j in sp.jobs('quick'):
            if j.kind not in kinds:
                kinds.append(j.kind)
        t = ['python3 check.py %s --tier %s' % (i, t) for t in ('quick', 'thorough')]
        checks.append({'property': i, 'quick_cmd': t[0], 'thorough_cmd': t[1], 'technique': '; '.join(TECH[k] for k in kinds), 'level': sp.level,
                       'level_note': ('Holds for every input within the bounds each job states in the evidence file; outside: %s. Assumes: %s. '
                                      'Trusts the executor (engine/msym.cpp or CBMC), Z3 and the harness oracle; path models are replayed on the native code.' % (sp.outside or 'nothing further', '; '.join(sp.assumptions)))})
    else:
        na.append({'property': i, 'reason': props.NA.get(i, 'no check built yet') if hasattr(props, 'NA') else 'no check built yet'})
m = {'version': 1, 'setup_cmd': 'bash build_msym.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'All checks re-read /repo on every run; see DESIGN.md. Known and fixed findings: known_findings.txt.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for x in props.P:
        f.write(json.dumps(x) + '\n')
print(len(checks), 'checks', len(na), 'not claimed')
