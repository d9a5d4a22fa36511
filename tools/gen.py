#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from tools/props.py and jobs.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path[:0] = [V, V + '/tools']
import jobs, props
NA = json.load(open(V + '/tools/not_applicable.json'))
with open(V + '/properties.jsonl', 'w') as f:
    for p in props.P: f.write(json.dumps(p) + '\n')
ids = [p['id'] for p in props.P]; checks = []
for i in ids:
    if i not in jobs.PROPS or i in NA: continue
    P = jobs.PROPS[i]
    checks.append(dict(property=i, quick_cmd='python3 run.py %s --tier quick' % i, thorough_cmd='python3 run.py %s --tier thorough' % i, evidence_file='evidence/%s.json' % i,
        technique='symbolic execution of the compiled source (LLVM IR), z3 decides every assertion', level='model_checking',
        level_note='Decided for all values within: ' + P['bounds'] + '. Assumes: ' + '; '.join(jobs.COMMON_ASSUMPTIONS + P['assumptions']) + '. Trusts clang, the IR executor in /verif/engine (cross-checked against native runs of sampled paths) and z3.'))
m = dict(version=1, setup_cmd='bash engine/build.sh build', checks=checks, not_applicable=[dict(property=i, reason=NA[i]) for i in ids if i in NA],
    notes='Undecided queries are listed in the evidence of each run and are not counted as decided; counterexamples are replayed on a native sanitizer build before they are reported.')
for i in ids: assert i in NA or i in jobs.PROPS, i
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1); print(len(checks), 'checks;', len(m['not_applicable']), 'not applicable')
