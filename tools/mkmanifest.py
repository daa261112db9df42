#!/usr/bin/env python3
"""Writes MANIFEST.json from registry.py and properties.jsonl."""
import json,os,sys
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0,V)
import registry
props=[json.loads(l) for l in open(V+'/properties.jsonl')]
checks=[]; na=[]
for p in props:
    i=p['id']
    if i in registry.PROPS and (registry.PROPS[i]['proof']):
        P=registry.PROPS[i]
        checks.append(dict(property=i,quick_cmd='python3 vf/run.py %s --tier quick'%i,thorough_cmd='python3 vf/run.py %s --tier thorough'%i,
            evidence_file='evidence/%s.json'%i,technique=P.get('technique') or 'contract-based deductive verification of the real C functions: contracts and loop invariants attached mechanically to the current source, every obligation discharged by CBMC with SAT/SMT back ends, unbounded over inputs',
            level=P['level'],level_note=P.get('note','')))
    else: na.append(dict(property=i,reason=registry.NOT_APPLICABLE.get(i,'no contract built yet')))
M=dict(version=1,setup_cmd='true',hooks=dict(guard='WIZARD_VERIFY',enable='-DWIZARD_VERIFY (no hook is needed: no guarded code exists in /repo)',source_commits=[]),checks=checks,not_applicable=na,
    notes='Every check rebuilds from /repo\'s working tree: vf/instr.py copies the functions under contract verbatim into a scratch directory under /verif/.work, adding only loop cuts and callee stubs.')
json.dump(M,open(V+'/MANIFEST.json','w'),indent=1); open(V+'/MANIFEST.json','a').write('\n')
