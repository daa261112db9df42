#!/usr/bin/env python3
"""Fills DESIGN.md from DESIGN.in.md, registry.py, known_findings.json and seeded/."""
import json,os,sys
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0,V)
import registry
props=[json.loads(l) for l in open(V+'/properties.jsonl')]
t=open(V+'/DESIGN.in.md').read(); o=''
for p in props:
    i=p['id']; o+='### %s %s\n\n'%(i,p['title'])
    P=registry.PROPS.get(i)
    if P and P['proof']:
        o+=(P.get('design','') or '')+'\n\n'
        o+='Proof units: '+', '.join('`%s`%s'%(u['id'],' (thorough)' if u.get('thorough_only') else '') for u in P['proof'])+'.\n'
        f=sorted(set(sum([u.get('functions',[]) for u in P['proof']],[]))); o+='Functions under contract: '+', '.join(f)+'.\n'
        a=sorted(set(sum([u.get('assume',[]) for u in P['proof']],[])+P.get('assume',[])))
        if a: o+='Assumed: '+'; '.join(a)+'.\n'
        if P['native']: o+='Bounded stand-ins / failing-input search: '+', '.join('`%s` (%s)'%(u['id'],u.get('bound','')) for u in P['native'])+'.\n'
    else: o+='Not claimed: '+registry.NOT_APPLICABLE.get(i,'no contract built yet')+'\n'
    o+='\n'
K=json.load(open(V+'/known_findings.json'))
fx='\n'.join('* '+x for x in K['fixed'])+'\n'
if K['known']: fx+='\nRecorded, not repaired:\n\n'+'\n'.join('* %s: %s'%(k['property'],k['what']+(' — '+k['why'] if k.get('why') else '')) for k in K['known'])+'\n'
S='| id | property | needs | caught by |\n|---|---|---|---|\n'
R=json.load(open(V+'/tools/seed_results.json')) if os.path.exists(V+'/tools/seed_results.json') else {}
for d,q in sorted((d,q) for q in ('seeded','seeded-more') if os.path.isdir(V+'/'+q) for d in os.listdir(V+'/'+q)):
    m=json.load(open('%s/%s/%s/meta.json'%(V,q,d))); S+='| %s/%s | %s | %s | %s |\n'%(q,d,m['property'],m['needs'],R.get(d,''))
open(V+'/DESIGN.md','w').write(t.replace('@@PROPS@@',o.rstrip()).replace('@@FIXES@@',fx.rstrip()).replace('@@SEEDS@@',S.rstrip()))
