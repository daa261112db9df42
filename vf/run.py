#!/usr/bin/env python3
"""Check runner:  run.py <property> [--tier quick|thorough] [--unit U] [--keep] [-v]

For each proof unit of the property: instrument /repo's current source (vf/instr.py), compile it with
goto-cc, discharge every obligation with the unit's back end, and run the reachability (vacuity) check.
For each native unit: compile /repo's current source with gcc and run the same contracts at run time.
"""
import sys,os,json,subprocess,time,shutil,hashlib,re,concurrent.futures as cf,threading,signal,argparse
HERE=os.path.dirname(os.path.abspath(__file__)); V=os.path.dirname(HERE); REPO=os.environ.get('VF_REPO','/repo')
sys.path.insert(0,HERE); sys.path.insert(0,V)
import instr
INC=['-I',V+'/config','-I',V+'/config/config','-I',REPO,'-I',V+'/inc','-I',V+'/spec','-I',V]
DEF=['-DHAVE_CONFIG_H']
VERB=False
def log(*a):
    if VERB: print(*a,flush=True)
class Timeout(Exception): pass
def sh(cmd,timeout,cwd=None,env=None,mem=None):
    """-> (rc, stdout, stderr); kills the whole process group on timeout (rc None)"""
    def pre():
        os.setsid()
        if mem:
            import resource; resource.setrlimit(resource.RLIMIT_AS,(mem,mem))
    p=subprocess.Popen(cmd,stdout=subprocess.PIPE,stderr=subprocess.PIPE,cwd=cwd,env=env,preexec_fn=pre,text=True,errors='replace')
    try:
        o,e=p.communicate(timeout=timeout); return p.returncode,o,e
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid,signal.SIGKILL)
        except ProcessLookupError: pass
        o,e=p.communicate(); return None,o,e
# ---------------------------------------------------------------- goto side
GB={}; GBL=threading.Lock()
def real_gb(work,name):
    """goto object of an unmodified /repo source, compiled once per run"""
    with GBL:
        ev=GB.setdefault(name,[threading.Lock(),None])
    with ev[0]:
        if ev[1] is None:
            out='%s/%s.gb'%(work,name.replace('/','_'))
            src='%s/wizard/%s.c'%(REPO,name)
            rc,o,e=sh(['goto-cc','-c']+INC+DEF+['-D_exit=v_exit',src,'-o',out],120)
            ev[1]=out if rc==0 else ('ERR',e[-2000:])
        if isinstance(ev[1],tuple): raise RuntimeError('goto-cc %s: %s'%(name,ev[1][1]))
        return ev[1]
def struct_header(fn,struct):
    """mechanical copy of a private struct definition out of /repo/wizard/<fn>"""
    s=open('%s/wizard/%s'%(REPO,fn)).read()
    m=re.search(r'^struct _%s\s*\{.*?^\};'%struct,s,re.S|re.M)
    if not m: raise instr.InstrError('struct _%s not in %s'%(struct,fn))
    return m.group()+'\n'
def prepare(u,d):
    """write instrumented sources and generated headers of unit u into d; returns info lines"""
    info=[]; os.makedirs(d+'/wizard',exist_ok=True)
    for fn,edits in u.get('instr',{}).items():
        src=open('%s/%s'%(REPO,fn)).read()
        txt,inf,tags=instr.instrument(src,edits)
        os.makedirs(os.path.dirname(d+'/'+fn),exist_ok=True)
        head='#include "vh.h"\n'+''.join('static int v_visit_%s;\n'%t for t in tags)
        open(d+'/'+fn,'w').write(head+'#line 1 "%s/%s"\n'%(REPO,fn)+txt); info+=['%s: %s'%(fn,x) for x in inf]
    for fn,st in u.get('structs',[]):
        open('%s/private_%s.h'%(d,st),'w').write(struct_header(fn,st))
    return info
def build_goto(u,work,d,extra):
    gbs=[real_gb(work,n) for n in u.get('real',[])]
    out=d+'/u%s.gb'%hashlib.md5(' '.join(extra).encode()).hexdigest()[:6]
    defs=['-D%s=%s'%(k,v) for k,v in u.get('defs',{}).items()]
    envs=[V+'/env/'+e for e in u.get('env',['env.c','envmem.c'])]
    cmd=['goto-cc','-D_exit=v_exit','-DV_PROOF']+extra+defs+['-I',d]+INC+DEF+['--function','harness',V+'/units/'+u['src']]+envs+gbs+['-o',out]
    rc,o,e=sh(cmd,180)
    if rc!=0: raise RuntimeError('goto-cc: '+(o+e)[-3000:])
    return out
def cbmc_cmd(u,gb,trace=False):
    c=['cbmc',gb,'--json-ui','--no-standard-checks','--unwinding-assertions','--unwind',str(u.get('unwind',300)),'--verbosity','4','--drop-unused-functions']
    if trace: c.append('--trace')
    for l,n in u.get('unwindset',{}).items(): c+=['--unwindset','%s:%d'%(l,n)]
    if u.get('fs',True): c+=['--max-field-sensitivity-array-size',str(u.get('fsn',300))]
    c+=u.get('checks',[])
    b=u.get('solver','sat')
    if b=='dd': c+=['--smt2','--z3','--external-smt2-solver',HERE+'/sweepwrap']
    elif b=='z3': c+=['--z3']
    elif b=='cvc5': c+=['--cvc5']
    elif b=='cvc5int': c+=['--cvc5','--external-smt2-solver',HERE+'/cvc5int']
    elif b=='cadical': c+=['--sat-solver','cadical']
    return c+u.get('flags',[])
def run_cbmc(cmd,timeout,xenv={}):
    t=time.time(); env=dict(os.environ,TMPDIR=os.environ.get('VF_TMP','/tmp'),**xenv)
    rc,o,e=sh(cmd,timeout,env=env,mem=14<<30)
    dt=time.time()-t
    if rc is None: return 'timeout',[],dt,''
    try: J=json.loads(o)
    except Exception: return 'error',[],dt,(o+e)[-3000:]
    props=None; msgs=[]
    for x in J:
        if 'result' in x: props=x['result']
        if x.get('messageType') in('ERROR','WARNING'): msgs.append(x.get('messageText',''))
    if props is None: return 'error',[],dt,'\n'.join(msgs)+e[-1500:]
    return 'ok',props,dt,'\n'.join(msgs)
def prove(u,work,seedless=True):
    r=dict(unit=u['id'],kind='proof',status='error',obligations=0,discharged=0,failed=[],secs=0.0,info=[],backend=u.get('solver','sat'))
    d='%s/%s'%(work,u['id']); os.makedirs(d,exist_ok=True)
    try:
        r['info']=prepare(u,d)
        gb=build_goto(u,work,d,[])
    except Exception as ex:
        r['status']='unbound'; r['why']=str(ex)[-1500:]; return r
    cmd=cbmc_cmd(u,gb); r['cmd']=' '.join(cmd)
    st,props,dt,msg=run_cbmc(cmd,u.get('timeout',200),u.get('xenv',{})); r['secs']=round(dt,2)
    if st!='ok': r['status']='undecided'; r['why']='%s %s'%(st,msg[-1500:]); return r
    mine=[p for p in props]
    r['obligations']=len(mine)
    bad=[]; unk=[]
    for p in mine:
        if p['status']=='SUCCESS': r['discharged']+=1
        elif p['status']=='FAILURE':
            de=p.get('description','')
            (unk if 'unwinding assertion' in de or 'recursion' in de or de.startswith('LIMIT ') else bad).append(p)
        else: unk.append(p)
    nb=[p for p in bad if '.no-body.' in p['property']]
    if nb: r['status']='undecided'; r['why']='calls a function outside the contracts: '+'; '.join(p['property'] for p in nb)[:400]; return r
    lim=[p for p in mine if p['status']=='FAILURE' and p.get('description','').startswith('LIMIT ')]
    if lim: r['status']='undecided'; r['why']='outside the reach of the encoding: '+'; '.join(p['description'] for p in lim)[:400]; return r
    r['names']=[p['property']+': '+p.get('description','') for p in mine]
    if bad:
        r['status']='failed'; r['failed']=[dict(obligation=p['property'],what=p.get('description',''),where=p.get('sourceLocation',{})) for p in bad]
        r['gb']=gb; return r
    if unk or not mine:
        r['status']='undecided'; r['why']='; '.join(p['property']+' '+p.get('description','')+' '+p['status'] for p in unk)[:600] or 'no obligations'; return r
    if len([p for p in mine if 'unwinding' not in p.get('description','')])==0:
        r['status']='undecided'; r['why']='no obligations generated'; return r
    r['status']='proved'
    # vacuity
    if u.get('vacuity',True):
        try:
            gb2=build_goto(u,work,d,['-DV_VACUITY']+['-D%s=%s'%kv for kv in u.get('vac_defs',{}).items()])
            u2=dict(u); u2['checks']=[]; u2['flags']=u2.get('flags',[])+['--slice-formula']; u2['solver']='sat' if u.get('solver')=='dd' else u.get('solver','sat'); c2=[x for x in cbmc_cmd(u2,gb2) if x!='--unwinding-assertions']
            st,props,dt,msg=run_cbmc(c2,u.get('timeout',200)); r['vac_secs']=round(dt,2)
            reach=[p for p in props if p.get('description','').startswith('REACH')]
            r['reach']={p['description']:p['status'] for p in reach}
            if st!='ok' or not reach or any(p['status']!='FAILURE' for p in reach):
                r['status']='undecided'; r['why']='vacuity check: %s %s %s'%(st,r['reach'],msg[-300:])
        except Exception as ex:
            r['status']='undecided'; r['why']='vacuity build: '+str(ex)[-500:]
    return r
# ---------------------------------------------------------------- native side
NLIB={}; NLL=threading.Lock()
def native_objs(work,san):
    """compile every /repo/wizard/*.c once per run; -> dict name -> object"""
    with NLL:
        if san in NLIB: return NLIB[san]
        od='%s/native%s'%(work,'-asan' if san else ''); os.makedirs(od,exist_ok=True)
        names=sorted(f[:-2] for f in os.listdir(REPO+'/wizard') if f.endswith('.c') and f not in('nt-base.c',))
        fl=['-O1','-g','-w','-pthread']+(['-fsanitize=address','-fno-omit-frame-pointer'] if san else [])
        def one(n):
            rc,o,e=sh(['gcc','-c']+fl+INC+DEF+['%s/wizard/%s.c'%(REPO,n),'-o','%s/%s.o'%(od,n)],200)
            return n,rc,e
        R={}
        with cf.ThreadPoolExecutor(8) as ex:
            for n,rc,e in ex.map(one,names):
                if rc==0: R[n]='%s/%s.o'%(od,n)
                else: raise RuntimeError('gcc %s: %s'%(n,e[-1500:]))
        NLIB[san]=R
        return R
def native_build(u,work,r):
    """-> (exe, home, env) or None with r['why'] set"""
    d='%s/%s'%(work,u['id']); os.makedirs(d,exist_ok=True)
    san=u.get('asan',True)
    try:
        r['info']=prepare(dict(structs=u.get('structs',[])),d)
        objs=native_objs(work,san)
        skip=set(u.get('included',[]))
        exe=d+'/native'
        fl=['-O1','-g','-w','-pthread','-DV_NATIVE']+(['-fsanitize=address','-fno-omit-frame-pointer'] if san else [])
        defs=['-D%s=%s'%(k,v) for k,v in u.get('defs',{}).items()]
        cmd=['gcc']+fl+defs+['-I',d]+INC+DEF+[V+'/units/'+u['src'],HERE+'/native.c']+u.get('extra',[])+[o for n,o in objs.items() if n not in skip]+['-o',exe,'-lbz2','-llzma','-lz','-lm','-lpthread']+u.get('ldflags',[])
        rc,o,e=sh(cmd,200)
        if rc!=0: r['why']=e[-2000:]; return None
    except Exception as ex:
        r['why']=str(ex)[-2000:]; return None
    home=d+'/home'; os.makedirs(home,exist_ok=True)
    env=dict(os.environ,HOME=home,ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:max_allocation_size_mb=4096',VF_SCRATCH=home,TMPDIR=home)
    return exe,home,env
def one(u,work,sd):
    r={}; b=native_build(u,work,r)
    if not b: return 2,'','',r['why']
    rc,o,e=sh([b[0],'one',str(sd)],120,cwd=b[1],env=b[2])
    return (1 if rc is None else rc),o,e,'' if rc is not None else 'does not terminate (120 s)'
def native(u,work,seed,secs):
    r=dict(unit=u['id'],kind='native',status='error',cases=0,accepted=0)
    b=native_build(u,work,r)
    if not b: r['status']='unbound'; return r
    exe,home,env=b; d=os.path.dirname(exe)
    t=time.time(); stf=d+'/state'
    cases=str(u.get('cases',10**12))
    rc,o,e=sh([exe,'fuzz',str(seed),str(secs),stf,cases],secs*3+60,cwd=home,env=env)
    r['secs']=round(time.time()-t,2)
    try:
        import struct; b=open(stf,'rb').read(); sd,r['cases'],r['accepted']=struct.unpack('<QQQ',b[:24])
    except Exception: sd=0
    if rc==0 and 'DONE' in o: r['status']='clean'; return r
    if rc is None:
        # hang: confirm on the single case
        rc1,o1,e1=sh([exe,'one',str(sd)],60,cwd=home,env=env)
        if rc1 is None: r['status']='violation'; r['seed']=sd; r['why']='does not terminate on this case (60 s)'; r['out']=''
        else: r['status']='undecided'; r['why']='native run too slow'
        return r
    rc1,o1,e1=sh([exe,'one',str(sd)],120,cwd=home,env=env)
    r['out']=(o1+e1)[:6000]
    if rc1==0 and 'FAIL' not in o1:
        # state carried between cases: replay as the original campaign
        r['status']='violation'; r['why']='fails in campaign seed=%d case seed=%d: %s'%(seed,sd,(o+e)[:3000]); r['campaign']=True
    else: r['status']='violation'; r['why']=(o1+e1)[:1500]
    r['seed']=sd; r['cmd']='%s'%exe
    return r
# ---------------------------------------------------------------- main
def main():
    global VERB
    ap=argparse.ArgumentParser(); ap.add_argument('prop'); ap.add_argument('--tier',default=os.environ.get('VERIF_TIER','quick')); ap.add_argument('--unit'); ap.add_argument('--keep',action='store_true'); ap.add_argument('-v',action='store_true'); ap.add_argument('--no-native',action='store_true'); ap.add_argument('-j',type=int,default=8)
    A=ap.parse_args(); VERB=A.v; tier='thorough' if A.tier=='thorough' else 'quick'
    seed=int(os.environ.get('VERIF_SEED','1') or 1)
    import registry
    P=registry.PROPS[A.prop]
    t0=time.time()
    work='%s/.work/%s-%d'%(V,A.prop,os.getpid()); os.makedirs(work,exist_ok=True)
    os.environ['VF_TMP']=work
    ev=V+'/evidence'; os.makedirs(ev+'/replay',exist_ok=True)
    PU=[u for u in P['proof'] if not A.unit or re.search(A.unit,u['id'])]
    NU=[u for u in P['native'] if not A.unit or re.search(A.unit,u['id'])]
    if A.no_native: NU=[]
    PU=[u for u in PU if tier=='thorough' or not u.get('thorough_only')]
    R=[]; N=[]
    try:
        with cf.ThreadPoolExecutor(A.j) as ex:
            secs=(lambda u:u.get('secs',8)*(6 if tier=='thorough' else 1))
            fs={ex.submit(native,u,work,seed,secs(u)):u for u in NU}
            fs.update({ex.submit(prove,u,work):u for u in sorted(PU,key=lambda u:-u.get('cost',1))})
            for f in cf.as_completed(fs):
                try: x=f.result()
                except Exception as e2: x=dict(unit=fs[f]['id'],kind='proof' if fs[f] in PU else 'native',status='undecided',why=repr(e2),obligations=0,discharged=0,secs=0)
                (R if x['kind']=='proof' else N).append(x)
                log('%-28s %-8s %-10s obl=%s/%s cases=%s %ss %s'%(x['unit'],x['kind'],x['status'],x.get('discharged',''),x.get('obligations',''),x.get('cases',''),x.get('secs'),(x.get('why','') or json.dumps(x.get('failed',''))) if x['status'] not in('proved','clean') else ''))
        known=json.load(open(V+'/known_findings.json')) if os.path.exists(V+'/known_findings.json') else {'known':[]}
        viol=[]
        for x in N:
            if x['status']=='violation':
                rp='%s/replay/%s-%s.txt'%(ev,A.prop,x['unit'])
                u=[u for u in NU if u['id']==x['unit']][0]
                open(rp,'w').write('property %s\nunit %s (runtime contract check on the real code)\ncase seed %s\nre-run: cd /verif && python3 vf/replay.py %s %s %s\n\n%s\n%s\n'%(A.prop,x['unit'],x.get('seed'),A.prop,x['unit'],x.get('seed'),x.get('why',''),x.get('out','')))
                viol.append((x['unit'],rp,True,(x.get('why') or '').split('\n')[0]))
        failed=[x for x in R if x['status']=='failed']
        if failed and not viol and P['native'] and not A.no_native: # look longer for a failing input
            with cf.ThreadPoolExecutor(8) as ex:
                jobs=[(u,k) for u in P['native'] for k in range(max(1,8//len(P['native'])))]
                def more(jk):
                    u,k=jk; x=native(dict(u,id='%s-x%d'%(u['id'],k)),work,seed+1000+k,u.get('secs',8)*4); x['unit']=u['id']; return x
                done=set()
                for x in ex.map(more,jobs):
                    if x['status']=='violation' and x['unit'] not in done:
                        done.add(x['unit']); N.append(x); NU=NU if any(u['id']==x['unit'] for u in NU) else NU+[u for u in P['native'] if u['id']==x['unit']]
                        rp='%s/replay/%s-%s.txt'%(ev,A.prop,x['unit'])
                        open(rp,'w').write('property %s\nunit %s (runtime contract check on the real code)\ncase seed %s\nre-run: cd /verif && python3 vf/replay.py %s %s %s\n\n%s\n%s\n'%(A.prop,x['unit'],x.get('seed'),A.prop,x['unit'],x.get('seed'),x.get('why',''),x.get('out','')))
                        viol.append((x['unit'],rp,True,(x.get('why') or '').split('\n')[0]))
        for x in failed:
            u=[u for u in PU if u['id']==x['unit']][0]
            rp='%s/replay/%s-%s.txt'%(ev,A.prop,x['unit'])
            txt='property %s\nunit %s: obligation(s) not discharged\n'%(A.prop,x['unit'])
            for b in x['failed']: txt+='  %s  %s  (%s:%s %s)\n'%(b['obligation'],b['what'],b['where'].get('file'),b['where'].get('line'),b['where'].get('function'))
            txt+='command: %s\n'%x['cmd']
            # verifier counterexample
            rc,o,e=sh([c for c in cbmc_cmd(u,x['gb'],trace=True) if c!='--json-ui']+['--trace','--stop-on-fail'],u.get('timeout',200))
            txt+='verifier output:\n'+(o or '')[-60000:]
            open(rp,'w').write(txt)
            viol.append((x['unit'],rp,any(v[2] for v in viol),'; '.join(b['what'] for b in x['failed'])[:200]))
        # report
        for k in known.get('known',[]):
            if k['property']==A.prop: print('KNOWN-FINDING: property=%s %s'%(A.prop,k['what']))
        ob=sum(x.get('obligations',0) for x in R); di=sum(x.get('discharged',0) for x in R)
        fun=sorted(set(sum([u.get('functions',[]) for u in PU],[])))
        assume=sorted(set(sum([u.get('assume',[]) for u in PU],[])+P.get('assume',[])+registry.COMMON_ASSUME))
        undec=[dict(unit=x['unit'],status=x['status'],why=x.get('why','')[:400]) for x in R if x['status'] in('undecided','unbound','error')]
        bounded=[dict(unit=x['unit'],status=x['status'],cases=x.get('cases'),accepted=x.get('accepted'),bound=[u for u in NU if u['id']==x['unit']][0].get('bound',''),why=x.get('why','')[:400]) for x in N]
        level=P['level'] if not A.unit else P['level']
        cov=dict(obligations=ob,discharged=di,
            checker_cmd='python3 vf/run.py %s (goto-cc + cbmc 6.11.0; back ends: %s)'%(A.prop,', '.join(sorted(set({'sat':'built-in SAT (MiniSat)','dd':'z3 via SMT-LIB with word-level sweeping (vf/sweep.py)','cvc5':'cvc5','cvc5int':'cvc5 with bit-vectors as integers','z3':'z3','cadical':'CaDiCaL'}[x['backend']] for x in R if 'backend' in x)))),
            trusted_base=assume,functions_under_contract=fun,
            units=[dict(unit=x['unit'],status=x['status'],obligations=x.get('obligations'),discharged=x.get('discharged'),solver_s=x.get('secs'),backend=x.get('backend'),instrumentation=x.get('info'),reach=x.get('reach')) for x in R],
            solver_s=round(sum(x.get('secs',0) for x in R),2),undecided=undec,bounded_stand_ins=bounded)
        if not PU and not A.unit:
            cov.update(explanation='no proof unit',evaluations=sum(x['cases'] for x in N))
        E=dict(property=A.prop,tier=tier,seed=seed,level=level,coverage=cov,wall_s=round(time.time()-t0,2),assumptions=assume,violations=[dict(unit=v[0],replay=v[1],what=v[3]) for v in viol])
        tmp=ev+'/%s.json.tmp%d'%(A.prop,os.getpid()); json.dump(E,open(tmp,'w'),indent=1); os.replace(tmp,ev+'/%s.json'%A.prop)
        concrete=[v for v in viol if v[2]]
        for v in viol:
            print('VIOLATION property=%s replay=%s%s'%(A.prop,v[1],'' if (concrete and v[2]) else ' no-failing-input-found'))
        for x in undec: print('note: unit %s not decided by the verifier (%s); bounded run-time contract checks stand in'%(x['unit'],x['why'].split('\n')[0][:160]))
        print('%s: %d/%d obligations discharged in %d units, %d undecided, %d native runs, %.1f s'%(A.prop,di,ob,len(R),len(undec),len(N),time.time()-t0))
        return 1 if viol else 0
    finally:
        if not A.keep: shutil.rmtree(work,ignore_errors=True)
if __name__=='__main__': sys.exit(main())
