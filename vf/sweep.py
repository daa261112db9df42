"""Equivalence back end for the word-level conditions CBMC emits (SMT-LIB in, sat/unsat out).

  The conditions are read into a hash-consed graph; every node is evaluated on random input vectors;
  nodes that agree on all vectors are candidates for equality and are merged only after z3 proves the
  equality on their (cut) cones; merged nodes let their users be compared in turn.  A goal that
  collapses to false is unsatisfiable (obligation discharged).  A vector that satisfies all assertions
  is a model and is printed as one.  Anything else is handed to z3 as it stands.

  Every merge is a z3 unsat answer over fresh variables for the cut nodes, so merging is sound; a dropped
  assertion (quantified, unsupported operator) only weakens the assumptions, so unsat answers stay sound,
  and no model is printed in that case.
"""
import sys,re,os,random,time
import numpy as np
sys.setrecursionlimit(1000000)
src=sys.argv[-1]; T0=time.time(); DBG=os.environ.get('SWEEP_DEBUG')
SMALL=int(os.environ.get('SWEEP_SMALL','0'))
BUDGET=float(os.environ.get('SWEEP_BUDGET','150'))
def dbg(*a):
    if DBG: print('[%.1f]'%(time.time()-T0),*a,file=sys.stderr,flush=True)
def fallback():
    z=os.environ.get('VF_Z3','z3-new'); dd=os.path.join(os.path.dirname(os.path.abspath(__file__)),'dd.py')
    os.execvp('python3',['python3',dd,src])
class Unsup(Exception): pass
# ------------------------------------------------------------------ graph
# node: id -> (op, params, kids, width)   width: 0 Bool, >0 bitvector, ('A',iw,ew) array
OP=[];PA=[];KI=[];WI=[]; TAB={}
def mk(op,pa,ki,w):
    k=(op,pa,ki)
    r=TAB.get(k)
    if r is None:
        r=len(OP); TAB[k]=r; OP.append(op); PA.append(pa); KI.append(ki); WI.append(w)
    return r
def const(v,w): return mk('c',(v & ((1<<w)-1) if w else int(bool(v)),w),(),w)
def isc(n): return OP[n]=='c'
def cv(n): return PA[n][0]
def var(name,w): return mk('v',(name,),(),w)
def sgn(v,w): return v-(1<<w) if v>>(w-1) else v
def fold(op,pa,vs,ws,w):
    M=(1<<w)-1 if w else 1
    a=vs[0]; b=vs[1] if len(vs)>1 else None; wa=ws[0]
    if op=='bvadd':
        return sum(vs)&M
    if op=='bvsub': return (a-b)&M
    if op=='bvmul':
        r=1
        for x in vs: r=r*x&M
        return r
    if op=='bvand':
        r=M
        for x in vs: r&=x
        return r
    if op=='bvor':
        r=0
        for x in vs: r|=x
        return r
    if op=='bvxor':
        r=0
        for x in vs: r^=x
        return r
    if op=='bvnot': return a^M
    if op=='bvneg': return (-a)&M
    if op=='bvshl': return (a<<b)&M if b<w else 0
    if op=='bvlshr': return a>>b if b<w else 0
    if op=='bvashr': return (sgn(a,w)>>min(b,w-1))&M
    if op=='bvudiv': return M if b==0 else a//b
    if op=='bvurem': return a if b==0 else a%b
    if op in('bvsdiv','bvsrem'):
        x,y=sgn(a,w),sgn(b,w)
        if y==0: return (1 if x<0 else M) if op=='bvsdiv' else a
        q=abs(x)//abs(y); q=-q if (x<0)!=(y<0) else q
        return (q if op=='bvsdiv' else x-q*y)&M
    if op=='concat':
        r=0
        for x,ww in zip(vs,ws): r=(r<<ww)|x
        return r
    if op=='extract': return (a>>pa[1])&M
    if op=='zero_extend': return a
    if op=='sign_extend': return sgn(a,wa)&M
    if op=='rotate_left': k=pa[0]%w; return ((a<<k)|(a>>(w-k)))&M
    if op=='rotate_right': k=pa[0]%w; return ((a>>k)|(a<<(w-k)))&M
    if op=='ite': return b if a else vs[2]
    if op=='=': return int(a==b)
    if op=='not': return 1-a
    if op=='and': return int(all(vs))
    if op=='or': return int(any(vs))
    if op=='xor': return a^b
    if op=='=>': return int((not a) or b)
    if op=='bvult': return int(a<b)
    if op=='bvule': return int(a<=b)
    if op=='bvugt': return int(a>b)
    if op=='bvuge': return int(a>=b)
    if op=='bvslt': return int(sgn(a,wa)<sgn(b,wa))
    if op=='bvsle': return int(sgn(a,wa)<=sgn(b,wa))
    if op=='bvsgt': return int(sgn(a,wa)>sgn(b,wa))
    if op=='bvsge': return int(sgn(a,wa)>=sgn(b,wa))
    raise Unsup(op)
BOOL={'=','not','and','or','xor','=>','bvult','bvule','bvugt','bvuge','bvslt','bvsle','bvsgt','bvsge','distinct'}
ARRDEF={}  # array var id -> constant value of every element not in ARR
ARR={}  # array var id -> {index: node}  facts
def width(op,pa,ki):
    if op in BOOL: return 0
    if op=='concat': return sum(WI[k] for k in ki)
    if op=='extract': return pa[0]-pa[1]+1
    if op in('zero_extend','sign_extend'): return WI[ki[0]]+pa[0]
    if op=='ite': return WI[ki[1]]
    if op=='select': return WI[ki[0]][2]
    return WI[ki[0]]
def node(op,pa,ki):
    """build with constant folding and unit laws"""
    if op=='distinct': return node('not',(),(node('=',(),ki),))
    if op=='select':
        a,i=ki
        while OP[a]=='store':
            if KI[a][1]==i: return KI[a][2]
            if isc(i) and isc(KI[a][1]): a=KI[a][0]; continue
            break
        if isc(i) and a in ARR and cv(i) in ARR[a]: return ARR[a][cv(i)]
        if a in ARRDEF and not ARR[a]: return ARRDEF[a]
        return mk('select',(),(a,i),WI[a][2])
    if op=='store': return mk('store',(),ki,WI[ki[0]])
    w=width(op,pa,ki)
    if op=='ite':
        c,t,e=ki
        if isc(c): return t if cv(c) else e
        if t==e: return t
        if w==0 and isc(t) and isc(e): return c if cv(t) else node('not',(),(c,))
        return mk(op,pa,ki,w)
    if isinstance(WI[ki[0]],tuple):
        if op=='=' and ki[0]==ki[1]: return const(1,0)
        return mk(op,pa,ki,w)
    if all(isc(k) for k in ki): return const(fold(op,pa,[cv(k) for k in ki],[WI[k] for k in ki],w),w)
    if op=='=':
        if ki[0]==ki[1]: return const(1,0)
        if WI[ki[0]]==0:
            for x,y in((0,1),(1,0)):
                if isc(ki[x]): return ki[y] if cv(ki[x]) else node('not',(),(ki[y],))
        if ki[0]>ki[1]: ki=(ki[1],ki[0])
        return mk(op,pa,ki,0)
    if op in('and','or'):
        z=0 if op=='and' else 1; s=[]
        for k in ki:
            if isc(k):
                if cv(k)==z: return const(z,0)
                continue
            if k not in s: s.append(k)
        if not s: return const(1-z,0)
        if len(s)==1: return s[0]
        for k in s:
            if OP[k]=='not' and KI[k][0] in s: return const(z,0)
        return mk(op,(),tuple(sorted(s)),0)
    if op=='not' and OP[ki[0]]=='not': return KI[ki[0]][0]
    if op=='=>': return node('or',(),(node('not',(),(ki[0],)),ki[1]))
    if op in('bvadd','bvxor','bvor','bvand','bvmul'):
        M=(1<<w)-1; c=None; s=[]
        flat=[]
        for k in ki: flat.append(k)
        for k in flat:
            if isc(k): c=cv(k) if c is None else fold(op,(),[c,cv(k)],[w,w],w)
            else: s.append(k)
        unit={'bvadd':0,'bvxor':0,'bvor':0,'bvand':M,'bvmul':1}[op]
        if op=='bvand' and c==0 or op=='bvmul' and c==0: return const(0,w)
        if op=='bvor' and c==M: return const(M,w)
        if op=='bvxor':
            d={}
            for k in s: d[k]=d.get(k,0)^1
            s=[k for k in s if d.pop(k,0)]
        if op in('bvand','bvor'): s=list(dict.fromkeys(s))
        if c is not None and c!=unit: s.append(const(c,w))
        if not s: return const(unit,w)
        if len(s)==1: return s[0]
        if SMALL and w<=64:
            if op=='bvand' and c is not None and len(s)==2:
                runs=[]; k=0
                while k<w:
                    b=(c>>k)&1; j=k
                    while j<w and (c>>j)&1==b: j+=1
                    runs.append((b,j-1,k)); k=j
                if len(runs)<=5:
                    x=[y for y in s if not isc(y)][0]
                    return node('concat',(),tuple(node('extract',(h,l),(x,)) if b else const(0,h-l+1) for b,h,l in reversed(runs)))
            if op in('bvor','bvxor') and any(OP[k]=='concat' and any(isc(y) for y in KI[k]) for k in s):
                cuts=set()
                for k in s:
                    if OP[k]=='concat':
                        pos=0
                        for y in reversed(KI[k]):
                            if isc(y): cuts.add(pos); cuts.add(pos+WI[y])
                            pos+=WI[y]
                cuts=sorted(cuts|{0,w})
                if len(cuts)>2: return node('concat',(),tuple(node(op,(),tuple(node('extract',(h-1,l),(k,)) for k in s)) for l,h in reversed(list(zip(cuts,cuts[1:])))))
        return mk(op,(),tuple(sorted(s)),w)
    if op in('bvshl','bvlshr') and isc(ki[1]):
        k=cv(ki[1])
        if k==0: return ki[0]
        if k>=w: return const(0,w)
        if op=='bvshl': return node('concat',(),(node('extract',(w-1-k,0),(ki[0],)),const(0,k)))
        return node('concat',(),(const(0,k),node('extract',(w-1,k),(ki[0],))))
    if op=='zero_extend':
        if pa[0]==0: return ki[0]
        return node('concat',(),(const(0,pa[0]),ki[0]))
    if op=='sign_extend' and pa[0]==0: return ki[0]
    if op in('rotate_left','rotate_right'):
        k=pa[0]%w if op=='rotate_left' else (w-pa[0]%w)%w
        if k==0: return ki[0]
        return node('concat',(),(node('extract',(w-1-k,0),(ki[0],)),node('extract',(w-1,w-k),(ki[0],))))
    if op=='extract':
        hi,lo=pa; a=ki[0]
        if lo==0 and hi==WI[a]-1: return a
        if OP[a]=='extract': return node('extract',(hi+PA[a][1],lo+PA[a][1]),KI[a])
        if OP[a]=='concat':
            pos=0; parts=[]
            for k in reversed(KI[a]):
                wk=WI[k]; l=max(lo,pos); h=min(hi,pos+wk-1)
                if l<=h: parts.append(node('extract',(h-pos,l-pos),(k,)))
                pos+=wk
            return parts[0] if len(parts)==1 else node('concat',(),tuple(reversed(parts)))
        if SMALL and WI[a]>8 and OP[a] in('bvxor','bvand','bvor','bvnot'): return node(OP[a],(),tuple(node('extract',pa,(k,)) for k in KI[a]))
        return mk(op,pa,ki,w)
    if op=='concat':
        s=[]
        for k in ki:
            if OP[k]=='concat': s+=KI[k]
            else: s.append(k)
        t=[]
        for k in s:
            if t and isc(k) and isc(t[-1]): p=t.pop(); t.append(const((cv(p)<<WI[k])|cv(k),WI[p]+WI[k])); continue
            if t and OP[k]=='extract' and OP[t[-1]]=='extract' and KI[k]==KI[t[-1]] and PA[t[-1]][1]==PA[k][0]+1:
                p=t.pop(); t.append(node('extract',(PA[p][0],PA[k][1]),KI[k])); continue
            t.append(k)
        if len(t)==1: return t[0]
        return mk(op,(),tuple(t),w)
    if op in('bvor','bvxor','bvadd'): pass
    return mk(op,pa,ki,w)
def bitop_concat(op,ki,w):
    return None
# ------------------------------------------------------------------ parser
TK=re.compile(r'\s+|;[^\n]*\n?|(\|[^|]*\|)|([()])|("(?:[^"]|"")*")|([^\s()|;"]+)')
def sexps(s):
    pos=0; n=len(s); st=[]; cur=None
    while pos<n:
        m=TK.match(s,pos)
        if not m: raise Unsup('lex')
        pos=m.end(); g=m.lastindex
        if g is None: continue
        t=m.group(g)
        if t=='(':
            st.append(cur); cur=[]
        elif t==')':
            e=cur; cur=st.pop()
            if cur is None: yield e
            else: cur.append(e)
        else:
            if cur is None: yield t
            else: cur.append(t)
def sort(e):
    if e=='Bool': return 0
    if isinstance(e,str) and e in STY: return e
    if e[0]=='_' and e[1]=='BitVec': return int(e[2])
    if e[0]=='Array':
        return ('A',sort(e[1]),sort(e[2]))
    raise Unsup('sort '+str(e))
ENV={}; FUN={}
class St:
    __slots__=('n','f')
    def __init__(s,n,f): s.n=n; s.f=f
STY={}  # struct name -> [(selector, sort)]
SEL={}  # selector -> index
MKS={}  # constructor -> struct name
def stvar(name,so):
    return St(so,[stvar(name+'.'+sl,t) if isinstance(t,str) else var(name+'.'+sl,t) for sl,t in STY[so]])
def steq(a,b):
    return node('and',(),tuple(steq(x,y) if isinstance(x,St) else node('=',(),(x,y)) for x,y in zip(a.f,b.f)))
def stite(c,a,b): return St(a.n,[stite(c,x,y) if isinstance(x,St) else node('ite',(),(c,x,y)) for x,y in zip(a.f,b.f)])
def term(e,loc):
    if isinstance(e,str):
        if e in loc: return loc[e]
        if e in ENV: return ENV[e]
        if e=='true': return const(1,0)
        if e=='false': return const(0,0)
        if e.startswith('#x'): return const(int(e[2:],16),4*(len(e)-2))
        if e.startswith('#b'): return const(int(e[2:],2),len(e)-2)
        raise Unsup('sym '+e)
    h=e[0]
    if h=='_':
        if e[1].startswith('bv') and e[1][2:].isdigit(): return const(int(e[1][2:]),int(e[2]))
        raise Unsup(str(e[:3]))
    if h=='let':
        l2=dict(loc)
        for n,x in e[1]: l2[n]=term(x,loc)
        return term(e[2],l2)
    if isinstance(h,list):
        if h[0]=='_':
            return node(h[1],tuple(int(x) for x in h[2:]),tuple(term(x,loc) for x in e[1:]))
        raise Unsup(str(h)[:60])
    if h in FUN:
        ps,b=FUN[h]
        return term(b,dict(zip(ps,[term(x,loc) for x in e[1:]])))
    if h in('forall','exists','lambda'): raise Unsup(h)
    ki=tuple(term(x,loc) for x in e[1:])
    if h in SEL:
        if not isinstance(ki[0],St): raise Unsup('sel')
        return ki[0].f[SEL[h]]
    if h in MKS: return St(MKS[h],list(ki))
    if any(isinstance(k,St) for k in ki):
        if h=='=' and len(ki)==2: return steq(*ki)
        if h=='ite': return stite(*ki)
        raise Unsup('struct op '+h)
    if h in('bvadd','bvmul','bvand','bvor','bvxor','concat','and','or'):
        return node(h,(),ki)
    if h=='=' and len(ki)>2: return node('and',(),tuple(node('=',(),(ki[i],ki[i+1])) for i in range(len(ki)-1)))
    if h in('bvsub','bvnot','bvneg','bvshl','bvlshr','bvashr','bvudiv','bvurem','bvsdiv','bvsrem','ite','=','not','xor','=>','select','store','distinct') or h in BOOL:
        return node(h,(),ki)
    raise Unsup(h)
text=open(src).read()
forms=list(sexps(text)); dbg('parsed',len(forms))
ASSERT=[]; DROPPED=[]; GETS=[]; i=0; DECL=[]
try:
    while i<len(forms):
        f=forms[i]; i+=1
        if not isinstance(f,list): continue
        if f[0]=='declare-datatypes':
            try:
                for (nm,_),cs in zip(f[1],f[2]):
                    c=cs[0]; STY[nm]=[]; MKS[c[0]]=nm
                    for k,fl in enumerate(c[1:]): STY[nm].append((fl[0],sort(fl[1]))); SEL[fl[0]]=k
            except Unsup: STY.pop(nm,None); MKS.pop(c[0],None)
            continue
        if f[0]=='declare-fun':
            if f[2]: raise Unsup('uf')
            n=f[1]
            try: w=sort(f[3])
            except Unsup: ENV.pop(n,None); continue
            nx=forms[i] if i<len(forms) else None
            if isinstance(nx,list) and nx[0]=='assert' and isinstance(nx[1],list) and nx[1][0]=='=' and len(nx[1])==3 and nx[1][1]==n:
                try:
                    d=term(nx[1][2],{}); 
                    ENV[n]=d; i+=1; continue
                except Unsup as ex: pass
            if isinstance(w,str): ENV[n]=stvar(n,w); continue
            v=var(n,w); ENV[n]=v; DECL.append(v)
        elif f[0]=='define-fun':
            try: sort(f[3])
            except Unsup: continue
            if f[2]: FUN[f[1]]=([p[0] for p in f[2]],f[4])
            else:
                if isinstance(f[4],list) and f[4][0]=='=' and f[4][1]==f[4][2]: ENV[f[1]]=const(1,0); continue
                try: ENV[f[1]]=term(f[4],{})
                except Unsup as ex: v=var(f[1],sort(f[3])) if not isinstance(sort(f[3]),str) else stvar(f[1],sort(f[3])); ENV[f[1]]=v; DROPPED.append(str(f)[:200])
        elif f[0]=='assert':
            e=f[1]
            try:
                if isinstance(e,list) and e[0]=='=' and isinstance(e[1],list) and e[1][0]=='select' and isinstance(e[1][1],str):
                    a=term(e[1][1],{}); ix=term(e[1][2],{}); val=term(e[2],{})
                    if OP[a]=='v' and isc(ix):
                        d=ARR.setdefault(a,{})
                        if cv(ix) not in d: d[cv(ix)]=val; continue
                if isinstance(e,list) and e[0]=='forall' and len(e[1])==1 and isinstance(e[2],list) and e[2][0]=='=' and isinstance(e[2][1],list) and e[2][1][0]=='select' and e[2][1][2]==e[1][0][0] and isinstance(e[2][1][1],str):
                    a=term(e[2][1][1],{}); val=term(e[2][2],{})
                    if OP[a]=='v' and isc(val): ARRDEF[a]=val; ARR.setdefault(a,{}); continue
                ASSERT.append(term(e,{}))
            except Unsup as ex:
                DROPPED.append('%s %s'%(ex,str(e)[:150]))
        elif f[0]=='get-value': GETS.append(f[1][0])
except Unsup as ex:
    dbg('unsupported',ex); fallback()
dbg('nodes',len(OP),'asserts',len(ASSERT),'dropped',len(DROPPED),DROPPED[:3])
# equations asserted for variables declared earlier are definitions: substitute them
DEF={}; rest=[]
for a in ASSERT:
    if OP[a]=='and': rest+=list(KI[a])
    else: rest.append(a)
ASSERT=[]
for a in rest:
    d=None
    if OP[a]=='=':
        x,y=KI[a]
        for p,q in((x,y),(y,x)):
            if OP[p]=='v' and p not in DEF and not isinstance(WI[p],tuple): d=(p,q); break
    elif OP[a]=='v': d=(a,const(1,0)) if a not in DEF else None
    elif OP[a]=='not' and OP[KI[a][0]]=='v' and KI[a][0] not in DEF: d=(KI[a][0],const(0,0))
    if d: DEF[d[0]]=d[1]
    ASSERT.append(a)
SUB={}; ACT=set()
def subst(n):
    st=[n]
    while st:
        x=st[-1]
        if x in SUB: st.pop(); continue
        if x in DEF and x not in ACT:
            ACT.add(x); st.append(DEF[x]); continue
        if x in DEF:
            st.pop()
            if DEF[x] in SUB: SUB[x]=SUB[DEF[x]]
            else: SUB[x]=x; CYC.add(x)
            continue
        if OP[x] in('c','v'): SUB[x]=x; st.pop(); continue
        if x in ACT:
            st.pop(); SUB[x]=node(OP[x],PA[x],tuple(SUB.get(k,k) for k in KI[x])); continue
        ACT.add(x); st+=[k for k in KI[x] if k not in SUB and k not in ACT]
    return SUB[n]
CYC=set()
for k in sorted(DEF): subst(k)
if CYC:
    dbg('cyclic definitions'); fallback()
for a,d in ARR.items(): ARR[a]={i:subst(v) for i,v in d.items()}
ASSERT=[subst(a) for a in ASSERT]
def substv(v): return St(v.n,[substv(x) for x in v.f]) if isinstance(v,St) else subst(v)
ENV={k:substv(v) for k,v in ENV.items()}
ASSERT=[a for a in dict.fromkeys(ASSERT) if not(isc(a) and cv(a))]
dbg('after substitution: asserts',len(ASSERT))
if any(isc(a) for a in ASSERT): print('unsat'); sys.exit(0)
# canonical tables: arrays all of whose facts are constants and equal in content share one variable
CAN={}
for a,d in ARR.items():
    if all(isc(v) for v in d.values()):
        key=(WI[a],tuple(sorted((k,cv(v)) for k,v in d.items()))); CAN.setdefault(key,a)
ALIAS={}
for a,d in ARR.items():
    if all(isc(v) for v in d.values()):
        r=CAN[(WI[a],tuple(sorted((k,cv(v)) for k,v in d.items())))]
        if r!=a: ALIAS[a]=r
# ------------------------------------------------------------------ evaluation
NV=32; rng=random.Random(12345)
VAL={}
def rnd(w):
    k=rng.random()
    return rng.getrandbits(max(w,1)) if k<0.9 else (0 if k<0.93 else (1<<max(w,1))-1 if k<0.96 else 1<<rng.randrange(max(w,1)))
def arrval(a,idx,j):
    """value of array node a at index idx for vector j"""
    while OP[a]=='store' or OP[a]=='ite':
        if OP[a]=='store':
            if ev(KI[a][1])[j]==idx: return ev(KI[a][2])[j]
            a=KI[a][0]
        else: a=KI[a][1] if ev(KI[a][0])[j] else KI[a][2]
    d=ARR.get(a)
    if d is not None and idx in d: return ev(d[idx])[j]
    if a in ARRDEF: return cv(ARRDEF[a])
    if OP[a]!='v': raise Unsup('array '+OP[a])
    k=(a,idx,j)
    if k not in AV: AV[k]=rnd(WI[a][2])
    return AV[k]
AV={}
def ev(n):
    r=VAL.get(n)
    if r is not None: return r
    st=[n]
    while st:
        x=st[-1]
        if x in VAL: st.pop(); continue
        ks=[k for k in KI[x] if not isinstance(WI[k],tuple) and k not in VAL]
        if OP[x]=='select':
            ks+=[k for k in arrdeps(KI[x][0]) if k not in VAL]
        if ks: st+=ks; continue
        st.pop()
        VAL[x]=ev1(x)
    return VAL[n]
AD={}
def arrdeps(a):
    if a in AD: return AD[a]
    s=[]; seen=set(); q=[a]
    while q:
        b=q.pop()
        if b in seen: continue
        seen.add(b)
        if OP[b]=='store': s+=[KI[b][1],KI[b][2]]; q.append(KI[b][0])
        elif OP[b]=='ite': s.append(KI[b][0]); q+=[KI[b][1],KI[b][2]]
        elif b in ARR: s+=[v for v in ARR[b].values()]
    AD[a]=s; return s
def ev1(x):
    op=OP[x]; w=WI[x]
    if op=='c': return (PA[x][0],)*NV
    if op=='v': return tuple(rnd(w) & ((1<<w)-1 if w else 1) for _ in range(NV))
    if op=='select':
        ix=VAL[KI[x][1]]; return tuple(arrval(KI[x][0],ix[j],j) for j in range(NV))
    if isinstance(w,tuple) or any(isinstance(WI[k],tuple) for k in KI[x]): raise Unsup('array value')
    vs=[VAL[k] for k in KI[x]]; M=(1<<w)-1 if w else 1
    if op=='bvxor' and len(vs)==2: return tuple(a^b for a,b in zip(*vs))
    if op=='bvand' and len(vs)==2: return tuple(a&b for a,b in zip(*vs))
    if op=='bvor' and len(vs)==2: return tuple(a|b for a,b in zip(*vs))
    if op=='bvadd' and len(vs)==2: return tuple((a+b)&M for a,b in zip(*vs))
    if op=='bvnot': return tuple(a^M for a in vs[0])
    if op=='extract': l=PA[x][1]; return tuple((a>>l)&M for a in vs[0])
    ws=[WI[k] for k in KI[x]]; pa=PA[x]
    return tuple(fold(op,pa,[v[j] for v in vs],ws,w) for j in range(NV))
# models by simulation
def model():
    if DROPPED: return None
    try: vv=[ev(a) for a in ASSERT]
    except Unsup as ex: dbg('eval',ex); return None
    for j in range(NV):
        if all(v[j] for v in vv): return j
    return None
m=model(); dbg('model',m)
if m is not None and all(isc(a) or True for a in ASSERT):
    out=['sat']
    def pr(g):
        n=term(g,{})
        if isinstance(n,St): return '(mk-%s %s)'%(n.n,' '.join(prn(x) for x in n.f))
        return prn(n)
    def prn(n):
        if isinstance(n,St): return '(mk-%s %s)'%(n.n,' '.join(prn(x) for x in n.f))
        if isinstance(WI[n],tuple): return '((as const (Array (_ BitVec %d) (_ BitVec %d))) (_ bv0 %d))'%(WI[n][1],WI[n][2],WI[n][2])
        v=ev(n)[m]
        return ('true' if v else 'false') if WI[n]==0 else '(_ bv%d %d)'%(v,WI[n])
    try:
        for g in GETS: out.append('((%s %s))'%(g,pr(g)))
        print('\n'.join(out)); sys.exit(0)
    except Unsup as ex: dbg('pr',ex); fallback()
# ------------------------------------------------------------------ sweep
import z3
ctx=z3.main_ctx()
ZC={}
def zvar(n): return z3.BitVec('n%d'%n,WI[n]) if WI[n] else z3.Bool('n%d'%n)
def tozv(op,pa,ks,ws,w):
    if op=='bvadd':
        r=ks[0]
        for k in ks[1:]: r=r+k
        return r
    if op=='bvmul':
        r=ks[0]
        for k in ks[1:]: r=r*k
        return r
    if op in('bvand','bvor','bvxor'):
        r=ks[0]
        for k in ks[1:]: r=r&k if op=='bvand' else r|k if op=='bvor' else r^k
        return r
    if op=='bvsub': return ks[0]-ks[1]
    if op=='bvnot': return ~ks[0]
    if op=='bvneg': return -ks[0]
    if op=='bvshl': return ks[0]<<ks[1]
    if op=='bvlshr': return z3.LShR(ks[0],ks[1])
    if op=='bvashr': return ks[0]>>ks[1]
    if op=='bvudiv': return z3.UDiv(ks[0],ks[1])
    if op=='bvurem': return z3.URem(ks[0],ks[1])
    if op=='bvsdiv': return ks[0]/ks[1]
    if op=='bvsrem': return z3.SRem(ks[0],ks[1])
    if op=='concat': return z3.Concat(*ks)
    if op=='extract': return z3.Extract(pa[0],pa[1],ks[0])
    if op=='sign_extend': return z3.SignExt(pa[0],ks[0])
    if op=='ite': return z3.If(*ks)
    if op=='=': return ks[0]==ks[1]
    if op=='not': return z3.Not(ks[0])
    if op=='and': return z3.And(*ks)
    if op=='or': return z3.Or(*ks)
    if op=='xor': return z3.Xor(*ks)
    if op=='bvult': return z3.ULT(*ks)
    if op=='bvule': return z3.ULE(*ks)
    if op=='bvugt': return z3.UGT(*ks)
    if op=='bvuge': return z3.UGE(*ks)
    if op=='bvslt': return ks[0]<ks[1]
    if op=='bvsle': return ks[0]<=ks[1]
    if op=='bvsgt': return ks[0]>ks[1]
    if op=='bvsge': return ks[0]>=ks[1]
    raise Unsup(op)
TABF={}
def ztab(a,ix):
    """select from a constant table as a nested if over the index"""
    d=ARR[a]; n=max(d)+1
    if n>4096 or len(d)!=n: raise Unsup('table')
    w=WI[a][2]; iw=ix.size(); bits=max(1,(n-1).bit_length())
    def rec(lo,b):
        if b<0:
            return z3.BitVecVal(cv(d[lo]) if lo<n else 0,w)
        return z3.If(z3.Extract(b,b,ix)==1,rec(lo+(1<<b),b-1),rec(lo,b-1))
    t=rec(0,bits-1)
    # indices outside the table stay unconstrained
    if iw>bits or n!=(1<<bits): t=z3.If(z3.ULT(ix,z3.BitVecVal(n,iw)),t,z3.FreshConst(z3.BitVecSort(w)))
    return t
def cone(roots,stop,depth):
    """z3 terms of the roots with nodes in stop, or deeper than depth, as fresh variables"""
    lvl={}; q=[(r,0) for r in roots]
    for r in roots: lvl[r]=0
    h=0
    while h<len(q):
        n,d=q[h]; h+=1
        if n in stop and d>0 or d>=depth: continue
        for k in KI[n]:
            if isinstance(WI[k],tuple): continue
            if k not in lvl: lvl[k]=d+1; q.append((k,d+1))
    T={}
    for n,_ in sorted(q):
        d=lvl[n]
        if isc(n): T[n]=z3.BitVecVal(cv(n),WI[n]) if WI[n] else z3.BoolVal(bool(cv(n))); continue
        if OP[n]=='v' or (n in stop and d>0) or d>=depth: T[n]=zvar(n); continue
        if OP[n]=='select':
            a=KI[n][0]
            if a in ARR and all(isc(v) for v in ARR[a].values()) and KI[n][1] in T and n in tabs_open:
                T[n]=ztab(a,T[KI[n][1]])
            else: T[n]=zvar(n)
            continue
        if any(k not in T for k in KI[n]): T[n]=zvar(n); continue
        T[n]=tozv(OP[n],PA[n],[T[k] for k in KI[n]],None,WI[n])
    return [T[r] for r in roots]
tabs_open=set()
def anc(n,depth,limit=400):
    s={n:0}; q=[n]; h=0
    while h<len(q) and len(q)<limit:
        x=q[h]; h+=1
        if s[x]>=depth: continue
        for k in KI[x]:
            if not isinstance(WI[k],tuple) and k not in s: s[k]=s[x]+1; q.append(k)
    return s
STAT=dict(q=0,ok=0,simp=0)
def prove_eq(a,b):
    for depth in (3,6,12,24):
        sa=anc(a,depth); sb=anc(b,depth)
        com={k:min(sa[k],sb[k]) for k in sa if k in sb and k!=a and k!=b and not isc(k)}
        tried=[]
        for opened,mind in ((False,0),(False,2),(False,3),(False,4),(True,0)):
            stop={k for k,d in com.items() if d>=mind}
            if not opened:
                if stop in tried: continue
                tried.append(stop)
            tabs_open.clear()
            if opened:
                sel=[k for k in set(sa)|set(sb) if OP[k]=='select' and k not in stop]
                if not sel or len(sel)>8: continue
                tabs_open.update(sel)
            try: ta,tb=cone([a,b],stop,depth)
            except Unsup: continue
            STAT['q']+=1
            g=z3.simplify(ta==tb)
            if z3.is_true(g): STAT['ok']+=1; STAT['simp']+=1; return True
            s=z3.SolverFor('QF_BV') if False else z3.Solver(); s.set('timeout',1500 if not opened else 4000)
            s.add(z3.Not(g))
            r=s.check()
            if r==z3.unsat: STAT['ok']+=1; return True
        if depth>max(len(sa),len(sb)): break
    STAT['bad']=STAT.get('bad',0)+1
    if DBG and STAT['bad']<12: dbg('not equal?',a,OP[a],PA[a],WI[a],[OP[k] for k in KI[a]],b,OP[b],PA[b],[OP[k] for k in KI[b]],VAL[a][:3])
    return False
# small support: nodes that are functions of at most 8 bits of other nodes are compared by their complete
# value tables (exhaustive evaluation, no sampling)
SUPP={}; TT={}; TTCLS={}
def supp(n):
    """tuple of leaf nodes n is a function of (total width <= 8), or None"""
    r=SUPP.get(n,0)
    if r!=0: return r
    w=WI[n]; op=OP[n]; r=None
    if op=='c': r=()
    elif isinstance(w,tuple): r=None
    elif op!='v' and w<=64:
        u=set(); ok=True
        for k in KI[n]:
            if isinstance(WI[k],tuple):
                if not(op=='select' and k in ARR and k in FULLTAB): ok=False; break
                continue
            x=supp(k)
            if x is None: ok=False; break
            u.update(x)
        if ok and sum(max(1,WI[k]) for k in u)<=8: r=tuple(sorted(u))
    if r is None and not isinstance(w,tuple) and w<=8: r=(n,)
    SUPP[n]=r; return r
FULLTAB={}
def table(n):
    """values of n over all assignments of its support"""
    t=TT.get(n)
    if t is not None: return t
    s=SUPP[n]; N=1<<sum(max(1,WI[k]) for k in s); pos=0; base={}
    for k in s:
        w=max(1,WI[k]); base[k]=(np.arange(N,dtype=np.uint64)>>np.uint64(pos))&np.uint64((1<<w)-1); pos+=w
    memo=dict(base)
    def go(x):
        if x in memo: return memo[x]
        op=OP[x]; w=WI[x]; u=np.uint64
        if op=='c': r=np.full(N,cv(x),dtype=u)
        elif op=='select':
            i=go(KI[x][1]); T=FULLTAB[KI[x][0]]; 
            if int(i.max())>=len(T): raise Unsup('range')
            r=T[i.astype(np.int64)]
        else:
            v=[go(k) for k in KI[x]]; M=u((1<<w)-1 if w else 1)
            if op=='bvxor' or op=='xor':
                r=v[0]
                for y in v[1:]: r=r^y
            elif op in('bvand','and'):
                r=v[0]
                for y in v[1:]: r=r&y
            elif op in('bvor','or'):
                r=v[0]
                for y in v[1:]: r=r|y
            elif op=='bvadd':
                r=v[0]
                for y in v[1:]: r=(r+y)&M
            elif op in('bvnot','not'): r=v[0]^M
            elif op=='extract': r=(v[0]>>u(PA[x][1]))&M
            elif op=='concat':
                r=np.zeros(N,dtype=u)
                for k,y in zip(KI[x],v): r=(r<<u(WI[k]))|y if WI[k]<64 else y
            elif op=='ite': r=np.where(v[0]!=0,v[1],v[2])
            elif op=='=': r=(v[0]==v[1]).astype(u)
            else:
                ws=[WI[k] for k in KI[x]]; r=np.array([fold(op,PA[x],[int(y[j]) for y in v],ws,w) for j in range(N)],dtype=u)
        memo[x]=r; return r
    t=go(n); TT[n]=t; return t
def small(n):
    """representative with the same complete value table, or None"""
    s=supp(n)
    if s is None or s==(n,): return None
    try: t=table(n)
    except Unsup: return None
    if not s or (t==t[0]).all(): return const(int(t[0]),WI[n])
    if len(s)==1 and WI[s[0]]==WI[n] and WI[n] and (t==np.arange(len(t),dtype=np.uint64)).all(): return s[0]
    k=(s,WI[n],t.tobytes()); r=TTCLS.setdefault(k,n)
    return r if r!=n else None
REP={}; CLS={}
def sweep():
    for a,d in ARR.items():
        if d and all(isc(v) for v in d.values()) and len(d)==max(d)+1 and not isinstance(WI[a][2],str) and WI[a][2] and WI[a][2]<=64 and len(d)<=4096:
            FULLTAB[a]=np.array([cv(d[i]) for i in range(len(d))],dtype=np.uint64)
    order=sorted(needed())
    for n in order:
        if time.time()-T0>BUDGET: dbg('budget'); return False
        if isinstance(WI[n],tuple):
            REP[n]=ALIAS.get(n,n) if OP[n]=='v' else (n if OP[n]=='v' else node_arr(n)); continue
        if OP[n] in('c','v'): r=n
        else:
            r=node(OP[n],PA[n],tuple(REP[k] for k in KI[n]))
            if r in REP: r=REP[r]
        if SMALL and OP[r] not in('c','v'):
            q=small(r)
            if q is not None: STAT['tt']=STAT.get('tt',0)+1; REP[r]=q; r=q; SUPP.setdefault(q,() if isc(q) else None)
        elif SMALL: supp(r)
        if OP[r]!='c' and not isinstance(WI[r],tuple) and WI[r]!=0:
            try: sig=(WI[r],ev(r))
            except Unsup: REP[n]=r; REP[r]=r; continue
            v=sig[1]
            if all(x==v[0] for x in v) and OP[r]!='v':
                c=const(v[0],WI[r])
                L=[c]+CLS.get(sig,[])
            else: L=CLS.get(sig,[])
            done=False
            if r not in L:
                for c in L[:4]:
                    if c==r: done=True; break
                    if SMALL and r in TT and c in TT and SUPP[r]==SUPP[c]: continue  # complete tables differ
                    if prove_eq(r,c): REP[r]=c; r=c; done=True; break
                if not done: CLS.setdefault(sig,[]).append(r)
        REP[n]=r; REP.setdefault(r,r)
    return True
def node_arr(n):
    if OP[n]=='store': return node('store',(),tuple(REP[k] for k in KI[n]))
    return n
def needed():
    s=set(); q=list(ASSERT)
    while q:
        n=q.pop()
        if n in s: continue
        s.add(n); q+=KI[n]
        if n in ARR and any(not isc(v) for v in ARR[n].values()): q+=list(ARR[n].values())
    return s
try: ok=sweep()
except Unsup as ex: dbg('sweep',ex); fallback()
R=[REP.get(a,a) for a in ASSERT]
dbg('swept',STAT,'nodes',len(OP),[ (OP[r],PA[r][:1]) for r in R][:8])
if any(isc(r) and not cv(r) for r in R): print('unsat'); sys.exit(0)
# residual: all merged assertions together
try:
    s=z3.Solver(); s.set('timeout',int(float(os.environ.get('SWEEP_RESIDUAL','60'))*1000)); tabs_open.clear()
    need=set(); q=list(R)
    while q:
        n=q.pop()
        if n in need: continue
        need.add(n); q+=[k for k in KI[n] if not isinstance(WI[k],tuple)]
    if len(need)<200000:
        tabs_open.update(k for k in need if OP[k]=='select')
        if len(tabs_open)>64: tabs_open.clear()
        for t in cone([r for r in R if not isc(r)],set(),10**9): s.add(t)
        r=s.check(); dbg('residual',r)
        if r==z3.unsat: print('unsat'); sys.exit(0)
except Unsup as ex: dbg(ex)
fallback()
