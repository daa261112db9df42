"""Mechanical instrumentation of a C source for the verifier.

Nothing is dropped from the code.  Two edits exist:
  cut(func,n,tag)     the condition C of the n-th loop of func becomes (VLOOP(tag,(havocs)) && (C)),
                      where havocs covers every local or parameter the loop may assign (computed here);
  stub(func)          the body of func is renamed func__body, so that a unit can put func's contract
                      in its place (the body itself is checked against that contract by another unit).
"""
import re
KW={'return','goto','break','continue','if','for','while','do','switch','case','default','else','sizeof','typedef'}
TYPEQ={'const','volatile','register','static','unsigned','signed','struct','union','enum','extern','inline','long','short','int','char','float','double','void'}
TOK=re.compile(r'''(?P<ws>\s+)|(?P<com>/\*.*?\*/|//[^\n]*)|(?P<pp>^[ \t]*\#(?:[^\n]*\\\n)*[^\n]*)|(?P<str>"(?:\\.|[^"\\])*"|'(?:\\.|[^'\\])*')|(?P<id>[A-Za-z_]\w*)|(?P<num>\.?\d(?:[eEpP][+-]|[\w.])*)|(?P<op>->|\+\+|--|<<=|>>=|<<|>>|<=|>=|==|!=|&&|\|\||[-+*/%&|^]=|\.\.\.|.)''',re.S|re.M)
class InstrError(Exception): pass
class Tk:
    __slots__=('k','t','a','b')
    def __init__(s,k,t,a,b): s.k=k; s.t=t; s.a=a; s.b=b
def tokenize(src):
    out=[]; pos=0
    while pos<len(src):
        m=TOK.match(src,pos)
        if not m: raise InstrError('tokenize')
        if m.lastgroup not in ('ws','com','pp'): out.append(Tk(m.lastgroup,m.group(),m.start(),m.end()))
        pos=m.end()
    return out
def match(T,i):
    o=T[i].t; c={'(':')','{':'}','[':']'}[o]; d=0
    while i<len(T):
        if T[i].t==o: d+=1
        elif T[i].t==c:
            d-=1
            if d==0: return i
        i+=1
    raise InstrError('unbalanced '+o)
def find_func(T,name):
    """-> (index of name, open paren, close paren, open brace, close brace)"""
    d=0; i=0; hits=[]
    while i<len(T):
        t=T[i].t
        if t=='{':
            j=match(T,i); i=j+1; continue
        if T[i].k=='id' and t==name and i+1<len(T) and T[i+1].t=='(':
            c=match(T,i+1)
            if c+1<len(T) and T[c+1].t=='{': hits.append((i,i+1,c,c+1,match(T,c+1)))
        i+=1
    if len(hits)!=1: raise InstrError('function %s: %d definitions'%(name,len(hits)))
    return hits[0]
def stmt_end(T,i):
    """index of the last token of the statement starting at i"""
    t=T[i].t
    if t=='{': return match(T,i)
    if t in('if','while','for','switch'):
        j=match(T,i+1); e=stmt_end(T,j+1)
        if t=='if' and e+1<len(T) and T[e+1].t=='else': return stmt_end(T,e+2)
        return e
    if t=='do':
        e=stmt_end(T,i+1); j=e+1
        while T[j].t!=';': j+=1
        return j
    if t=='else': return stmt_end(T,i+1)
    j=i
    while T[j].t!=';':
        if T[j].t in '({[' and T[j].k=='op': j=match(T,j)
        j+=1
    return j
def loops(T,ob,cb):
    """loops of a body in textual order: dicts with kind, header and body token ranges"""
    R=[]; dw=set()
    for i in range(ob,cb):
        if T[i].k!='id' or i in dw: continue
        if T[i].t=='do':
            e=stmt_end(T,i+1); w=e+1; dw.add(w); R.append(dict(kind='do',i=i,body=(i+1,e),hdr=(w+1,match(T,w+1)),end=match(T,w+1)))
        elif T[i].t in('for','while'):
            c=match(T,i+1); e=stmt_end(T,c+1); R.append(dict(kind=T[i].t,i=i,hdr=(i+1,c),body=(c+1,e),end=e))
    return R
def decl_names(T,i):
    """if a declaration starts at token i return (names, arrays, end index) else None"""
    j=i; ids=0
    if T[j].k!='id' or T[j].t in KW: return None
    while T[j].k=='id' and (T[j].t in TYPEQ or ids==0 or True):
        if T[j].t in KW: return None
        if T[j+1].k=='id' or T[j+1].t=='*':
            ids+=1; j+=1
            if T[j].t=='*':
                while T[j].t=='*' or T[j].t=='const': j+=1
                break
            continue
        break
    if ids==0 or T[j].k!='id' or T[j].t in KW: return None
    names=[]; arrays=set()
    while True:
        while T[j].t in('*','const'): j+=1
        if T[j].k!='id': return None
        n=T[j].t; j+=1
        if T[j].t not in ('=',',',';','['): return None
        names.append(n)
        while T[j].t=='[': arrays.add(n); j=match(T,j)+1
        if T[j].t=='=':
            j+=1
            while T[j].t not in(',',';'):
                if T[j].t in('(','{','['): j=match(T,j)
                j+=1
        if T[j].t==',': j+=1; continue
        if T[j].t==';': return names,arrays,j
        return None
def scope_at(T,f,pos):
    """locals and parameters in scope at token index pos: name -> is_array"""
    ni,po,pc,ob,cb=f; S={}
    j=po+1; last=None; arr=False
    for k in range(po+1,pc+1):
        if T[k].t==',' or k==pc:
            if last and last!='void': S[last]=arr and False
            last=None
        elif T[k].k=='id' and T[k].t not in TYPEQ: last=T[k].t
    stack=[[]]; i=ob; starts=True
    while i<pos:
        t=T[i].t
        if t=='{': stack.append([]); i+=1; starts=True; continue
        if t=='}':
            for n in stack.pop(): S.pop(n,None)
            i+=1; starts=True; continue
        if t==';': i+=1; starts=True; continue
        if t=='for' and T[i+1].t=='(':
            d=decl_names(T,i+2)
            if d and d[2]<pos:
                for n in d[0]: S[n]=n in d[1]
                i=d[2]; continue
        if starts:
            d=decl_names(T,i)
            if d and d[2]<pos:
                for n in d[0]: S[n]=n in d[1]; stack[-1].append(n)
                i=d[2]; continue
        starts=False; i+=1
    return S
def pointers(T,f,S):
    """names of S declared as pointers (everywhere they are declared in the function)"""
    yes=set(); no=set()
    for i in range(f[1],f[4]):
        if T[i].k=='id' and T[i].t in S and T[i+1].t in(',',';','=',')','['):
            j=i-1
            while T[j].t=='const': j-=1
            if T[j].t=='*':
                # a declarator: the stars are preceded by a type name or a comma of a declaration
                while T[j].t in('*','const'): j-=1
                if T[j].k=='id' or T[j].t==',': yes.add(T[i].t)
            elif T[j].k=='id' and T[j].t not in KW and T[j].t!='return': no.add(T[i].t)
    return {n for n in yes-no if not S[n]}
ASSIGN={'=','+=','-=','*=','/=','%=','&=','|=','^=','<<=','>>='}
def assigned(T,a,b,S,P=()):
    """names in S that tokens a..b may assign"""
    R=set()
    for i in range(a,b+1):
        if T[i].k!='id' or T[i].t not in S: continue
        if T[i-1].t in('.','->'): continue
        n=T[i].t
        if S[n] and T[i+1].t!='[': R.add(n); continue           # array whose address is taken
        if T[i+1].t=='->': continue          # member of the object pointed to (heap: VHEAP)
        if T[i-1].t in('++','--','&'): R.add(n); continue
        j=i+1
        if n in P and T[j].t=='[': continue   # element of the object pointed to (heap: VHEAP)
        while T[j].t in('.','['):
            j = match(T,j)+1 if T[j].t=='[' else j+2
        if T[j].t in ASSIGN or T[j].t in('++','--'): R.add(n)
    return R
def instrument(src,edits):
    """edits: list of ('cut',func,n,tag) / ('stub',func).  Returns (text, info)"""
    T=tokenize(src); ins=[]; info=[]
    for e in edits:
        if e[0]=='stub':
            f=find_func(T,e[1]); k=T[f[0]]; ins.append((k.a,k.b,e[1]+'__body'))
            # prototype of the contract's stand-in, in front of the renamed definition
            j=f[0]-1
            while j>=0 and T[j].t not in(';','}'): j-=1
            ins.append((T[j+1].a,T[j+1].a,src[T[j+1].a:T[f[2]].b].replace('\n',' ')+'; '))
            info.append('stub %s'%e[1]); continue
        _,func,n,tag=e
        f=find_func(T,func); R=loops(T,f[3],f[4])
        if isinstance(n,str):
            R=[l for l in R if re.search(n,src[T[l['i']].a:T[l['end']].b])]
            if not R: raise InstrError('%s: no loop matching %s'%(func,n))
            l=min(R,key=lambda l:T[l['end']].b-T[l['i']].a) # innermost match
        else:
            if n>=len(R): raise InstrError('%s: no loop %d'%(func,n))
            l=R[n]
        if l['kind']=='do':
            # the loop head of do-while is the start of its body
            if T[l['body'][0]].t!='{': raise InstrError('%s: loop %s has no block'%(func,n))
            S=scope_at(T,f,l['i']); A=assigned(T,l['i'],l['end'],S,pointers(T,f,S))
            p=T[l['body'][0]].b; ins.append((p,p,' (void) VLOOP(%s,(%s));'%(tag,','.join('VHAVOC(%s)'%x for x in sorted(A)) or '(void) 0')))
            info.append('cut %s loop %s: havoc %s'%(func,n,sorted(A))); continue
        h0,h1=l['hdr']
        if l['kind']=='while': ca,cb=T[h0].b,T[h1].a; condtok=(h0+1,h1-1)
        else:
            semi=[]; j=h0+1
            while j<h1:
                if T[j].t in('(','[','{'): j=match(T,j)
                elif T[j].t==';': semi.append(j)
                j+=1
            if len(semi)!=2: raise InstrError('for header')
            ca,cb=T[semi[0]].b,T[semi[1]].a; condtok=(semi[0]+1,semi[1]-1)
        S=scope_at(T,f,condtok[0])
        P=pointers(T,f,S)
        A=assigned(T,condtok[0],l['end'],S,P)
        hv=','.join('VHAVOC(%s)'%x for x in sorted(A)) or '(void) 0'
        cond=src[ca:cb].strip()
        new='VLOOP(%s,(%s))'%(tag,hv)+(' && (%s)'%cond if cond else '')
        ins.append((ca,cb,new)); info.append('cut %s loop %s: havoc %s'%(func,n,sorted(A)))
    # visit counters
    tags=[e[3] for e in edits if e[0]=='cut']
    out=src
    for a,b,t in sorted(ins,reverse=True): out=out[:a]+t+out[b:]
    return out,info,tags
if __name__=='__main__':
    import sys
    s,i,t=instrument(open(sys.argv[1]).read(),[('cut',sys.argv[2],int(sys.argv[3]),'T')])
    print(i)
