import sys,re,os
src=sys.argv[-1]
L=open(src).read().split('\n'); out=[]; i=0
while i<len(L):
    m=re.match(r'^\(declare-fun (\|[^|]*\||\S+) \(\) (.*)\)$',L[i])
    if m and i+1<len(L) and L[i+1].startswith('(assert (= %s '%m.group(1)) and L[i+1].endswith('))'):
        e=L[i+1][len('(assert (= %s '%m.group(1)):-2]
        out.append('(define-fun %s () %s %s)'%(m.group(1),m.group(2),e)); i+=2; continue
    out.append(L[i]); i+=1
dst=src+'.dd'
open(dst,'w').write('\n'.join(out))
z=os.environ.get('VF_Z3','z3-new')
os.execvp(z,[z,dst])
