#!/usr/bin/env python3
"""Constants of the published ciphers, computed from their definitions -> cipher_consts.h"""
import os
def gmul(a,b,p):
    r=0
    while b:
        if b&1: r^=a
        a<<=1
        if a&0x100: a^=p
        b>>=1
    return r
# AES S-box: inverse in GF(2^8)/0x11b, then the affine map (FIPS 197, 5.1.1)
inv=[0]*256
for a in range(1,256):
    for b in range(1,256):
        if gmul(a,b,0x11b)==1: inv[a]=b; break
def aff(x):
    r=0
    for i in range(8):
        b=(x>>i ^ x>>((i+4)%8) ^ x>>((i+5)%8) ^ x>>((i+6)%8) ^ x>>((i+7)%8) ^ 0x63>>i)&1
        r|=b<<i
    return r
S=[aff(inv[a]) for a in range(256)]; IS=[0]*256
for i,x in enumerate(S): IS[x]=i
# Twofish q0, q1 (section 4.3.5 of the submission)
T={0:['817D6F320B59ECA4','ECB81235F4A6709D','BA5E6D90C8F32471','D7F4126E9B3085CA'],1:['28BDF76E31940AC5','1E2B4C376DA5F908','4C75169A0ED82B3F','B951C3DE647F208A']}
def q(k,x):
    t=[[int(c,16) for c in s] for s in T[k]]; ror=lambda v:(v>>1|v<<3)&15
    a,b=x>>4,x&15
    a1=a^b; b1=(a^ror(b)^(8*a))&15; a2=t[0][a1]; b2=t[1][b1]
    a3=a2^b2; b3=(a2^ror(b2)^(8*a2))&15; return 16*t[3][b3]+t[2][a3]
# Serpent S-boxes (the paper's table), as algebraic normal forms over the bitslice words
SB=['3 8 15 1 10 6 5 11 14 13 4 2 7 0 9 12','15 12 2 7 9 0 5 10 1 11 14 8 6 13 3 4','8 6 7 9 3 12 10 15 13 1 14 4 0 11 5 2','0 15 11 8 12 9 6 3 13 1 2 4 10 7 5 14','1 15 8 3 12 0 11 6 2 5 4 10 9 14 7 13','15 5 2 11 4 10 9 12 0 3 14 8 13 6 7 1','7 2 12 5 8 4 6 11 14 9 1 15 13 3 10 0','1 13 15 0 14 8 2 11 7 4 12 10 9 3 5 6']
SB=[[int(x) for x in s.split()] for s in SB]
def anf(f):
    f=list(f)
    for i in range(4):
        for m in range(16):
            if m>>i&1: f[m]^=f[m^(1<<i)]
    return [m for m in range(16) if f[m]]
def expr(t,bit):
    o=[]
    for m in anf([(v>>bit)&1 for v in t]): o.append('~0u' if m==0 else '&'.join('x%d'%i for i in range(4) if m>>i&1))
    return '^'.join('(%s)'%x for x in o) or '0u'
def arr(n,v,t='uint8_t'): return 'static const %s %s[%d]={%s};\n'%(t,n,len(v),','.join(str(x) for x in v))
o='/* generated by gen_cipher.py from the definitions in the standards */\n'
o+=arr('spec_aes_s',S)+arr('spec_aes_is',IS)+arr('spec_q0',[q(0,x) for x in range(256)])+arr('spec_q1',[q(1,x) for x in range(256)])
for nm,tabs in(('S',SB),('I',[[t.index(i) for i in range(16)] for t in SB])):
    for k,t in enumerate(tabs):
        o+='#define SPEC_SERPENT_%s%d(x0,x1,x2,x3,y0,y1,y2,y3) { '%(nm,k)+' '.join('y%d=%s;'%(b,expr(t,b)) for b in range(4))+' }\n'
open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'cipher_consts.h'),'w').write(o)
