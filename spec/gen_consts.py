#!/usr/bin/env python3
"""Derive the constants of the specifications from their mathematical definitions."""
import math
def primes(n):
    P=[];k=2
    while len(P)<n:
        if all(k%p for p in P): P.append(k)
        k+=1
    return P
def iroot(n,k):
    lo,hi=0,1
    while hi**k<=n: hi*=2
    while hi-lo>1:
        m=(lo+hi)//2
        if m**k<=n: lo=m
        else: hi=m
    return lo
def frac(p,k,bits): return iroot(p<<(k*bits),k)&((1<<bits)-1)
from decimal import Decimal,getcontext
getcontext().prec=60
def dsin(x):
    x=Decimal(x); t=x; s=x; n=1
    while abs(t)>Decimal(10)**-50:
        t=-t*x*x/((2*n)*(2*n+1)); s+=t; n+=1
    return s
def arr(name,ty,v,suf,w):
    print('static const %s %s[%d]={'%(ty,name,len(v)))
    for i in range(0,len(v),4): print('  '+', '.join('0x%0*x%s'%(w,x,suf) for x in v[i:i+4])+',')
    print('};')
print('/* generated by gen_consts.py from the definitions in FIPS 180-4, RFC 1321 and FIPS 202 */')
P=primes(80)
arr('spec_sha256_k','uint32_t',[frac(p,3,32) for p in P[:64]],'U',8)
arr('spec_sha512_k','uint64_t',[frac(p,3,64) for p in P],'ULL',16)
arr('spec_sha256_iv','uint32_t',[frac(p,2,32) for p in P[:8]],'U',8)
arr('spec_sha512_iv','uint64_t',[frac(p,2,64) for p in P[:8]],'ULL',16)
iv384=[frac(p,2,64) for p in P[8:16]]
arr('spec_sha384_iv','uint64_t',iv384,'ULL',16)
arr('spec_sha224_iv','uint32_t',[x&0xffffffff for x in iv384],'U',8)
arr('spec_md5_k','uint32_t',[int(abs(dsin(i+1))*(1<<32)) for i in range(64)],'U',8)
# Keccak round constants: rc[t] from the degree-8 LFSR x^8+x^6+x^5+x^4+1 (FIPS 202, algorithm 5)
def rc(t):
    if t%255==0: return 1
    R=[1,0,0,0,0,0,0,0]
    for i in range(t%255):
        R=[0]+R
        R[0]^=R[8]; R[4]^=R[8]; R[5]^=R[8]; R[6]^=R[8]; R=R[:8]
    return R[0]
arr('spec_keccak_rc','uint64_t',[sum(rc(j+7*ir)<<(2**j-1) for j in range(7)) for ir in range(24)],'ULL',16)
off=[0]*25; x,y=1,0
for t in range(24):
    off[x+5*y]=((t+1)*(t+2)//2)%64
    x,y=y,(2*x+3*y)%5
arr('spec_keccak_rho','unsigned int',off,'U',2)
