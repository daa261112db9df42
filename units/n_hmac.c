/* Native: HMAC of random keys and messages against the definition, on fresh and reused objects. */
#include "wizard/studio.h"
#include "wizard/WizardsToolkit.h"
#include "vh.h"
#include "hash_spec.h"
static const HashType T[]={ MD5Hash,SHA1Hash,SHA2224Hash,SHA2256Hash,SHA2384Hash,SHA2512Hash,
  SHA3Hash,SHA3224Hash,SHA3256Hash,SHA3384Hash,SHA3512Hash,CRC64Hash };
static const size_t B[]={ 64,64,64,64,128,128,0,0,0,0,0,0 };
static void ref(int k,size_t bs,const uint8_t *key,size_t kl,const uint8_t *m,size_t n,uint8_t *out)
{
  uint8_t kk[256]={0},*b=malloc(bs+n+64),in[64]; size_t i,d;
  if (kl > bs) spec_hash(k,key,kl,kk); else memcpy(kk,key,kl);
  for (i=0; i < bs; i++) b[i]=kk[i]^0x36;
  memcpy(b+bs,m,n); d=spec_hash(k,b,bs+n,in);
  for (i=0; i < bs; i++) b[i]=kk[i]^0x5c;
  memcpy(b+bs,in,d); spec_hash(k,b,bs+d,out); free(b);
}
static StringInfo *mk(const uint8_t *p,size_t n) { StringInfo *s=AcquireStringInfo(n); if (n) SetStringInfoDatum(s,p); return s; }
void harness(void)
{
  int k=(int) nd_range(0,11); size_t bs,rounds,r; HMACInfo *h=AcquireHMACInfo(T[k]); HashInfo *hi=AcquireHashInfo(T[k]);
  bs=GetHashBlocksize(hi); if (B[k]) VASSERT(bs == B[k],"block size of the hash"); DestroyHashInfo(hi);
  rounds=nd_range(1,3);
  for (r=0; r < rounds; r++)
  {
    uint8_t key[400],m[700],out[64]; size_t kl,n=nd_range(0,700),i; StringInfo *ks; int mode=(int) nd_range(0,3);
    kl=nd_bool() ? nd_range(0,400) : bs-2+nd_range(0,4); nd_bytes(key,kl); nd_bytes(m,n); ks=mk(key,kl);
    if (nd_bool()) { StringInfo *x=mk(m,nd_range(0,n)); InitializeHMAC(h,x); UpdateHMAC(h,x); if (nd_bool()) FinalizeHMAC(h); DestroyStringInfo(x); }
    ref(k,bs,key,kl,m,n,out);
    if (mode == 0) { StringInfo *s=mk(m,n); ConstructHMAC(h,ks,s); VASSERT(n == 0 || memcmp(GetStringInfoDatum(s),m,n) == 0,"message left alone"); DestroyStringInfo(s); }
    else
      {
        int pass,np=mode == 3 ? 2 : 1; InitializeHMAC(h,ks);
        for (pass=0; pass < np; pass++)
        {
          if (pass) ResetHMAC(h);
          for (i=0; i < n; ) { size_t c=nd_range(0,n-i); StringInfo *s; if (nd_range(0,3) == 0) c=n-i; s=mk(m+i,c); UpdateHMAC(h,s); DestroyStringInfo(s); i+=c; }
          FinalizeHMAC(h);
        }
      }
    VASSERT(GetHMACDigestsize(h) == GetStringInfoLength(GetHMACDigest(h)),"digest length");
    VASSERT(memcmp(GetStringInfoDatum(GetHMACDigest(h)),out,GetHMACDigestsize(h)) == 0,"code equals H((K'^opad)||H((K'^ipad)||m))");
    VASSERT(GetStringInfoLength(ks) == kl && memcmp(GetStringInfoDatum(ks),key,kl) == 0,"key left alone");
    DestroyStringInfo(ks);
  }
  DestroyHMACInfo(h);
}
