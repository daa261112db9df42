/*
  Native: the stream of a random source whose entropy is known (getentropy is replaced), drawn in
  random request sizes, against HMAC of successive counter values; guard bytes around every request.
*/
#include "wizard/studio.h"
#include "wizard/random.c"
#include "vh.h"
#include <unistd.h>
static uint8_t g_ent[64]; static uint64_t g_es; static int g_calls;
int getentropy(void *b,size_t n) { size_t i; for (i=0; i < n; i++) { g_es=g_es*6364136223846793005ull+1442695040888963407ull; ((uint8_t *) b)[i]=(uint8_t) (g_es >> 56); } if (n == 64) memcpy(g_ent,b,64); g_calls++; return 0; }
static const HashType T[]={ MD5Hash,SHA1Hash,SHA2224Hash,SHA2256Hash,SHA2384Hash,SHA2512Hash };
void harness(void)
{
  HashType t=nd_range(0,2) == 0 ? T[nd_range(0,5)] : SHA2256Hash; RandomInfo *r; size_t D,total=0,used,m,blocks; uint8_t *ref,*got,*pre; StringInfo *k,*n; HMACInfo *h; int c=(int) nd_range(0,3);
  g_es=nd_u64(); r=AcquireRandomInfo(t); VASSERT(r != 0,"random source");
  D=GetHMACDigestsize(r->hmac_info); used=0;
  n=CloneStringInfo(r->nonce);
  if (c != 0)
    { /* counter close to a carry */
      size_t q=nd_range(1,GetStringInfoLength(n)-2); unsigned char *d=GetStringInfoDatum(r->nonce); size_t L=GetStringInfoLength(n);
      memset(d+L-q,0xff,q); if (c == 1) d[L-1]=(uint8_t) nd_u8();
      memcpy(GetStringInfoDatum(n),d,L);
    }
  used=r->i ? D-r->i : 0; /* waiting in the reservoir */
  got=malloc(3000); pre=malloc(D); memcpy(pre,GetStringInfoDatum(r->reservoir)+(r->i ? r->i : 0),used);
  k=BlobToStringInfo(g_ent,64); h=AcquireHMACInfo(t); InitializeHMAC(h,k);
  { uint8_t *o=got; size_t reqs=nd_range(1,12),j; memset(got,0,3000);
    for (j=0; j < reqs && (size_t) (o-got) < 2200; j++)
    {
      size_t q=nd_range(0,4) == 0 ? D*nd_range(0,4) : nd_range(0,200); uint8_t *b=malloc(q+32); size_t i;
      memset(b,0xa5,q+32);
      if (nd_range(0,3) == 0) { StringInfo *s=GetRandomKey(r,q); VASSERT(GetStringInfoLength(s) == q,"requested length"); memcpy(b+16,GetStringInfoDatum(s),q); DestroyStringInfo(s); }
      else SetRandomKey(r,q,b+16);
      for (i=0; i < 16; i++) VASSERT(b[i] == 0xa5 && b[16+q+i] == 0xa5,"only the requested bytes are written");
      memcpy(o,b+16,q); o+=q; free(b);
    }
    total=(size_t) (o-got); }
  blocks=(total+D-1)/D; ref=malloc(used+blocks*D+1); memcpy(ref,pre,used);
  for (m=0; m < blocks; m++)
  {
    ssize_t i; unsigned char *d=GetStringInfoDatum(n);
    ResetHMAC(h); UpdateHMAC(h,n); FinalizeHMAC(h); memcpy(ref+used+m*D,GetStringInfoDatum(GetHMACDigest(h)),D);
    for (i=(ssize_t) GetStringInfoLength(n)-1; i >= 0 && ++d[i] == 0; i--) ;
  }
  VASSERT(memcmp(got,ref,total) == 0,"bytes handed out are the consecutive bytes of the stream");
  free(got); free(ref); DestroyStringInfo(k); DestroyStringInfo(n); DestroyHMACInfo(h); DestroyRandomInfo(r);
}
