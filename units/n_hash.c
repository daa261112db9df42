/* Native: digests of random messages, split at random points, on fresh and on reused objects. */
#include "wizard/studio.h"
#include "wizard/WizardsToolkit.h"
#include "vh.h"
#include "hash_spec.h"
static const HashType T[]={ MD5Hash,SHA1Hash,SHA2224Hash,SHA2256Hash,SHA2384Hash,SHA2512Hash,
  SHA3Hash,SHA3224Hash,SHA3256Hash,SHA3384Hash,SHA3512Hash,CRC64Hash };
void harness(void)
{
  int k=(int) nd_range(0,11); size_t n=nd_range(0,1200),pieces,i,rounds; uint8_t *m=malloc(n+1),ref[64]; size_t d;
  int alias=(k == 3) && nd_bool();
  HashInfo *h=AcquireHashInfo(alias ? SHA2Hash : T[k]);
  rounds=nd_range(1,3);
  if (nd_bool()) /* use the object for something else first, finished or not */
    {
      size_t w=nd_range(0,300); StringInfo *s=AcquireStringInfo(w); nd_bytes(GetStringInfoDatum(s),w);
      InitializeHash(h); UpdateHash(h,s); if (nd_bool()) FinalizeHash(h);
      DestroyStringInfo(s);
    }
  for (size_t r=0; r < rounds; r++)
  {
    nd_bytes(m,n); d=spec_hash(k,m,n,ref);
    InitializeHash(h);
    pieces=nd_range(1,6);
    for (i=0; i < n || pieces > 0; )
    {
      size_t c=pieces <= 1 ? n-i : nd_range(0,n-i); StringInfo *s=BlobToStringInfo(c ? (void *) (m+i) : NULL,c);
      if (c == 0) { s=AcquireStringInfo(1); SetStringInfoLength(s,0); }
      UpdateHash(h,s);
      VASSERT(GetStringInfoLength(s) == c && (c == 0 || memcmp(GetStringInfoDatum(s),m+i,c) == 0),"update leaves the message alone");
      DestroyStringInfo(s); i+=c; if (pieces) pieces--;
    }
    FinalizeHash(h);
    VASSERT(GetHashDigestsize(h) == d,"digest size");
    VASSERT(GetStringInfoLength(GetHashDigest(h)) == d,"digest length");
    VASSERT(memcmp(GetStringInfoDatum(GetHashDigest(h)),ref,d) == 0,"digest equals the published function of the whole message");
    if (nd_bool())
      {
        char *x=GetHashHexDigest(h); char hex[130];
        for (i=0; i < d; i++) sprintf(hex+2*i,"%02x",ref[i]);
        VASSERT(strcmp(x,hex) == 0,"hex digest");
        DestroyString(x);
      }
    n=nd_range(0,n);
  }
  DestroyHashInfo(h); free(m);
}
