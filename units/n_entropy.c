/* Native: compressors round trip, truncated and altered streams. */
#include "wizard/studio.h"
#include "wizard/WizardsToolkit.h"
#include "vh.h"
static int same(const StringInfo *a,const StringInfo *b) { return GetStringInfoLength(a) == GetStringInfoLength(b) && memcmp(GetStringInfoDatum(a),GetStringInfoDatum(b),GetStringInfoLength(a)) == 0; }
static StringInfo *msg(void)
{
  size_t n=nd_bool() ? nd_range(0,300) : nd_range(0,4) ? nd_range(0,20000) : nd_range(0,200000),i; StringInfo *m=AcquireStringInfo(n); uint8_t *d=GetStringInfoDatum(m),a=nd_u8(); uint64_t x=nd_u64() | 1;
  switch (nd_range(0,3)) { case 0: for (i=0; i < n; i++) { x^=x << 13; x^=x >> 7; x^=x << 17; d[i]=(uint8_t) x; } break; case 1: memset(d,a,n); break; case 2: for (i=0; i < n; i++) d[i]=(uint8_t) (i*i/(a+1u)); break; default: for (i=0; i < n; i++) { x^=x << 13; x^=x >> 7; x^=x << 17; d[i]=(uint8_t) (x & 3); } }
  return m;
}
void harness(void)
{
  static const EntropyType t[]={ZIPEntropy,BZIPEntropy,LZMAEntropy}; int k=(int) nd_range(0,2),j,s=(int) nd_range(1,3); ExceptionInfo *e=AcquireExceptionInfo(); EntropyInfo *x=AcquireEntropyInfo(t[k],nd_range(k == 1,k == 2 && nd_range(0,3) ? 2 : 9)),*y;
  for (j=0; j < s; j++)
  {
    StringInfo *m=msg(),*c,*o=CloneStringInfo(m); size_t n=GetStringInfoLength(m); WizardBooleanType r;
    VASSERT(IncreaseEntropy(x,m,e) != WizardFalse,"compressed"); VASSERT(same(m,o),"the message is kept"); c=CloneStringInfo(GetEntropyChaos(x)); y=nd_bool() ? x : AcquireEntropyInfo(t[k],1);
    if (nd_bool() && n > 0) { StringInfo *q=CloneStringInfo(c); SetStringInfoLength(q,nd_range(0,GetStringInfoLength(c)-1)); VASSERT(RestoreEntropy(y,n,q,e) == WizardFalse,"an incomplete stream is reported"); DestroyStringInfo(q); }
    if (nd_bool() && n > 1) VASSERT(RestoreEntropy(y,nd_range(1,n-1),c,e) == WizardFalse,"lack of room is reported");
    if (nd_bool()) { StringInfo *q=CloneStringInfo(c); GetStringInfoDatum(q)[nd_range(0,GetStringInfoLength(c)-1)]^=(uint8_t) nd_range(1,255); r=RestoreEntropy(y,n,q,e); if (r != WizardFalse) VASSERT(GetStringInfoLength(GetEntropyChaos(y)) <= n,"within the room"); DestroyStringInfo(q); }
    VASSERT(RestoreEntropy(y,n,c,e) != WizardFalse && same(GetEntropyChaos(y),o),"restored exactly");
    if (y != x) DestroyEntropyInfo(y);
    DestroyStringInfo(m); DestroyStringInfo(c); DestroyStringInfo(o);
  }
  DestroyEntropyInfo(x); DestroyExceptionInfo(e);
}
