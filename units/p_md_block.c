/*
  Compression contract.  Feeding exactly one block to an aligned object with any chaining value
  leaves the chaining value the published compression function gives, and changes nothing else.
*/
#include "p_md.h"
#include HASHC
#include "hash_spec.h"
void harness(void)
{
  WORD H[NW]; uint8_t b[BS]; int i; INFO *h=ACQ(),before; StringInfo *m=AcquireStringInfo(BS); unsigned char *d=GetStringInfoDatum(m);
  (void) INI(h);
  for (i=0; i < NW; i++) { WORD w=(WORD) nd_u64(); H[i]=w; h->accumulator[i]=w; }
  for (i=0; i < BS; i++) { uint8_t x=nd_u8(); b[i]=x; d[i]=x; }
  before=(*h);
  VASSERT(UPD(h,m) != WizardFalse,"update reports success");
  SPEC(H,b);
  for (i=0; i < NW; i++) VASSERT(h->accumulator[i] == H[i],"chaining value equals the published compression");
  for (i=0; i < BS; i++) VASSERT(d[i] == b[i],"message left alone");
  for (i=0; i < BS; i++) VASSERT(GetStringInfoDatum(h->message)[i] == b[i],"block buffer holds the block");
  VASSERT(h->digest == before.digest && h->message == before.message && h->accumulator == before.accumulator &&
    h->digestsize == before.digestsize && h->blocksize == before.blocksize && h->signature == before.signature,"frame");
  VASSERT(GetStringInfoLength(h->message) == BS,"frame: buffer length");
  VREACH("end");
}
