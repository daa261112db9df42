/*
  Initialisation contract.  Whatever state the object is in, initialising it gives the published
  initial value and an empty message; a new object has the published sizes.
*/
#include "p_md.h"
#include HASHC
#include "hash_spec.h"
void harness(void)
{
  int i; INFO *h=ACQ(),old;
  VASSERT(h->digestsize == NO*sizeof(WORD) && GetStringInfoLength(h->digest) == NO*sizeof(WORD),"digest size");
  VASSERT(h->blocksize == BS && GetStringInfoLength(h->message) == BS,"block size");
  for (i=0; i < NW; i++) h->accumulator[i]=(WORD) nd_u64();
  h->low_order=nd_u64(); h->high_order=nd_u64();
#if BE
  h->offset=nd_size(); VASSUME(h->offset < BS);
#endif
  for (i=0; i < BS; i++) GetStringInfoDatum(h->message)[i]=nd_u8();
  old=(*h);
  VASSERT(INI(h) != WizardFalse,"initialise reports success");
  for (i=0; i < NW; i++) VASSERT(h->accumulator[i] == IV[i],"initial value");
  VASSERT(h->low_order == 0 && h->high_order == 0,"empty message: bit count");
#if BE
  VASSERT(h->offset == 0,"empty message: buffer position");
#endif
  VASSERT(h->digest == old.digest && h->message == old.message && h->accumulator == old.accumulator &&
    h->digestsize == old.digestsize && h->blocksize == old.blocksize && h->signature == old.signature,"frame");
  VREACH("end");
}
