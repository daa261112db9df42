/*
  Serpent contracts: the key schedule, and the two block functions for any round keys.
*/
#include "wizard/serpent.c"
#include "vh.h"
#include "cipher_spec.h"
void harness(void)
{
  uint8_t in[16],c[16],want[16]; uint32_t k[132]; int i;
  SerpentInfo *h=AcquireSerpentInfo();
  VASSERT(GetSerpentBlocksize(h) == 16,"block size");
#if defined(SETKEY)
  uint8_t kb[KL]; StringInfo *key=AcquireStringInfo(KL);
  for (i=0; i < 132; i++) h->crypt_key[i]=nd_u32(); /* left by an earlier key */
  for (i=0; i < KL; i++) { uint8_t x=nd_u8(); kb[i]=x; GetStringInfoDatum(key)[i]=x; }
  SetSerpentKey(h,key);
  spec_serpent_expand(kb,KL,k);
  for (i=0; i < 132; i++) VASSERT(h->crypt_key[i] == k[i],"round keys as published");
  for (i=0; i < KL; i++) VASSERT(GetStringInfoDatum(key)[i] == kb[i],"caller's key left alone");
#else
  for (i=0; i < 132; i++) { uint32_t x=nd_u32(); k[i]=x; h->crypt_key[i]=x; }
  for (i=0; i < 16; i++) { uint8_t x=nd_u8(); in[i]=x; c[i]=x; }
#if defined(ENC)
  EncipherSerpentBlock(h,c,c);
  spec_serpent_enc(k,in,want);
#else
  DecipherSerpentBlock(h,c,c);
  spec_serpent_dec(k,in,want);
#endif
  for (i=0; i < 16; i++) VASSERT(c[i] == want[i],"block result as published");
  for (i=0; i < 132; i++) VASSERT(h->crypt_key[i] == k[i],"frame: round keys");
#endif
  VREACH("end");
}
