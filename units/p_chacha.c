/*
  ChaCha20 contracts: key and nonce set-up, and the block functions for any input words.
*/
#include "wizard/chacha.c"
#include "vh.h"
#include "cipher_spec.h"
void harness(void)
{
  uint8_t in[64],c[64],want[64]; uint32_t k[16]; int i;
  ChachaInfo *h=AcquireChachaInfo();
  VASSERT(GetChachaBlocksize(h) == 64,"block size");
#if defined(SETKEY)
  uint8_t kb[KL]; StringInfo *key=AcquireStringInfo(KL);
  for (i=0; i < 16; i++) h->key[i]=nd_u32(); /* left by an earlier key */
  for (i=0; i < KL; i++) { uint8_t x=nd_u8(); kb[i]=x; GetStringInfoDatum(key)[i]=x; }
  SetChachaKey(h,key);
  spec_chacha_key(kb,KL,k);
  for (i=0; i < 12; i++) VASSERT(h->key[i] == k[i],"constants and key words as published");
  for (i=0; i < KL; i++) VASSERT(GetStringInfoDatum(key)[i] == kb[i],"caller's key left alone");
#else
  for (i=0; i < 16; i++) { uint32_t x=nd_u32(); k[i]=x; h->key[i]=x; }
  for (i=0; i < 64; i++) { uint8_t x=nd_u8(); in[i]=x; c[i]=x; }
#if defined(ENC)
  EncipherChachaBlock(h,c,c);
#else
  DecipherChachaBlock(h,c,c);
#endif
  spec_chacha(k,in,want);
  for (i=0; i < 64; i++) VASSERT(c[i] == want[i],"block result as published");
  for (i=0; i < 16; i++) VASSERT(h->key[i] == k[i],"frame: input words");
#endif
  VREACH("end");
}
