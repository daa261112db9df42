/*
  AES contracts: the key schedule, and the two block functions for any round keys.
*/
#include "wizard/aes.c"
#include "vh.h"
#include "cipher_spec.h"
#define NR (KL/4+6)
static AESInfo info,before;
static StringInfo *K,*K2;
void harness(void)
{
  uint8_t in[16],c[16],want[16]; uint32_t w[60],dw[60]; int i;
  AESInfo *h=AcquireAESInfo();
  VASSERT(GetAESBlocksize(h) == 16,"block size");
#if defined(SETKEY)
  uint8_t kb[KL];
  K=AcquireStringInfo(KL);
  for (i=0; i < 60; i++) { h->encipher_key[i]=nd_u32(); h->decipher_key[i]=nd_u32(); } /* left by an earlier key */
  h->rounds=nd_u32();
  for (i=0; i < KL; i++) { uint8_t x=nd_u8(); kb[i]=x; GetStringInfoDatum(K)[i]=x; }
  SetAESKey(h,K);
  spec_aes_expand(kb,KL/4,w); spec_aes_dkeys(w,NR,dw);
  VASSERT(h->rounds == NR,"number of rounds");
  for (i=0; i < 4*(NR+1); i++) VASSERT(h->encipher_key[i] == w[i],"round keys are those of FIPS 197");
  for (i=0; i < 4*(NR+1); i++) VASSERT(h->decipher_key[i] == dw[i],"deciphering keys are those of FIPS 197");
  for (i=0; i < KL; i++) VASSERT(GetStringInfoDatum(K)[i] == kb[i],"caller's key left alone");
  VASSERT(GetStringInfoLength(K) == KL,"caller's key length");
#else
  h->rounds=NR;
  for (i=0; i < 60; i++) { uint32_t x=nd_u32(); w[i]=x; h->encipher_key[i]=x; }
  for (i=0; i < 60; i++) { uint32_t x=nd_u32(); dw[i]=x; h->decipher_key[i]=x; }
  for (i=0; i < 16; i++) { uint8_t x=nd_u8(); in[i]=x; c[i]=x; }
#if defined(ENC)
  EncipherAESBlock(h,c,c);
  spec_aes_enc(w,NR,in,want);
#else
  DecipherAESBlock(h,c,c);
  spec_aes_dec(dw,NR,in,want);
#endif
  for (i=0; i < 16; i++) VASSERT(c[i] == want[i],"block result is that of FIPS 197");
  for (i=0; i < 60; i++) VASSERT(h->encipher_key[i] == w[i] && h->decipher_key[i] == dw[i],"frame: round keys");
  VASSERT(h->rounds == NR,"frame: rounds");
#endif
  VREACH("end");
}
