/*
  Twofish contracts: the key-dependent tables and subkeys, and the two block functions for any
  tables and subkeys.
*/
#include "wizard/twofish.c"
#include "vh.h"
#include "cipher_spec.h"
static uint32_t g[4][256];
void harness(void)
{
  uint8_t in[16],c[16],want[16]; uint32_t K[40]; int i,t;
  TwofishInfo *h=AcquireTwofishInfo();
  VASSERT(GetTwofishBlocksize(h) == 16,"block size");
#if defined(SETKEY)
  uint8_t kb[KL],l[4][4]; StringInfo *key=AcquireStringInfo(KL);
  for (i=0; i < 32; i++) h->k[i]=nd_u32(); /* left by an earlier key */
  for (i=0; i < 8; i++) h->w[i]=nd_u32();
  for (t=0; t < 4; t++) for (i=0; i < 256; i++) h->sbox[t][i]=nd_u32();
  for (i=0; i < KL; i++) { uint8_t x=nd_u8(); kb[i]=x; GetStringInfoDatum(key)[i]=x; }
  SetTwofishKey(h,key);
#if SETKEY == 1
  spec_tf_subkeys(kb,KL/8,K);
  for (i=0; i < 8; i++) VASSERT(h->w[i] == K[i],"whitening keys as published");
  for (i=0; i < 32; i++) VASSERT(h->k[i] == K[8+i],"round keys as published");
#else
  spec_tf_s(kb,KL/8,l);
  for (t=0; t < 4; t++) for (i=0; i < 256; i++) VASSERT(h->sbox[t][i] == spec_tf_h1(t,(uint8_t) i,l,KL/8),"key-dependent tables as published");
#endif
  for (i=0; i < KL; i++) VASSERT(GetStringInfoDatum(key)[i] == kb[i],"caller's key left alone");
#else
  for (i=0; i < 40; i++) { uint32_t x=nd_u32(); K[i]=x; if (i < 8) h->w[i]=x; else h->k[i-8]=x; }
  for (t=0; t < 4; t++) for (i=0; i < 256; i++) { uint32_t x=nd_u32(); g[t][i]=x; h->sbox[t][i]=x; }
  for (i=0; i < 16; i++) { uint8_t x=nd_u8(); in[i]=x; c[i]=x; }
#if defined(ENC)
  EncipherTwofishBlock(h,c,c);
  spec_tf_enc(K,h->sbox,in,want);
#else
  DecipherTwofishBlock(h,c,c);
  spec_tf_dec(K,h->sbox,in,want);
#endif
  for (i=0; i < 16; i++) VASSERT(c[i] == want[i],"block result as published");
  for (i=0; i < 40; i++) VASSERT((i < 8 ? h->w[i] : h->k[i-8]) == K[i],"frame: subkeys");
  for (t=0; t < 4; t++) for (i=0; i < 256; i++) VASSERT(h->sbox[t][i] == g[t][i],"frame: tables");
#endif
  VREACH("end");
}
