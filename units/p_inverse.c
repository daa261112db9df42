/*
  Inverse contracts: with the state a key set-up leaves (any round keys; AES: the deciphering keys
  tied to them as the key schedule contract says), deciphering a block undoes enciphering it.
*/
#include "vh.h"
#include "wizard/studio.h"
#include CIPHERC
#include "cipher_spec.h"
void harness(void)
{
  uint8_t in[BS],c[BS]; int i,t;
#if defined(C_AES)
  AESInfo *h=AcquireAESInfo(); uint32_t w[60],dw[60];
  h->rounds=NR;
  for (i=0; i < 60; i++) { uint32_t x=nd_u32(); w[i]=x; h->encipher_key[i]=x; dw[i]=0; }
  spec_aes_dkeys(w,NR,dw);
  for (i=0; i < 60; i++) h->decipher_key[i]=dw[i];
#define E EncipherAESBlock
#define D DecipherAESBlock
#elif defined(C_CHACHA)
  ChachaInfo *h=AcquireChachaInfo();
  for (i=0; i < 16; i++) h->key[i]=nd_u32();
#define E EncipherChachaBlock
#define D DecipherChachaBlock
#elif defined(C_SERPENT)
  SerpentInfo *h=AcquireSerpentInfo();
  for (i=0; i < 132; i++) h->crypt_key[i]=nd_u32();
#define E EncipherSerpentBlock
#define D DecipherSerpentBlock
#else
  TwofishInfo *h=AcquireTwofishInfo();
  for (i=0; i < 40; i++) { if (i < 8) h->w[i]=nd_u32(); else h->k[i-8]=nd_u32(); }
  for (t=0; t < 4; t++) for (i=0; i < 256; i++) h->sbox[t][i]=nd_u32();
#define E EncipherTwofishBlock
#define D DecipherTwofishBlock
#endif
  for (i=0; i < BS; i++) { uint8_t x=nd_u8(); in[i]=x; c[i]=x; }
  E(h,c,c); D(h,c,c);
  for (i=0; i < BS; i++) VASSERT(c[i] == in[i],"deciphering a block undoes enciphering it");
  VREACH("end");
}
