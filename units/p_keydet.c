/*
  Key set-up depends on the key alone: an object with any earlier contents ends up in the state of a
  new object, for key lengths the standards do not name as well.
*/
#include "vh.h"
#include "wizard/studio.h"
#include CIPHERC
#include "cipher_spec.h"
void harness(void)
{
  int i,t; StringInfo *key=AcquireStringInfo(KL); uint8_t kb[KL];
  for (i=0; i < KL; i++) { uint8_t x=nd_u8(); kb[i]=x; GetStringInfoDatum(key)[i]=x; }
#if defined(C_AES)
  AESInfo *g=AcquireAESInfo(),*h=AcquireAESInfo(); uint32_t dw[60];
  for (i=0; i < 60; i++) { h->encipher_key[i]=nd_u32(); h->decipher_key[i]=nd_u32(); }
  h->rounds=nd_u32();
  { StringInfo *old=AcquireStringInfo(32); for (i=0; i < 32; i++) GetStringInfoDatum(old)[i]=nd_u8(); SetAESKey(h,old); } /* an earlier key */
  SetAESKey(g,key); SetAESKey(h,key);
  VASSERT(g->rounds == h->rounds && (g->rounds == 10 || g->rounds == 12 || g->rounds == 14),"rounds depend on the key alone");
  for (i=0; i < 60; i++) if (i < 4*((int) g->rounds+1)) VASSERT(g->encipher_key[i] == h->encipher_key[i] && g->decipher_key[i] == h->decipher_key[i],"round keys depend on the key alone");
  spec_aes_dkeys(g->encipher_key,g->rounds,dw);
  for (i=0; i < 60; i++) if (i < 4*((int) g->rounds+1)) VASSERT(g->decipher_key[i] == dw[i],"deciphering keys match the enciphering keys");
#elif defined(C_CHACHA)
  ChachaInfo *g=AcquireChachaInfo(),*h=AcquireChachaInfo();
  for (i=0; i < 16; i++) { g->key[i]=nd_u32(); h->key[i]=nd_u32(); }
  SetChachaKey(g,key); SetChachaKey(h,key);
  for (i=0; i < 16; i++) VASSERT(g->key[i] == h->key[i],"key words depend on the key alone");
#elif defined(C_SERPENT)
  SerpentInfo *g=AcquireSerpentInfo(),*h=AcquireSerpentInfo();
  for (i=0; i < 132; i++) { g->crypt_key[i]=nd_u32(); h->crypt_key[i]=nd_u32(); }
  SetSerpentKey(g,key); SetSerpentKey(h,key);
  for (i=0; i < 132; i++) VASSERT(g->crypt_key[i] == h->crypt_key[i],"round keys depend on the key alone");
#else
  TwofishInfo *g=AcquireTwofishInfo(),*h=AcquireTwofishInfo();
  for (i=0; i < 32; i++) { g->k[i]=nd_u32(); h->k[i]=nd_u32(); }
  for (i=0; i < 8; i++) { g->w[i]=nd_u32(); h->w[i]=nd_u32(); }
  for (t=0; t < 4; t++) for (i=0; i < 256; i++) { g->sbox[t][i]=nd_u32(); h->sbox[t][i]=nd_u32(); }
  SetTwofishKey(g,key); SetTwofishKey(h,key);
  for (i=0; i < 32; i++) VASSERT(g->k[i] == h->k[i],"round keys depend on the key alone");
  for (i=0; i < 8; i++) VASSERT(g->w[i] == h->w[i],"whitening keys depend on the key alone");
  for (t=0; t < 4; t++) for (i=0; i < 256; i++) VASSERT(g->sbox[t][i] == h->sbox[t][i],"tables depend on the key alone");
#endif
  for (i=0; i < KL; i++) VASSERT(GetStringInfoDatum(key)[i] == kb[i],"caller's key left alone");
  VASSERT(GetStringInfoLength(key) == KL,"caller's key length kept");
  VREACH("end");
}
