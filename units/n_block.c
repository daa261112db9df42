/* Native: one-block enciphering and deciphering against the published ciphers, fresh and re-keyed objects. */
#include "wizard/studio.h"
#include "wizard/WizardsToolkit.h"
#include "wizard/aes.h"
#include "wizard/chacha.h"
#include "wizard/serpent.h"
#include "wizard/twofish.h"
#include "vh.h"
#include "cipher_spec.h"
static StringInfo *rkey(size_t n) { StringInfo *k=AcquireStringInfo(n); nd_bytes(GetStringInfoDatum(k),n); return k; }
#define CASE(T,E,D,bs) { T##Info *h=Acquire##T##Info(); StringInfo *k; int again=nd_bool(); \
  if (again) { k=rkey(8*nd_range(2,4)); Set##T##Key(h,k); E##Block(h,in,out); DestroyStringInfo(k); } \
  k=rkey(n); key=GetStringInfoDatum(k); Set##T##Key(h,k); \
  spec_##T(key,(int) n,in,want,inv); \
  if (alias) { memcpy(out,in,bs); E##Block(h,out,out); } else { memset(out,0xa5,96); memcpy(cpy,in,bs); E##Block(h,in,out); VASSERT(memcmp(cpy,in,bs) == 0,"the input block is left alone"); for (int z=bs; z < 96; z++) VASSERT(out[z] == 0xa5,"nothing written behind the block"); } \
  VASSERT(memcmp(out,want,bs) == 0,#T " block enciphered as published"); \
  if (alias) { memcpy(back,in,bs); D##Block(h,back,back); } else D##Block(h,in,back); \
  VASSERT(memcmp(back,inv,bs) == 0,#T " block deciphered as published"); \
  D##Block(h,out,out); VASSERT(memcmp(out,in,bs) == 0,#T " deciphering undoes enciphering"); \
  VASSERT(GetStringInfoLength(k) == n && memcmp(GetStringInfoDatum(k),key,n) == 0,"key unchanged"); \
  DestroyStringInfo(k); Destroy##T##Info(h); }
static void spec_AES(const uint8_t *k,int n,const uint8_t *in,uint8_t *e,uint8_t *d) { uint32_t w[60],dw[60]; int nk=n/4; spec_aes_expand(k,nk,w); spec_aes_dkeys(w,nk+6,dw); spec_aes_enc(w,nk+6,in,e); spec_aes_dec(dw,nk+6,in,d); }
static void spec_Chacha(const uint8_t *k,int n,const uint8_t *in,uint8_t *e,uint8_t *d) { uint32_t w[16]; spec_chacha_key(k,n,w); spec_chacha(w,in,e); spec_chacha(w,in,d); }
static void spec_Serpent(const uint8_t *k,int n,const uint8_t *in,uint8_t *e,uint8_t *d) { uint32_t w[132]; spec_serpent_expand(k,n,w); spec_serpent_enc(w,in,e); spec_serpent_dec(w,in,d); }
static void spec_Twofish(const uint8_t *k,int n,const uint8_t *in,uint8_t *e,uint8_t *d)
{ static uint32_t g[4][256]; uint32_t K[40]; uint8_t l[4][4]; spec_tf_s(k,n/8,l); spec_tf_subkeys(k,n/8,K); for (int t=0; t < 4; t++) for (int b=0; b < 256; b++) g[t][b]=spec_tf_h1(t,(uint8_t) b,l,n/8); spec_tf_enc(K,g,in,e); spec_tf_dec(K,g,in,d); }
void harness(void)
{
  uint8_t in[64],out[96],want[64],inv[64],back[64],cpy[64],*key; int alias=nd_bool(),c=(int) nd_range(0,3); size_t n=8*nd_range(2,4);
  nd_bytes(in,64);
  switch (c)
  {
    case 0: CASE(AES,EncipherAES,DecipherAES,16) break;
    case 1: if (n == 24) n=32; CASE(Chacha,EncipherChacha,DecipherChacha,64) break;
    case 2: CASE(Serpent,EncipherSerpent,DecipherSerpent,16) break;
    default: CASE(Twofish,EncipherTwofish,DecipherTwofish,16) break;
  }
}
