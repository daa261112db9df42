/* Native: whole messages through every cipher and mode: definition of the mode, round trip, frame. */
#include "wizard/studio.h"
#include "wizard/WizardsToolkit.h"
#include "wizard/aes.h"
#include "wizard/chacha.h"
#include "wizard/serpent.h"
#include "wizard/twofish.h"
#include "wizard/cipher.h"
#include "vh.h"
static AESInfo *A; static ChachaInfo *C; static SerpentInfo *S; static TwofishInfo *T;
static void E(int c,const uint8_t *in,uint8_t *out) { switch (c) { case 0: EncipherAESBlock(A,in,out); break; case 1: EncipherChachaBlock(C,in,out); break; case 2: EncipherSerpentBlock(S,in,out); break; default: EncipherTwofishBlock(T,in,out); } }
void harness(void)
{
  static const CipherType ty[4]={AESCipher,ChachaCipher,SerpentCipher,TwofishCipher}; static const CipherMode mo[5]={CBCMode,CFBMode,CTRMode,ECBMode,OFBMode};
  int c=(int) nd_range(0,3),m=(int) nd_range(0,4),again=nd_bool(); size_t bs=c == 1 ? 64 : 16,L=nd_range(0,200),kl=nd_range(0,40),i,j,tot; uint8_t msg[400],pad[400],want[400],n0[64],reg[64],o[64],k0[64];
  CipherInfo *ci=AcquireCipherInfo(ty[c],mo[m]),*dj=AcquireCipherInfo(ty[c],mo[m]); StringInfo *key=AcquireStringInfo(kl ? kl : 1),*nonce=AcquireStringInfo(bs),*t=AcquireStringInfo(L+bs);
  if (kl == 0) { SetStringInfoLength(key,0); }
  nd_bytes(GetStringInfoDatum(key),kl); memcpy(k0,GetStringInfoDatum(key),kl);
  if (nd_bool()) nd_bytes(GetStringInfoDatum(nonce),bs); else { memset(GetStringInfoDatum(nonce),0xff,bs); *GetStringInfoDatum(nonce)=0; GetStringInfoDatum(nonce)[bs-1]=nd_u8(); }
  memcpy(n0,GetStringInfoDatum(nonce),bs); 
  VASSERT(GetCipherBlocksize(ci) == bs,"block size");
  SetCipherKey(dj,key); SetCipherNonce(dj,nonce);
  if (again)
    { StringInfo *k2=AcquireStringInfo(32),*x=AcquireStringInfo(40); nd_bytes(GetStringInfoDatum(k2),32); SetCipherKey(ci,k2); SetCipherNonce(ci,nonce); EncipherCipher(ci,x); SetCipherKey(ci,key); DestroyStringInfo(x); DestroyStringInfo(k2); }
  SetCipherKey(ci,key); SetCipherNonce(ci,nonce);
  A=AcquireAESInfo(); C=AcquireChachaInfo(); S=AcquireSerpentInfo(); T=AcquireTwofishInfo(); SetAESKey(A,key); SetChachaKey(C,key); SetSerpentKey(S,key); SetTwofishKey(T,key);
  { size_t wrap=0; if (m == 2) { for (i=0; i < bs && n0[i] == 0xff; i++) ; if (i == bs || (i == bs-1)) wrap=1; } if (wrap) v_discard(); }
  nd_bytes(msg,L); SetStringInfoLength(t,L); memset(GetStringInfoDatum(t),0x5c,L+MaxCipherBlocksize); memcpy(GetStringInfoDatum(t),msg,L);
  VASSERT(EncipherCipher(ci,t) == t && GetStringInfoLength(t) == L,"in place, length kept");
  VASSERT(memcmp(GetStringInfoDatum(GetCipherNonce(ci)),n0,bs) == 0 && GetStringInfoLength(GetCipherNonce(ci)) == bs,"nonce of the object kept");
  VASSERT(memcmp(GetStringInfoDatum(nonce),n0,bs) == 0 && memcmp(GetStringInfoDatum(key),k0,kl) == 0 && GetStringInfoLength(key) == (kl ? kl : 0),"key and nonce of the caller kept");
  tot=m == 1 ? L : (L/bs+1)*bs;
  for (i=tot; i < L+MaxCipherBlocksize; i++) VASSERT(GetStringInfoDatum(t)[i] == 0x5c,"nothing behind the padding is touched");
  { StringInfo *u=AcquireStringInfo(L+bs); SetStringInfoLength(u,tot); memcpy(GetStringInfoDatum(u),GetStringInfoDatum(t),tot);
    VASSERT(DecipherCipher(dj,u) == u && GetStringInfoLength(u) == tot,"deciphered in place");
    VASSERT(memcmp(GetStringInfoDatum(u),msg,L) == 0,"deciphering undoes enciphering");
    memcpy(pad,GetStringInfoDatum(u),tot);
    if (m != 1) VASSERT(pad[tot-1] == tot-1-L,"padding ends in its length");
    DestroyStringInfo(u); }
  memcpy(reg,n0,bs);
  if (m == 1) for (i=0; i < L; i++) { E(c,reg,o); want[i]=pad[i]^o[0]; memmove(reg,reg+1,bs-1); reg[bs-1]=want[i]; }
  else for (i=0; i < tot; i+=bs)
    {
      uint8_t x[64];
      switch (m)
      {
        case 0: for (j=0; j < bs; j++) x[j]=pad[i+j]^reg[j]; E(c,x,want+i); memcpy(reg,want+i,bs); break;
        case 2: E(c,reg,o); for (j=0; j < bs; j++) want[i+j]=pad[i+j]^o[j]; { unsigned cy=1; for (j=bs; j-- > 0; ) { cy+=reg[j]; reg[j]=(uint8_t) cy; cy>>=8; } } break;
        case 3: E(c,pad+i,want+i); break;
        default: E(c,reg,o); memcpy(reg,o,bs); for (j=0; j < bs; j++) want[i+j]=pad[i+j]^o[j]; break;
      }
    }
  VASSERT(memcmp(GetStringInfoDatum(t),want,tot) == 0,"result is what the mode prescribes");
  /* recorded length, as stored */
  DecipherCipher(ci,t); VASSERT(GetStringInfoLength(t) == L && memcmp(GetStringInfoDatum(t),msg,L) == 0,"same object deciphers");
  DestroyCipherInfo(ci); DestroyCipherInfo(dj); DestroyStringInfo(key); DestroyStringInfo(nonce); DestroyStringInfo(t);
  DestroyAESInfo(A); DestroyChachaInfo(C); DestroySerpentInfo(S); DestroyTwofishInfo(T);
}
