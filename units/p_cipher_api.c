/*
  Cipher object contracts: the object is bound to the functions, block size and key of the cipher
  asked for; nonces are set and generated as stated.
*/
#include "vh.h"
static int g_aes,g_cha,g_ser,g_two; static int g_set; static const void *g_seth,*g_setk;
#include "wizard/cipher.c"
static size_t g_rn; static unsigned char *g_rp;
AESInfo *AcquireAESInfo(void) { return (AESInfo *) &g_aes; }
ChachaInfo *AcquireChachaInfo(void) { return (ChachaInfo *) &g_cha; }
SerpentInfo *AcquireSerpentInfo(void) { return (SerpentInfo *) &g_ser; }
TwofishInfo *AcquireTwofishInfo(void) { return (TwofishInfo *) &g_two; }
unsigned int GetAESBlocksize(const AESInfo *i) { VASSERT((void *) i == &g_aes,"object"); return 16; }
unsigned int GetChachaBlocksize(const ChachaInfo *i) { VASSERT((void *) i == &g_cha,"object"); return 64; }
unsigned int GetSerpentBlocksize(const SerpentInfo *i) { VASSERT((void *) i == &g_ser,"object"); return 16; }
unsigned int GetTwofishBlocksize(const TwofishInfo *i) { VASSERT((void *) i == &g_two,"object"); return 16; }
#define SK(T,n) void Set##T##Key(T##Info *i,const StringInfo *k) { g_set=n; g_seth=i; g_setk=k; }
SK(AES,1) SK(Chacha,2) SK(Serpent,3) SK(Twofish,4)
#define BLK(T,n) void Encipher##T##Block(T##Info *i,const unsigned char *a,unsigned char *b) { (void) a; (void) b; g_set=10+n; g_seth=i; } \
  void Decipher##T##Block(T##Info *i,const unsigned char *a,unsigned char *b) { (void) a; (void) b; g_set=20+n; g_seth=i; }
BLK(AES,1) BLK(Chacha,2) BLK(Serpent,3) BLK(Twofish,4)
static int g_rand;
RandomInfo *AcquireRandomInfo(const HashType h) { (void) h; return (RandomInfo *) &g_rand; }
void SetRandomKey(RandomInfo *r,const size_t n,unsigned char *k) { VASSERT((void *) r == &g_rand,"own random source"); VASSERT(__CPROVER_w_ok(k,n),"storage"); g_rn=n; g_rp=k; for (size_t i=0; i < 64; i++) if (i < n) k[i]=nd_u8(); }
StringInfo *GetRandomKey(RandomInfo *r,const size_t n) { StringInfo *s=AcquireStringInfo(n); SetRandomKey(r,n,GetStringInfoDatum(s)); return s; }
void harness(void)
{
  static const CipherMode modes[5]={CBCMode,CFBMode,CTRMode,ECBMode,OFBMode};
  static const CipherType types[4]={AESCipher,ChachaCipher,SerpentCipher,TwofishCipher};
  int ti=TI,mi=(int) nd_range(0,4),i; size_t bs=ti == 1 ? 64 : 16; void *want=ti == 0 ? (void *) &g_aes : ti == 1 ? (void *) &g_cha : ti == 2 ? (void *) &g_ser : (void *) &g_two;
  unsigned char blk[64]; StringInfo *key=AcquireStringInfo(3),*n; uint8_t v[80]; size_t nl=NL;
  CipherInfo *c=AcquireCipherInfo(types[ti],modes[mi]);
  VASSERT(c->handle == want && c->blocksize == bs && GetCipherBlocksize(c) == bs && c->mode == modes[mi] && c->cipher == types[ti],"object bound to the cipher asked for");
  VASSERT(c->nonce != 0 && GetStringInfoLength(c->nonce) == bs && GetCipherNonce(c) == c->nonce,"nonce of one block");
  if (modes[mi] == CTRMode)
    { VASSERT(g_rn == bs/2 && g_rp == GetStringInfoDatum(c->nonce),"counter mode: upper half of the nonce random");
      for (i=(int) bs/2; i < (int) bs; i++) VASSERT(GetStringInfoDatum(c->nonce)[i] == 0,"counter mode: counter starts at zero"); }
  else VASSERT(g_rn == bs,"nonce is random");
  c->encipher_block(c->handle,blk,blk); VASSERT(g_set == 11+ti && g_seth == want,"enciphers with the cipher asked for");
  c->decipher_block(c->handle,blk,blk); VASSERT(g_set == 21+ti && g_seth == want,"deciphers with the cipher asked for");
  SetCipherKey(c,key); VASSERT(g_set == 1+ti && g_seth == want && g_setk == key,"key goes to the cipher asked for");
  n=AcquireStringInfo(nl); for (i=0; i < (int) nl; i++) { uint8_t x=nd_u8(); v[i]=x; GetStringInfoDatum(n)[i]=x; }
  SetCipherNonce(c,n);
  VASSERT(GetStringInfoLength(c->nonce) == bs && c->nonce != n,"nonce keeps its size");
  for (i=0; i < (int) bs; i++) if (i < (int) nl) VASSERT(GetStringInfoDatum(c->nonce)[i] == v[i],"nonce is the one given");
  for (i=0; i < (int) nl; i++) VASSERT(GetStringInfoDatum(n)[i] == v[i],"caller's nonce left alone");
  ResetCipherNonce(c);
  for (i=0; i < (int) bs; i++) VASSERT(GetStringInfoDatum(c->nonce)[i] == 0,"nonce reset");
  VREACH("end");
}
