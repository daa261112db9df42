/*
  HMAC contracts.  The hash is represented by its contract (P04/P05): an object that has been fed a
  transcript; finalising yields one value per transcript.  The transcript is tracked by its length
  and by the byte at an arbitrary position X, so the statements hold for every position.

    INIT   transcript = K' ^ ipad, nonces K' ^ ipad and K' ^ opad, from any earlier state
    UPD    transcript' = transcript || message
    RESET  transcript = K' ^ ipad again
    FIN    inner = H(transcript); digest = H(K' ^ opad || inner); nonces kept
*/
#include "vh.h"
#include "wizard/studio.h"
#include "wizard/hmac.c"
#include "private_StringInfo.h"
static size_t g_X,g_tlen; static uint8_t g_tb; static int g_open,g_finals; /* transcript */
static size_t g_flen[3]; static uint8_t g_fb[3],g_dv[3]; /* per finalisation: transcript and digest byte D */
static size_t g_D; static struct _StringInfo g_dg; static unsigned char g_dd[DS+MaxCipherBlocksize]; static int g_h;
WizardExport WizardBooleanType InitializeHash(HashInfo *h) { VASSERT((void *) h == (void *) &g_h,"own hash object"); g_tlen=0; g_tb=0; g_open=1; return(WizardTrue); }
WizardExport WizardBooleanType UpdateHash(HashInfo *h,const StringInfo *m)
{
  size_t n=GetStringInfoLength(m); const unsigned char *d=GetStringInfoDatum(m);
  VASSERT((void *) h == (void *) &g_h && g_open,"hash is initialised before it is fed");
  if (g_X >= g_tlen && g_X-g_tlen < n) g_tb=d[g_X-g_tlen];
  g_tlen+=n;
  return(WizardTrue);
}
WizardExport WizardBooleanType FinalizeHash(HashInfo *h)
{
  int i;
  VASSERT((void *) h == (void *) &g_h && g_open && g_finals < 3,"hash is initialised before it is finished");
  g_flen[g_finals]=g_tlen; g_fb[g_finals]=g_tb;
  for (i=0; i < DS; i++) g_dd[i]=nd_u8();
  g_dv[g_finals]=g_dd[g_D]; g_finals++; g_open=0;
  return(WizardTrue);
}
WizardExport const StringInfo *GetHashDigest(const HashInfo *h) { (void) h; return(&g_dg); }
WizardExport size_t GetHashDigestsize(const HashInfo *h) { (void) h; return(DS); }
WizardExport size_t GetHashBlocksize(const HashInfo *h) { (void) h; return(BS); }
WizardExport HashInfo *AcquireHashInfo(const HashType t) { (void) t; return((HashInfo *) &g_h); }
WizardExport HashInfo *DestroyHashInfo(HashInfo *h) { VASSERT((void *) h == (void *) &g_h,"own hash object"); return((HashInfo *) NULL); }
static void fill(StringInfo *s) { size_t i; for (i=0; i < s->length; i++) s->datum[i]=nd_u8(); }
void harness(void)
{
  HMACInfo *h=AcquireHMACInfo(SHA2256Hash); struct _StringInfo k; unsigned char *kd; size_t L=nd_size(); uint8_t kb,kx; size_t kp=nd_size();
  uint8_t in0[BS],fi0[BS]; int i;
  VASSERT(GetHMACDigestsize(h) == DS && GetStringInfoLength(GetHMACDigest(h)) == DS,"digest size is the hash's");
  VASSERT(h->initial_nonce->length == BS && h->final_nonce->length == BS,"nonces have the block size");
  g_X=nd_size(); VASSUME(g_X < ((size_t) 1 << 48)); g_D=nd_range(0,DS-1);
  g_dg.length=DS; g_dg.datum=g_dd; g_dg.signature=WizardSignature;
  for (i=0; i < DS; i++) g_dd[i]=nd_u8();
  /* any earlier use */
  fill(h->initial_nonce); fill(h->final_nonce); fill(h->digest);
  for (i=0; i < BS; i++) { in0[i]=h->initial_nonce->datum[i]; fi0[i]=h->final_nonce->datum[i]; }
  g_open=nd_bool(); g_tlen=nd_size(); g_tb=nd_u8(); VASSUME(g_tlen < ((size_t) 1 << 48));
  VASSUME(L <= ((size_t) 1 << 40)); kd=malloc(L+MaxCipherBlocksize); VASSUME(kd != 0 && kp < L+MaxCipherBlocksize);
  k.datum=kd; k.length=L; k.signature=WizardSignature; kb=kd[kp];
#if defined(INIT)
  kx=g_X < L ? kd[g_X] : 0; /* K'[X] for a key of at most a block */
  InitializeHMAC(h,&k);
  if (L > BS)
    {
      VASSERT(g_finals == 1 && g_flen[0] == L && (g_X >= L || g_fb[0] == kx),"a long key is hashed as it is");
      kx=g_X == g_D ? g_dv[0] : 0; /* K'[X] for X the tracked digest byte, and behind the digest */
    }
  else VASSERT(g_finals == 0,"a short key is not hashed");
  if (g_X < BS && (L <= BS || g_X == g_D || g_X >= DS))
    {
      VASSERT(h->initial_nonce->datum[g_X] == (kx^0x36),"inner key is K' xor ipad");
      VASSERT(h->final_nonce->datum[g_X] == (kx^0x5c),"outer key is K' xor opad");
      VASSERT(g_tb == (kx^0x36),"hash has been fed the inner key");
    }
  VASSERT(g_open && g_tlen == BS,"hash has been fed one block");
#elif defined(UPD)
  { size_t t=g_tlen; uint8_t b=g_tb; VASSUME(g_open);
  kx=g_X >= t && g_X-t < L ? kd[g_X-t] : b;
  UpdateHMAC(h,&k);
  VASSERT(g_open && g_finals == 0 && g_tlen == t+L && g_tb == kx,"the message is appended to what was fed before"); }
#elif defined(RESET)
  ResetHMAC(h);
  VASSERT(g_open && g_finals == 0 && g_tlen == BS && (g_X >= BS || g_tb == in0[g_X]),"hash has been fed the inner key only");
#else
  { size_t t=g_tlen; uint8_t b=g_tb; VASSUME(g_open);
  FinalizeHMAC(h);
  VASSERT(g_finals == 2 && g_flen[0] == t && g_fb[0] == b,"inner hash is that of what was fed");
  VASSERT(g_flen[1] == BS+DS,"outer hash is over the outer key and the inner digest");
  if (g_X < BS) VASSERT(g_fb[1] == fi0[g_X],"outer hash starts with the outer key");
  if (g_X == BS+g_D) VASSERT(g_fb[1] == g_dv[0],"inner digest follows");
  VASSERT(GetStringInfoDatum(GetHMACDigest(h))[g_D] == g_dv[1] && GetStringInfoLength(GetHMACDigest(h)) == DS,"code is the outer digest"); }
#endif
#if !defined(INIT)
  for (i=0; i < BS; i++) VASSERT(h->initial_nonce->datum[i] == in0[i] && h->final_nonce->datum[i] == fi0[i],"inner and outer key kept");
#endif
  VASSERT(k.length == L && k.datum == kd && kd[kp] == kb,"caller's string left alone");
  VASSERT(h->initial_nonce->length == BS && h->final_nonce->length == BS && h->digest->length == DS && (void *) h->hash_info == (void *) &g_h,"frame: object");
  VREACH("end");
}
