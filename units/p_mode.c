/*
  Mode contracts.  The block functions are represented by their contract (any function of the block,
  result havocked, input checked).  J is an arbitrary block (CFB: byte) number and b an arbitrary byte
  of a block, fixed before the run; the loop over the message is cut at its invariant, so the result
  holds for every message length up to 2^40 and every block.

    CBC  in(J) = P_J ^ C_{J-1}      C_J = E         decipher: in(J) = C_J, P_J = D ^ C_{J-1}
    CFB  in(J) = last BS bytes of nonce||C          C_J = P_J ^ E[0]
    CTR  in(J) = nonce + J, big endian              C_J = P_J ^ E
    ECB  in(J) = P_J                C_J = E
    OFB  in(J) = E of call J-1 (nonce first)        C_J = P_J ^ E
*/
#include "vh.h"
#define CBC 1
#define CFB 2
#define CTR 3
#define ECB 4
#define OFB 5
#define MAXBS 64
static size_t g_calls,g_total,g_J,g_b,g_len,g_Z,g_X; static unsigned char *g_base;
static uint8_t g_P,g_out,g_last,g_Q,g_zv,g_S; static uint8_t g_ctr[MAXBS]; static int g_wrapped;
static const unsigned char *g_nonce; static uint8_t g_nonce0;
static int g_handle;
#define DAT(i) (g_base[(i)])
#define POS (g_J*STEP+(MODE == CFB ? 0 : g_b))
#if MODE == CFB
#define STEP 1
#else
#define STEP BS
#endif
/* block function actually expected: CBC/ECB decipher with D, everything else with E */
#define WANT_D (DEC && (MODE == CBC || MODE == ECB))
#if MODE == CBC || MODE == ECB
#define AFTER (MODE == CBC && DEC ? (uint8_t) (g_out^g_Q) : g_out)
#else
#define AFTER ((uint8_t) (g_P^g_out))
#endif
static int g_ctrok(const unsigned char *ib) { int i,ok=1; for (i=0; i < BS; i++) ok=ok && ib[i] == g_ctr[i]; return ok; }
#define INV_COMMON (VSAME(p,g_base) && p == g_base+g_calls*STEP && g_calls <= g_total && \
  DAT(POS) == (g_calls <= g_J ? g_P : AFTER) && DAT(g_Z) == g_zv)
#if MODE == CBC && !DEC
#define INV_MODE (input_block[g_b] == g_last)
#elif MODE == CBC
#define INV_MODE ((g_calls != g_J || input_block[g_b] == g_Q) && (g_J == 0 || g_calls >= g_J || DAT(POS-BS) == g_Q))
#elif MODE == CFB
#define INV_MODE ((g_X < g_calls || g_X >= g_calls+BS || input_block[g_X-g_calls] == g_S) && (!DEC || g_X < BS || g_X-BS >= g_total || g_calls > g_X-BS || DAT(g_X-BS) == g_S))
#elif MODE == CTR
#define INV_MODE (!g_wrapped && g_ctrok(input_block))
#elif MODE == OFB
#define INV_MODE (input_block[g_b] == g_last)
#else
#define INV_MODE 1
#endif
static void g_hv(void)
{
  int i;
  VHAVOC_OBJ(g_base); g_calls=nd_size(); g_out=nd_u8(); g_last=nd_u8();
  for (i=0; i < BS; i++) g_ctr[i]=nd_u8();
#if MODE == CFB && !DEC
  if (g_X >= BS) g_S=nd_u8();
#endif
}
#define VINV_m (INV_COMMON && INV_MODE)
#define VHEAP_m (g_hv(), VASSUME(g_calls <= g_total), p=g_base+g_calls*STEP)
#include "wizard/cipher.c"
#include "private_StringInfo.h"
/* a fatal exit is allowed only when the counter has wrapped */
void v_exit(int c) { (void) c; VASSERT(MODE == CTR && g_wrapped,"no fatal exit"); VASSUME(0); }
static void block(int isd,void *h,const unsigned char *in,unsigned char *out)
{
  uint8_t v; int i;
  VASSERT(h == (void *) &g_handle,"block function gets the cipher's own key");
  VASSERT(isd == WANT_D,"direction of the block function");
  VASSERT(g_calls < g_total,"no block beyond the message and its padding");
#if MODE == CBC && !DEC
  VASSERT(g_calls != g_J || in[g_b] == (uint8_t) (g_P^g_last),"CBC: block input is P_j xor C_(j-1)");
#elif MODE == CBC || MODE == ECB
  VASSERT(g_calls != g_J || in[g_b] == g_P,"block input is block j of the text");
#elif MODE == CFB
  VASSERT(g_X < g_calls || g_X >= g_calls+BS || in[g_X-g_calls] == g_S,"CFB: block input is the last cipher bytes");
#elif MODE == CTR
  VASSERT(!g_wrapped && g_ctrok(in),"CTR: block input is nonce + j");
#elif MODE == OFB
  VASSERT(in[g_b] == g_last,"OFB: block input is the previous output");
#endif
  for (i=0; i < BS; i++) out[i]=nd_u8();
  v=out[MODE == CFB ? 0 : g_b]; g_last=v;
  if (g_calls == g_J) g_out=v;
#if MODE == CFB && !DEC
  if (g_X >= BS && g_calls == g_X-BS) g_S=DAT(g_calls)^v;
#endif
#if MODE == CTR
  { unsigned c=1; for (i=BS-1; i >= 0; i--) { c+=g_ctr[i]; g_ctr[i]=(uint8_t) c; c>>=8; } if (c) g_wrapped=1; }
#endif
  g_calls++;
}
static void blockE(void *h,const unsigned char *in,unsigned char *out) { block(0,h,in,out); }
static void blockD(void *h,const unsigned char *in,unsigned char *out) { block(1,h,in,out); }
/* padding bytes come from the random source; its contract (P07): n bytes written */
void SetRandomKey(RandomInfo *r,const size_t n,unsigned char *k)
{
  uint8_t vp=g_base[POS],vz=g_base[g_Z]; size_t o;
  (void) r;
  VASSERT(n < BS,"padding shorter than a block");
  VLIMIT(VSAME(k,g_base),"padding goes to the text");
  VASSERT(__CPROVER_w_ok(k,n),"padding within the storage");
  o=(size_t) (k-g_base);
  /* n arbitrary bytes at k; elsewhere only the tracked bytes are remembered */
  VHAVOC_OBJ(g_base);
  VASSERT(n == 0 || g_Z < o || g_Z >= o+n,"nothing beyond the padding is touched");
  VASSUME(g_base[g_Z] == vz);
  if (POS >= o && POS < o+n) { VASSERT(POS >= g_len,"padding lies behind the message"); g_P=g_base[POS]; } else VASSUME(g_base[POS] == vp);
}
StringInfo *GetRandomKey(RandomInfo *r,const size_t n) { (void) r; (void) n; VASSERT(0,"no new nonce"); return 0; }
void harness(void)
{
  struct _StringInfo pt,nn; CipherInfo ci; unsigned char nonce[BS+8],*d; StringInfo *r; uint8_t first; int i; size_t L=nd_size(),zz;
  VASSUME(L <= ((size_t) 1 << 40));
  d=malloc(L+MaxCipherBlocksize); /* a byte string has this slack behind its length (P08/P10) */
  VASSUME(d != 0);
  g_base=d; g_len=L; g_b=nd_range(0,BS-1); g_J=nd_size(); g_Z=nd_size(); g_X=nd_size();
#if MODE == CFB
  g_total=L;
#elif DEC
  g_total=L/BS+(L % BS != 0);
#else
  g_total=L/BS+1;
#endif
  VASSUME(g_J < g_total || (g_total == 0 && g_J == 0));
  VASSUME(g_Z < L+MaxCipherBlocksize && g_Z >= g_total*STEP);
#if MODE == CFB
  VASSUME(g_X < L+BS);
#endif
  pt.datum=d; pt.length=L; pt.signature=WizardSignature; nn.datum=nonce; nn.length=BS; nn.signature=WizardSignature;
  for (i=0; i < BS; i++) { uint8_t x=nd_u8(); nonce[i]=x; g_ctr[i]=x; }
  first=nonce[g_b]; g_last=first; g_nonce=nonce;
#if MODE == CFB
  if (g_X < BS) g_S=nonce[g_X]; else g_S=d[g_X-BS];
#endif
  g_zv=d[g_Z];
  g_P=d[POS];
  g_Q=g_J == 0 ? first : d[POS-(MODE == CBC && DEC ? BS : 0)];
#if !DEC && MODE != CFB
  if (POS == g_total*BS-1) g_P=(uint8_t) (BS-1-L % BS);
#endif
  memset(&ci,0,sizeof(ci));
  ci.blocksize=BS; ci.mode=MODE == CBC ? CBCMode : MODE == CFB ? CFBMode : MODE == CTR ? CTRMode : MODE == ECB ? ECBMode : OFBMode;
  ci.nonce=&nn; ci.signature=WizardSignature; ci.encipher_block=blockE; ci.decipher_block=blockD; ci.handle=(void *) &g_handle;
#if DEC
  r=DecipherCipher(&ci,&pt);
#else
  r=EncipherCipher(&ci,&pt);
#endif
  VASSERT(r == &pt && pt.datum == d && pt.length == L,"the text is transformed in place and its length kept");
  VASSERT(g_calls == g_total,"every block is processed, including the padding block");
  if (g_total != 0) VASSERT(d[POS] == AFTER,"block j of the result is what the mode prescribes");
  VASSERT(d[g_Z] == g_zv,"nothing behind the padding is touched");
  VASSERT(nonce[g_b] == first && ci.nonce == &nn && nn.length == BS && nn.datum == nonce,"the nonce is kept");
  VASSERT(ci.blocksize == BS && ci.handle == (void *) &g_handle && ci.encipher_block == blockE && ci.decipher_block == blockD && ci.signature == WizardSignature,"frame: cipher object");
  VREACH("end");
}
