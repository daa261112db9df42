/*
  Random stream contracts.  HMAC is represented by its contract (P06): one value per message under the
  object's key.  The stream is the concatenation of the codes of nonce, nonce+1, nonce+2, ...; what is
  left of the last code waits in the reservoir behind position i.  K = left + B*D + o is an arbitrary
  position of the request (block B, byte o), fixed before the run.
*/
#include "vh.h"
#define NL (2*DS)
static size_t g_K,g_B,g_o,g_left,g_gen,g_len; static uint8_t g_val,g_exp; static unsigned char *g_key;
static uint8_t g_ctr[NL]; static int g_wrap,g_reset,g_fed;
static unsigned char *g_nd;
static int g_same(const unsigned char *p) { int k,ok=1; for (k=0; k < NL; k++) ok=ok && p[k] == g_ctr[k]; return ok; }
static int v_hv(void) { int k; for (k=0; k < NL; k++) g_ctr[k]=g_nd[k]=nd_u8(); g_gen=nd_size(); g_val=nd_u8(); VHAVOC_OBJ(g_key); return 0; }
#define EXPECT (g_K < g_left ? g_exp : g_val)
#define VINV_m (VSAME(p,g_key) && g_gen <= g_len/DS && p == g_key+g_left+g_gen*DS && i == g_len-g_left-g_gen*DS && g_left+g_gen*DS <= g_len && \
  g_same(g_nd) && !g_wrap && (g_K >= g_left+g_gen*DS || g_key[g_K] == EXPECT))
#define VHEAP_m (v_hv(), VASSUME(g_gen <= g_len/DS), p=g_key+g_left+g_gen*DS, g_reset=g_fed=0)
/* first loop: what is left in the reservoir */
static size_t g_d1,g_i0,g_I; static int g_z;
#define VINV_a (VSAME(p,g_key) && (g_d1=(size_t) (p-g_key)) <= g_left && p == g_key+g_d1 && i == g_len-g_d1 && random_info->i == (g_i0 == 0 || g_i0+g_d1 == DS ? 0 : g_i0+g_d1) && \
  (g_K >= g_d1 || g_key[g_K] == EXPECT))
#define VHEAP_a (g_d1=nd_size(), VASSUME(g_d1 <= g_left), VHAVOC_OBJ(g_key), p=g_key+g_d1, random_info->i=g_i0 == 0 || g_i0+g_d1 == DS ? 0 : g_i0+g_d1)
/* last loop: the first part of a new block */
#define VINV_z ((v_visit_z == 1 && !g_z ? (g_z=1,g_I=i,1) : 1) && i <= g_I && VSAME(p,g_key) && p == g_key+g_left+(g_gen-1)*DS && (g_K < g_left || g_B+1 < g_gen || g_o < i || g_key[g_K] == EXPECT) && ((g_K >= g_left && g_B+1 >= g_gen) || g_key[g_K] == EXPECT))
#define VHEAP_z (VHAVOC_OBJ(g_key), p=g_key+g_left+(g_gen-1)*DS)
#include "wizard/studio.h"
#include "wizard/random.c"
#include "private_StringInfo.h"
static struct _StringInfo g_dg; static unsigned char g_dd[DS+MaxCipherBlocksize]; static int g_h,g_locked;
/* contract of the copy: n bytes at d become those at s; of the request only byte K is remembered */
void *CopyWizardMemory(void *d,const void *s,size_t n)
{
  size_t o; uint8_t v=g_key[g_K];
  VASSERT(__CPROVER_w_ok(d,n) && __CPROVER_r_ok(s,n),"copy within the buffers");
  VLIMIT(VSAME(d,g_key) && !VSAME(s,g_key),"copy to the request");
  o=(size_t) ((unsigned char *) d-g_key);
  if (g_K >= o && g_K-o < n) v=((const unsigned char *) s)[g_K-o];
  VHAVOC_OBJ(g_key); VASSUME(g_key[g_K] == v);
  return d;
}
void v_exit(int c) { (void) c; VASSERT(g_wrap,"no fatal exit before the counter wraps"); VASSUME(0); }
WizardExport void ResetHMAC(HMACInfo *h) { VASSERT((void *) h == (void *) &g_h,"own HMAC object"); g_reset=1; g_fed=0; }
WizardExport void UpdateHMAC(HMACInfo *h,const StringInfo *m)
{
  VASSERT((void *) h == (void *) &g_h && g_reset && !g_fed,"one counter value per block");
  VASSERT(GetStringInfoLength(m) == NL && !g_wrap && g_same(GetStringInfoDatum(m)),"block is generated from the next counter value");
  g_fed=1;
}
WizardExport void FinalizeHMAC(HMACInfo *h)
{
  int k; unsigned c=1;
  VASSERT((void *) h == (void *) &g_h && g_reset && g_fed && g_locked,"HMAC of the counter");
  for (k=0; k < DS; k++) g_dd[k]=nd_u8();
  if (g_gen == g_B) g_val=g_dd[g_o];
  g_gen++; g_reset=g_fed=0;
  for (k=NL-1; k >= 0; k--) { c+=g_ctr[k]; g_ctr[k]=(uint8_t) c; c>>=8; if (k == 1 && c) g_wrap=1; }
}
WizardExport const StringInfo *GetHMACDigest(const HMACInfo *h) { (void) h; return(&g_dg); }
WizardExport size_t GetHMACDigestsize(const HMACInfo *h) { (void) h; return(DS); }
WizardExport void LockSemaphoreInfo(SemaphoreInfo *s) { (void) s; g_locked=1; }
WizardExport void UnlockSemaphoreInfo(SemaphoreInfo *s) { (void) s; g_locked=0; }
void harness(void)
{
  RandomInfo r; struct _StringInfo nn,rs; unsigned char nd[NL+MaxCipherBlocksize],rd[DS+MaxCipherBlocksize],r0[DS]; size_t L=nd_size(),i0; int k;
  memset(&r,0,sizeof(r)); r.signature=WizardSignature; r.hmac_info=(HMACInfo *) &g_h; r.nonce=&nn; r.reservoir=&rs;
  nn.datum=nd; nn.length=NL; nn.signature=WizardSignature; rs.datum=rd; rs.length=DS; rs.signature=WizardSignature;
  g_dg.datum=g_dd; g_dg.length=DS; g_dg.signature=WizardSignature; g_nd=nd;
  for (k=0; k < NL; k++) { uint8_t x=nd_u8(); nd[k]=x; g_ctr[k]=x; }
  for (k=0; k < DS; k++) { uint8_t x=nd_u8(); rd[k]=x; r0[k]=x; }
  i0=nd_range(0,DS-1); r.i=i0; g_i0=i0;
  VASSUME(L <= ((size_t) 1 << 40)); g_len=L; g_key=malloc(L); VASSUME(g_key != 0);
  g_left=i0 == 0 ? 0 : DS-i0; if (g_left > L) g_left=L;
  g_o=nd_range(0,DS-1); g_B=nd_size(); VASSUME(g_B <= L/DS);
  if (nd_bool()) { g_K=nd_size(); VASSUME(g_K < g_left); g_exp=r0[i0+g_K]; }
  else { g_K=g_left+g_B*DS+g_o; VASSUME(g_K < L); }
  if (L == 0) g_K=0; else VASSUME(g_K < L);
  SetRandomKey(&r,L,g_key);
  if (L != 0) VASSERT(g_key[g_K] == EXPECT,"byte K of the request is the next byte of the stream");
  VASSERT(!g_locked,"lock given back");
  VASSERT(r.i < DS,"reservoir position in range");
  if (L < (i0 == 0 ? 0 : DS-i0)) VASSERT(g_gen == 0 && r.i == i0+L,"the rest of the reservoir waits");
  else if (r.i == 0) VASSERT(L-g_left == g_gen*DS,"every generated byte was handed out");
  else
    {
      VASSERT(g_gen != 0 && L-g_left == (g_gen-1)*DS+r.i,"bytes behind the position have not been handed out");
      for (k=0; k < DS; k++) VASSERT(k < (int) r.i || rd[k] == g_dd[k],"reservoir holds the last block");
    }
  if (g_gen == 0) for (k=0; k < DS; k++) VASSERT(rd[k] == r0[k] || k < (int) r.i,"reservoir kept");
  for (k=0; k < NL; k++) VASSERT(nd[k] == g_ctr[k],"counter advanced by the number of blocks");
  VASSERT(r.nonce == &nn && r.reservoir == &rs && nn.datum == nd && rs.datum == rd && nn.length == NL && rs.length == DS && (void *) r.hmac_info == (void *) &g_h,"frame: object");
  VREACH("end");
}
