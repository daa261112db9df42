/*
  Sponge streaming contract.  Representation invariant: after N bytes the queue holds the last
  N mod RB of them, every earlier byte was absorbed in order in blocks of RB.  UPDATE: any message
  of any length (0..2^48) from any such state re-establishes it for N+len.  The permutation is represented by its contract
  (p_sha3_block); g_b is an arbitrary byte index of the state.
*/
#include "p_sha3.h"
static size_t g_abs,g_off,g_len,g_b; static unsigned char *g_base,*g_msg,*g_state; static uint8_t g_oldmsg[RB],g_prev;
static uint8_t g_byte(size_t k) { return k < g_off ? g_oldmsg[k] : g_base[k-g_off]; }
static void g_hq(void) { int k; for (k=0; k < RB; k++) g_msg[k]=nd_u8(); }
static void g_hs(unsigned char *s) { int k; for (k=0; k < 200; k++) s[k]=nd_u8(); }
static void *v_memcpy(void *d,const void *s,size_t n)
{
  size_t off; uint8_t v=0;
  VLIMIT(VSAME(d,g_msg) && (unsigned char *) d >= g_msg,"memcpy targets the queue");
  if (n == 0) return d;
  off=(size_t) ((unsigned char *) d-g_msg);
  VASSERT(__CPROVER_r_ok(s,n) && off < RB && n <= RB-off,"memcpy within bounds");
  if (g_b < RB) v=(g_b >= off && g_b-off < n) ? ((const unsigned char *) s)[g_b-off] : g_msg[g_b];
  g_hq();
  if (g_b < RB) g_msg[g_b]=v;
  return d;
}
#define memcpy v_memcpy
#define INVQ(ii,qq) ((g_abs <= g_off+g_len) && (8*g_off+(size_t) (ii) == 8*g_abs+(qq)))
#define VINV_out ((i >= 0) && ((size_t) i <= length) && (i % 8 == 0) && (length == 8*g_len) && (message == g_base) && (sha_info->bits_in_queue % 8 == 0) && \
  (sha_info->bits_in_queue < 8*RB) && INVQ(i,sha_info->bits_in_queue) && (sha_info->squeeze == WizardFalse) && \
  ((8*g_b >= sha_info->bits_in_queue) || (g_msg[g_b] == g_byte(g_abs+g_b))) && (g_state[g_b] == g_prev))
#define HEAP0 (g_hq(), g_hs(g_state), g_abs=nd_size(), g_prev=nd_u8())
#define VHEAP_out (HEAP0, sha_info->bits_in_queue=nd_u32())
#define INVI ((j >= 0) && (j <= (ssize_t) blocks) && VSAME(p,g_base) && (p == message+i/8+(size_t) j*RB) && (sha_info->bits_in_queue == 0) && \
  ((size_t) i+(size_t) j*8*RB <= length) && INVQ((size_t) i+(size_t) j*8*RB,0) && (g_state[g_b] == g_prev))
#define HEAPI (HEAP0, VASSUME(j >= 0 && j <= (ssize_t) blocks), p=message+i/8+(size_t) j*RB)
#define VINV_i INVI
#define VHEAP_i HEAPI
#include "wizard/sha3.c"
#undef memcpy
#include "private_StringInfo.h"
/* contract of SHA3PermutationAfterXor: p_sha3_block */
static inline void SHA3PermutationAfterXor(const SHA3Info *h,const unsigned char *m,const size_t n,unsigned char *s)
{
  VASSERT(s == (unsigned char *) h->state && n == RB,"a whole block is absorbed into the sponge state");
  VASSERT(g_b >= RB || m[g_b] == g_byte(g_abs+g_b),"each absorbed block is the next RB bytes of the padded message");
  VASSERT(s[g_b] == g_prev,"state untouched between permutations");
  VASSERT(s == g_state && g_abs+RB <= g_off+g_len,"only message bytes are absorbed");
  g_hs(s); g_prev=s[g_b]; g_abs+=RB;
}
void harness(void)
{
  SHA3Info hh,*h=&hh,old; struct _StringInfo in,dig; int i; unsigned char digbuf[DS+128],*d; size_t L;
  hh.hash=HT; hh.digestsize=DS; hh.blocksize=64; hh.rate=8*RB; hh.capacity=16*DS; hh.length=8*DS; hh.squeeze=WizardFalse; hh.squeeze_bits=0; hh.lsb_first=WizardTrue; hh.signature=WizardSignature;
  dig.length=DS; dig.datum=digbuf; dig.signature=WizardSignature; hh.digest=(StringInfo *) &dig;
  g_off=nd_range(0,RB-1); hh.bits_in_queue=8*g_off; g_b=nd_range(0,199);
  for (i=0; i < RB; i++) { uint8_t x=nd_u8(); hh.message[i]=x; g_oldmsg[i]=x; }
  g_msg=hh.message; g_state=hh.state; g_prev=hh.state[g_b];
  old=hh;
  L=nd_size(); VASSUME(L <= ((size_t) 1 << 48)); d=malloc(L+128);
  in.length=L; in.datum=d; in.signature=WizardSignature; g_base=d; g_len=L;
  { size_t q=nd_size(); uint8_t v; VASSUME(q < L+128); v=d[q];
  VASSERT(UpdateSHA3(h,(StringInfo *) &in) != WizardFalse,"update reports success");
  VASSERT(d[q] == v && in.length == L && in.datum == d,"update leaves the message alone"); }
  VASSERT(g_off+L == g_abs+hh.bits_in_queue/8,"every byte absorbed or queued, once");
  VASSERT(hh.bits_in_queue < 8*RB && hh.bits_in_queue % 8 == 0 && hh.squeeze == WizardFalse,"queue bounds");
  VASSERT(8*g_b >= hh.bits_in_queue || hh.message[g_b] == g_byte(g_abs+g_b),"queue holds the remaining bytes");
  VASSERT(hh.state[g_b] == g_prev,"state is that of the last permutation");
  VASSERT(hh.rate == 8*RB && hh.length == 8*DS && hh.signature == WizardSignature && hh.hash == HT,"frame");
  VREACH("end");
}
