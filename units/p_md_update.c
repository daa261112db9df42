/*
  Streaming contract.  Representation invariant: after N message bytes the buffer holds the last
  N mod BS bytes, all earlier bytes were compressed in order in blocks of BS, and the counters hold
  8N.  Updating with any message of any length (0..2^48 bytes) from any state satisfying the
  invariant re-establishes it for N+len bytes; hence the digest is independent of the splitting.
  The compression is represented by its contract (p_md_block): it reads block buffer and chaining
  value, changes the chaining value only.
*/
#include "p_md.h"
#include <stdint.h>
static size_t g_calls,g_off,g_len,g_b; static unsigned char *g_base; static WORD g_acc[NW]; static uint8_t g_oldmsg[BS];
static unsigned char *g_msg; static WORD *g_accp;
static uint8_t g_byte(size_t k) { return k < g_off ? g_oldmsg[k] : g_base[k-g_off]; }
static int g_accok(void) { int i,ok=1; for (i=0; i < NW; i++) ok=ok && (g_accp[i] == g_acc[i]); return ok; }
static void g_havocacc(void) { int i; for (i=0; i < NW; i++) { WORD w=(WORD) nd_u64(); g_acc[i]=w; g_accp[i]=w; } }
/* memcpy into the block buffer, exact for the byte at the arbitrary index g_b, arbitrary elsewhere */
static void *v_memcpy(void *d,const void *s,size_t n)
{
  size_t off; uint8_t v;
  VLIMIT(VSAME(d,g_msg),"memcpy targets the block buffer");
  if (n == 0) return d;
  VASSERT(__CPROVER_r_ok(s,n) && __CPROVER_w_ok(d,n),"memcpy within bounds");
  off=(size_t) ((unsigned char *) d-g_msg);
  v=(g_b >= off && g_b-off < n) ? ((const unsigned char *) s)[g_b-off] : g_msg[g_b];
  VHAVOC_OBJ(g_msg); g_msg[g_b]=v;
  return d;
}
void *CopyWizardMemory(void *d,const void *s,size_t n) { return v_memcpy(d,s,n); }
#define memcpy v_memcpy
#if BE
#define VINV_upd ((n <= g_len) && (VSAME(p,g_base)) && (p == g_base+(g_len-n)) && (g_calls <= g_len) && (g_len-n+g_off == g_calls*BS) && g_accok())
#define VHEAP_upd (VHAVOC_OBJ(g_msg), g_calls=nd_size(), VASSUME(n <= g_len), p=g_base+(g_len-n), g_havocacc())
#else
#define VINV_upd ((i >= 0) && ((size_t) i <= g_len) && (number_bytes < BS) && (g_calls <= g_len) && \
  (g_off+(size_t) i == g_calls*BS+number_bytes) && \
  ((g_b >= number_bytes) || (g_msg[g_b] == g_byte(g_calls*BS+g_b))) && g_accok())
#define VHEAP_upd (VHAVOC_OBJ(g_msg), g_calls=nd_size(), g_havocacc())
#endif
#include HASHC
#include "wizard/string.c"
#undef memcpy
#include "hash_spec.h"
#if BE
static void TRF(INFO *h)
{
  VASSERT(GetStringInfoDatum(h->message) == g_msg && h->accumulator == g_accp,"compression gets the object's own buffers");
  VASSERT(g_msg[g_b] == g_byte(g_calls*BS+g_b),"each compressed block is the next BS bytes of the message");
#else
static void TRF(INFO *h,const unsigned int *w)
{
  VASSERT(h->accumulator == g_accp,"compression gets the object's own chaining value");
  VASSERT((uint8_t) (w[g_b/4] >> (8*(g_b % 4))) == g_byte(g_calls*BS+g_b),"each compressed block is the next BS bytes of the message");
#endif
  VASSERT(g_calls*BS+BS <= g_off+g_len,"only message bytes are compressed");
  VASSERT(g_accok(),"chaining value untouched between compressions");
  g_havocacc(); g_calls++;
}
void harness(void)
{
  INFO hh,*h=&hh; struct _StringInfo msg,in; int i; uint64_t lo,hi; size_t noff; unsigned __int128 bits; WORD acc[NW];
  unsigned char msgbuf[BS+WizardPathExtent > BS+4096 ? BS+4096 : BS+128],*d;
  WORD before_lo;
  size_t L=nd_size();
  VASSUME(L <= ((size_t) 1 << 48));
  d=malloc(L+128);
  memset(&hh,0,sizeof(hh));
  msg.length=BS; msg.datum=msgbuf; msg.signature=WizardSignature;
  in.length=L; in.datum=d; in.signature=WizardSignature;
  hh.message=&msg; hh.accumulator=(void *) acc; hh.blocksize=BS; hh.digestsize=NO*sizeof(WORD); hh.signature=WizardSignature;
#if BE
  hh.lsb_first=WizardTrue;
#endif
  g_off=nd_range(0,BS-1); g_b=nd_range(0,BS-1);
  hh.low_order=(WORD) nd_u64(); hh.high_order=(WORD) nd_u64();
  VASSUME(((hh.low_order >> 3) & (BS-1)) == g_off); VASSUME((hh.low_order & 7) == 0);
#if BE
  hh.offset=g_off;
#endif
  for (i=0; i < BS; i++) { uint8_t x=nd_u8(); msgbuf[i]=x; g_oldmsg[i]=x; }
  g_base=d; g_len=L; g_msg=msgbuf; g_accp=acc; g_havocacc();
  bits=((unsigned __int128) hh.high_order << (8*sizeof(WORD)))+hh.low_order;
  { size_t q=nd_size(); uint8_t v; VASSUME(q < L+128); v=d[q];
  VASSERT(UPD(h,(StringInfo *) &in) != WizardFalse,"update reports success");
  VASSERT(d[q] == v && in.length == L && in.datum == d,"update leaves the message alone"); }
  bits+=(unsigned __int128) L << 3;
  VASSERT(h->low_order == (WORD) bits && h->high_order == (WORD) (bits >> (8*sizeof(WORD))),"bit counter advanced by exactly 8*length");
  VASSERT(g_calls == (g_off+L)/BS,"every complete block compressed, none twice");
  noff=(g_off+L) % BS;
#if BE
  VASSERT(h->offset == noff,"buffer position");
#endif
  VASSERT(g_b >= noff || msgbuf[g_b] == g_byte(g_calls*BS+g_b),"buffer holds the remaining bytes");
  VASSERT(g_accok(),"chaining value is that of the last compression");
  VASSERT(h->message == (StringInfo *) &msg && h->accumulator == (void *) acc && msg.length == BS && msg.datum == msgbuf && h->signature == WizardSignature && h->blocksize == BS,"frame");
  VREACH("end");
}
