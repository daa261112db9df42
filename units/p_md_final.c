/*
  Finalisation contract.  From any state satisfying the representation invariant (see p_md_update)
  the blocks compressed are exactly the remaining bytes, the byte 0x80, zero bytes, and the bit
  length in LB bytes, as the standard prescribes; the digest is the resulting chaining value.
*/
#include "p_md.h"
static size_t g_calls,g_off,g_b,g_total; static WORD g_acc[NW]; static uint8_t g_oldmsg[BS],g_lenf[16];
static unsigned char *g_msg; static WORD *g_accp; static WORD g_low0;
static uint8_t g_byte(size_t k)
{
  if (k < g_off) return g_oldmsg[k];
  if (k == g_off) return 0x80;
  if (k >= g_total*BS-LB) return g_lenf[k-(g_total*BS-LB)];
  return 0;
}
static int g_accok(void) { int i,ok=1; for (i=0; i < NW; i++) ok=ok && (g_accp[i] == g_acc[i]); return ok; }
static void g_havocacc(void) { int i; for (i=0; i < NW; i++) { WORD w=(WORD) nd_u64(); g_acc[i]=w; g_accp[i]=w; } }
#include HASHC
#include "private_StringInfo.h"
#if !BE
/* contracts of the byte-string functions (property P08): a new string is zero filled and has slack behind it */
static unsigned char g_pad[256]; static struct _StringInfo g_padinfo;
StringInfo *AcquireStringInfo(const size_t n)
{ VLIMIT(n <= 128 && g_padinfo.signature == 0,"one padding string of at most 128 bytes"); g_padinfo.length=n; g_padinfo.datum=g_pad; g_padinfo.signature=WizardSignature; return &g_padinfo; }
StringInfo *DestroyStringInfo(StringInfo *s) { VASSERT(s == &g_padinfo && s->signature == WizardSignature,"destroys its own string once"); s->signature=0; return NULL; }
unsigned char *GetStringInfoDatum(const StringInfo *s) { return s->datum; }
size_t GetStringInfoLength(const StringInfo *s) { return s->length; }
#endif
#if BE
static void TRF(INFO *h)
{
  VASSERT(GetStringInfoDatum(h->message) == g_msg && h->accumulator == g_accp,"compression gets the object's own buffers");
  VASSERT(g_msg[g_b] == g_byte(g_calls*BS+g_b),"padded block is what the standard prescribes");
#else
static void TRF(INFO *h,const unsigned int *w)
{
  VASSERT(h->accumulator == g_accp,"compression gets the object's own chaining value");
  VASSERT((uint8_t) (w[g_b/4] >> (8*(g_b % 4))) == g_byte(g_calls*BS+g_b),"padded block is what the standard prescribes");
#endif
  VASSERT(g_accok(),"chaining value untouched between compressions");
  g_havocacc(); g_calls++;
}
#if !BE
/* contract of UpdateMD5, proved by p_md_update */
static size_t g_pos;
WizardExport WizardBooleanType UpdateMD5(MD5Info *h,const StringInfo *m)
{
  size_t len=GetStringInfoLength(m),j=nd_size(),c; int i;
  VLIMIT(len <= 128,"padding passed to update");
  VASSERT(h->message != NULL && GetStringInfoDatum(h->message) == g_msg && h->accumulator == g_accp,"update gets the object itself");
  VASSERT(h->low_order == (WORD) (8*(g_pos-g_off))+g_low0,"counters untouched before padding");
  VASSERT(g_accok(),"chaining value untouched between compressions");
  VASSERT(g_pos+len <= g_total*BS,"padding length");
  VASSERT(j >= len || GetStringInfoDatum(m)[j] == g_byte(g_pos+j),"padding bytes are what the standard prescribes");
  c=(g_pos+len)/BS-g_pos/BS;
  g_pos+=len; g_calls+=c;
  if (c != 0) g_havocacc();
  VHAVOC_OBJ(g_msg); if (g_b < g_pos % BS) g_msg[g_b]=g_byte(g_pos-g_pos % BS+g_b);
  h->low_order+=(WORD) (8*len); if (h->low_order < (WORD) (8*len)) h->high_order++;
  return(WizardTrue);
}
#endif
void harness(void)
{
  INFO hh,*h=&hh; struct _StringInfo msg,dig; int i; WORD acc[NW]; unsigned __int128 bits;
  unsigned char msgbuf[BS+128],digbuf[NO*sizeof(WORD)+128];
  memset(&hh,0,sizeof(hh));
  msg.length=BS; msg.datum=msgbuf; msg.signature=WizardSignature;
  dig.length=NO*sizeof(WORD); dig.datum=digbuf; dig.signature=WizardSignature;
  hh.message=&msg; hh.digest=&dig; hh.accumulator=(void *) acc; hh.blocksize=BS; hh.digestsize=NO*sizeof(WORD); hh.signature=WizardSignature;
#if BE
  hh.lsb_first=WizardTrue;
#endif
  g_off=nd_range(0,BS-1); g_b=nd_range(0,BS-1);
  hh.low_order=(WORD) nd_u64(); hh.high_order=(WORD) nd_u64();
  VASSUME(((hh.low_order >> 3) & (BS-1)) == g_off); VASSUME((hh.low_order & 7) == 0);
#if BE
  hh.offset=g_off;
#endif
  g_low0=hh.low_order;
#if !BE
  g_pos=g_off;
#endif
  bits=((unsigned __int128) hh.high_order << (8*sizeof(WORD)))+hh.low_order;
  for (i=0; i < LB; i++) g_lenf[i]=(uint8_t) (bits >> (8*(BE ? LB-1-i : i)));
  for (i=0; i < BS; i++) { uint8_t x=nd_u8(); msgbuf[i]=x; g_oldmsg[i]=x; }
  g_total=(g_off+1+LB <= BS) ? 1 : 2;
  g_msg=msgbuf; g_accp=acc; g_havocacc();
  VASSERT(FIN(h) != WizardFalse,"finalise reports success");
  VASSERT(g_calls == g_total,"number of padding blocks");
  for (i=0; i < NO*(int) sizeof(WORD); i++)
    VASSERT(digbuf[i] == (uint8_t) (g_acc[i/sizeof(WORD)] >> (8*(BE ? sizeof(WORD)-1-i % sizeof(WORD) : i % sizeof(WORD)))),"digest is the final chaining value in the standard byte order");
  VASSERT(dig.length == NO*sizeof(WORD) && dig.datum == digbuf && h->digest == (StringInfo *) &dig && h->message == (StringInfo *) &msg && h->accumulator == (void *) acc && h->signature == WizardSignature,"frame");
  VREACH("end");
}
