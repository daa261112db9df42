/*
  Compression.  The libraries are represented by their contracts: a call takes some of the input it is
  offered and adds to the output within the room it is offered; it reports the end of the stream only
  when everything was taken by a finishing call, and it does reach the end when it gets the room it
  documents as sufficient.  Contents stay inside the library: a byte string here is its length, its
  storage, and how many bytes from its beginning on are the library's output.
*/
#include "vh.h"
#include "wizard/studio.h"
#include "wizard/string_.h"
#include "wizard/exception.h"
#include "private_StringInfo.h"
#define MAXN ((size_t) 1 << 40)
static StringInfo *g_m,*g_c; static size_t g_valid,g_in,g_out,g_bound,g_level; static int g_end,g_fin,g_ready,g_err,g_sure; static void *g_strm;
#define OKS(s) VASSERT((s) != 0 && (s)->signature == WizardSignature,"a byte string")
static unsigned char *raw(size_t n) { unsigned char *p=malloc(n+64); VASSUME(p != 0); return p; }
static StringInfo *str(size_t n) { StringInfo *s=malloc(sizeof(*s)); VASSUME(s != 0); s->length=n; s->datum=raw(n); s->signature=WizardSignature; return s; }
StringInfo *AcquireStringInfo(const size_t n) { return str(n); }
StringInfo *DestroyStringInfo(StringInfo *s) { OKS(s); s->signature=0; free(s); return 0; }
unsigned char *GetStringInfoDatum(const StringInfo *s) { OKS(s); return s->datum; }
size_t GetStringInfoLength(const StringInfo *s) { OKS(s); return s->length; }
/* P08: the content up to the shorter length is kept, the storage may move */
void SetStringInfoLength(StringInfo *s,const size_t n) { OKS(s); VASSERT(s != g_m,"the message is not changed"); VLIMIT(n <= 2*MAXN,"length"); if (s->length != n) { s->length=n; s->datum=raw(n); if (s == g_c && n < g_valid) g_valid=n; } }
enum { GO, END, BAD };
/* g_sure: the library meets no failure of its own; when restoring, the message is the complete compressed form of g_bound bytes */
static int step(const void *p,size_t n,const void *q,size_t r,int fin,size_t *took,size_t *made)
{
  size_t t=nd_size(),m=nd_size(); int o=nd_bool() ? GO : nd_bool() ? END : BAD;
  VASSERT(g_ready == 1,"a stream set up");
  *took=*made=0;
  if (KIND == 3 && g_end) return END;
  if (KIND == 3 && g_err) return BAD;
  VASSERT(!g_err && !g_end,"nothing is asked of a stream that has ended or failed");
  VASSERT(n <= g_m->length-g_in && (n == 0 || p == (void *) (g_m->datum+g_in)),"the next bytes of the message are offered");
  VASSERT(r <= g_c->length-g_out && (r == 0 || q == (void *) (g_c->datum+g_out)),"the room offered is behind the output so far");
  VASSERT(g_valid == g_out,"the output so far is kept");
  VASSUME(t <= n && m <= r);
#if ENC
  if (fin) VASSERT(n == g_m->length-g_in,"finished only with all of the message");
  VASSERT(fin || !g_fin,"nothing but finishing follows a finishing call");
  g_fin=fin;
  if (o == END) VASSUME(fin && t == n);
  if (o == GO) VASSUME(m == r || (!fin && t == n));
  if (g_sure)
    {
      VASSUME(g_out+m <= g_bound);
      if (o == GO) VASSUME(g_out+m < g_bound);
      if (o == BAD) VASSUME(r == 0 || (KIND != 3 && !fin && n == 0));
    }
#else
  if (g_sure)
    {
      VASSUME(g_out+m <= g_bound);
      if (o == END) VASSUME(g_out+m == g_bound && g_in+t == g_m->length);
      if (o == GO) VASSUME((m == r && g_out+m < g_bound) || (t == n && g_in+t < g_m->length));
      if (o == BAD) VASSUME((n == 0 && g_in < g_m->length) || (r == 0 && g_out < g_bound));
    }
  if (KIND == 1 && fin) VASSUME(o != GO);
#endif
  if (o == END) g_end=1;
  if (o == BAD) g_err=1;
  g_in+=t; g_out+=m; g_valid=g_out; *took=t; *made=m;
  return o;
}
#define STEP(s,fin) size_t t_,m_; int o; VASSERT(s == g_strm,"a stream set up"); o=step(s->next_in,s->avail_in,s->next_out,s->avail_out,fin,&t_,&m_); s->next_in+=t_; s->avail_in-=t_; s->next_out+=m_; s->avail_out-=m_
static int init(void *s,int enc) { VASSERT(enc == ENC && g_ready == 0,"one stream for the operation"); if (!g_sure && nd_bool()) { g_err=1; return 0; } g_ready=1; g_strm=s; return 1; }
static int end(void *s) { VASSERT(g_ready == 1 && s == g_strm,"the stream is ended once"); g_ready=2; return g_end; }
#define INV (g_ready == 1 && !g_end && !g_err && g_valid == g_out && g_in <= g_m->length && g_out <= g_c->length && GetStringInfoDatum(message)+g_in == (void *) stream.next_in && g_c->datum+g_out == (void *) stream.next_out \
  && (!g_fin || g_m->length-g_in <= 0xffffffff) && (!g_sure || (ENC ? g_out < g_bound : g_out <= g_bound && (g_out < g_bound || g_in < g_m->length))))
#if KIND == 1
#define VINV_l (INV && stream.total_in == g_in && stream.total_out == g_out)
#define VHEAP_l (g_in=nd_size(), g_out=nd_size(), g_valid=g_out, g_fin=nd_bool(), stream.next_in=g_m->datum+g_in, stream.next_out=g_c->datum+g_out, stream.total_in=g_in, stream.total_out=g_out)
#include "zlib.h"
#undef deflateInit
#undef inflateInit
#define deflateInit(s,l) v_init(s,1,l)
#define inflateInit(s) v_init(s,0,g_level)
static int v_init(z_stream *s,int enc,size_t l) { VASSERT((int) l == (int) g_level,"the level asked for"); s->total_in=s->total_out=0; return init(s,enc) ? Z_OK : Z_MEM_ERROR; }
uLong deflateBound(z_streamp s,uLong n) { VASSERT(n >= g_m->length,"room for the message"); return g_bound; }
int deflate(z_streamp s,int f) { STEP(s,f == Z_FINISH); s->total_in+=t_; s->total_out+=m_; VASSERT(ENC && (f == Z_FINISH || f == Z_NO_FLUSH),"mode"); return o == GO ? Z_OK : o == END ? Z_STREAM_END : nd_bool() ? Z_BUF_ERROR : Z_STREAM_ERROR; }
int inflate(z_streamp s,int f) { STEP(s,f == Z_FINISH); s->total_in+=t_; s->total_out+=m_; VASSERT(!ENC,"mode"); return o == GO ? Z_OK : o == END ? Z_STREAM_END : nd_bool() ? Z_BUF_ERROR : nd_bool() ? Z_DATA_ERROR : Z_NEED_DICT; }
int deflateEnd(z_streamp s) { return end(s) ? Z_OK : Z_DATA_ERROR; }
int inflateEnd(z_streamp s) { end(s); return Z_OK; }
#include "wizard/zip.c"
#define N(x,y) x##ZIP##y
#elif KIND == 2
#define VINV_l INV
#define VHEAP_l (g_in=nd_size(), g_out=nd_size(), g_valid=g_out, g_fin=nd_bool(), stream.next_in=(char *) g_m->datum+g_in, stream.next_out=(char *) g_c->datum+g_out, stream.total_in_lo32=nd_u32(), stream.total_out_lo32=nd_u32(), stream.total_in_hi32=nd_u32(), stream.total_out_hi32=nd_u32())
#include "bzlib.h"
static unsigned g_run;
int BZ2_bzCompressInit(bz_stream *s,int l,int v,int w) { VASSERT((size_t) l == g_level,"the level asked for"); s->total_in_lo32=s->total_out_lo32=s->total_in_hi32=s->total_out_hi32=0; return init(s,1) ? BZ_OK : BZ_MEM_ERROR; }
int BZ2_bzDecompressInit(bz_stream *s,int v,int w) { s->total_in_lo32=s->total_out_lo32=s->total_in_hi32=s->total_out_hi32=0; return init(s,0) ? BZ_OK : BZ_MEM_ERROR; }
#define TOT s->total_in_lo32=(unsigned) g_in; s->total_in_hi32=(unsigned) (g_in >> 32); s->total_out_lo32=(unsigned) g_out; s->total_out_hi32=(unsigned) (g_out >> 32)
int BZ2_bzCompress(bz_stream *s,int f) { STEP(s,f == BZ_FINISH); TOT; VASSERT(ENC && (f == BZ_FINISH || f == BZ_RUN),"mode"); return o == GO ? (f == BZ_RUN ? BZ_RUN_OK : BZ_FINISH_OK) : o == END ? BZ_STREAM_END : nd_bool() ? BZ_SEQUENCE_ERROR : BZ_PARAM_ERROR; }
int BZ2_bzDecompress(bz_stream *s) { STEP(s,0); TOT; VASSERT(!ENC,"mode"); return o == GO ? BZ_OK : o == END ? BZ_STREAM_END : nd_bool() ? BZ_DATA_ERROR : BZ_DATA_ERROR_MAGIC; }
int BZ2_bzCompressEnd(bz_stream *s) { end(s); return BZ_OK; }
int BZ2_bzDecompressEnd(bz_stream *s) { end(s); return BZ_OK; }
#include "wizard/bzip.c"
#define N(x,y) x##BZIP##y
#else
#include "lzma.h"
lzma_ret lzma_easy_encoder(lzma_stream *s,uint32_t l,lzma_check c) { VASSERT(l == g_level,"the level asked for"); s->total_in=s->total_out=0; return init(s,1) ? LZMA_OK : LZMA_MEM_ERROR; }
lzma_ret lzma_auto_decoder(lzma_stream *s,uint64_t l,uint32_t f) { VASSERT(l == ~(uint64_t) 0,"no limit of memory"); s->total_in=s->total_out=0; return init(s,0) ? LZMA_OK : LZMA_MEM_ERROR; }
lzma_ret lzma_code(lzma_stream *s,lzma_action a) { STEP(s,a == LZMA_FINISH); s->total_in+=t_; s->total_out+=m_; VASSERT(a == LZMA_FINISH || a == LZMA_RUN,"mode"); return o == GO ? LZMA_OK : o == END ? LZMA_STREAM_END : nd_bool() ? LZMA_BUF_ERROR : nd_bool() ? LZMA_DATA_ERROR : LZMA_PROG_ERROR; }
void lzma_end(lzma_stream *s) { if (g_ready == 1) end(s); }
#include "wizard/lzma.c"
#define N(x,y) x##LZMA##y
#endif
void harness(void)
{
  N(,Info) *z; ExceptionInfo *e=malloc(1); size_t n=nd_range(0,MAXN),l=nd_range(0,9); const unsigned char *d; WizardBooleanType r;
  g_sure=nd_bool(); g_m=str(n); d=g_m->datum; g_level=l; g_end=g_err=g_fin=g_ready=0; g_in=g_out=g_valid=0;
  z=N(Acquire,Info)(l); g_c=z->chaos; SetStringInfoLength(g_c,nd_range(0,MAXN));
#if ENC
  g_bound=nd_size(); VASSUME(g_bound > 0 && g_bound <= (KIND == 1 ? n+n/64+1024 : KIND == 2 ? n+n/100+600 : n+n/3+128));
  r=N(Increase,)(z,g_m,e);
  if (r != WizardFalse) VASSERT(g_in == n,"all of the message is in the compressed form");
#else
  g_bound=nd_range(0,MAXN); VASSUME(n > 0);
  r=N(Restore,)(z,g_bound,g_m,e);
  if (r != WizardFalse && g_sure) VASSERT(g_out == g_bound,"all of the original");
#endif
  if (r != WizardFalse)
    {
      VASSERT(g_end && !g_err,"success only if the stream was completed");
      VASSERT(N(Get,Chaos)(z) == g_c && g_c->length == g_out && g_valid == g_out,"the result is exactly the output of the library");
      VREACH("done");
    }
  else { VASSERT(!g_sure,"refused only if the library fails"); VREACH("refused"); }
  VASSERT(g_m->length == n && g_m->datum == d && g_m->signature == WizardSignature && z->signature == WizardSignature && z->level == l,"message and level are kept");
  VREACH("end");
}
