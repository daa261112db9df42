/*
  Allocation.  The system allocator is a recorder: it grants or refuses any request and remembers what
  was asked for, so that requests of every size up to the maximum can be considered.
*/
#include "vh.h"
#include "wizard/studio.h"
#include <sys/mman.h>
static char g_blk[4],g_new[4],g_al[4],g_map[4]; static size_t g_req,g_alreq,g_maplen; static int g_asked,g_alasked,g_mapped,g_freed,g_grant; static void *g_in;
static void *v_malloc(size_t n) { g_asked++; g_req=n; VASSERT(n != 0,"no request for nothing"); if (nd_bool()) return 0; g_grant=1; return g_new; }
static void *v_realloc(void *p,size_t n) { VASSERT(p == (void *) g_blk && !g_freed,"block resized once, before it is released"); g_asked++; g_req=n; VASSERT(n != 0,"no request for nothing"); if (nd_bool()) return 0; g_freed=1; g_grant=1; return g_new; }
static int v_posix_memalign(void **m,size_t a,size_t n) { VASSERT(a >= sizeof(void *) && (a & (a-1)) == 0,"alignment"); g_alasked++; g_alreq=n; if (nd_bool()) { *m=(void *) g_in; return ENOMEM; } *m=g_al; g_grant=1; return 0; }
static void v_free(void *p) { if (p == (void *) g_blk) { VASSERT(!g_freed,"released once"); g_freed=1; } }
#define __builtin_assume_aligned(p,a) (p)
#define malloc v_malloc
#define realloc v_realloc
#define free v_free
#define posix_memalign v_posix_memalign
#if OP == 6
static off_t v_lseek(int f,off_t o,int w) { (void) f; (void) w; return nd_bool() ? o : (off_t) -1; }
static ssize_t v_write(int f,const void *b,size_t n) { (void) f; (void) b; return nd_bool() ? (ssize_t) n : -1; }
static int v_close(int f) { (void) f; return 0; }
#define lseek v_lseek
#define write v_write
#define close v_close
static MemoryInfo *g_mi;
#endif
#include "wizard/memory.c"
#if OP == 6
/* the record itself; the blob goes to the recorder */
WizardExport char *DestroyString(char *s) { (void) s; return 0; }
static struct _MemoryInfo g_rec; static int g_recs;
WizardExport void *AcquireAlignedMemory(const size_t c,const size_t q)
{
  if (q == sizeof(MemoryInfo) && c == 1 && g_recs == 0) { g_recs++; return nd_bool() ? &g_rec : (void *) 0; }
  VASSERT(g_recs == 1,"record first"); g_alasked++; VASSERT(!__builtin_mul_overflow(c,q,&g_alreq),"size of the blob"); return nd_bool() ? (void *) g_al : (void *) 0; /* contract: memory.aligned */
}
WizardExport void *ResetWizardMemory(void *p,int c,const size_t n) { VASSERT(p == (void *) &g_rec && c == 0 && n == sizeof(g_rec),"record is cleared"); g_rec.filename[0]='\0'; g_rec.type=0; g_rec.length=0; g_rec.blob=0; g_rec.signature=0; return p; }
WizardExport WizardBooleanType AcquireWizardResource(const ResourceType t,const WizardSizeType n) { (void) t; (void) n; if (VQ) { VASSERT(0,"a product that does not fit is refused"); VASSUME(0); } return nd_bool() ? WizardTrue : WizardFalse; }
WizardExport void RelinquishWizardResource(const ResourceType t,const WizardSizeType n) { (void) t; (void) n; }
WizardExport void *MapBlob(int f,const MapMode m,const WizardOffsetType o,const size_t n) { (void) f; (void) m; VASSERT(o == 0,"mapped from the start"); g_maplen=n; g_mapped++; if (nd_bool()) return 0; return g_map; }
WizardExport WizardBooleanType UnmapBlob(void *m,const size_t n) { (void) m; (void) n; return WizardTrue; }
WizardExport int AcquireUniqueFileResource(const char *p,char *f,ExceptionInfo *e) { (void) p; (void) e; f[0]='x'; return nd_bool() ? 5 : -1; }
WizardExport WizardBooleanType RelinquishUniqueFileResource(const char *f,const WizardBooleanType d) { (void) f; (void) d; return WizardTrue; }
#endif
WizardExport ssize_t GetWizardPageSize(void) { return (ssize_t) 4096 << nd_range(0,4); }
void harness(void)
{
  size_t c=nd_size(),q=nd_size(),m; int fits=!__builtin_mul_overflow(c,q,&m); void *p; g_in=nd_bool() ? (void *) g_al : 0;
#if OP <= 3 /* proved by memory.arith */
  VASSUME(c == 0 || (((c*q)/c == q) == fits));
#endif
#if OP == 1
  p=AcquireQuantumMemory(c,q);
  if (p != 0) VASSERT(p == (void *) g_new && g_grant && fits && g_req >= m,"storage for count items");
  if (!fits) VASSERT(p == 0 && !g_asked,"a product that does not fit is refused");
  if (c != 0 && fits) VASSERT(g_asked == 1 && (p != 0) == g_grant,"a product that fits is passed on");
#elif OP == 2
  void *b=nd_bool() ? (void *) g_blk : 0;
  p=ResizeQuantumMemory(b,c,q);
  if (p != 0) VASSERT(p == (void *) g_new && g_grant && fits && g_req >= m,"storage for count items");
  if (!fits) VASSERT(p == 0 && !g_asked,"a product that does not fit is refused");
  if (c != 0 && fits) VASSERT(g_asked == 1 && (p != 0) == g_grant,"a product that fits is passed on");
  if (b != 0) VASSERT(g_freed,"the old block is gone either way");
#elif OP == 3
  p=AcquireAlignedMemory(c,q);
  if (p != 0) VASSERT(p == (void *) g_al && g_grant && fits && g_alreq >= m,"storage for count items");
  if (!fits) VASSERT(p == 0 && !g_alasked,"a product that does not fit is refused");
#elif OP == 4
  p=AcquireWizardMemory(c);
  VASSERT(g_asked == 1 && g_req >= c && (p != 0) == g_grant && (p == 0 || p == (void *) g_new),"at least the size asked for");
#elif OP == 5
  void *b=nd_bool() ? (void *) g_blk : 0;
  p=ResizeWizardMemory(b,c);
  VASSERT(g_asked == 1 && g_req >= c && (p != 0) == g_grant && (p == 0 || p == (void *) g_new),"at least the size asked for");
  if (b != 0) VASSERT(g_freed,"the old block is gone either way");
#elif OP == 6
  MemoryInfo *r; ExceptionInfo *x=0; 
#if VQ
  VASSUME(!fits && c != 0 && (c*q)/c != q); /* second part: memory.arith */
#else
  q=1; m=c; fits=1;
#endif
  (void) p;
  r=AcquireVirtualMemory(c,q,x);
  if (r != 0)
    {
      VASSERT(r == &g_rec && fits && r->length == m && r->signature == WizardSignature,"record of the length asked for");
      p=GetVirtualMemoryBlob(r);
      VASSERT((p == (void *) g_al && g_alreq >= m && r->type == AlignedVirtualMemory) || (p == (void *) g_map && g_maplen >= m && r->type == MapVirtualMemory) || (p == (void *) g_new && g_req >= m && r->type == UnalignedVirtualMemory),"storage for count items, of the kind recorded");
    }
  if (!fits) VASSERT(r == 0 && !g_alasked && !g_asked && !g_mapped,"a product that does not fit is refused");
#elif OP == 7
  (void) p;
  if (c != 0) VASSERT(((c*q)/c == q) == fits,"division finds out whether a product wraps");
#endif
  VREACH("end");
}
