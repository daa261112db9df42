/* Virtual memory holds exactly the resources it was granted and gives each back once. */
#include "vh.h"
#include "wizard/studio.h"
#include "wizard/resource_.h"
#include "wizard/blob.h"
#include "wizard/blob-private.h"
static WizardSizeType g_sum[8]; static int g_n[8],g_file,g_map; static size_t g_len; static char g_x[8];
WizardBooleanType AcquireWizardResource(const ResourceType t,const WizardSizeType n) { VASSERT(n == g_len && t <= MemoryResource,"the size of the block"); if (nd_bool()) return WizardFalse; g_n[t]++; return WizardTrue; }
void RelinquishWizardResource(const ResourceType t,const WizardSizeType n) { VASSERT(n == g_len && t <= MemoryResource && g_n[t] > 0,"only what was granted is given back"); g_n[t]--; }
int AcquireUniqueFileResource(const char *p,char *f,ExceptionInfo *e) { if (nd_bool()) return -1; VASSERT(!g_file,"one file"); g_file=1; f[0]='f'; f[1]=0; return 5; }
WizardBooleanType RelinquishUniqueFileResource(const char *p,const WizardBooleanType t) { VASSERT(g_file && p[0] == 'f',"the file"); g_file=0; return WizardTrue; }
void *MapBlob(int f,const MapMode m,const WizardOffsetType o,const size_t n) { VASSERT((f == -1 || (f == 5 && g_file)) && n == g_len && o == 0,"mapped completely"); if (nd_bool()) return 0; VASSERT(!g_map,"once"); g_map=1; return g_x; }
WizardBooleanType UnmapBlob(void *p,const size_t n) { VASSERT(g_map && p == (void *) g_x && n == g_len,"the mapping"); g_map=0; return WizardTrue; }
static off_t v_seek(int f,off_t o,int w) { return nd_bool() ? -1 : o; }
static ssize_t v_write(int f,const void *p,size_t n) { return nd_bool() ? -1 : (ssize_t) n; }
static int v_close(int f) { return 0; }
/* room for the name of the file; the stand-ins use two bytes of it */
#undef WizardPathExtent
#define WizardPathExtent 8
#define __builtin_assume_aligned(p,a) (p)
char *DestroyString(char *s) { return 0; }
#define lseek v_seek
#define write v_write
#define close v_close
#include "wizard/memory.c"
static int g_al,g_un; static MemoryInfo *g_mi; static struct _MemoryInfo g_rec; static int g_recs;
void *AcquireAlignedMemory(const size_t c,const size_t q) { if (nd_bool()) return 0; if (c == 1 && q == sizeof(MemoryInfo) && g_recs == 0) { g_recs=1; g_mi=&g_rec; return g_mi; } VASSERT(c*q == g_len && !g_al,"the block"); g_al=1; return g_x+1; }
void *RelinquishAlignedMemory(void *p) { if (p == (void *) &g_rec) { VASSERT(g_mi == &g_rec,"the record"); g_mi=0; return 0; } VASSERT(p == g_x+1 && g_al,"the block"); g_al=0; return 0; }
void *AcquireWizardMemory(const size_t n) { VASSERT(n == g_len && !g_un,"the block"); if (nd_bool()) return 0; g_un=1; return g_x+2; }
void *RelinquishWizardMemory(void *p) { VASSERT(p == g_x+2 && g_un,"the block"); g_un=0; return 0; }
void *ResetWizardMemory(void *p,int c,const size_t n) { VLIMIT(p == g_mi && c == 0 && n == sizeof(MemoryInfo),"cleared"); g_rec.filename[0]='\0'; g_rec.type=0; g_rec.length=0; g_rec.blob=0; g_rec.signature=0; return p; }
#define NONE (g_n[MemoryResource] == 0 && g_n[MapResource] == 0 && g_n[DiskResource] == 0 && !g_file && !g_map && !g_al && !g_un)
void harness(void)
{
  size_t c=nd_size(),q=1; MemoryInfo *m; ExceptionInfo *e=malloc(1); g_len=c; g_x[0]=0;
  VASSUME(c > 0 && c != sizeof(MemoryInfo));
  m=AcquireVirtualMemory(q,c,e);
  if (m == 0) { VASSERT(NONE,"nothing is held without a block"); VREACH("none"); return; }
  VASSERT(g_n[MemoryResource] == (m->type == AlignedVirtualMemory) && g_n[MapResource] == (m->type == MapVirtualMemory) && g_n[DiskResource] == g_file && g_n[DiskResource] <= g_n[MapResource],"the block holds what its kind needs");
  VASSERT(m->type == AlignedVirtualMemory ? g_al && !g_map && !g_un : m->type == MapVirtualMemory ? !g_al && g_map && !g_un : !g_al && !g_map && g_un,"one block");
  if (g_file) VREACH("file");
  m=RelinquishVirtualMemory(m);
  VASSERT(m == 0 && NONE && g_mi == 0,"everything is given back");
  VREACH("end");
}
