/* Native: resource accounting against sums, also from several threads; temporary files and virtual memory give back what they held. */
#include "wizard/studio.h"
#include "wizard/WizardsToolkit.h"
#include "wizard/resource_.h"
#include "vh.h"
#include <pthread.h>
WizardExport WizardSizeType GetWizardResourceLimit(const ResourceType);
static WizardSizeType sz(void) { switch (nd_range(0,4)) { case 0: return nd_range(0,10); case 1: return nd_u32(); case 2: return ((WizardSizeType) 1 << nd_range(0,63))-nd_range(0,1); case 3: return ~(WizardSizeType) 0-nd_range(0,3); default: return nd_range(0,2000); } }
static WizardSizeType g_got[4]; static unsigned g_seed[4];
static void *work(void *p) { int k=(int) (size_t) p,i; unsigned s=g_seed[k]; g_got[k]=0; for (i=0; i < 300; i++) { WizardSizeType n=1+(s >> 8)%50; s=s*1103515245u+12345u; if (s & 0x10000 || g_got[k] < n) { if (AcquireWizardResource(MapResource,n) != WizardFalse) g_got[k]+=n; } else { RelinquishWizardResource(MapResource,n); g_got[k]-=n; } } return 0; }
void harness(void)
{
  static const ResourceType t[]={DiskResource,FileResource,MapResource,MemoryResource}; WizardSizeType sum[4]={0},lim[4]; int i,n=(int) nd_range(1,30),k; ExceptionInfo *e=AcquireExceptionInfo();
  static int once; if (!once) { once=1; WizardsToolkitGenesis("n"); }
  for (k=0; k < 4; k++) { lim[k]=nd_range(0,3) ? nd_range(0,3000) : sz(); SetWizardResourceLimit(t[k],lim[k]); VASSERT(GetWizardResource(t[k]) == 0,"nothing is recorded"); VASSERT(GetWizardResourceLimit(t[k]) == lim[k],"the limit"); }
  for (i=0; i < n; i++)
  {
    WizardSizeType s=sz(); k=(int) nd_range(0,3);
    if (nd_range(0,2)) { int ok=s < ((WizardSizeType) 1 << 63) && s+sum[k] < ((WizardSizeType) 1 << 63) && (lim[k] == ~(WizardSizeType) 0 || s+sum[k] < lim[k]); VASSERT((AcquireWizardResource(t[k],s) != WizardFalse) == ok,"granted exactly if the total stays below the limit"); if (ok) sum[k]+=s; }
    else if (nd_range(0,2) == 0) { lim[k]=nd_range(0,3) ? nd_range(0,3000) : sz(); SetWizardResourceLimit(t[k],lim[k]); VASSERT(GetWizardResourceLimit(t[k]) == lim[k],"the limit"); }
    else { s=sum[k] == 0 ? 0 : s%(sum[k]+1); RelinquishWizardResource(t[k],s); sum[k]-=s; }
    for (k=0; k < 4; k++) VASSERT(GetWizardResource(t[k]) == sum[k],"the amount recorded is the sum");
  }
  for (k=0; k < 4; k++) { RelinquishWizardResource(t[k],sum[k]); VASSERT(GetWizardResource(t[k]) == 0,"everything given back"); SetWizardResourceLimit(t[k],nd_bool() ? nd_range(0,3000) : ~(WizardSizeType) 0); }
  { size_t l=nd_range(1,5000); MemoryInfo *m=AcquireVirtualMemory(1,l,e); WizardSizeType h; VASSERT(m != NULL,"memory"); memset(GetVirtualMemoryBlob(m),1,l); h=GetWizardResource(MemoryResource)+GetWizardResource(MapResource); VASSERT(h == l || h == 0,"the block holds its size"); RelinquishVirtualMemory(m); for (k=0; k < 4; k++) VASSERT(GetWizardResource(t[k]) == 0,"and gives it back"); }
  SetWizardResourceLimit(FileResource,nd_range(1,3)); for (i=0; i < 4; i++) { char p[WizardPathExtent]; WizardSizeType l=GetWizardResourceLimit(FileResource); int ok=AcquireUniqueFilename(p,e) != WizardFalse; VASSERT(ok == (l > 1),"a temporary file within the limit"); VASSERT(GetWizardResource(FileResource) == (WizardSizeType) ok,"counted"); if (ok) RelinquishUniqueFileResource(p,WizardTrue); VASSERT(access(p,F_OK) != 0,"removed"); VASSERT(GetWizardResource(FileResource) == 0,"given back"); }
  if (nd_range(0,3) == 0) { pthread_t h[4]; WizardSizeType s=0; SetWizardResourceLimit(MapResource,nd_range(100,5000)); for (k=0; k < 4; k++) { g_seed[k]=nd_u32(); pthread_create(&h[k],0,work,(void *) (size_t) k); } for (k=0; k < 4; k++) { pthread_join(h[k],0); s+=g_got[k]; } VASSERT(GetWizardResource(MapResource) == s,"the sum over all threads"); RelinquishWizardResource(MapResource,s); }
  DestroyExceptionInfo(e);
}
