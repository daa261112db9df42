/*
  Resource accounting, one operation from an arbitrary state.  Between operations, and whenever the
  lock is not held, other threads may change everything: the state is arbitrary when the lock is taken
  and lost when it is given back, so what is proved holds for every interleaving.
*/
#include "vh.h"
#include "wizard/studio.h"
#include "wizard/semaphore.h"
static void took(void),gave(void);
static int g_held,g_times;
void ActivateSemaphoreInfo(SemaphoreInfo **s) { if (*s == 0) { *s=malloc(1); VASSUME(*s != 0); } }
SemaphoreInfo *AcquireSemaphoreInfo(void) { SemaphoreInfo *s=malloc(1); VASSUME(s != 0); return s; }
void LockSemaphoreInfo(SemaphoreInfo *s) { VASSERT(s != 0 && !g_held,"lock taken"); g_held=1; g_times++; took(); }
void UnlockSemaphoreInfo(SemaphoreInfo *s) { VASSERT(s != 0 && g_held,"lock given back"); gave(); g_held=0; }
ssize_t FormatWizardSize(const WizardSizeType n,const WizardBooleanType b,const size_t l,char *f) { return 0; }
const char *WizardOptionToMnemonic(const WizardOption o,const ssize_t t) { return ""; }
#include "wizard/resource.c"
#define MAXA ((WizardSizeType) 1 << 63)
static ResourceInfo g_b,g_a;
static void any(void)
{
  resource_info.area=(WizardOffsetType) nd_u64(); resource_info.memory=(WizardOffsetType) nd_u64(); resource_info.map=(WizardOffsetType) nd_u64(); resource_info.disk=(WizardOffsetType) nd_u64(); resource_info.file=(WizardOffsetType) nd_u64();
  resource_info.area_limit=nd_u64(); resource_info.memory_limit=nd_u64(); resource_info.map_limit=nd_u64(); resource_info.disk_limit=nd_u64(); resource_info.file_limit=nd_u64();
  VASSUME(resource_info.memory >= 0 && resource_info.map >= 0 && resource_info.disk >= 0 && resource_info.file >= 0);
}
static WizardSizeType g_s; static int g_op,g_t;
static WizardOffsetType *now(ResourceInfo *r,int t) { return t == MemoryResource ? &r->memory : t == MapResource ? &r->map : t == DiskResource ? &r->disk : t == FileResource ? &r->file : &r->area; }
static WizardSizeType *lim(ResourceInfo *r,int t) { return t == MemoryResource ? &r->memory_limit : t == MapResource ? &r->map_limit : t == DiskResource ? &r->disk_limit : t == FileResource ? &r->file_limit : &r->area_limit; }
static void took(void) { any(); if (g_op == 2 && g_t != AreaResource) VASSUME((WizardSizeType) *now(&resource_info,g_t) >= g_s); g_b=resource_info; }
static void gave(void) { g_a=resource_info; any(); }
void harness(void)
{
  int u=nd_int(),op=nd_int(); WizardSizeType s=nd_u64(),v=0; WizardBooleanType r=WizardFalse; __CPROVER_bool ok;
  VASSUME(u >= AreaResource && u <= MemoryResource); g_t=nd_int(); VASSUME(g_t >= AreaResource && g_t <= MemoryResource); VASSUME(op >= 1 && op <= 5); g_op=op; g_s=s; any(); resource_semaphore=nd_bool() ? AcquireSemaphoreInfo() : 0;
  switch (op)
  {
    case 1: r=AcquireWizardResource((ResourceType) g_t,s); VREACH("acquire"); break;
    case 2: RelinquishWizardResource((ResourceType) g_t,s); VREACH("release"); break;
    case 3: v=GetWizardResource((ResourceType) g_t); break;
    case 4: v=GetWizardResourceLimit((ResourceType) g_t); break;
    case 5: SetWizardResourceLimit((ResourceType) g_t,s); break;
  }
  VLIMIT(g_times == 1,"one critical section"); VASSERT(!g_held,"the lock is given back");
  /* g_b: state when the lock was taken, g_a: when it was given back */
  if (u != g_t) VASSERT(*now(&g_a,u) == *now(&g_b,u) && *lim(&g_a,u) == *lim(&g_b,u),"other resources are not touched");
  if (op != 5) VASSERT(*lim(&g_a,g_t) == *lim(&g_b,g_t),"the limit is kept");
  if (op == 1)
    {
      WizardSizeType o=g_t == AreaResource ? 0 : (WizardSizeType) *now(&g_b,g_t),l=*lim(&g_b,g_t);
      ok=s < MAXA-o && o+s < MAXA && (l == ~(WizardSizeType) 0 || o+s < l);
      if (g_t == AreaResource) ok=(l == ~(WizardSizeType) 0 || s < l);
      VASSERT((r != WizardFalse) == ok,"granted exactly if the total stays below the limit");
      if (g_t != AreaResource) VASSERT((WizardSizeType) *now(&g_a,g_t) == (ok ? o+s : o),"recorded if granted, unchanged if refused");
    }
  if (op == 2 && g_t != AreaResource) VASSERT((WizardSizeType) *now(&g_a,g_t) == (WizardSizeType) *now(&g_b,g_t)-s,"given back");
  if (op >= 3) VASSERT(*now(&g_a,g_t) == *now(&g_b,g_t),"the amount is kept");
  if (op == 3) VASSERT(v == (WizardSizeType) *now(&g_b,g_t),"the amount recorded");
  if (op == 4) VASSERT(v == *lim(&g_b,g_t),"the limit");
  if (op == 5) VASSERT(*lim(&g_a,g_t) == s,"the new limit");
  VREACH("end");
}
