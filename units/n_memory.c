/* Native: allocation requests of all sizes against a recording allocator; copies and fills. */
#include "wizard/studio.h"
#include "wizard/WizardsToolkit.h"
#include "vh.h"
static size_t g_req; static int g_on,g_asked,g_refuse;
static void *acq(size_t n) { if (g_on) { g_asked++; g_req=n; if (g_refuse) return NULL; } if (n > ((size_t) 1 << 20)) return NULL; return malloc(n); }
static void *res(void *p,size_t n) { if (g_on) { g_asked++; g_req=n; if (g_refuse) return NULL; } if (n > ((size_t) 1 << 20)) return NULL; return realloc(p,n); }
static void des(void *p) { free(p); }
static size_t any(void)
{
  size_t k=nd_range(0,63),v;
  switch (nd_range(0,5)) { case 0: return nd_range(0,40); case 1: return nd_range(1,5000); case 2: v=(size_t) 1 << k; return v+nd_range(0,2)-1; case 3: return SIZE_MAX-nd_range(0,5000); case 4: return SIZE_MAX/nd_range(1,4100)+nd_range(0,2)-1; default: return nd_size() >> k; }
}
void harness(void)
{
  size_t c=any(),q=any(),m; int fits=!__builtin_mul_overflow(c,q,&m); unsigned char *p; static int init;
  if (!init) { init=1; SetWizardMemoryMethods(acq,res,des); }
  g_refuse=nd_range(0,9) == 0; g_asked=0; g_req=0;
  switch (nd_range(0,5))
  {
    case 0: g_on=1; p=AcquireQuantumMemory(c,q); g_on=0; if (p != NULL) { VASSERT(fits && g_req >= m,"storage for count items"); memset(p,1,m); RelinquishWizardMemory(p); } if (!fits) VASSERT(p == NULL && !g_asked,"a product that does not fit is refused"); if (fits && c) VASSERT(g_asked == 1 && g_req >= m,"a product that fits is asked for"); break;
    case 1: { unsigned char *o=AcquireQuantumMemory(16,1); size_t i; memset(o,7,16); g_on=1; p=ResizeQuantumMemory(o,c,q); g_on=0; if (p != NULL) { VASSERT(fits && g_req >= m,"storage for count items"); for (i=0; i < m && i < 16; i++) VASSERT(p[i] == 7,"bytes kept"); memset(p,1,m); RelinquishWizardMemory(p); } if (!fits) VASSERT(p == NULL && !g_asked,"a product that does not fit is refused"); break; }
    case 2: if (fits && m > ((size_t) 1 << 20) && m < ((size_t) 1 << 40)) break; p=AcquireAlignedMemory(c,q); if (p != NULL) { VASSERT(fits,"a product that does not fit is refused"); if (m <= ((size_t) 1 << 20)) memset(p,1,m); RelinquishAlignedMemory(p); } break;
    case 3: { size_t n=nd_range(0,40),a=nd_range(0,40),b=nd_range(0,40),i; unsigned char x[100],y[100]; nd_bytes(x,100); memcpy(y,x,100); CopyWizardMemory(x+a,x+b,n); for (i=0; i < 100; i++) VASSERT(x[i] == (i >= a && i < a+n ? y[i-a+b] : y[i]),"copy with overlap"); break; }
    case 4: { size_t n=nd_range(0,300),i; unsigned char *x=malloc(n+1); x[n]=9; ResetWizardMemory(x,(int) nd_range(0,1)*255,n); for (i=1; i < n; i++) VASSERT(x[i] == x[0] && (x[0] == 0 || x[0] == 255),"fill"); VASSERT(x[n] == 9,"fill stays inside"); free(x); break; }
    default: { if (fits && m > 100000) break; { ExceptionInfo *e=AcquireExceptionInfo(); MemoryInfo *r=AcquireVirtualMemory(c,q,e); if (r != NULL) { VASSERT(fits,"a product that does not fit is refused"); p=GetVirtualMemoryBlob(r); VASSERT(p != NULL,"blob"); if (m <= 100000) memset(p,1,m); RelinquishVirtualMemory(r); } DestroyExceptionInfo(e); } break; }
  }
}
