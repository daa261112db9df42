/* Copy and fill primitives: byte T of the target area, T arbitrary, for any size and any overlap. */
#include "vh.h"
#include "wizard/studio.h"
static size_t g_T; /* absolute position in the target object */
static void v_copy(unsigned char *d,const unsigned char *s,size_t n)
{
  size_t o=(size_t) __CPROVER_POINTER_OFFSET(d); unsigned char *b=d-o; uint8_t e;
  VASSERT(__CPROVER_w_ok(d,n) && __CPROVER_r_ok(s,n),"copy within the storage");
  if (n == 0) return;
  e=g_T >= o && g_T-o < n ? s[g_T-o] : b[g_T]; VHAVOC_OBJ(b); VASSUME(b[g_T] == e);
}
static void *v_memcpy(void *d,const void *s,size_t n)
{ VASSERT(n == 0 || !VSAME(d,s) || (const char *) s+n <= (char *) d || (char *) d+n <= (const char *) s,"areas given to memcpy do not overlap"); v_copy(d,s,n); return d; }
static void *v_memmove(void *d,const void *s,size_t n) { v_copy(d,s,n); return d; }
#define memcpy v_memcpy
#define memmove v_memmove
#if OP == 2
static unsigned char *g_m; static int g_c; static uint8_t g_e; static size_t g_o,g_n;
#define VINV_f (n <= g_n && VSAME(p,g_m) && p == g_m+g_o+(g_n-n) && g_m[g_T] == (g_T >= g_o && g_T < g_o+(g_n-n) ? (uint8_t) g_c : g_e))
#define VHEAP_f (VASSUME(n <= g_n), VHAVOC_OBJ(g_m), p=g_m+g_o+(g_n-n))
#endif
#include "wizard/memory.c"
#define LIM ((size_t) 1 << 40)
void harness(void)
{
  size_t z=nd_size(),a=nd_size(),n=nd_size(); unsigned char *x; uint8_t e;
  VASSUME(z != 0 && z <= LIM && a <= z && n <= z-a); x=malloc(z); VASSUME(x != 0); g_T=nd_size(); VASSUME(g_T < z); e=x[g_T];
#if OP == 1
  size_t b=nd_size(); unsigned char *y=x; size_t zy=z;
#if !SAME
  zy=nd_size(); VASSUME(zy != 0 && zy <= LIM); y=malloc(zy); VASSUME(y != 0);
#endif
  VASSUME(b <= zy && n <= zy-b);
#if defined(SMALL)
  VASSUME((n <= 16) == SMALL);
#endif
  if (g_T >= a && g_T-a < n) e=y[b+(g_T-a)];
  VASSERT(CopyWizardMemory(x+a,y+b,n) == (void *) (x+a),"returns the target");
  VASSERT(x[g_T] == e,"target has the bytes the source had, all else is kept");
#elif OP == 2
  g_m=x; g_c=nd_int(); g_e=e; g_o=a; g_n=n;
  VASSERT(ResetWizardMemory(x+a,g_c,n) == (void *) (x+a),"returns the target");
  VASSERT(x[g_T] == (g_T >= a && g_T-a < n ? (uint8_t) g_c : e),"area filled, all else is kept");
#endif
  VREACH("end");
}
