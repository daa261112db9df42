#if defined(TRACKED)
#ifndef V_RESIZE_FAIL
#define V_RESIZE_FAIL 0
#endif
/*
  Copies by contract: of the target only the tracked positions are remembered, so that copies of
  symbolic length cost nothing; overlapping copies are asked for by memmove only.
*/
static size_t g_ix[4]; static int g_nix;
static void v_copy(unsigned char *d,const unsigned char *s,size_t n,int set,int c)
{
  uint8_t e[4]; int k; size_t o=(size_t) __CPROVER_POINTER_OFFSET(d),z=__CPROVER_OBJECT_SIZE(d); unsigned char *b=d-o;
  VASSERT(__CPROVER_w_ok(d,n) && (set || __CPROVER_r_ok(s,n)),"copy within the storage");
  if (n == 0) return;
  for (k=0; k < g_nix; k++) if (g_ix[k] < z) e[k]=g_ix[k] >= o && g_ix[k]-o < n ? (set ? (uint8_t) c : s[g_ix[k]-o]) : b[g_ix[k]];
  VHAVOC_OBJ(b);
  for (k=0; k < g_nix; k++) if (g_ix[k] < z) VASSUME(b[g_ix[k]] == e[k]);
}
static void *v_memcpy(void *d,const void *s,size_t n)
{ VASSERT(n == 0 || !VSAME(d,s) || (const char *) s+n <= (char *) d || (char *) d+n <= (const char *) s,"copy does not overlap"); v_copy(d,s,n,0,0); return d; }
static void *v_memmove(void *d,const void *s,size_t n) { v_copy(d,s,n,0,0); return d; }
static void *v_memset(void *d,int c,size_t n) { v_copy(d,d,n,1,c); return d; }
void *ResizeQuantumMemory(void *p,size_t c,size_t q)
{
  size_t n,z=__CPROVER_OBJECT_SIZE(p); unsigned char *d; int k;
  VASSERT(__CPROVER_POINTER_OFFSET(p) == 0 && __CPROVER_rw_ok(p,1),"block of the allocator");
  if (c == 0 || __builtin_mul_overflow(c,q,&n) || (V_RESIZE_FAIL && nd_bool())) { free(p); return 0; }
  d=malloc(n ? n : 1); VASSUME(d != 0);
  for (k=0; k < g_nix; k++) if (g_ix[k] < z && g_ix[k] < n) VASSUME(d[g_ix[k]] == ((unsigned char *) p)[g_ix[k]]);
  free(p); return d;
}
#define memcpy v_memcpy
#define memmove v_memmove
#define memset v_memset
#define TRACK(i) (g_ix[g_nix++]=(i))
#else
#define TRACK(i) ((void) 0)
#endif
