/*
  Byte strings at every length up to the maximum representable size.  The allocator refuses what does not
  fit (memory.*) and may refuse anything; nothing above 2^47 bytes is ever granted on this machine.
*/
#include "vh.h"
#define V_MAXBLOCK ((size_t) 1 << 47)
static void *v_get(size_t c,size_t q) { size_t n; void *p; if (c == 0 || __builtin_mul_overflow(c,q,&n) || n > V_MAXBLOCK || nd_bool()) return 0; p=malloc(n ? n : 1); VASSUME(p != 0); return p; }
void *AcquireQuantumMemory(size_t c,size_t q) { return v_get(c,q); }
void *ResizeQuantumMemory(void *p,size_t c,size_t q)
{ VASSERT(p == 0 || (__CPROVER_POINTER_OFFSET(p) == 0 && __CPROVER_rw_ok(p,1)),"block of the allocator"); free(p); return v_get(c,q); }
static void *v_copy(void *d,const void *s,size_t n) { VASSERT(__CPROVER_w_ok(d,n) && __CPROVER_r_ok(s,n),"copy within the storage"); return d; }
static void *v_set(void *d,int c,size_t n) { (void) c; VASSERT(__CPROVER_w_ok(d,n),"fill within the storage"); return d; }
#include "wizard/studio.h"
#define memcpy v_copy
#define memmove v_copy
#define memset(p,c,n) v_set(p,c,n)
#include "wizard/string.c"
#define STORE(s) ((s)->length <= V_MAXBLOCK && __CPROVER_w_ok((s)->datum,(s)->length+MaxCipherBlocksize))
static StringInfo *mkp(void)
{
  StringInfo *s=malloc(sizeof(*s)); size_t n=nd_size(); VASSUME(s != 0 && n <= V_MAXBLOCK-MaxCipherBlocksize);
  s->datum=malloc(n+MaxCipherBlocksize); VASSUME(s->datum != 0); s->length=n; s->signature=WizardSignature; return s;
}
void harness(void)
{
  StringInfo *a=mkp(),*c; size_t n=nd_size();
#if OP == 1
  c=AcquireStringInfo(n);
  VASSERT(c != 0 && c->length == n && STORE(c),"length does not exceed the storage");
#elif OP == 2
  SetStringInfoLength(a,n); c=a;
  VASSERT(c->length == n && STORE(c),"length does not exceed the storage");
#elif OP == 3
  c=BlobToStringInfo(0,n);
  VASSERT(c == 0 || (c->length == n && STORE(c)),"length does not exceed the storage");
#elif OP == 4
  StringInfo *b=mkp(); size_t na=a->length,nb=b->length; ConcatenateStringInfo(a,b); c=a;
  VASSERT(c->length == na+nb && STORE(c),"length does not exceed the storage");
#elif OP == 5
  size_t na=a->length; c=SplitStringInfo(a,n);
  VASSERT(STORE(a) && (c == 0 ? a->length == na && n > na : c->length == n && STORE(c)),"length does not exceed the storage");
#elif OP == 6
  c=CloneStringInfo(a);
  VASSERT(c->length == a->length && STORE(c) && STORE(a),"length does not exceed the storage");
#elif OP == 7
  char *t=StringInfoToString(a);
  VASSERT(t == 0 || __CPROVER_w_ok(t,a->length+1),"room for the text and its end"); (void) c;
#endif
  VREACH("end");
}
