/*
  Contract of the allocator layer, in executable form (its own proof is property P10):
  a block of at least count*size bytes, or NULL when the product does not fit.
  Allocation failure is a fatal exit in the callers and is left out here.
*/
#include <stdlib.h>
#include <string.h>
void *AcquireWizardMemory(size_t n) { return malloc(n ? n : 1); }
#if defined(V_NO_ACQUIRE)
#elif defined(V_ALLOC_FIXED)
/* every block has V_ALLOC_FIXED bytes (requests above that end the reach of the unit) */
void *AcquireQuantumMemory(size_t c,size_t q)
{ size_t s; if (c == 0 || __builtin_mul_overflow(c,q,&s)) return 0; __CPROVER_assert(s <= V_ALLOC_FIXED,"LIMIT block size"); return malloc(V_ALLOC_FIXED); }
#else
void *AcquireQuantumMemory(size_t c,size_t q)
{ size_t s; if (c == 0 || __builtin_mul_overflow(c,q,&s)) return 0; return malloc(s ? s : 1); }
#endif
extern void *AcquireQuantumMemory(size_t,size_t);
void *AcquireAlignedMemory(size_t c,size_t q) { return AcquireQuantumMemory(c,q); }
void *RelinquishAlignedMemory(void *p) { free(p); return 0; }
void *RelinquishWizardMemory(void *p) { free(p); return 0; }
void *ResetWizardMemory(void *p,int c,size_t n) { return memset(p,c,n); }
#ifndef V_NO_COPY
void *CopyWizardMemory(void *d,const void *s,size_t n) { return memcpy(d,s,n); }
#endif
#ifndef V_NO_REALLOC
void *ResizeQuantumMemory(void *p,size_t c,size_t q)
{ size_t s; if (c == 0 || __builtin_mul_overflow(c,q,&s)) { free(p); return 0; } return realloc(p,s ? s : 1); }
void *ResizeWizardMemory(void *p,size_t n) { return realloc(p,n ? n : 1); }
#endif
