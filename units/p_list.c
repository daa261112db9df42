/*
  Linked lists of any length.  Of the N elements those the proof talks about are present: the neighbourhoods
  of the first and last element, of the position operated on (K), of the iterator (Q), of the position asked
  about (T, arbitrary, so what is proved for it holds for all) and of the element an arbitrary iteration of
  the loop has reached (g_i).  Slot j is element I[j]; where two slots have the same number the first stands for it.  An element next to
  none of these is an address that must not be followed.
*/
#include "vh.h"
#include "wizard/studio.h"
#include "wizard/semaphore.h"
static int g_held;
void LockSemaphoreInfo(SemaphoreInfo *s) { VASSERT(s != 0 && !g_held,"lock taken"); g_held=1; }
void UnlockSemaphoreInfo(SemaphoreInfo *s) { VASSERT(s != 0 && g_held,"lock given back"); g_held=0; }
SemaphoreInfo *AcquireSemaphoreInfo(void) { SemaphoreInfo *s=malloc(1); VASSUME(s != 0); return s; }
void RelinquishSemaphoreInfo(SemaphoreInfo **s) { VASSERT(!g_held,"not held"); *s=0; }
void *AcquireWizardMemory(const size_t); void *RelinquishWizardMemory(void *);
static size_t N,T,K,Q,g_fr,g_rv; static void *g_val; static int g_byval,g_repl;
int __CPROVER_uninterpreted_cmp(uint64_t);
#if OP == 1
#define S 6
#define SLOTS W(0) W(N-1) W(T-1) W(T) W(T+1) W(Q)
#elif OP == 2
#define S 10
#define SLOTS W(0) W(1) W(N-1) W(T-1) W(T) W(T+1) W(Q) W(g_i-1) W(g_i) W(g_i+1)
#elif OP == 3
#define S 11
#define SLOTS W(0) W(N-1) W(K) W(T-1) W(T) W(T+1) W(Q) W(g_i-1) W(g_i) W(g_i+1) W(K+1)
#elif OP == 4
#define S 11
#define SLOTS W(0) W(1) W(N-1) W(T) W(T+1) W(T+2) W(Q) W(Q+1) W(g_i) W(g_i+1) W(g_i+2)
#elif OP == 5
#define S 11
#define SLOTS W(0) W(1) W(N-1) W(T) W(T+1) W(T+2) W(Q) W(Q+1) W(g_i) W(g_i+1) W(g_i+2)
#elif OP == 6
#define S 7
#define SLOTS W(0) W(N-1) W(T) W(T+1) W(Q) W(g_i) W(g_i+1)
#elif OP == 7
#define S 9
#define SLOTS W(0) W(N-1) W(K) W(T) W(T+1) W(Q) W(g_i) W(g_i+1) W(1)
#elif OP == 8
#define S 6
#define SLOTS W(0) W(N-1) W(T) W(T+1) W(Q) W(Q+1)
#elif OP == 9
#define S 7
#define SLOTS W(0) W(N-1) W(T) W(T+1) W(Q) W(g_i) W(g_i+1)
#else
#define S 4
#define SLOTS W(0) W(T) W(g_i) W(g_i+1)
#endif
static size_t I[S]; static void *Y[S]; static size_t at(size_t); static void *val(size_t);
#define V(i) val(i)
#define C(i) __CPROVER_uninterpreted_cmp((uint64_t) V(i))
#define STOP(i) (C(i) < 0 || (g_repl && C(i) == 0))
#define NODE(i) ((i) < N ? el(i) : (ElementInfo *) 0)
#define POS(p) pos(p)
#define EL(i) el(i)
#define VINV_get (i >= 0 && (size_t) i <= index && POS(next) == (size_t) i)
#define VHEAP_get (VASSUME(i >= 0 && (size_t) i <= index && g_i == (size_t) i), next=EL(g_i))
#define VINV_ins (i >= 1 && (size_t) i <= index && POS(element) == (size_t) i-1 && next == &g_new && POS(g_new.next) == (size_t) i && g_new.value == (void *) value)
#define VHEAP_ins (VASSUME(i >= 1 && (size_t) i <= index && g_i == (size_t) i), element=EL(g_i-1), next=&g_new, g_new.next=EL(g_i))
#define VINV_rem (i >= 1 && (size_t) i <= index && POS(next) == (size_t) i-1)
#define VHEAP_rem (VASSUME(i >= 1 && (size_t) i <= index && g_i == (size_t) i-1), next=EL(g_i))
#define VINV_byv (POS(next) < N && POS(next) < K)
#define VHEAP_byv (VASSUME(g_i < N && g_i < K), next=EL(g_i))
#define VINV_last (POS(next) < N-1)
#define VHEAP_last (VASSUME(N > 1 && g_i < N-1), next=EL(g_i))
#define SJ POS(g_new.next)
#define VINV_sort (next == &g_new && g_new.value == (void *) value && SJ <= K && element == (SJ > 0 ? EL(SJ-1) : (ElementInfo *) 0))
static void **g_rp,*r0;
#define VHEAP_sort (VASSUME(g_i <= K), replace=g_rp, g_repl && (r0=(void *) nd_size(), 0), next=&g_new, g_new.next=NODE(g_i), element=g_i > 0 ? EL(g_i-1) : (ElementInfo *) 0)
#define VINV_arr (i >= 0 && (size_t) i <= N && POS(next) == (size_t) i && (T >= (size_t) i || array[T] == V(T)))
#define VHEAP_arr (VASSUME(i >= 0 && (size_t) i <= N && g_i == (size_t) i), next=NODE(g_i), array[T]=(void *) nd_size())
#define VINV_clr (POS(next) <= N && g_fr == (POS(next) > T) && g_rv == (POS(next) > T && g_val != 0))
#define VHEAP_clr (VASSUME(g_i <= N), next=NODE(g_i), g_fr=nd_size(), g_rv=nd_size(), garble())
static size_t g_i; static struct _ElementInfo *g_np,*el(size_t); static size_t pos(struct _ElementInfo *); static void garble(void);
#define g_new (*g_np)
#include "wizard/hashmap.c"
static ElementInfo *R[S];
static size_t at(size_t i) { size_t j,r=S; for (j=S; j > 0; j--) if (I[j-1] == i) r=j-1; VASSERT(r < S,"an element the proof talks about"); return r; }
static ElementInfo *el(size_t i) { size_t j; ElementInfo *r=(ElementInfo *) 0; for (j=S; j > 0; j--) if (I[j-1] == i) r=R[j-1]; return r; }
static void *val(size_t i) { size_t j; void *r=0; for (j=S; j > 0; j--) if (I[j-1] == i) r=Y[j-1]; return r; }
static size_t pos(ElementInfo *e) { size_t j,r=~(size_t) 0; if (e == 0) return N; for (j=S; j > 0; j--) if (e == R[j-1]) r=I[j-1]; return r; }
static void garble(void) { size_t j; for (j=0; j < S; j++) if (I[j] < g_i) { R[j]->value=(void *) nd_size(); R[j]->next=(ElementInfo *) nd_size(); } }
static void slots(void)
{
  size_t j=0,k; ElementInfo *d=malloc(1);
#define W(x) I[j++]=(x);
  SLOTS
#undef W
  for (j=0; j < S; j++) { R[j]=malloc(sizeof(ElementInfo)); VASSUME(R[j] != 0); Y[j]=(void *) nd_size(); if (I[j] >= N) I[j]=~(size_t) 0; }
  for (j=0; j < S; j++)
  {
    ElementInfo *n=el(I[j]+1);
    R[j]->value=Y[j]; R[j]->next=I[j]+1 == N ? (ElementInfo *) 0 : n != 0 ? n : (ElementInfo *) ((char *) d+1);
    if (I[j] >= N || at(I[j]) != j) continue;
    if (g_byval) VASSUME((Y[j] == g_val) ? I[j] >= K : I[j] != K);
    if (OP == 3) VASSUME(STOP(I[j]) ? I[j] >= K : I[j] != K);
  }
}
static LinkedListInfo *g_l; static int g_frs,g_nfail; static ElementInfo *g_freed;
void *AcquireWizardMemory(const size_t n) { if (n == sizeof(LinkedListInfo) && g_l == 0) { LinkedListInfo *l=malloc(sizeof(*l)); VASSUME(l != 0); return l; } VLIMIT(n == sizeof(ElementInfo) && g_np == 0,"one element"); if (nd_bool()) { g_nfail=1; return 0; } g_np=malloc(sizeof(ElementInfo)); VASSUME(g_np != 0); return g_np; }
void *RelinquishWizardMemory(void *p)
{
  if (p == (void *) g_l) { VASSERT(OP == 10,"the list is kept"); g_l=0; return 0; }
  VASSERT(POS(p) < N,"an element of the list is released");
  if (POS(p) == T) g_fr++;
  g_frs++; g_freed=p; ((ElementInfo *) p)->value=(void *) nd_size(); return 0;
}
static int compare_(const void *a,const void *b) { int c=__CPROVER_uninterpreted_cmp((uint64_t) b); VASSERT(a == g_val,"the new value is compared"); return c; }
static void *release_(void *v) { if (v == V(T) && g_i == T) g_rv++; return 0; }
/* the list after the operation: element t is A(t) with value W(t), M of them */
static size_t M; static int g_kind; /* 0 the same, 1 inserted at K, 2 removed at K, 3 replaced at K */
static ElementInfo *A(size_t t) { if (t >= M) return 0; if (g_kind == 1) return t < K ? EL(t) : t == K ? g_np : EL(t-1); if (g_kind == 2) return t < K ? EL(t) : EL(t+1); if (g_kind == 3 && t == K) return g_np; return EL(t); }
static void *W(size_t t) { if (g_kind == 1) return t < K ? V(t) : t == K ? g_val : V(t-1); if (g_kind == 2) return t < K ? V(t) : V(t+1); if (g_kind == 3 && t == K) return g_val; return V(t); }
static void check(LinkedListInfo *l,size_t cap)
{
  ElementInfo *x=NODE(Q);
  VASSERT(!g_held,"the lock is given back"); VASSERT(l->signature == WizardSignature && l->capacity == cap && l->semaphore != 0,"the list is intact");
  VASSERT(l->elements == M && GetNumberOfElementsInLinkedList(l) == M && (IsLinkedListEmpty(l) != WizardFalse) == (M == 0),"the number of elements"); VASSERT(M <= cap,"the capacity is not exceeded");
  VASSERT(l->head == A(0),"the first element");
  if (M > 0) VASSERT(l->tail == A(M-1),"the last element");
  if (T < M) { VASSERT(A(T)->value == W(T),"the values in order"); VASSERT(A(T)->next == A(T+1),"each element leads to the next"); }
  VASSERT(g_frs == (g_kind == 2 || g_kind == 3),"exactly what left the list is released"); if (g_frs) VASSERT(POS(g_freed) == K,"exactly what left the list is released");
  if (OP == 8) return;
  if (g_kind == 1) VASSERT(l->next == x || (Q == K && l->next == g_np),"the iterator stays");
  else if (g_kind == 2) VASSERT(l->next == (Q == K ? A(K) : x),"the iterator stays or moves on from what was removed");
  else if (g_kind == 3) VASSERT(Q == K ? l->next == g_np || l->next == A(K+1) : l->next == x,"the iterator stays or moves on from what was replaced");
  else VASSERT(l->next == x,"the iterator stays");
}
void harness(void)
{
  LinkedListInfo *l; size_t cap; void *v=(void *) nd_size(),*r; WizardBooleanType b;
  N=nd_range(0,(size_t) 1 << 40); T=nd_range(0,(size_t) 1 << 40); K=nd_range(0,(size_t) 1 << 41); Q=nd_range(0,N);
  cap=nd_size(); l=NewLinkedList(cap); if (cap == 0) cap=~(size_t) 0;
  VASSERT(l->capacity == cap && l->elements == 0 && l->head == 0 && l->next == 0 && l->signature == WizardSignature,"a new list is empty");
  VASSUME(N <= cap); g_l=l;
  g_val=v; g_byval=0; g_np=0; M=N; g_kind=0; g_repl=nd_bool();
#if OP == 5
  VASSUME(K <= N); g_byval=1;
#elif OP == 3
  VASSUME(K <= N);
#endif
  g_i=nd_range(0,N); slots();
  l->elements=N; l->head=NODE(0); l->tail=N > 0 ? (OP == 10 ? el(0) : EL(N-1)) : 0; l->next=OP == 10 ? NODE(0) : NODE(Q);
#if OP == 1
  b=AppendValueToLinkedList(l,v); VASSERT((b != WizardFalse) == (N < cap && !g_nfail),"appended unless full");
  if (b != WizardFalse) { K=N; g_kind=1; M=N+1; }
#elif OP == 2
  b=InsertValueInLinkedList(l,K,v); VASSERT((b != WizardFalse) == (v != 0 && K <= N && N < cap && !g_nfail),"inserted unless full or beyond the end");
  if (b != WizardFalse) { g_kind=1; M=N+1; }
#elif OP == 3
  r0=0; g_rp=g_repl ? &r0 : 0; b=InsertValueInSortedLinkedList(l,compare_,g_rp,v); r=r0; VASSERT((b != WizardFalse) == (v != 0 && N < cap && !g_nfail),"inserted unless full");
  if (b != WizardFalse) { if (K < N && C(K) >= 0) { g_kind=3; VASSERT(g_repl && r == V(K),"the value replaced is handed out"); VREACH("replaced"); } else { g_kind=1; M=N+1; } }
#elif OP == 4
  r=RemoveElementFromLinkedList(l,K); VASSERT(r == (K < N ? V(K) : 0),"the value removed"); if (K < N) { g_kind=2; M=N-1; }
#elif OP == 5
  r=RemoveElementByValueFromLinkedList(l,v); if (v == 0) K=N; VASSERT(r == (K < N ? v : 0),"the value removed if there"); if (K < N) { g_kind=2; M=N-1; }
#elif OP == 6
  r=RemoveLastElementFromLinkedList(l); VASSERT(r == (N > 0 ? V(N-1) : 0),"the last value"); if (N > 0) { K=N-1; g_kind=2; M=N-1; }
#elif OP == 7
  r=GetValueFromLinkedList(l,K); VASSERT(r == (K < N ? V(K) : 0),"the value at the position"); r=GetLastValueInLinkedList(l); VASSERT(r == (N > 0 ? V(N-1) : 0),"the last value");
#elif OP == 8
  r=GetNextValueInLinkedList(l); VASSERT(r == (Q < N ? V(Q) : 0) && l->next == (Q < N ? NODE(Q+1) : 0),"iteration hands out the elements in order"); ResetLinkedListIterator(l); VASSERT(l->next == NODE(0),"and starts at the first");
#elif OP == 9
  { void **a=malloc((N+1)*sizeof(*a)); VASSUME(a != 0 && T < N+1); b=LinkedListToArray(l,a); VASSERT(b != WizardFalse,"an array"); if (T < N) VASSERT(a[T] == V(T),"the values in order"); VASSERT(LinkedListToArray(l,0) == WizardFalse,"no array"); }
#elif OP == 10
  VASSUME(T < N);
  { int d=nd_bool(); if (d) { VASSERT(DestroyLinkedList(l,v == 0 ? 0 : release_) == 0 && g_l == 0 && !g_held,"destroyed"); VREACH("destroyed"); } else { ClearLinkedList(l,v == 0 ? 0 : release_); VASSERT(l->elements == 0 && l->head == 0 && l->next == 0 && l->capacity == cap && l->signature == WizardSignature && !g_held,"empty"); VREACH("cleared"); }
    VASSERT(g_fr == 1,"each element is released once"); VASSERT(g_rv == (v != 0),"each value is released once"); return; }
#endif
#if OP != 10
  check(l,cap); VREACH("end");
#endif
}
