/*
  Hash maps: one bucket of any number of entries N, over the contract of linked lists (P17).  Keys are equal when
  they have the same class; the hash is a function of the class.  K is the position of the entry with the key of the
  operation, N if there is none; positions before it hold other keys (instances introduced where the code reaches
  them).  An iterator of a list is a handle for a position, not followed here.
*/
#include "vh.h"
#include "wizard/studio.h"
#include "wizard/semaphore.h"
#define HMASK 1023
static int g_held;
void LockSemaphoreInfo(SemaphoreInfo *s) { VASSERT(s != 0 && !g_held,"lock taken"); g_held=1; }
void UnlockSemaphoreInfo(SemaphoreInfo *s) { VASSERT(s != 0 && g_held,"lock given back"); g_held=0; }
SemaphoreInfo *AcquireSemaphoreInfo(void) { SemaphoreInfo *s=malloc(1); VASSUME(s != 0); return s; }
void RelinquishSemaphoreInfo(SemaphoreInfo **s) { *s=0; }
void *AcquireWizardMemory(const size_t); void *RelinquishWizardMemory(void *);
uint64_t __CPROVER_uninterpreted_cls(uint64_t); uint64_t __CPROVER_uninterpreted_h(uint64_t);
#define CLS(k) __CPROVER_uninterpreted_cls((uint64_t) (k))
#define HASH(k) (__CPROVER_uninterpreted_h(CLS(k)) & HMASK)
static size_t N,K,g_i; static struct _EntryInfo *ent(size_t); static size_t where(void *);
#define INV (i <= K && entry == ent(i) && where(list_info->next) == (i < N ? i+1 : N))
#define HEAP (g_bound(), VASSUME(i == g_i && g_i <= K), entry=ent(g_i), list_info->next=handle(g_i < N ? g_i+1 : N))
#define VINV_put INV
#define VHEAP_put HEAP
#define VINV_rem INV
#define VHEAP_rem HEAP
#define VINV_get (where(list_info->next) <= N && (entry == 0 ? K == N && where(list_info->next) == N : where(list_info->next) > 0 && entry == ent(where(list_info->next)-1) && where(list_info->next)-1 <= K))
#define VHEAP_get (VASSUME(g_i <= K), entry=ent(g_i), list_info->next=handle(g_i < N ? g_i+1 : N))
#define g_bound() ((void) 0)
static struct _ElementInfo *handle(size_t);
#include "wizard/hashmap.c"
#define H0 ((char *) 4096)
static ElementInfo *handle(size_t p) { return p >= N ? (ElementInfo *) 0 : (ElementInfo *) (p+1); }
static size_t where(void *h) { return h == 0 ? N : (size_t) h-1; }
#define S 4
static size_t I[S]; static EntryInfo *R[S]; static void *g_key[S],*g_value[S];
static EntryInfo *ent(size_t i) { size_t j; EntryInfo *r=0; for (j=S; j > 0; j--) if (I[j-1] == i && i < N) r=R[j-1]; return r; }
static size_t g_B; static const void *g_op; static LinkedListInfo *g_l,*g_fresh; static HashmapInfo *g_m; static EntryInfo *g_new; static int g_removed,g_inserted,g_insfail,g_keys,g_values,g_freed,g_newfreed,g_grown,g_nomem; static void *g_relkey,*g_relvalue,*g_relentry;
void *AcquireWizardMemory(const size_t n) { VLIMIT(n == sizeof(EntryInfo) && g_new == 0,"one entry"); if (nd_bool()) { g_nomem=1; return 0; } g_new=malloc(sizeof(EntryInfo)); VASSUME(g_new != 0); return g_new; }
void *RelinquishWizardMemory(void *p) { VASSERT(p != 0,"an entry is released"); if (p == (void *) g_new) g_newfreed++; else { g_freed++; g_relentry=p; } return 0; }
void *GetNextValueInLinkedList(LinkedListInfo *l) { size_t p; VASSERT(g_held && l == g_l && l == g_m->map[g_B],"the bucket of the key"); p=where(l->next); if (p >= N) { l->next=handle(N); return 0; } l->next=handle(p+1); VLIMIT(ent(p) != 0,"an entry the proof talks about"); return ent(p); }
void *RemoveElementFromLinkedList(LinkedListInfo *l,const size_t i) { VASSERT(g_held && l == g_l && i == K && K < N && !g_removed && !g_inserted,"the entry of the key is taken out"); g_removed=1; l->elements--; return ent(i); }
WizardBooleanType InsertValueInLinkedList(LinkedListInfo *l,const size_t i,const void *v) { VASSERT(g_held && (l == g_l || l == g_fresh) && l == g_m->map[g_B] && i <= l->elements && v == (const void *) g_new && v != 0 && !g_inserted,"the new entry goes to the bucket of the key"); if (nd_bool()) { g_insfail=1; return WizardFalse; } g_inserted=1; l->elements++; return WizardTrue; }
WizardBooleanType AppendValueToLinkedList(LinkedListInfo *l,const void *v) { return InsertValueInLinkedList(l,l->elements,v); }
LinkedListInfo *NewLinkedList(const size_t c) { VLIMIT(c == 0 && g_l == 0 && g_fresh == 0,"a bucket without limit"); g_fresh=malloc(sizeof(*g_fresh)); VASSUME(g_fresh != 0); memset(g_fresh,0,sizeof(*g_fresh)); g_fresh->capacity=~(size_t) 0; g_fresh->signature=WizardSignature; return g_fresh; }
static WizardBooleanType IncreaseHashmapCapacity(HashmapInfo *m) { VASSERT(g_held && m == g_m && g_inserted,"growth under the lock"); g_grown=1; return nd_bool() ? WizardTrue : WizardFalse; }
static size_t hash_(const void *k) { return HASH(k); }
static WizardBooleanType compare_(const void *a,const void *b) { VASSERT(a == g_op || b == g_op,"compared with the key"); return CLS(a) == CLS(b) ? WizardTrue : WizardFalse; }
static void *relkey_(void *p) { g_keys++; g_relkey=p; return 0; }
static void *relvalue_(void *p) { g_values++; g_relvalue=p; return 0; }
void harness(void)
{
  HashmapInfo *m=malloc(sizeof(*m)); size_t j,cap,n,x,B; void *r,*v=(void *) nd_size(); WizardBooleanType b; LinkedListInfo **map; int cmp=nd_bool(),rk=nd_bool(),rv=nd_bool(); void *ko=0,*vo=0;
  VASSUME(m != 0); cap=nd_range(1,HMASK); map=malloc((cap+1)*sizeof(*map)); VASSUME(map != 0);
  m->hash=hash_; m->compare=cmp ? compare_ : 0; m->relinquish_key=rk ? relkey_ : 0; m->relinquish_value=rv ? relvalue_ : 0; m->capacity=cap; m->map=map; m->semaphore=AcquireSemaphoreInfo(); m->signature=WizardSignature; m->next=nd_size();
  N=nd_range(0,(size_t) 1 << 40); K=nd_range(0,N); g_i=nd_range(0,N); g_op=(const void *) nd_size(); n=nd_range(N,(size_t) 1 << 60); m->entries=n; g_m=m;
  g_l=0; if (N > 0 || nd_bool()) { g_l=malloc(sizeof(*g_l)); VASSUME(g_l != 0); g_l->capacity=~(size_t) 0; g_l->elements=N; g_l->head=handle(0); g_l->tail=0; g_l->next=handle(nd_range(0,N)); g_l->semaphore=m->semaphore; g_l->signature=WizardSignature; }
  B=HASH(g_op)%cap; g_B=B; x=nd_range(0,cap-1); m->map[x]=(LinkedListInfo *) nd_size(); VASSUME(x != B); { LinkedListInfo *other=m->map[x]; m->map[B]=g_l;
  I[0]=0; I[1]=K; I[2]=g_i; I[3]=g_i+1;
  for (j=0; j < S; j++)
  {
    R[j]=malloc(sizeof(EntryInfo)); VASSUME(R[j] != 0); R[j]->key=g_key[j]=(void *) nd_size(); R[j]->value=g_value[j]=(void *) nd_size(); VASSUME(g_key[j] != 0 && g_value[j] != 0); R[j]->hash=HASH(g_key[j]);
    if (I[j] < N) VASSUME((CLS(g_key[j]) == CLS(g_op)) == (I[j] == K));
    if (I[j] < N && !cmp) VASSUME((HASH(g_key[j]) == HASH(g_op)) == (CLS(g_key[j]) == CLS(g_op)));
  }
  if (K < N) { ko=ent(K)->key; vo=ent(K)->value; }
#if OP == 1
  r=GetValueFromHashmap(m,g_op); VASSERT(r == (g_op != 0 && K < N ? vo : 0),"the value stored under the key"); VASSERT(!g_removed && !g_inserted && g_keys == 0 && g_values == 0 && g_freed == 0 && m->entries == n,"nothing changes");
  if (r != 0) VREACH("found");
#elif OP == 2
  b=PutEntryInHashmap(m,g_op,v);
  VASSERT((b != WizardFalse) == (g_op != 0 && v != 0 && !g_nomem && !g_insfail),"stored unless memory ran out");
  if (b != WizardFalse) { VASSERT(g_inserted && g_new->key == g_op && g_new->value == v && g_new->hash == HASH(g_op) && g_newfreed == 0,"the entry holds key and value"); VASSERT(g_removed == (K < N),"the old entry of the key is gone, no other"); VASSERT(m->entries == n+(K < N ? 0 : 1),"the number of distinct keys"); if (K < N) VREACH("replaced"); else VREACH("new"); }
  else { VASSERT(!g_inserted && g_newfreed == (g_new != 0),"nothing stored"); VASSERT(m->entries == n-(g_removed ? 1 : 0),"the number of distinct keys"); }
  if (g_removed) { VASSERT(g_keys == rk && g_values == rv,"key and value of the old entry are released once"); VASSERT((!rk || g_relkey == ko) && (!rv || g_relvalue == vo),"key and value of the old entry are released"); VASSERT(g_freed == 1 && g_relentry == (void *) ent(K),"the old entry is released"); } else VASSERT(g_keys == 0 && g_values == 0 && g_freed == 0,"nothing else is released");
  VASSERT(m->map[B] == (g_l != 0 ? g_l : g_fresh),"the bucket");
#elif OP == 3
  r=RemoveEntryFromHashmap(m,g_op); VASSERT(r == (g_op != 0 && K < N ? vo : 0),"the value removed"); VASSERT(g_removed == (g_op != 0 && K < N),"the entry of the key is gone, no other"); VASSERT(m->entries == n-g_removed,"the number of distinct keys");
  if (g_removed) { VASSERT(g_keys == rk && (!rk || g_relkey == ko) && g_values == 0,"the key is released, the value handed out"); VASSERT(g_freed == 1 && g_relentry == (void *) ent(K),"the old entry is released"); VREACH("removed"); } else VASSERT(g_keys == 0 && g_values == 0 && g_freed == 0,"nothing else is released");
#endif
  VASSERT(m->map[x] == other,"other buckets are left alone"); }
  VASSERT(!g_held && m->signature == WizardSignature && m->capacity == cap && m->map == map && m->hash == hash_,"the map is intact"); VASSERT((GetNumberOfEntriesInHashmap(m) == m->entries) && (IsHashmapEmpty(m) != WizardFalse) == (m->entries == 0),"the count");
  VREACH("end");
}
