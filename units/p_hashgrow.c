/*
  Growth of a hash map: an arbitrary entry (element X, entry EX) of a table with any number of entries in each
  bucket is in the list of its bucket in the new table afterwards.  Both loops are cut.  "In the list" is carried as:
  the first element is X, or an element from which X was reached before (GH), or one put in front of that.
*/
#include "vh.h"
#include "wizard/studio.h"
#include "wizard/semaphore.h"
void LockSemaphoreInfo(SemaphoreInfo *s) { VASSERT(s != 0,"a lock"); }
void UnlockSemaphoreInfo(SemaphoreInfo *s) { VASSERT(s != 0,"a lock"); }
SemaphoreInfo *AcquireSemaphoreInfo(void) { static char s[1]; return (SemaphoreInfo *) s; }
void RelinquishSemaphoreInfo(SemaphoreInfo **s) { *s=0; }
void *AcquireWizardMemory(const size_t); void *RelinquishWizardMemory(void *); void *AcquireQuantumMemory(const size_t,const size_t);
#define CAP 30
#define NEW 61
static size_t BX,PX,NB,NX,g_n,g_p,g_c,g_oi; static int g_m0,g_rel,g_maprel; static struct _ElementInfo *X,*Y,*Z,*GH,*GO; static struct _LinkedListInfo *LN,*LO,*OL; static struct _LinkedListInfo **g_map; static struct _HashmapInfo *HM;
static int setcap(size_t),reach(void),inner(void *); static void outer_heap(size_t); static struct _ElementInfo *inner_heap(size_t);
#define VINV_out (setcap(capacity) && i >= 0 && (size_t) i <= hashmap_info->capacity && hashmap_info->capacity == g_oi && capacity <= NEW && NB == NX%capacity && map == g_map && reach() == ((size_t) i > BX))
#define VHEAP_out (VASSUME(i >= 0 && (size_t) i <= hashmap_info->capacity), map=g_map, outer_heap((size_t) i))
#define VINV_in (reach() == ((size_t) i > BX || ((size_t) i == BX && inner(next))))
#define VHEAP_in (next=inner_heap((size_t) i), entry=next != 0 ? (EntryInfo *) next->value : 0, element=0, map_info=0)
static void *zero_(void *,int,size_t);
#define memset(p,c,n) zero_(p,c,n)
#include "wizard/hashmap.c"
#undef memset
static void *zero_(void *p,int c,size_t n) { size_t b; VLIMIT(p == (void *) g_map && c == 0,"the new table is cleared"); for (b=0; b < NEW+1; b++) if ((b+1)*sizeof(*g_map) <= n) g_map[b]=0; return p; }
static EntryInfo EX,EY; static size_t g_cur,g_newcap; static ElementInfo sx,sy,sz,sh,so;
static int setcap(size_t c) { if (g_newcap == 0) { VLIMIT(c > 0 && c <= NEW,"the size of the new table"); g_newcap=c; NB=NX%c; } return 1; }
static int reach(void) { ElementInfo *h; if (g_map[NB] == 0) return 0; if (g_map[NB] != LN) return 2; h=LN->head; VASSERT(LN->elements == g_c+(h != (g_m0 ? GH : GO)),"the number of entries of the bucket"); return h == X || (g_m0 && (h == GH || (h == Y && Y->next == GH))); }
static void cells(int m) { size_t b; g_m0=m; g_c=nd_range(m,(size_t) 1 << 60); for (b=0; b < NEW; b++) g_map[b]=nd_bool() ? LO : 0; LN->head=m ? GH : g_c == 0 ? 0 : GO; if (g_c == 0) GO=0; LN->elements=g_c; LN->semaphore=AcquireSemaphoreInfo(); LN->signature=WizardSignature; g_map[NB]=m || nd_bool() ? LN : 0; if (g_map[NB] == 0) VASSUME(g_c == 0); }
static void outer_heap(size_t i) { GO=&so; cells(i > BX); OL->semaphore=AcquireSemaphoreInfo(); OL->signature=WizardSignature; g_n=i == BX ? nd_range(PX+1,(size_t) 1 << 60) : nd_range(0,(size_t) 1 << 60); OL->elements=g_n; X->value=&EX; X->next=PX+1 == g_n ? 0 : Z; Y->value=&EY; EY.hash=nd_size(); EY.hash&=1023; VASSUME(i >= g_oi || EY.hash%g_oi == i); Z->value=&EY; Z->next=0; OL->head=g_n == 0 ? 0 : i == BX && PX == 0 ? X : Y; Y->next=g_n == 1 ? 0 : i == BX && PX == 1 ? X : Z; g_p=0; }
static int inner(void *n) { if (n == 0) return 1; if (n == (void *) X) return 0; return n == (void *) Y ? g_p > PX : g_p+1 > PX; }
static ElementInfo *inner_heap(size_t i) { int m; GO=&so; g_p=nd_range(0,g_n); m=i > BX || (i == BX && g_p > PX); cells(m); X->value=&EX; X->next=PX+1 == g_n ? 0 : Z; Y->next=g_p+1 == g_n ? 0 : i == BX && g_p+1 == PX ? X : Z; g_cur=i == BX && g_p == PX ? EX.hash : EY.hash; return g_p == g_n ? 0 : i == BX && g_p == PX ? X : Y; }
void *AcquireQuantumMemory(const size_t n,const size_t s) { VASSERT(s == sizeof(*g_map),"a table"); if (nd_bool()) return 0; VLIMIT(n <= NEW+1 && g_map == 0,"the table"); g_map=malloc((NEW+1)*sizeof(*g_map)); VASSUME(g_map != 0); { size_t b; for (b=0; b < NEW+1; b++) g_map[b]=LO; } return g_map; }
void *RelinquishWizardMemory(void *p) { if (p == (void *) OL) g_rel++; else { VASSERT(p == (void *) HM->map && p != 0,"the old table is released"); g_maprel++; } return 0; }
LinkedListInfo *NewLinkedList(const size_t c) { LinkedListInfo *l; VASSERT(c == 0,"a list without limit"); l=g_cur%g_newcap == NB ? LN : LO; if (l == LN) VASSERT(g_map[NB] == 0,"one list for a bucket"); l->capacity=~(size_t) 0; l->elements=0; l->head=l->tail=l->next=0; l->semaphore=AcquireSemaphoreInfo(); l->signature=WizardSignature; return l; }
void harness(void)
{
  HashmapInfo *m=malloc(sizeof(*m)); size_t cap=nd_range(1,CAP),j,n=nd_size(); LinkedListInfo **map=malloc((CAP+1)*sizeof(*map)); WizardBooleanType b;
  VASSUME(m != 0 && map != 0); X=&sx; Y=&sy; Z=&sz; GH=&sh; GO=&so; LN=malloc(sizeof(*LN)); LO=malloc(sizeof(*LO)); OL=malloc(sizeof(*OL)); VASSUME(LN != 0 && LO != 0 && OL != 0); LO->head=&so; LO->signature=WizardSignature; LO->semaphore=AcquireSemaphoreInfo(); LN->head=0; LN->elements=0; g_c=0; GO=0;
  m->capacity=cap; m->map=map; m->entries=n; m->semaphore=AcquireSemaphoreInfo(); m->signature=WizardSignature; HM=m; g_oi=cap; g_map=0;
  EX.hash=nd_size(); EX.hash&=1023; NX=EX.hash; BX=NX%cap; PX=nd_range(0,(size_t) 1 << 59); g_newcap=0;
  for (j=0; j < CAP; j++) if (j < cap) map[j]=j == BX || nd_bool() ? OL : 0;
  b=IncreaseHashmapCapacity(m);
  VASSERT(m->entries == n && m->signature == WizardSignature,"the count stays");
  if (b == WizardFalse) { VASSERT(m->map == map && m->capacity == cap && g_maprel == 0,"refused: nothing changes"); VREACH("refused"); return; }
  VASSERT(m->map == g_map && m->capacity > cap && NB == NX%m->capacity && g_maprel == 1,"the new table is in place"); VASSERT(g_map[NB] == LN && reach() == 1,"the entry is in its bucket of the new table");
  VREACH("end");
}
