/* Native: random histories of a hash map against a table, with good and bad hash functions and growth. */
#include "wizard/studio.h"
#include "wizard/WizardsToolkit.h"
#include "wizard/hashmap.h"
#include "vh.h"
#define MAX 90
typedef struct { int id; } Key; static Key g_k[4000]; static int g_v[4000],g_relk[4000],g_relv[4000]; static int g_mode;
static size_t hash(const void *k) { size_t i=(size_t) ((const Key *) k)->id; switch (g_mode) { case 0: return i; case 1: return 7; case 2: return i%3; case 3: return i << 40 | i%2; default: return ~(size_t) 0-i*17; } }
static WizardBooleanType same(const void *a,const void *b) { return ((const Key *) a)->id == ((const Key *) b)->id ? WizardTrue : WizardFalse; }
static void *relk(void *p) { g_relk[(Key *) p-g_k]++; return NULL; }
static void *relv(void *p) { g_relv[(int *) p-g_v]++; return NULL; }
void harness(void)
{
  static int cur[MAX],ck[MAX]; int i,n=(int) nd_range(1,nd_range(0,5) ? 60 : 400),c=0,cnt=0,range=(int) nd_range(1,MAX),seen[MAX]; HashmapInfo *m; Key q; void *p; int nocmp;
  g_mode=(int) nd_range(0,4); nocmp=g_mode == 0 && nd_bool(); m=NewHashmap(nd_range(1,nd_bool() ? 4 : 70),hash,nocmp ? NULL : same,relk,relv); memset(g_relk,0,sizeof(g_relk)); memset(g_relv,0,sizeof(g_relv)); for (i=0; i < MAX; i++) cur[i]=-1;
  for (i=0; i < n; i++)
  {
    int id=(int) nd_range(0,(size_t) range-1); q.id=id;
    switch (nd_range(0,5))
    {
      case 0: case 1: case 2: g_k[c].id=id; VASSERT(PutEntryInHashmap(m,&g_k[c],&g_v[c]) != WizardFalse,"stored"); if (cur[id] < 0) cnt++; else { VASSERT(g_relk[ck[id]] == 1 && g_relv[cur[id]] == 1,"what was replaced is released once"); } cur[id]=ck[id]=c; c++; break;
      case 3: p=RemoveEntryFromHashmap(m,&q); VASSERT(p == (cur[id] < 0 ? NULL : (void *) &g_v[cur[id]]),"the value removed"); if (cur[id] >= 0) { VASSERT(g_relk[ck[id]] == 1 && g_relv[cur[id]] == 0,"the key is released, the value handed out"); cur[id]=-1; cnt--; } break;
      default: p=GetValueFromHashmap(m,&q); VASSERT(p == (cur[id] < 0 ? NULL : (void *) &g_v[cur[id]]),"the value stored last under the key");
    }
    VASSERT(GetNumberOfEntriesInHashmap(m) == (size_t) cnt && (IsHashmapEmpty(m) != WizardFalse) == (cnt == 0),"the number of distinct keys");
  }
  for (i=0; i < range; i++) { q.id=i; VASSERT(GetValueFromHashmap(m,&q) == (cur[i] < 0 ? NULL : (void *) &g_v[cur[i]]),"the value stored last under the key"); }
  memset(seen,0,sizeof(seen)); ResetHashmapIterator(m); while ((p=GetNextKeyInHashmap(m)) != NULL) { int id=((Key *) p)->id; VASSERT(cur[id] >= 0 && (Key *) p == &g_k[ck[id]] && !seen[id]++,"each key once"); } for (i=0; i < range; i++) VASSERT(seen[i] == (cur[i] >= 0),"each key");
  i=0; ResetHashmapIterator(m); while ((p=GetNextValueInHashmap(m)) != NULL) { int id=g_k[(int *) p-g_v].id; VASSERT(cur[id] == (int *) p-g_v,"each value"); i++; } VASSERT(i == cnt,"each value once");
  memset(g_relk,0,sizeof(g_relk)); memset(g_relv,0,sizeof(g_relv)); VASSERT(DestroyHashmap(m) == NULL,"destroyed"); for (i=0; i < range; i++) if (cur[i] >= 0) VASSERT(g_relk[ck[i]] == 1 && g_relv[cur[i]] == 1,"released once");
  if (nd_range(0,9) == 0) { char a[20]="key one",b[20]="key one"; m=NewHashmap(5,HashStringType,CompareHashmapString,NULL,NULL); PutEntryInHashmap(m,a,&q); VASSERT(GetValueFromHashmap(m,b) == &q,"by content"); PutEntryInHashmap(m,b,&i); VASSERT(GetValueFromHashmap(m,a) == &i && GetNumberOfEntriesInHashmap(m) == 1,"by content"); m=DestroyHashmap(m); }
}
