/* Native: random histories of a linked list against an array. */
#include "wizard/studio.h"
#include "wizard/WizardsToolkit.h"
#include "wizard/hashmap.h"
#include "vh.h"
static int g_cell[400]; static int g_gone[400];
static int cmp(const void *a,const void *b) { return *(const int *) a/2-*(const int *) b/2; }
static void *rel(void *v) { g_gone[(int *) v-g_cell]++; return NULL; }
static void *m[64]; static size_t n,q,cap; static int g_q;
static void compare(LinkedListInfo *l)
{
  void *a[64]; size_t i;
  VASSERT(GetNumberOfElementsInLinkedList(l) == n && (IsLinkedListEmpty(l) != WizardFalse) == (n == 0),"the number of elements");
  VASSERT(LinkedListToArray(l,a) != WizardFalse,"an array"); for (i=0; i < n; i++) { VASSERT(a[i] == m[i],"the values in order"); VASSERT(GetValueFromLinkedList(l,i) == m[i],"the value at the position"); }
  VASSERT(GetValueFromLinkedList(l,n) == NULL && GetLastValueInLinkedList(l) == (n ? m[n-1] : NULL),"the last value");
}
void harness(void)
{
  LinkedListInfo *l; int i,steps=(int) nd_range(1,60),c=0; size_t j; int sorted=nd_bool(); void *r;
  cap=nd_range(0,3) ? nd_range(1,12) : 0; l=NewLinkedList(cap); if (cap == 0) cap=60; n=0; memset(g_gone,0,sizeof(g_gone)); q=0;
  for (i=0; i < steps; i++)
  {
    size_t k=nd_range(0,n+1); void *v=&g_cell[c]; g_cell[c]=(int) nd_range(0,12); c++;
    switch (nd_range(0,11))
    {
      case 0: case 1: if (sorted) goto s; if (n >= cap) { VASSERT(cap == 60 || AppendValueToLinkedList(l,v) == WizardFalse,"full"); break; } VASSERT(AppendValueToLinkedList(l,v) != WizardFalse,"appended"); m[n++]=v; break;
      case 2: case 3: case 4: if (sorted) goto s; if (n >= cap || k > n) { VASSERT((n >= cap && cap == 60) || InsertValueInLinkedList(l,k,v) == WizardFalse,"refused"); break; } VASSERT(InsertValueInLinkedList(l,k,v) != WizardFalse,"inserted"); memmove(m+k+1,m+k,(n-k)*sizeof(*m)); m[k]=v; n++; if (k < q) q++; break;
      s: case 5: case 6: if (!sorted) break; { int rep=nd_bool(); r=NULL; if (n >= cap) { VASSERT(cap == 60 || InsertValueInSortedLinkedList(l,cmp,rep ? &r : NULL,v) == WizardFalse,"full"); break; } VASSERT(InsertValueInSortedLinkedList(l,cmp,rep ? &r : NULL,v) != WizardFalse,"inserted");
        for (j=0; j < n; j++) if (cmp(v,m[j]) < 0 || (rep && cmp(v,m[j]) == 0)) break; if (j < n && rep && cmp(v,m[j]) == 0) { VASSERT(r == m[j],"the value replaced is handed out"); m[j]=v; } else { VASSERT(r == NULL,"nothing replaced"); memmove(m+j+1,m+j,(n-j)*sizeof(*m)); m[j]=v; n++; if (j <= q && q < n-1) { if (j < q || GetNumberOfElementsInLinkedList(l) == 0) q++; else { ResetLinkedListIterator(l); q=0; } } else if (q >= n-1) { ResetLinkedListIterator(l); q=0; } } } break;
      case 7: r=RemoveElementFromLinkedList(l,k); VASSERT(r == (k < n ? m[k] : NULL),"the value removed"); if (k < n) { memmove(m+k,m+k+1,(n-k-1)*sizeof(*m)); n--; if (k < q) q--; } break;
      case 8: { void *w=n && nd_range(0,3) ? m[k%n] : v; for (j=0; j < n; j++) if (m[j] == w) break; r=RemoveElementByValueFromLinkedList(l,w); VASSERT(r == (j < n ? w : NULL),"removed by value"); if (j < n) { memmove(m+j,m+j+1,(n-j-1)*sizeof(*m)); n--; if (j < q) q--; } } break;
      case 9: r=RemoveLastElementFromLinkedList(l); VASSERT(r == (n ? m[n-1] : NULL),"the last value"); if (n) { n--; if (q > n) q=n; } break;
      case 10: { size_t x=nd_range(0,3); while (x--) { r=GetNextValueInLinkedList(l); VASSERT(r == (q < n ? m[q] : NULL),"iteration hands out the elements in order"); if (q < n) q++; } } break;
      case 11: if (nd_range(0,9) == 0) { ClearLinkedList(l,rel); for (j=0; j < n; j++) VASSERT(g_gone[(int *) m[j]-g_cell] == 1,"each value is released once"); n=0; q=0; } else { ResetLinkedListIterator(l); for (j=0; j < n; j++) VASSERT(GetNextValueInLinkedList(l) == m[j],"iteration"); VASSERT(GetNextValueInLinkedList(l) == NULL,"and ends"); ResetLinkedListIterator(l); q=0; } break;
    }
    compare(l);
  }
  memset(g_gone,0,sizeof(g_gone)); VASSERT(DestroyLinkedList(l,rel) == NULL,"destroyed"); for (j=0; j < n; j++) VASSERT(g_gone[(int *) m[j]-g_cell] == 1,"each value is released once");
}
