/* Native: byte strings against a plain array, under the address checker; sequences of operations. */
#include "wizard/studio.h"
#include "wizard/WizardsToolkit.h"
#include "vh.h"
#define MAXN 40000
typedef struct { StringInfo *s; uint8_t *b; size_t n; } R;
static uint8_t *cpy(const uint8_t *p,size_t n) { uint8_t *q=malloc(n+1); if (n) memcpy(q,p,n); return q; }
static void same(R *r,const char *why)
{
  uint8_t c; size_t k;
  VASSERT(GetStringInfoLength(r->s) == r->n,why);
  VASSERT(r->n == 0 || memcmp(GetStringInfoDatum(r->s),r->b,r->n) == 0,why);
  for (k=0; k < 128; k+=127) { c=GetStringInfoDatum(r->s)[r->n+k]; GetStringInfoDatum(r->s)[r->n+k]=c; } /* room behind the bytes */
}
static size_t len(void) { switch (nd_range(0,9)) { case 0: return 0; case 1: return nd_range(1,9000); case 2: return nd_range(4000,4200); default: return nd_range(0,80); } }
static void fill(R *r,size_t n) { r->n=n; r->b=malloc(n+1); nd_bytes(r->b,n); if (n && nd_bool()) memset(r->b,(int) nd_range(0,1),n); r->s=BlobToStringInfo(r->b,n); }
void harness(void)
{
  R r[3]; int i,steps=(int) nd_range(1,12); for (i=0; i < 3; i++) fill(&r[i],len());
  while (steps-- > 0)
  {
    int a=(int) nd_range(0,2),b=(int) nd_range(0,2);
    switch (nd_range(0,11))
    {
      case 0: { R c; c.s=CloneStringInfo(r[a].s); c.n=r[a].n; c.b=r[a].b; same(&c,"clone"); VASSERT(GetStringInfoDatum(c.s) != GetStringInfoDatum(r[a].s),"clone has its own storage");
        if (c.n) { GetStringInfoDatum(c.s)[nd_range(0,c.n-1)]^=1; same(&r[a],"clone is independent"); } DestroyStringInfo(c.s); break; }
      case 1: { if (a == b) break; SetStringInfo(r[a].s,r[b].s); { size_t m=r[a].n < r[b].n ? r[a].n : r[b].n; memset(r[a].b,0,r[a].n); memcpy(r[a].b,r[b].b,m); } break; }
      case 2: { if (r[a].n+r[b].n > MAXN) break; { uint8_t *p=malloc(r[a].n+r[b].n+1); memcpy(p,r[a].b,r[a].n); memcpy(p+r[a].n,r[b].b,r[b].n); ConcatenateStringInfo(r[a].s,r[b].s); { size_t n=r[a].n+r[b].n; free(r[a].b); r[a].b=p; r[a].n=n; } } break; }
      case 3: { size_t o=nd_range(0,r[a].n+(r[a].n < 10 ? 2 : 0)); StringInfo *h; if (nd_range(0,4) == 0) o=r[a].n; h=SplitStringInfo(r[a].s,o);
        if (o > r[a].n) { VASSERT(h == NULL,"split behind the end is refused"); break; }
        VASSERT(h != NULL && GetStringInfoLength(h) == o && (o == 0 || memcmp(GetStringInfoDatum(h),r[a].b,o) == 0),"front part of a split"); DestroyStringInfo(h);
        { uint8_t *p=cpy(r[a].b+o,r[a].n-o); free(r[a].b); r[a].b=p; r[a].n-=o; } break; }
      case 4: { size_t n=len(),m=n < r[a].n ? n : r[a].n; uint8_t *p; SetStringInfoLength(r[a].s,n); p=malloc(n+1); memcpy(p,r[a].b,m);
        VASSERT(GetStringInfoLength(r[a].s) == n && (m == 0 || memcmp(GetStringInfoDatum(r[a].s),p,m) == 0),"bytes kept by a new length");
        memcpy(p+m,GetStringInfoDatum(r[a].s)+m,n-m); free(r[a].b); r[a].b=p; r[a].n=n; break; }
      case 5: { int c=CompareStringInfo(r[a].s,r[b].s),w; size_t m=r[a].n < r[b].n ? r[a].n : r[b].n; w=m ? memcmp(r[a].b,r[b].b,m) : 0; if (w == 0) w=(r[a].n > r[b].n)-(r[a].n < r[b].n);
        VASSERT((c < 0) == (w < 0) && (c > 0) == (w > 0),"order of byte strings"); break; }
      case 6: { char *t=StringInfoToString(r[a].s); VASSERT(memcmp(t,r[a].b,r[a].n) == 0 && t[r[a].n] == '\0',"text of a byte string"); DestroyString(t); break; }
      case 7: { ResetStringInfo(r[a].s); memset(r[a].b,0,r[a].n); break; }
      case 8: { nd_bytes(r[a].b,r[a].n); SetStringInfoDatum(r[a].s,r[a].b); break; }
      case 9: { size_t n=len(),k; StringInfo *z=AcquireStringInfo(n); VASSERT(GetStringInfoLength(z) == n,"acquired length"); for (k=0; k < n; k++) VASSERT(GetStringInfoDatum(z)[k] == 0,"acquired string is zero"); DestroyStringInfo(z); break; }
      case 10: { char t[5000]; size_t n=len(),k; StringInfo *z; if (n > 4000) n=4000; for (k=0; k < n; k++) t[k]=(char) nd_range(1,255); t[n]=0; z=StringToStringInfo(t); VASSERT(GetStringInfoLength(z) == n && memcmp(GetStringInfoDatum(z),t,n) == 0,"byte string of a text"); DestroyStringInfo(z); break; }
      default: { R c; SetStringInfoLength(r[a].s,r[a].n); if (r[a].n) { size_t k=nd_range(0,r[a].n-1); r[a].b[k]^=0x55; GetStringInfoDatum(r[a].s)[k]^=0x55; } (void) c; break; }
    }
    for (i=0; i < 3; i++) same(&r[i],"byte strings after an operation");
  }
  for (i=0; i < 3; i++) { DestroyStringInfo(r[i].s); free(r[i].b); }
}
