/* Native: texts against a plain definition, in exactly sized buffers under the address checker. */
#include "wizard/studio.h"
#include "wizard/WizardsToolkit.h"
#include "vh.h"
static char *rnd(size_t n,int few) { char *s=malloc(n+1); size_t i; for (i=0; i < n; i++) s[i]=few ? "aAbBzZ @[`{"[nd_range(0,10)] : (char) nd_range(1,127); s[n]=0; return s; }
static size_t len(void) { return nd_range(0,9) == 0 ? nd_range(0,9000) : nd_range(0,20); }
static int sgn(int x) { return (x > 0)-(x < 0); }
static char *lower(const char *s) { char *r=strdup(s),*p; for (p=r; *p; p++) if (*p >= 'A' && *p <= 'Z') *p+=32; return r; }
void harness(void)
{
  size_t na=len(),nb=len(),m,i; char *a=rnd(na,nd_bool()),*b=rnd(nb,nd_bool()),*d;
  switch (nd_range(0,7))
  {
    case 0: { size_t c=nd_bool() ? nd_range(0,na+4) : na+nd_range(0,4)-(na > 1); d=malloc(c+1); d[c]='#'; CopyWizardString(d,a,c); VASSERT(d[c] == '#',"copy stays inside the capacity");
      if (c) { m=na < c-1 ? na : c-1; VASSERT(memcmp(d,a,m) == 0 && d[m] == 0,"bounded copy"); } free(d); break; }
    case 1: { size_t c=nb+1+nd_range(0,na+3); d=malloc(c+1); d[c]='#'; memcpy(d,b,nb+1); ConcatenateWizardString(d,a,c); VASSERT(d[c] == '#',"append stays inside the capacity");
      m=na < c-1-nb ? na : c-1-nb; VASSERT(memcmp(d,b,nb) == 0 && memcmp(d+nb,a,m) == 0 && d[nb+m] == 0,"bounded append"); free(d); break; }
    case 2: d=AcquireString(a); VASSERT(strcmp(d,a) == 0,"acquired text"); { char *e=d; ConcatenateString(&e,b); VASSERT(strlen(e) == na+nb && memcmp(e,a,na) == 0 && memcmp(e+na,b,nb) == 0,"grown text"); for (i=0; i < 5; i++) ConcatenateString(&e,"xy"); VASSERT(strlen(e) == na+nb+10,"grown text"); DestroyString(e); } break;
    case 3: d=NULL; if (nd_bool()) d=AcquireString(b); CloneString(&d,a); VASSERT(strcmp(d,a) == 0,"cloned text"); CloneString(&d,NULL); VASSERT(d == NULL,"cloned nothing"); d=ConstantString(a); VASSERT(strcmp(d,a) == 0,"constant text"); DestroyString(d); break;
    case 4: case 5: { char *la,*lb; size_t n; if (nd_bool()) { free(b); b=strdup(a); nb=na; for (i=0; i < nb; i++) if (nd_bool() && isalpha((unsigned char) b[i])) b[i]^=32; if (nd_bool() && nb) { i=nd_range(0,nb-1); if (nd_bool()) b[i]=(char) nd_range(1,127); else b[i]=0; } }
      la=lower(a); lb=lower(b); n=nd_range(0,30);
      VASSERT(sgn(LocaleCompare(a,b)) == sgn(strcmp(la,lb)),"case-insensitive order"); VASSERT(sgn(LocaleCompare(b,a)) == -sgn(LocaleCompare(a,b)),"symmetric");
      VASSERT(sgn(LocaleNCompare(a,b,n)) == sgn(strncmp(la,lb,n)),"case-insensitive order of the first characters"); VASSERT(LocaleCompare(NULL,a) < 0 && LocaleCompare(a,NULL) > 0 && LocaleCompare(NULL,NULL) == 0,"no text"); free(la); free(lb); break; }
    case 6: { char *l=lower(a); LocaleLower(a); VASSERT(strcmp(a,l) == 0,"lower case"); free(l); break; }
    default: { /* substitution */
      char *s,*r,*w,*o,*p,*q; size_t k; na=nd_range(0,30); free(a); a=rnd(na,1); s=rnd(nd_range(1,2),1); r=rnd(nd_range(0,4),1); w=AcquireString(a); SubstituteString(&w,s,r);
      o=malloc(na*5+10); q=o; k=strlen(s); for (p=a; *p; ) if (strncmp(p,s,k) == 0) { strcpy(q,r); q+=strlen(r); p+=k; } else *q++=*p++; *q=0; VASSERT(strcmp(o,w) == 0,"substituted text"); DestroyString(w); free(s); free(r); free(o); break; }
  }
  free(a); free(b);
}
