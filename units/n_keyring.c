/* Native: key rings against a list of the entries stored; damaged files.  Files live in the scratch directory of the run. */
#include "wizard/studio.h"
#include "wizard/WizardsToolkit.h"
#include "vh.h"
#include <sys/resource.h>
#include <signal.h>
#define NR 8
static StringInfo *rs(size_t lo,size_t hi) { size_t n=nd_range(lo,hi); uint8_t b[400]; StringInfo *s; nd_bytes(b,n); if (nd_bool()) memset(b,(int) nd_range(0,1),n); s=BlobToStringInfo(b,n); if (s == NULL) s=AcquireStringInfo(n); return s; }
static int same(const StringInfo *a,const StringInfo *b) { return a != NULL && b != NULL && GetStringInfoLength(a) == GetStringInfoLength(b) && memcmp(GetStringInfoDatum(a),GetStringInfoDatum(b),GetStringInfoLength(a)) == 0; }
static void look(const char *p,StringInfo **id,StringInfo **key,StringInfo **non,int n,StringInfo *w,int whole,ExceptionInfo *e)
{
  int j,f=-1; KeyringInfo *k=AcquireKeyringInfo(p); WizardBooleanType r; for (j=0; j < n; j++) if (same(id[j],w)) f=j;
  SetKeyringId(k,w); if (nd_bool()) { StringInfo *s=rs(0,20); SetKeyringKey(k,s); SetKeyringNonce(k,s); DestroyStringInfo(s); }
  r=ExportKeyringKey(k,e);
  if (whole) VASSERT((r != WizardFalse) == (f >= 0),"found exactly if stored");
  if (r != WizardFalse) VASSERT(f >= 0 && same(GetKeyringKey(k),key[f]) && same(GetKeyringNonce(k),non[f]),"the key and nonce stored under the identifier");
  DestroyKeyringInfo(k);
}
void harness(void)
{
  ExceptionInfo *e=AcquireExceptionInfo(); StringInfo *id[NR],*key[NR],*non[NR]; int n=(int) nd_range(1,NR),i,m=0; char p[64]; struct stat st; off_t end[NR+1];
  snprintf(p,sizeof(p),"k%d",(int) getpid()); unlink(p); signal(SIGXFSZ,SIG_IGN); end[0]=64;
  for (i=0; i < n; i++)
  {
    KeyringInfo *k=AcquireKeyringInfo(p); int dup=0,j; WizardBooleanType r; id[m]=rs(0,i%2 ? 3 : 40); key[m]=rs(0,60); non[m]=rs(0,300);
    for (j=0; j < m; j++) dup|=same(id[j],id[m]);
    SetKeyringId(k,id[m]); SetKeyringKey(k,key[m]); SetKeyringNonce(k,non[m]); r=ImportKeyringKey(k,e); DestroyKeyringInfo(k);
    VASSERT((r != WizardFalse) == !dup,"stored unless already there");
    if (!dup) { VASSERT(stat(p,&st) == 0,"there"); end[++m]=st.st_size; VASSERT((size_t) (end[m]-end[m-1]) == 32+GetStringInfoLength(id[m-1])+GetStringInfoLength(key[m-1])+GetStringInfoLength(non[m-1]),"a complete record"); }
    else { DestroyStringInfo(id[m]); DestroyStringInfo(key[m]); DestroyStringInfo(non[m]); }
  }
  for (i=0; i < m; i++) look(p,id,key,non,m,id[i],1,e);
  { StringInfo *w=rs(0,4); look(p,id,key,non,m,w,1,e); DestroyStringInfo(w); }
  if (nd_bool()) /* a store that cannot be completed */
    {
      struct rlimit o,l; KeyringInfo *k=AcquireKeyringInfo(p); StringInfo *x=rs(41,60); WizardBooleanType r; getrlimit(RLIMIT_FSIZE,&o); l=o; l.rlim_cur=(rlim_t) end[m]+nd_range(0,31+3*GetStringInfoLength(x)); 
      SetKeyringId(k,x); SetKeyringKey(k,x); SetKeyringNonce(k,x); setrlimit(RLIMIT_FSIZE,&l); r=ImportKeyringKey(k,e); setrlimit(RLIMIT_FSIZE,&o); VASSERT(r == WizardFalse,"success only if the complete record was written");
      SetKeyringKey(k,x); r=ExportKeyringKey(k,e); VASSERT(r == WizardFalse,"an incomplete record is not found"); for (i=0; i < m; i++) look(p,id,key,non,m,id[i],0,e);
      DestroyStringInfo(x); DestroyKeyringInfo(k); truncate(p,end[m]);
    }
  if (nd_bool()) /* truncated */
    {
      off_t t=(off_t) nd_range(0,(size_t) end[m]); int c=0; if (nd_bool() && t+10 > end[m]) t=end[m]-(off_t) nd_range(1,9); truncate(p,t); while (c < m && end[c+1] <= t) c++; if (t < 64) c=0;
      for (i=0; i < m; i++) look(p,id,key,non,c,id[i],1,e);
    }
  else if (nd_bool()) /* foreign */
    { int f=open(p,O_RDWR); uint8_t x; off_t o=(off_t) nd_range(0,63); VASSUME(f >= 0 && pread(f,&x,1,o) == 1); x^=(uint8_t) nd_range(1,255); pwrite(f,&x,1,o); close(f); for (i=0; i < m; i++) look(p,id,key,non,0,id[i],1,e); }
  else if (m > 0) /* damaged signature of record c */
    { int f=open(p,O_RDWR),c=(int) nd_range(0,(size_t) m-1); uint8_t x; off_t o=end[c]+(off_t) nd_range(0,3); VASSUME(f >= 0 && pread(f,&x,1,o) == 1); x^=(uint8_t) nd_range(1,255); pwrite(f,&x,1,o); close(f); for (i=0; i < m; i++) look(p,id,key,non,c,id[i],1,e); }
  for (i=0; i < m; i++) { DestroyStringInfo(id[i]); DestroyStringInfo(key[i]); DestroyStringInfo(non[i]); }
  unlink(p); DestroyExceptionInfo(e);
}
