/* Native: secrets generated and authenticated, with wrong passphrases and altered key rings.  Files live in the scratch directory of the run. */
#include "wizard/studio.h"
#include "wizard/WizardsToolkit.h"
#include "vh.h"
#include <sys/resource.h>
#include <signal.h>
static void put(const char *p,const uint8_t *b,size_t n) { FILE *f=fopen(p,"wb"); VASSUME(f != NULL && fwrite(b,1,n,f) == n); fclose(f); }
static int same(const StringInfo *a,const StringInfo *b) { return a != NULL && b != NULL && GetStringInfoLength(a) == GetStringInfoLength(b) && memcmp(GetStringInfoDatum(a),GetStringInfoDatum(b),GetStringInfoLength(a)) == 0; }
void harness(void)
{
  ExceptionInfo *e=AcquireExceptionInfo(); char r[64],p[64],q[64]; uint8_t b[80],c[80]; size_t n=nd_range(1,70),l=8*nd_range(1,40)+(nd_bool() ? nd_range(0,7) : 0),i,m=nd_range(1,3); StringInfo *id[3],*key[3]; struct stat st; off_t end[4];
  HashType hs[]={SHA1Hash,SHA2224Hash,SHA2256Hash,SHA2384Hash,SHA2512Hash,MD5Hash}; HashType h=hs[nd_range(0,5)]; int w;
  snprintf(r,64,"r%d",(int) getpid()); snprintf(p,64,"p%d",(int) getpid()); snprintf(q,64,"q%d",(int) getpid()); unlink(r); nd_bytes(b,n); put(p,b,n); signal(SIGXFSZ,SIG_IGN);
  memcpy(c,b,n); w=(int) n; c[nd_range(0,n-1)]^=(uint8_t) (1 << nd_range(0,7)); if (nd_bool()) { memcpy(c,b,n); c[n]=(uint8_t) nd_range(1,255); w++; } put(q,c,(size_t) w); end[0]=64;
  for (i=0; i < m; i++)
  {
    AuthenticateInfo *a=AcquireAuthenticateInfo(SecretAuthenticateMethod,r,h); SetAuthenticatePassphrase(a,p); SetAuthenticateKeyLength(a,l);
    VASSERT(GenerateAuthenticateKey(a,e) != WizardFalse,"generated"); id[i]=CloneStringInfo(GetAuthenticateId(a)); key[i]=CloneStringInfo(GetAuthenticateKey(a)); VASSERT(GetStringInfoLength(key[i]) == l/8,"a key of the requested length"); DestroyAuthenticateInfo(a);
    VASSUME(stat(r,&st) == 0); end[i+1]=st.st_size;
  }
  for (i=0; i < m; i++)
  {
    SecretInfo *s=AcquireSecretInfo(r,h,l); SetSecretId(s,id[i]);
    if (nd_bool()) { SetSecretPassphrase(s,q); VASSERT(AuthenticateSecretKey(s,e) == WizardFalse,"a wrong passphrase is refused"); }
    SetSecretPassphrase(s,p); VASSERT(AuthenticateSecretKey(s,e) != WizardFalse && same(GetSecretKey(s),key[i]),"the right one hands out the key generated");
    if (nd_bool()) VASSERT(AuthenticateSecretKey(s,e) != WizardFalse && same(GetSecretKey(s),key[i]),"and does so again");
    DestroySecretInfo(s);
  }
  { /* an altered byte of the stored key, nonce or identifier */
    int f=open(r,O_RDWR); uint8_t x; off_t o; SecretInfo *s; size_t k=nd_range(0,m-1),dl=GetStringInfoLength(id[k]),kl=l/8; WizardBooleanType v; int key_=nd_bool();
    o=key_ ? end[k]+28+(off_t) dl+(off_t) nd_range(0,kl-1) : end[k+1]-1-(off_t) nd_range(0,7);
    VASSUME(f >= 0 && pread(f,&x,1,o) == 1); x^=(uint8_t) nd_range(1,255); pwrite(f,&x,1,o); close(f);
    s=AcquireSecretInfo(r,h,l); SetSecretId(s,id[k]); SetSecretPassphrase(s,p); v=AuthenticateSecretKey(s,e);
    if (key_) VASSERT(v == WizardFalse,"an altered key is refused"); if (v != WizardFalse) VASSERT(same(GetSecretKey(s),key[k]),"only the key generated is handed out"); DestroySecretInfo(s);
  }
  { struct rlimit o,t; SecretInfo *s=AcquireSecretInfo(r,h,l); WizardBooleanType v; SetSecretPassphrase(s,p); getrlimit(RLIMIT_FSIZE,&o); t=o; t.rlim_cur=(rlim_t) end[m]+nd_range(0,28+l/8); setrlimit(RLIMIT_FSIZE,&t); v=GenerateSecretKey(s,e); setrlimit(RLIMIT_FSIZE,&o); VASSERT(v == WizardFalse,"generated only if stored"); DestroySecretInfo(s); }
  { SecretInfo *s=AcquireSecretInfo(r,h,l); StringInfo *x=CloneStringInfo(id[0]); WizardBooleanType v; GetStringInfoDatum(x)[nd_range(0,GetStringInfoLength(x)-1)]^=(uint8_t) nd_range(1,255); SetSecretId(s,x); SetSecretPassphrase(s,p); v=AuthenticateSecretKey(s,e); VASSERT(v == WizardFalse,"an identifier that was not stored is refused"); DestroyStringInfo(x); DestroySecretInfo(s); }
  for (i=0; i < m; i++) { DestroyStringInfo(id[i]); DestroyStringInfo(key[i]); }
  unlink(r); unlink(p); unlink(q); DestroyExceptionInfo(e);
}
