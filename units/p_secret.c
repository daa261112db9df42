/*
  Secrets.  A byte string is a handle on its value (a number standing for its content) and its length;
  the cipher is an uninterpreted permutation under key and nonce (P01), HMAC an uninterpreted function
  of key and message (P06), the key ring its contract (P13).
*/
#include "vh.h"
#include "wizard/studio.h"
#include "wizard/string_.h"
#include "wizard/file.h"
#include "wizard/blob.h"
#include "private_StringInfo.h"
typedef struct { uint64_t v; } H;
uint64_t __CPROVER_uninterpreted_enc(uint64_t,uint64_t,uint64_t);
uint64_t __CPROVER_uninterpreted_dec(uint64_t,uint64_t,uint64_t);
uint64_t __CPROVER_uninterpreted_mac(uint64_t,uint64_t);
#define ENC __CPROVER_uninterpreted_enc
#define DEC __CPROVER_uninterpreted_dec
#define MAC __CPROVER_uninterpreted_mac
#define HV(s) (((H *) (s)->datum)->v)
#define OKS(s) VASSERT((s) != 0 && (s)->signature == WizardSignature,"a byte string")
static StringInfo *str(size_t n,uint64_t v)
{ StringInfo *s=malloc(sizeof(*s)); H *h=malloc(sizeof(*h)); VASSUME(s != 0 && h != 0); h->v=v; s->length=n; s->datum=(unsigned char *) h; s->signature=WizardSignature; return s; }
StringInfo *AcquireStringInfo(const size_t n) { return str(n,nd_u64()); }
StringInfo *CloneStringInfo(const StringInfo *s) { OKS(s); return str(s->length,HV(s)); }
void SetStringInfo(StringInfo *a,const StringInfo *b) { OKS(a); OKS(b); a->length=b->length; HV(a)=HV(b); }
StringInfo *DestroyStringInfo(StringInfo *s) { OKS(s); s->signature=0; free(s->datum); free(s); return 0; }
size_t GetStringInfoLength(const StringInfo *s) { OKS(s); return s->length; }
int CompareStringInfo(const StringInfo *a,const StringInfo *b) { int c=nd_int(); OKS(a); OKS(b); VASSUME((c == 0) == (a->length == b->length && HV(a) == HV(b))); return c; }
char *DestroyString(char *s) { free(s); return 0; }
char *ConstantString(const char *s) { char *r=malloc(2); VASSUME(r != 0); r[0]=s[0]; r[1]=0; return r; }
static size_t g_dl; static uint64_t g_phrase,g_keyv; static size_t g_plen,g_want; static int g_nophrase,g_loop; static char g_file[2]="f";
#if GEN
#define VINV_g (secret_info->signature == WizardSignature && secret_info->key_length == g_want && phrase->signature == WizardSignature && HV(phrase) == g_phrase)
/* the secret's key and identifier are destroyed and made anew in each round: here they are any two strings */
#define VHEAP_g (phrase=g_ps, secret_info->key=nd_bool() ? str(nd_u64(),nd_u64()) : 0, secret_info->id=nd_bool() ? str(nd_u64(),nd_u64()) : 0, ring_havoc(secret_info->keyring_info), mac_havoc(secret_info->hmac_info))
#endif
static StringInfo *g_ps; static void ring_havoc(void *); static void mac_havoc(void *);
#include "wizard/secret.c"
struct _KeyringInfo { uint64_t id,key,nonce; size_t idl,keyl,noncel; StringInfo *k,*n; };
struct _CipherInfo { uint64_t key,nonce; int keyed,fresh; };
struct _HMACInfo { StringInfo *d; int set; };
/* the one record of the ring this proof follows */
static int g_has; static uint64_t g_id,g_k,g_n; static size_t g_idl,g_kl,g_nl; static int g_stored,g_gen;
KeyringInfo *AcquireKeyringInfo(const char *p) { KeyringInfo *k=malloc(sizeof(*k)); VASSUME(k != 0); k->idl=nd_size(); k->id=nd_u64(); k->k=str(nd_size(),nd_u64()); k->n=str(nd_size(),nd_u64()); return k; }
KeyringInfo *DestroyKeyringInfo(KeyringInfo *k) { free(k); return 0; }
static void ring_havoc(void *p) { KeyringInfo *k=p; k->idl=nd_size(); k->id=nd_u64(); k->k->length=nd_size(); HV(k->k)=nd_u64(); k->n->length=nd_size(); HV(k->n)=nd_u64(); }
void SetKeyringId(KeyringInfo *k,const StringInfo *s) { OKS(s); k->id=HV(s); k->idl=s->length; }
void SetKeyringKey(KeyringInfo *k,const StringInfo *s) { OKS(s); k->k->length=s->length; HV(k->k)=HV(s); }
void SetKeyringNonce(KeyringInfo *k,const StringInfo *s) { OKS(s); k->n->length=s->length; HV(k->n)=HV(s); }
const StringInfo *GetKeyringKey(const KeyringInfo *k) { return k->k; }
const StringInfo *GetKeyringNonce(const KeyringInfo *k) { return k->n; }
WizardBooleanType ExportKeyringKey(KeyringInfo *k,ExceptionInfo *e)
{
  VASSERT(e != 0,"an exception record");
  if (g_gen) { if (nd_bool()) return WizardFalse; ring_havoc(k); VASSUME(1); return WizardTrue; }
  if (!g_has || k->id != g_id || k->idl != g_idl) return WizardFalse;
  k->k->length=g_kl; HV(k->k)=g_k; k->n->length=g_nl; HV(k->n)=g_n; return WizardTrue;
}
WizardBooleanType ImportKeyringKey(KeyringInfo *k,ExceptionInfo *e)
{
  if (nd_bool()) return WizardFalse;
  g_stored++; g_has=1; g_id=k->id; g_idl=k->idl; g_k=HV(k->k); g_kl=k->k->length; g_n=HV(k->n); g_nl=k->n->length; return WizardTrue;
}
CipherInfo *AcquireCipherInfo(const CipherType c,const CipherMode m) { CipherInfo *p=malloc(sizeof(*p)); VASSUME(p != 0); p->keyed=p->fresh=0; p->key=nd_u64(); p->nonce=nd_u64(); VASSERT(c != UndefinedCipher && c != NoCipher && m != UndefinedMode,"a cipher"); return p; }
CipherInfo *DestroyCipherInfo(CipherInfo *p) { free(p); return 0; }
StringInfo *GenerateCipherNonce(CipherInfo *p) { return str(16,nd_u64()); }
void SetCipherKey(CipherInfo *p,const StringInfo *s) { OKS(s); p->key=HV(s); p->keyed=1; }
void SetCipherNonce(CipherInfo *p,const StringInfo *s) { OKS(s); p->nonce=HV(s); p->fresh=1; }
static StringInfo *run(CipherInfo *p,StringInfo *s,int e)
{
  uint64_t v,k,n; OKS(s); VASSERT(p->keyed && p->fresh,"the cipher has been given key and nonce"); p->fresh=0; k=p->key; n=p->nonce; v=HV(s);
  if (e) { HV(s)=ENC(k,n,v); VASSUME(DEC(k,n,HV(s)) == v); } else { HV(s)=DEC(k,n,v); VASSUME(ENC(k,n,HV(s)) == v); }
  return s;
}
StringInfo *EncipherCipher(CipherInfo *p,StringInfo *s) { return run(p,s,1); }
StringInfo *DecipherCipher(CipherInfo *p,StringInfo *s) { return run(p,s,0); }
HMACInfo *AcquireHMACInfo(const HashType h) { HMACInfo *p=malloc(sizeof(*p)); VASSUME(p != 0); p->d=str(g_dl,nd_u64()); return p; }
HMACInfo *DestroyHMACInfo(HMACInfo *p) { free(p); return 0; }
static void mac_havoc(void *p) { HV(((HMACInfo *) p)->d)=nd_u64(); }
/* HMAC of different lengths of the same number differ as well: the length is part of the content */
void ConstructHMAC(HMACInfo *p,const StringInfo *k,const StringInfo *m) { OKS(k); OKS(m); HV(p->d)=MAC(HV(k),HV(m)); }
const StringInfo *GetHMACDigest(const HMACInfo *p) { return p->d; }
RandomInfo *AcquireRandomInfo(const HashType h) { return malloc(1); }
RandomInfo *DestroyRandomInfo(RandomInfo *r) { free(r); return 0; }
StringInfo *GetRandomKey(RandomInfo *r,const size_t n) { g_keyv=nd_u64(); VASSERT(n == g_want/8,"a key of the requested length"); return str(n,g_keyv); }
static StringInfo *phrase(void) { if (g_nophrase) return 0; return g_ps=str(g_plen,g_phrase); }
StringInfo *GetPassphrase(ExceptionInfo *e) { return phrase(); }
StringInfo *FileToStringInfo(const char *f,const size_t n,ExceptionInfo *e) { VASSERT(f[0] == g_file[0] && f[1] == 0 && n == ~(size_t) 0,"the whole passphrase file"); return phrase(); }
static ExceptionInfo *mk(void) { ExceptionInfo *e=malloc(1); VASSUME(e != 0); return e; }
ExceptionInfo *AcquireExceptionInfo(void) { return mk(); }
ExceptionInfo *DestroyExceptionInfo(ExceptionInfo *e) { free(e); return 0; }
void harness(void)
{
  ExceptionInfo *e=mk(); SecretInfo *s; WizardBooleanType r; int f=nd_bool(); uint64_t p2; StringInfo *id,*c;
  g_dl=nd_size(); g_want=nd_size(); g_phrase=nd_u64(); g_plen=nd_size(); g_nophrase=nd_bool();
#if GEN
  uint64_t kv; size_t kl;
  s=AcquireSecretInfo("r",SHA2256Hash,g_want); if (f) SetSecretPassphrase(s,g_file);
  if (nd_bool()) { g_want=nd_size(); SetSecretKeyLength(s,g_want); }
  if (nd_bool()) { StringInfo *x=str(nd_size(),nd_u64()); SetSecretId(s,x); }
  g_gen=1; r=GenerateSecretKey(s,e); g_gen=0;
  if (g_nophrase) { VASSERT(r == WizardFalse && g_stored == 0,"refused without a passphrase"); VREACH("nophrase"); return; }
  VASSERT((r != WizardFalse) == (g_stored == 1) && g_stored <= 1,"success exactly if the key was stored");
  if (r == WizardFalse) return;
  VASSERT(GetSecretKey(s)->length == g_want/8 && GetSecretKeyLength(s) == g_want,"a key of the requested length");
  VASSERT(HV(GetSecretKey(s)) == g_keyv,"the random key last drawn");
  VASSERT(g_id == MAC(g_phrase,g_keyv) && g_idl == g_dl && HV(GetSecretId(s)) == g_id && GetSecretId(s)->length == g_dl,"stored under the HMAC of the key");
  VASSERT(g_k == ENC(g_phrase,g_n,g_keyv),"the key is stored enciphered under the passphrase and the nonce stored with it");
  VASSERT(g_kl == g_want/8,"stored completely");
  kv=HV(GetSecretKey(s)); kl=GetSecretKey(s)->length; c=CloneStringInfo(GetSecretId(s));
  s=nd_bool() ? s : AcquireSecretInfo("r",SHA2256Hash,nd_size()); if (f) SetSecretPassphrase(s,g_file);
  SetSecretId(s,c); r=AuthenticateSecretKey(s,e);
  VASSERT(r != WizardFalse && HV(GetSecretKey(s)) == kv && GetSecretKey(s)->length == kl,"the same passphrase hands out the key generated");
  VREACH("both");
#else
  g_has=nd_bool(); g_id=nd_u64(); g_idl=nd_size(); g_k=nd_u64(); g_kl=nd_size(); g_n=nd_u64(); g_nl=nd_size();
  s=AcquireSecretInfo("r",SHA2256Hash,g_want); if (f) SetSecretPassphrase(s,g_file);
  id=str(nd_size(),nd_u64()); SetSecretId(s,id);
  if (nd_bool()) s->key=str(nd_size(),nd_u64());
  r=AuthenticateSecretKey(s,e);
  {
    int want=!g_nophrase && g_has && g_id == HV(id) && g_idl == id->length && id->length == g_dl && MAC(g_phrase,DEC(g_phrase,g_n,g_k)) == HV(id);
    VASSERT((r != WizardFalse) == want,"authenticated exactly if the identifier is the HMAC of the deciphered key");
    if (want) { VASSERT(HV(GetSecretKey(s)) == DEC(g_phrase,g_n,g_k) && GetSecretKey(s)->length == g_kl,"the deciphered key is handed out"); VREACH("authenticated"); }
    VASSERT(HV(GetSecretId(s)) == HV(id) && GetSecretId(s)->length == id->length,"the identifier is kept"); VASSERT(g_stored == 0,"nothing is stored");
  }
  DestroySecretInfo(s); VREACH("end");
#endif
}
