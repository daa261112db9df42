/* The authentication interface hands over to the secret behind it. */
#include "vh.h"
#include "wizard/studio.h"
#include "wizard/string_.h"
#include "wizard/secret.h"
#include "wizard/hash.h"
static int g_call,g_r; static SecretInfo *g_s; static void *g_x; static size_t g_l; static ExceptionInfo *g_e;
#define S(n) (VASSERT(s == g_s && g_call == 0,"the secret, once"), g_call=n)
SecretInfo *AcquireSecretInfo(const char *p,const HashType h,const size_t n) { VASSERT(p == g_x && h == SHA2384Hash && g_s == 0,"the key ring and hash named"); g_l=n; g_s=malloc(1); VASSUME(g_s != 0); return g_s; }
WizardBooleanType AuthenticateSecretKey(SecretInfo *s,ExceptionInfo *e) { S(1); VASSERT(e == g_e,"exception"); return g_r ? WizardTrue : WizardFalse; }
SecretInfo *DestroySecretInfo(SecretInfo *s) { S(2); free(s); return 0; }
WizardBooleanType GenerateSecretKey(SecretInfo *s,ExceptionInfo *e) { S(3); VASSERT(e == g_e,"exception"); return g_r ? WizardTrue : WizardFalse; }
const StringInfo *GetSecretId(const SecretInfo *s) { S(4); return g_x; }
const StringInfo *GetSecretKey(const SecretInfo *s) { S(5); return g_x; }
size_t GetSecretKeyLength(const SecretInfo *s) { S(6); return g_l; }
const char *GetSecretPassphrase(const SecretInfo *s) { S(7); return g_x; }
void SetSecretId(SecretInfo *s,const StringInfo *i) { S(8); VASSERT((void *) i == g_x,"id"); }
void SetSecretKeyLength(SecretInfo *s,const size_t n) { S(9); VASSERT(n == g_l,"length"); }
void SetSecretPassphrase(SecretInfo *s,const char *p) { S(10); VASSERT((void *) p == g_x,"passphrase"); }
#include "wizard/authenticate.c"
void harness(void)
{
  AuthenticateInfo *a; int op=nd_int(); g_x=malloc(1); g_e=malloc(1); VASSUME(g_x != 0 && g_e != 0);
  a=AcquireAuthenticateInfo(SecretAuthenticateMethod,g_x,SHA2384Hash); VASSERT(g_s != 0,"a secret"); g_l=nd_size(); g_r=nd_bool();
  switch (op)
  {
    case 1: VASSERT((AuthenticateKey(a,g_e) != WizardFalse) == (g_r != 0),"the answer of the secret"); break;
    case 2: VASSERT(DestroyAuthenticateInfo(a) == 0,"destroyed"); break;
    case 3: VASSERT((GenerateAuthenticateKey(a,g_e) != WizardFalse) == (g_r != 0),"the answer of the secret"); break;
    case 4: VASSERT((void *) GetAuthenticateId(a) == g_x,"id"); break;
    case 5: VASSERT((void *) GetAuthenticateKey(a) == g_x,"key"); break;
    case 6: VASSERT(GetAuthenticateKeyLength(a) == g_l,"length"); break;
    case 7: VASSERT((void *) GetAuthenticatePassphrase(a) == g_x,"passphrase"); break;
    case 8: SetAuthenticateId(a,g_x); break;
    case 9: SetAuthenticateKeyLength(a,g_l); break;
    case 10: SetAuthenticatePassphrase(a,g_x); break;
    default: return;
  }
  VASSERT(g_call == op,"the corresponding operation of the secret");
  VREACH("end");
}
