/*
  The dispatching hash interface: every call goes to the digest of the object's type, with the
  object's own state and the caller's message, and the digest handed out is that digest's.
*/
#include "vh.h"
#include "wizard/studio.h"
#include "wizard/hash.c"
#include "private_StringInfo.h"
enum { F_CRC64=1,F_MD5,F_SHA1,F_SHA2224,F_SHA2256,F_SHA2384,F_SHA2512,F_SHA3 };
static int g_h; static size_t g_n; static int g_op; static const StringInfo *g_msg; static struct _StringInfo g_dg; static unsigned char g_dd[DS+MaxCipherBlocksize];
static int g_ret; static HashType g_type;
#define CHK(X,p) VASSERT(F_##X == FAM && (const void *) (p) == (const void *) &g_h,"call goes to the digest of this type with its own state"), g_n++
#define FAMILY(X) \
WizardExport X##Info *Destroy##X##Info(X##Info *p) { CHK(X,p); g_op='D'; return((X##Info *) NULL); } \
WizardExport WizardBooleanType Finalize##X(X##Info *p) { int i; CHK(X,p); g_op='F'; for (i=0; i < DS; i++) g_dd[i]=nd_u8(); return(g_ret ? WizardTrue : WizardFalse); } \
WizardExport WizardBooleanType Initialize##X(X##Info *p) { CHK(X,p); g_op='I'; return(g_ret ? WizardTrue : WizardFalse); } \
WizardExport WizardBooleanType Update##X(X##Info *p,const StringInfo *m) { CHK(X,p); g_op='U'; g_msg=m; return(g_ret ? WizardTrue : WizardFalse); } \
WizardExport const StringInfo *Get##X##Digest(const X##Info *p) { CHK(X,p); g_n--; return(&g_dg); }
#define SIZES(X,T) \
WizardExport T Get##X##Blocksize(const X##Info *p) { CHK(X,p); g_n--; return(77); } \
WizardExport T Get##X##Digestsize(const X##Info *p) { CHK(X,p); g_n--; return(DS); }
#define ACQ(X) WizardExport X##Info *Acquire##X##Info(void) { VASSERT(F_##X == FAM,"object of this type"); return((X##Info *) &g_h); }
FAMILY(CRC64) FAMILY(MD5) FAMILY(SHA1) FAMILY(SHA2224) FAMILY(SHA2256) FAMILY(SHA2384) FAMILY(SHA2512) FAMILY(SHA3)
SIZES(CRC64,unsigned int) SIZES(MD5,unsigned int) SIZES(SHA1,unsigned int) SIZES(SHA2224,unsigned int) SIZES(SHA2256,unsigned int) SIZES(SHA2384,unsigned int) SIZES(SHA2512,unsigned int) SIZES(SHA3,unsigned int)
ACQ(CRC64) ACQ(MD5) ACQ(SHA1) ACQ(SHA2224) ACQ(SHA2256) ACQ(SHA2384) ACQ(SHA2512)
WizardExport SHA3Info *AcquireSHA3Info(const HashType t) { VASSERT(F_SHA3 == FAM && t == HT,"SHA-3 variant of this type"); return((SHA3Info *) &g_h); }
void harness(void)
{
  HashInfo *h=AcquireHashInfo(HT); int i; StringInfo *m=AcquireStringInfo(8);
  g_dg.datum=g_dd; g_dg.length=DS; g_dg.signature=WizardSignature;
  VASSERT(GetHashDigestsize(h) == DS && GetHashBlocksize(h) == 77,"sizes are those of the digest");
  VASSERT(GetStringInfoLength(GetHashDigest(h)) == DS,"room for the digest");
  g_ret=nd_bool(); g_n=0;
  VASSERT(InitializeHash(h) == (g_ret ? WizardTrue : WizardFalse) && g_n == 1 && g_op == 'I',"initialise reaches the digest once");
  g_ret=nd_bool();
  VASSERT(UpdateHash(h,m) == (g_ret ? WizardTrue : WizardFalse) && g_n == 2 && g_op == 'U' && g_msg == m,"update passes the message once");
  g_ret=nd_bool();
  VASSERT(FinalizeHash(h) == (g_ret ? WizardTrue : WizardFalse) && g_n == 3 && g_op == 'F',"finish reaches the digest once");
  for (i=0; i < DS; i++) VASSERT(GetStringInfoDatum(GetHashDigest(h))[i] == g_dd[i],"digest handed out is the digest computed");
  DestroyHashInfo(h);
  VASSERT(g_n == 4 && g_op == 'D',"object given back once");
  VREACH("end");
}
