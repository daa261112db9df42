/* The compression interface hands each operation over to the compressor chosen. */
#include "vh.h"
#include "wizard/studio.h"
#include "wizard/string_.h"
#include "wizard/bzip.h"
#include "wizard/lzma.h"
#include "wizard/zip.h"
static int g_k,g_call,g_r; static void *g_h,*g_x; static size_t g_l; static ExceptionInfo *g_e;
#define F(X,K) \
  X##Info *Acquire##X##Info(const size_t l) { VASSERT(l == g_l && g_k == K,"the compressor and level chosen"); return g_h; } \
  X##Info *Destroy##X##Info(X##Info *s) { VASSERT(s == g_h && g_k == K,"the compressor chosen"); g_call=1; return 0; } \
  const StringInfo *Get##X##Chaos(const X##Info *s) { VASSERT(s == g_h && g_k == K,"the compressor chosen"); g_call=2; return g_x; } \
  WizardBooleanType Increase##X(X##Info *s,const StringInfo *m,ExceptionInfo *e) { VASSERT(s == g_h && g_k == K && (void *) m == g_x && e == g_e,"the compressor and message"); g_call=3; return g_r ? WizardTrue : WizardFalse; } \
  WizardBooleanType Restore##X(X##Info *s,const size_t l,const StringInfo *m,ExceptionInfo *e) { VASSERT(s == g_h && g_k == K && (void *) m == g_x && e == g_e && l == g_l,"the compressor, length and message"); g_call=4; return g_r ? WizardTrue : WizardFalse; }
F(BZIP,BZIPEntropy) F(LZMA,LZMAEntropy) F(ZIP,ZIPEntropy)
#include "wizard/entropy.c"
void harness(void)
{
  EntropyInfo *a; int op=nd_int(),k=nd_int(); g_x=malloc(1); g_e=malloc(1); g_h=malloc(1); VASSUME(g_x != 0 && g_e != 0 && g_h != 0);
  VASSUME(k == BZIPEntropy || k == LZMAEntropy || k == ZIPEntropy); g_k=k; g_l=nd_size(); g_r=nd_bool();
  a=AcquireEntropyInfo((EntropyType) k,g_l); g_l=nd_size();
  switch (op)
  {
    case 1: VASSERT(DestroyEntropyInfo(a) == 0,"destroyed"); break;
    case 2: VASSERT((void *) GetEntropyChaos(a) == g_x,"result"); break;
    case 3: VASSERT((IncreaseEntropy(a,g_x,g_e) != WizardFalse) == (g_r != 0),"the answer of the compressor"); break;
    case 4: VASSERT((RestoreEntropy(a,g_l,g_x,g_e) != WizardFalse) == (g_r != 0),"the answer of the compressor"); break;
    default: return;
  }
  VASSERT(g_call == op,"the corresponding operation"); VREACH("end");
}
