/*
  Sponge finalisation contract, for every queue length (RB cases, each for all contents): the last
  block is queue || 1 || 0* || 1 (bit order of the submission), the digest the first DS bytes of the
  state after it, and the object itself is left as it was.  The permutation is represented by its
  contract (p_sha3_block).
*/
#include "p_sha3.h"
static size_t g_calls,g_off; static uint8_t g_oldmsg[RB],g_prev[200];
static uint8_t g_byte(size_t k) { return (k < g_off ? g_oldmsg[k] : k == g_off ? 1 : 0) | (k == RB-1 ? 0x80 : 0); }
#include "wizard/sha3.c"
#include "private_StringInfo.h"
static inline void SHA3PermutationAfterXor(const SHA3Info *h,const unsigned char *m,const size_t n,unsigned char *s)
{
  int i;
  VASSERT(n == RB,"a whole block is absorbed");
  for (i=0; i < RB; i++) VASSERT(m[i] == g_byte(i),"padded block is what the submission prescribes");
  for (i=0; i < 200; i++) { uint8_t x=nd_u8(); VASSERT(s[i] == g_prev[i],"absorbed into the state of the object"); s[i]=x; g_prev[i]=x; }
  g_calls++;
}
static inline void SHA3Permutation(const SHA3Info *h,unsigned char *s) { VASSERT(0,"one permutation suffices for the digest"); }
static void run(size_t k)
{
  SHA3Info hh; struct _StringInfo dig; int i; unsigned char digbuf[DS+128]; uint8_t st[200]; 
  hh.hash=HT; hh.digestsize=DS; hh.blocksize=64; hh.rate=8*RB; hh.capacity=16*DS; hh.length=8*DS; hh.squeeze=WizardFalse; hh.squeeze_bits=0; hh.lsb_first=WizardTrue; hh.signature=WizardSignature;
  dig.length=DS; dig.datum=digbuf; dig.signature=WizardSignature; hh.digest=(StringInfo *) &dig;
  g_off=k; hh.bits_in_queue=8*k; g_calls=0;
  for (i=0; i < RB; i++) { uint8_t x=nd_u8(); hh.message[i]=x; g_oldmsg[i]=x; }
  for (i=0; i < 200; i++) { uint8_t x=nd_u8(); hh.state[i]=x; g_prev[i]=x; st[i]=x; }
  VASSERT(FinalizeSHA3(&hh) != WizardFalse,"finalise reports success");
  VASSERT(g_calls == 1,"one padded block");
  for (i=0; i < DS; i++) VASSERT(digbuf[i] == g_prev[i],"digest is the start of the state");
  for (i=0; i < 200; i++) VASSERT(hh.state[i] == st[i],"object can go on: state");
  for (i=0; i < (int) k; i++) VASSERT(hh.message[i] == g_oldmsg[i],"object can go on: queue");
  VASSERT(hh.bits_in_queue == 8*k && hh.squeeze == WizardFalse && hh.rate == 8*RB && hh.length == 8*DS,"object can go on");
}
void harness(void)
{
  size_t k;
#ifdef KONLY
  run(KONLY % RB);
#else
  for (k=0; k < RB; k++) run(k);
#endif
  VREACH("end");
}
