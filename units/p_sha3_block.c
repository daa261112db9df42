/*
  Permutation contract: WORDS: the permutation is Keccak-f[1600]; XORS: absorbing
  a block applies it to (state xor block), in place;
  initialisation, from any state, gives the published tables, the all-zero state and an empty queue.
*/
#include "p_sha3.h"
#ifdef XORS
static uint8_t g_in[200],g_out[200],*g_state; static int g_calls;
#endif
#include "wizard/sha3.c"
#ifdef XORS
/* x86-64: a word of the state is its eight bytes, least significant first */
static void SHA3PermutationOnWords(const SHA3Info *h,WizardSizeType *s)
{
  int i;
  VASSERT((unsigned char *) s == g_state,"permutes the state in place");
  for (i=0; i < 200; i++) { VASSERT(((unsigned char *) s)[i] == g_in[i],"state xor block"); ((unsigned char *) s)[i]=g_out[i]=nd_u8(); }
  g_calls++;
}
#endif
#include "hash_spec.h"
void harness(void)
{
  static SHA3Info hh; SHA3Info *h=&hh,before; uint64_t A[25]; int i;
  hh.hash=HT; hh.digestsize=DS; hh.blocksize=64; hh.lsb_first=WizardTrue; hh.signature=WizardSignature;
#ifndef INIT
  (void) InitializeSHA3(h);
#endif
#ifdef INIT
  h=AcquireSHA3Info(HT);
  { unsigned char st[sizeof(SHA3Info)]; before=(*h);
    for (i=0; i < 200; i++) h->state[i]=nd_u8();
    for (i=0; i < 192; i++) h->message[i]=nd_u8();
    h->bits_in_queue=nd_u32(); h->squeeze=(WizardBooleanType) nd_u32(); h->squeeze_bits=nd_u32(); h->length=nd_size(); h->rate=nd_u32(); h->capacity=nd_u32();
    for (i=0; i < 25; i++) h->rho[i]=nd_u32();
    for (i=0; i < 24; i++) h->rounds[i]=nd_u64(); }
  VASSERT(InitializeSHA3(h) != WizardFalse,"initialise reports success");
  for (i=0; i < 24; i++) VASSERT(h->rounds[i] == spec_keccak_rc[i],"round constants");
  for (i=0; i < 25; i++) VASSERT(h->rho[i] == spec_keccak_rho[i],"rotation offsets");
  for (i=0; i < 200; i++) VASSERT(h->state[i] == 0,"zero state");
  VASSERT(h->rate == 8*RB && h->capacity == 16*DS && h->length == 8*DS && h->bits_in_queue == 0 && h->squeeze == WizardFalse,"sponge parameters");
  VASSERT(h->digest == before.digest && GetStringInfoLength(h->digest) == DS && h->digestsize == DS && GetSHA3Digestsize(h) == DS && h->hash == HT && h->signature == WizardSignature,"digest size, frame");
#elif defined(WORDS)
  { uint64_t S[25];
  for (i=0; i < 25; i++) { uint64_t x=nd_u64(); S[i]=x; A[i]=x; }
  SHA3PermutationOnWords(h,(WizardSizeType *) S);
  spec_keccak_f(A);
  for (i=0; i < 25; i++) VASSERT(S[i] == A[i],"permutation equals Keccak-f[1600]"); }
#else
  { size_t n=nd_range(0,200); unsigned char msg[200];
  for (i=0; i < 200; i++) { uint8_t x=nd_u8(),y=nd_u8(); h->state[i]=x; msg[i]=y; g_in[i]=(size_t) i < n ? x ^ y : x; }
  g_state=h->state;
  SHA3PermutationAfterXor(h,msg,n,h->state);
  VASSERT(g_calls == 1,"permuted once");
  for (i=0; i < 200; i++) VASSERT(h->state[i] == g_out[i],"state is the permuted one"); }
#endif
  VREACH("end");
}
