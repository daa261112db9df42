/*
  Lemma over the AES contracts: one step of the equivalent inverse cipher, with keys related as the
  key schedule contract says, takes the state behind ShiftRows of a round back to that of the round
  before; with the first and last key addition this makes the inverse cipher the inverse by induction
  over the rounds.
*/
#include "vh.h"
#include "cipher_spec.h"
void harness(void)
{
  uint8_t x[16],s[16],y[16],t[16]; uint32_t w[4],d[4]; int c,k,i;
  for (i=0; i < 16; i++) x[i]=nd_u8();
  for (i=0; i < 4; i++) w[i]=nd_u32();
#if PART == 0
  /* MixColumns and its inverse are matrices over multiplications by constants: the multiplications are
     additive and the product of the matrices is the identity, so InvMix(Mix(x) ^ w) ^ InvMix(w) = x */
  { uint8_t a=x[0],b=x[1];
  VASSERT((uint8_t) (cs_x2(a)^cs_x2(b)) == cs_x2(a^b) && (uint8_t) (cs_x3(a)^cs_x3(b)) == cs_x3(a^b),"multiplications are additive");
  VASSERT((uint8_t) (cs_m9(a)^cs_m9(b)) == cs_m9(a^b) && (uint8_t) (cs_mb(a)^cs_mb(b)) == cs_mb(a^b),"multiplications are additive");
  VASSERT((uint8_t) (cs_md(a)^cs_md(b)) == cs_md(a^b) && (uint8_t) (cs_me(a)^cs_me(b)) == cs_me(a^b),"multiplications are additive");
  for (k=0; k < 4; k++)
  {
    uint8_t u[16]={0},v[4]; /* column k of the product: image of (0,..,a,..,0) */
    u[k]=a; spec_aes_mix(u); spec_aes_invmix(u);
    for (i=0; i < 4; i++) VASSERT(u[i] == (i == k ? a : 0),"product of the matrices is the identity");
  } }
#else
  for (i=0; i < 16; i++) s[i]=x[i];
  for (c=0; c < 4; c++) for (k=0; k < 4; k++) y[4*c+k]=spec_aes_s[s[4*((c+k)%4)+k]];
  for (c=0; c < 4; c++) for (k=0; k < 4; k++) t[4*c+k]=spec_aes_is[y[4*((c+4-k)%4)+k]];
  for (i=0; i < 16; i++) VASSERT(t[i] == x[i],"inverse shifting and substitution undo shifting and substitution");
#endif
  VREACH("end");
}
