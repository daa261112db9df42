/*
  Byte string contracts.  A byte string is any length up to 2^40 with at least MaxCipherBlocksize bytes
  of storage behind it (the representation invariant every operation re-establishes).  T is an arbitrary
  position; statements about byte T hold for every position.
*/
#include "vh.h"
#include "wizard/studio.h"
/* contract of memcmp: the first difference decides; T is a position that is compared */
static size_t g_T,g_Dp;
static int v_memcmp(const void *a,const void *b,size_t n)
{
  const unsigned char *x=a,*y=b; int r=nd_int();
  VASSERT(__CPROVER_r_ok(a,n) && __CPROVER_r_ok(b,n),"comparison within the strings");
  if (r == 0) { VASSUME(g_T >= n || x[g_T] == y[g_T]); g_Dp=n; }
  else { g_Dp=nd_size(); VASSUME(g_Dp < n && x[g_Dp] != y[g_Dp] && (x[g_Dp] < y[g_Dp]) == (r < 0) && (g_T >= g_Dp || x[g_T] == y[g_T])); }
  return r;
}
#define memcmp v_memcmp
#define strlen v_strlen
static size_t v_strlen(const char *s);
#include "track.h"
#include "wizard/string.c"
#define LIM ((size_t) 1 << 40)
static const char *g_s; static size_t g_sn;
static size_t v_strlen(const char *s) { VLIMIT(s == g_s,"length of the given text"); return g_sn; }
static void mk(struct _StringInfo *s,unsigned char **d)
{
  size_t n=nd_size(); VASSUME(n <= LIM);
  *s=(struct _StringInfo) { 0 }; *d=malloc(n+MaxCipherBlocksize); VASSUME(*d != 0);
  s->datum=*d; s->length=n; s->signature=WizardSignature;
}
static StringInfo *mkp(void) /* a string on the heap */
{
  StringInfo *s=malloc(sizeof(*s)); unsigned char *d; VASSUME(s != 0); mk(s,&d); return s;
}
#define STORE(s) __CPROVER_w_ok((s)->datum,(s)->length+MaxCipherBlocksize)
void harness(void)
{
  struct _StringInfo b; unsigned char *bd; StringInfo *a=mkp(),*c; size_t na,nb,U=nd_size(); uint8_t at,bt,bu; int r;
  mk(&b,&bd); g_T=nd_size(); na=a->length; nb=b.length; VASSUME(g_T <= 2*LIM && U < nb+MaxCipherBlocksize); bu=bd[U];
  TRACK(g_T); TRACK(na+g_T);
  at=g_T < na ? a->datum[g_T] : 0; bt=g_T < nb ? bd[g_T] : 0;
#if OP == 1 /* clone */
  c=CloneStringInfo(&b);
  VASSERT(c != 0 && c->length == nb && c->signature == WizardSignature && STORE(c) && !VSAME(c->datum,bd) && c != &b,"clone has its own storage");
  if (g_T < nb) VASSERT(c->datum[g_T] == bt,"clone has the same bytes");
#elif OP == 2 /* set: copy, padded with zeros or truncated to the target's length */
  SetStringInfo(a,&b);
  VASSERT(a->length == na && STORE(a),"length kept");
  if (g_T < na) VASSERT(a->datum[g_T] == (g_T < nb ? bt : 0),"bytes of the source, then zeros");
#elif OP == 3 /* concatenate */
  ConcatenateStringInfo(a,&b);
  VASSERT(a->length == na+nb && STORE(a),"length is the sum");
  if (g_T < na) VASSERT(a->datum[g_T] == at,"first string in front");
  if (g_T < nb) VASSERT(a->datum[na+g_T] == bt,"second string behind it");
#elif OP == 4 /* split */
  { size_t o=nd_size(); uint8_t tail; VASSUME(o <= 2*LIM); tail=o <= na && g_T < na-o ? a->datum[o+g_T] : 0;
  c=SplitStringInfo(a,o);
  if (o > na) { VASSERT(c == 0 && a->length == na,"offset behind the end is refused"); if (g_T < na) VASSERT(a->datum[g_T] == at,"and changes nothing"); }
  else
    {
      VASSERT(c != 0 && c->length == o && STORE(c) && a->length == na-o && STORE(a) && !VSAME(c->datum,a->datum),"lengths of the parts");
      if (g_T < o) VASSERT(c->datum[g_T] == at,"front part");
      if (g_T < na-o) VASSERT(a->datum[g_T] == tail,"rest");
    } }
#elif OP == 5 /* resize */
  { size_t n=nd_size(); VASSUME(n <= LIM);
  SetStringInfoLength(a,n);
  VASSERT(a->length == n && STORE(a),"new length");
  if (g_T < n && g_T < na) VASSERT(a->datum[g_T] == at,"bytes kept"); }
#elif OP == 6 /* compare */
  r=CompareStringInfo(a,&b);
  if (r == 0) { VASSERT(na == nb,"equal only with equal lengths"); if (g_T < na) VASSERT(at == bt,"and equal bytes"); }
  else
    {
      size_t m=na < nb ? na : nb; /* first difference */
      VASSERT(g_Dp <= m,"comparison covers the common part only");
      if (g_Dp < m) VASSERT((a->datum[g_Dp] < bd[g_Dp]) == (r < 0),"first difference decides");
      else VASSERT((na < nb) == (r < 0) && na != nb,"otherwise the shorter one is smaller");
      if (g_T < g_Dp) VASSERT(at == bt,"everything before is equal");
    }
  VASSERT(a->length == na,"frame");
  if (g_T < na) VASSERT(a->datum[g_T] == at,"frame");
#elif OP == 7 /* from memory */
  c=BlobToStringInfo(bd,nb);
  VASSERT(c != 0 && c->length == nb && STORE(c) && !VSAME(c->datum,bd),"own storage");
  if (g_T < nb) VASSERT(c->datum[g_T] == bt,"same bytes");
#elif OP == 8 /* to text */
  { char *s=StringInfoToString(&b);
  VASSERT(s != 0 && __CPROVER_w_ok(s,nb+1) && s[nb] == '\0',"terminated");
  if (g_T < nb) VASSERT((unsigned char) s[g_T] == bt,"same bytes"); }
#elif OP == 9 /* reset */
  ResetStringInfo(a);
  VASSERT(a->length == na && STORE(a),"length kept");
  if (g_T < na) VASSERT(a->datum[g_T] == 0,"zeros");
#elif OP == 10 /* set from memory */
  VASSUME(nb >= na);
  SetStringInfoDatum(a,bd);
  VASSERT(a->length == na && STORE(a),"length kept");
  if (g_T < na) VASSERT(a->datum[g_T] == bt,"same bytes");
#elif OP == 11 /* acquire */
  c=AcquireStringInfo(nb);
  VASSERT(c != 0 && c->length == nb && STORE(c) && c->signature == WizardSignature,"storage");
  if (g_T < nb) VASSERT(c->datum[g_T] == 0,"zeros");
#elif OP == 12 /* from text */
  g_s=(const char *) bd; g_sn=nb; bd[nb]=0; VASSUME(U < nb);
  c=StringToStringInfo(g_s);
  VASSERT(c != 0 && c->length == nb && STORE(c),"length of the text");
  if (g_T < nb) VASSERT(c->datum[g_T] == bt,"same bytes");
#elif OP == 13 /* concatenate with itself */
  ConcatenateStringInfo(a,a);
  VASSERT(a->length == 2*na && STORE(a),"length is the sum");
  if (g_T < na) VASSERT(a->datum[g_T] == at && a->datum[na+g_T] == at,"bytes twice");
#endif
  VASSERT(b.length == nb && b.datum == bd && bd[U] == bu,"source left alone");
  VREACH("end");
}
