/*
  Texts.  Both texts have any length; g_n[k] is the length of text k (its only zero byte is there),
  known to strlen by contract; that the bytes before it are not zero is used position by position.
*/
#include "vh.h"
#include "wizard/studio.h"
#define LIM ((size_t) 1 << 40)
static size_t g_T,g_k; static const char *g_s[2]; static size_t g_n[2];
static size_t v_strlen(const char *s) { VLIMIT(s == g_s[0] || s == g_s[1],"length of a given text"); return s == g_s[0] ? g_n[0] : g_n[1]; }
static int v_tolower(int c) { return c >= 'A' && c <= 'Z' ? c+32 : c; }
static int g_cc,g_cr; static size_t g_cn;
static int v_strcasecmp(const char *a,const char *b) { VASSERT(a == g_s[0] && b == g_s[1],"the texts in the order given"); g_cc=1; g_cr=nd_int(); return g_cr; }
static int v_strncasecmp(const char *a,const char *b,size_t n) { VASSERT(a == g_s[0] && b == g_s[1] && n == g_cn,"the texts in the order given"); g_cc=2; g_cr=nd_int(); return g_cr; }
static size_t g_cap; static char *g_dst;
static size_t v_strlcat(char *d,const char *s,size_t n) { VASSERT(d == g_dst && s == g_s[0] && n == g_cap,"append within the stated capacity"); g_cc=3; return nd_size(); }
#undef strlen
#undef tolower
#define strlen v_strlen
#define tolower v_tolower
#define strcasecmp v_strcasecmp
#define strncasecmp v_strncasecmp
#define strlcat v_strlcat
#include "track.h"
#if FALLBACK
#undef WIZARDSTOOLKIT_HAVE_STRLCAT
#undef WIZARDSTOOLKIT_HAVE_STRCASECMP
#undef WIZARDSTOOLKIT_HAVE_STRNCASECMP
#endif
/* the byte at k of text t, k <= length: zero exactly at the end */
static int at(int t,size_t k) { return k > g_n[t] || ((g_s[t][k] == 0) == (k == g_n[t])); }
static int low(char c);
#define K(p,b) ((size_t) ((p)-(b)))
#if OP == 1 /* CopyWizardString */
#define VINV_a (VSAME(p,source) && p >= source && K(p,source) <= g_n[0] && (K(p,source) < length || length == 0) && K(p,source) <= length && q == destination+K(p,source) && VSAME(q,destination) && n == length-K(p,source) && \
  (g_T >= K(p,source) || destination[g_T] == source[g_T]))
#define AT4(k) (at(0,k) && at(0,(k)+1) && at(0,(k)+2) && at(0,(k)+3))
#define VHEAP_a (g_k=nd_size(), VASSUME(g_k <= g_n[0] && g_k <= length && AT4(g_k)), p=source+g_k, q=destination+g_k, VHAVOC_OBJ(destination))
#define VINV_b (length != 0 && VSAME(p,source) && p >= source && K(p,source) <= g_n[0] && K(p,source) < length && q == destination+K(p,source) && VSAME(q,destination) && n == length-1-K(p,source) && \
  (g_T >= K(p,source) || destination[g_T] == source[g_T]))
#define VHEAP_b (g_k=nd_size(), VASSUME(g_k <= g_n[0] && g_k < length && at(0,g_k)), p=source+g_k, q=destination+g_k, VHAVOC_OBJ(destination))
#elif OP == 2 && FALLBACK /* ConcatenateWizardString */
#define VINV_a (VSAME(q,destination) && q >= destination && K(q,destination) <= g_n[1] && i == length-K(q,destination))
#define VHEAP_a (g_k=nd_size(), VASSUME(g_k <= g_n[1] && at(1,g_k)), q=destination+g_k)
static size_t g_o; static char g_d;
#define ROOM (length-1-g_n[1])
#define VINV_b (VSAME(p,source) && p >= source && K(p,source) <= g_n[0] && (g_o=K(p,source) < ROOM ? K(p,source) : ROOM, 1) && VSAME(q,destination) && q == destination+g_n[1]+g_o && i == length-g_n[1]-g_o && \
  (g_T >= g_o || destination[g_n[1]+g_T] == source[g_T]) && (g_T >= g_n[1] || destination[g_T] == g_d))
#define VHEAP_b (g_k=nd_size(), VASSUME(g_k <= g_n[0] && at(0,g_k)), p=source+g_k, g_o=g_k < ROOM ? g_k : ROOM, q=destination+g_n[1]+g_o, VHAVOC_OBJ(destination))
#elif (OP == 3 || OP == 4) && FALLBACK /* LocaleCompare, LocaleNCompare */
#define VINV_a (VSAME(p,g_s[0]) && VSAME(q,g_s[1]) && p >= g_s[0] && (g_k=K(p,g_s[0])) <= g_n[0] && g_k <= g_n[1] && q == g_s[1]+g_k && (g_T >= g_k || low(g_s[0][g_T]) == low(g_s[1][g_T])) && NCOND)
#define VHEAP_a (g_k=nd_size(), VASSUME(g_k <= g_n[0] && g_k <= g_n[1] && at(0,g_k) && at(1,g_k)), p=g_s[0]+g_k, q=g_s[1]+g_k)
#if OP == 3
#define NCOND 1
#else
#define NCOND (g_k <= g_cn && i == g_cn-g_k)
#endif
#elif OP == 5 /* LocaleLower */
static char g_c0;
#define VINV_a (VSAME(q,string) && q >= string && K(q,string) <= g_n[0] && (g_T >= g_n[0] || string[g_T] == (g_T < K(q,string) ? (char) v_tolower(g_c0) : g_c0)))
#define VHEAP_a (VHAVOC_OBJ(string), g_k=nd_size(), VASSUME(g_k <= g_n[0] && at(0,g_k)), q=string+g_k)
#endif
#include "wizard/string.c"
#if FALLBACK
static int low(char c) { return AsciiMap[(unsigned char) c]; } /* lower case; checked below for ASCII */
#endif
static char *text(int t,size_t n,size_t size) { char *s; VASSUME(n <= LIM && size > n); s=malloc(size); VASSUME(s != 0); s[n]=0; g_s[t]=s; g_n[t]=n; return s; }
void harness(void)
{
  size_t na=nd_size(),nb=nd_size(); char *a,*b,*d; char x; VASSUME(na <= LIM && nb <= LIM); g_T=nd_size(); VASSUME(g_T <= LIM);
#if OP == 1
  size_t c=nd_size(),m; VASSUME(c <= LIM); a=text(0,na,na+1); (void) at; if (g_T < na) VASSUME(a[g_T] != 0); VASSUME(at(0,0));
  d=malloc(c); VASSUME(d != 0); x=g_T < na ? a[g_T] : 0;
  (void) CopyWizardString(d,a,c); (void) b; (void) nb;
  m=c == 0 ? 0 : na < c-1 ? na : c-1;
  if (c != 0) { VASSERT(d[m] == 0,"terminated where the text or the capacity ends"); if (g_T < m) VASSERT(d[g_T] == x && x != 0,"text of the source"); }
  VASSERT(a[na] == 0 && (g_T >= na || a[g_T] == x),"source unchanged");
#elif OP == 2
  size_t c=nd_size(),m; VASSUME(c <= 3*LIM && nb < c); a=text(0,na,na+1); d=text(1,nb,c); g_dst=d; g_cap=c; VASSUME(at(0,0) && at(1,0)); if (g_T < na) VASSUME(a[g_T] != 0); x=g_T < na ? a[g_T] : 0; (void) b; (void) m;
#if FALLBACK
  g_d=g_T < nb ? d[g_T] : 0;
  (void) ConcatenateWizardString(d,a,c);
  m=na < c-1-nb ? na : c-1-nb;
  VASSERT(d[nb+m] == 0,"terminated where the text or the capacity ends"); if (g_T < m) VASSERT(d[nb+g_T] == x,"appended text");
  if (g_T < nb) VASSERT(d[g_T] == g_d,"text before it kept");
#else
  (void) ConcatenateWizardString(d,a,c); VASSERT(g_cc == 3,"appended by the bounded library function");
#endif
#elif OP == 3 || OP == 4
  int r,z=(int) nd_range(0,3); a=text(0,na,na+1); b=text(1,nb,nb+1); (void) d; (void) x; VASSUME(at(0,0) && at(1,0)); if (g_T < na) VASSUME(a[g_T] != 0); if (g_T < nb) VASSUME(b[g_T] != 0); g_cn=nd_size();
#if OP == 3
#define CMP(p,q) LocaleCompare(p,q)
#else
#define CMP(p,q) LocaleNCompare(p,q,g_cn)
#endif
  if (z == 0) { VASSERT(CMP(0,0) == 0,"no text equals no text"); return; }
  if (z == 1) { VASSERT(CMP(0,b) < 0,"no text comes first"); return; }
  if (z == 2) { VASSERT(CMP(a,0) > 0,"no text comes first"); return; }
  r=CMP(a,b);
#if FALLBACK
  { unsigned c=nd_u8(); if (c < 128) VASSERT(AsciiMap[c] == v_tolower((int) c),"lower case of ASCII"); }
#if OP == 3
  VASSERT(g_k <= na && g_k <= nb && r == low(a[g_k])-low(b[g_k]) && (r != 0 || (a[g_k] == 0 && b[g_k] == 0 && na == nb)),"order of the first difference of the lower-cased texts");
  if (g_T < g_k) VASSERT(low(a[g_T]) == low(b[g_T]) && a[g_T] != 0,"no difference before it");
#else
  if (g_k == g_cn) VASSERT(r == 0,"nothing left to compare");
  else
    {
      VASSERT(g_k < g_cn && g_k <= na && g_k <= nb && r == low(a[g_k])-low(b[g_k]) && (r != 0 || (a[g_k] == 0 && b[g_k] == 0)),"order of the first difference of the lower-cased texts");
      if (g_T < g_k) VASSERT(low(a[g_T]) == low(b[g_T]) && a[g_T] != 0,"no difference before it");
    }
#endif
#else
  VASSERT((g_cc == OP-2 && r == g_cr) || (OP == 4 && g_cn == 0 && r == 0),"compared by the library function");
#endif
#elif OP == 5
  a=text(0,na,na+1); VASSUME(at(0,0)); if (g_T < na) VASSUME(a[g_T] != 0); g_c0=g_T < na ? a[g_T] : 0; (void) b; (void) d; (void) x; (void) nb;
  LocaleLower(a);
  VASSERT(a[na] == 0,"length kept"); if (g_T < na) VASSERT(a[g_T] == (char) v_tolower(g_c0),"lower case");
#else
  WizardBooleanType st; char y; a=text(0,na,na+1); b=text(1,nb,nb+1); x=g_T < na ? a[g_T] : 0; y=g_T < nb ? b[g_T] : 0; TRACK(g_T); TRACK(nb+g_T); TRACK(na); (void) st; (void) y;
#if OP == 6
  d=AcquireString(a);
#elif OP == 7
  d=ConstantString(a);
#elif OP == 8
  d=nd_bool() ? b : 0; { char *r=CloneString(&d,a); VASSERT(r == d,"returns the copy"); }
#elif OP == 9
  if (nd_bool())
    {
      d=b; st=ConcatenateString(&d,a); VASSERT(st != WizardFalse && d != 0 && __CPROVER_w_ok(d,na+nb+1) && d[na+nb] == 0,"length is the sum");
      if (g_T < nb) VASSERT(d[g_T] == y,"first text in front"); if (g_T < na) VASSERT(d[nb+g_T] == x,"second text behind it");
      VREACH("end"); return;
    }
  d=0; st=ConcatenateString(&d,a); VASSERT(st != WizardFalse,"copied");
#endif
  VASSERT(d != 0 && d != a && __CPROVER_w_ok(d,na+1) && d[na] == 0,"same length, own storage"); if (g_T < na) VASSERT(d[g_T] == x,"same text");
  VASSERT(a[na] == 0 && (g_T >= na || a[g_T] == x),"source unchanged");
#endif
  VREACH("end");
}
