/*
  Text encodings.  T (a byte of the message) or G (a group of three bytes / four characters) is an
  arbitrary position fixed before the run; texts and messages have any length.
*/
#include "vh.h"
#include "wizard/studio.h"
#define LIM ((size_t) 1 << 40)
static const char *g_s; static size_t g_n,g_T,g_G,g_Q; static int g_pad; static uint8_t g_b[2][3]; static unsigned char *g_dec;
static size_t v_strlen(const char *s) { VLIMIT(s == g_s,"length of the given text"); return g_n; }
static int v_isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
#undef isspace
#define isspace v_isspace
#define strlen v_strlen
static const char V64[]="ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static const char VHX[]="0123456789abcdef";
/* character c (0..3) of the group with the bytes b, of which n are there */
static char e64(const uint8_t *b,int n,int c)
{
  uint8_t x=b[0],y=n > 1 ? b[1] : 0,z=n > 2 ? b[2] : 0;
  if (c > n) return '=';
  return V64[c == 0 ? x/4 : c == 1 ? (x%4)*16+y/16 : c == 2 ? (y%16)*4+z/64 : z%64];
}
static int hexv(unsigned char c) { return c >= '0' && c <= '9' ? c-'0' : c >= 'a' && c <= 'f' ? c-'a'+10 : c >= 'A' && c <= 'F' ? c-'A'+10 : -1; }
#if OP == 1 /* to hex */
static uint8_t g_v;
#define VINV_h (i >= 0 && (size_t) i <= g_n && VSAME(q,string) && VSAME(p,string_info->datum) && p == string_info->datum+i && q == (unsigned char *) string+2*i && \
  (g_T >= (size_t) i || (string[2*g_T] == VHX[g_v >> 4] && string[2*g_T+1] == VHX[g_v & 15])))
#define VHEAP_h (VHAVOC_OBJ(string), VASSUME(i >= 0 && (size_t) i <= g_n), p=string_info->datum+i, q=(unsigned char *) string+2*i)
#elif OP == 2 /* from hex */
static int g_h0,g_h1;
#define VINV_h (i >= 0 && (size_t) i <= g_n/2 && VSAME(q,string_info->datum) && VSAME(p,string) && p == (unsigned char *) string+2*i && q == string_info->datum+i && string_info->length == g_n/2 && \
  (g_T >= (size_t) i || g_h0 < 0 || g_h1 < 0 || string_info->datum[g_T] == g_h0*16+g_h1))
#define VHEAP_h (VHAVOC_OBJ(string_info->datum), VASSUME(i >= 0 && (size_t) i <= g_n/2), p=(unsigned char *) string+2*i, q=string_info->datum+i)
#elif OP == 3 /* to Base64: groups of three complete bytes; the remainder is handled behind the loop */
static size_t g_g,g_x,g_c;
void *AcquireQuantumMemory(size_t c,size_t q) { VLIMIT(q == 1 && g_c == 0,"one allocation"); g_c=c; return malloc(4*(g_Q+(g_x != 0))+1); } /* the least that is needed; compared below */
#define GRP(j) (g_b[0][j])
#define VINV_e (g_c == 4*blob_length/3+4 && VSAME(p,blob) && p >= blob && (g_g=i/4)*4 == i && g_g <= g_Q && p == blob+3*g_g && \
  (g_G >= g_g || (encode[4*g_G] == e64(g_b[0],3,0) && encode[4*g_G+1] == e64(g_b[0],3,1) && encode[4*g_G+2] == e64(g_b[0],3,2) && encode[4*g_G+3] == e64(g_b[0],3,3))))
/* the arithmetic facts are proved by codec.arith */
#define VHEAP_e (VASSUME(blob_length % 3 == g_x && 4*blob_length/3 == 4*g_Q+g_x), VHAVOC_OBJ(encode), g_g=nd_size(), VASSUME(g_g <= g_Q), i=4*g_g, p=blob+3*g_g)
#elif OP == 4 /* from the standard Base64 of a message of 3*Q-pad bytes */
static int grp(const unsigned char *d,size_t G,const uint8_t *b,size_t k) /* state of the group after k characters */
{
  uint8_t y=G == g_Q-1 && g_pad == 2 ? 0 : b[1],z=G == g_Q-1 && g_pad >= 1 ? 0 : b[2]; size_t c;
  if (k <= 4*G) return 1;
  c=k-4*G;
  if (c == 1) return d[3*G] == (b[0] & 0xfc);
  if (d[3*G] != b[0]) return 0;
  if (c == 2) return d[3*G+1] == (y & 0xf0);
  if (d[3*G+1] != y) return 0;
  if (c == 3) return d[3*G+2] == (uint8_t) (z & 0xc0);
  return d[3*G+2] == z;
}
static char at(size_t k) { return k/4 == g_G ? e64(g_b[0],3-(g_G == g_Q-1 ? g_pad : 0),(int) (k%4)) : e64(g_b[1],3-g_pad,(int) (k%4)); }
#define CUR(p) ((size_t) ((p)-source))
/* the character looked at next is one of a standard text */
static int std(const char *s,size_t k) { char c=s[k]; size_t j; if (k == g_n) return c == 0; if (k/4 == g_G || k/4 == g_Q-1) return c == at(k); j=nd_range(0,63); return c == V64[j]; }
#define VINV_d ((g_dec == 0 ? (g_dec=decode,1) : 1) && decode == g_dec && VSAME(p,source) && p >= source && CUR(p) <= g_n-(size_t) g_pad && state >= 0 && state <= 3 && (size_t) state == CUR(p)%4 && i == 3*(CUR(p)/4)+(size_t) (state > 1 ? state-1 : 0) && \
  grp(decode,g_G,g_b[0],CUR(p)) && grp(decode,g_Q-1,g_b[1],CUR(p)))
#define VHEAP_d (decode=g_dec, VHAVOC_OBJ(g_dec), g_k=nd_size(), VASSUME(g_k <= g_n-(size_t) g_pad), p=source+g_k, VASSUME(std(source,g_k)))
static size_t g_k;
#elif OP == 5 /* from any text: stays inside the buffers */
#define CUR(p) ((size_t) ((p)-source))
static int zat(const char *s,size_t k) { return (s[k] == 0) == (k == g_n); }
static size_t g_k,g_q3; static size_t g_f(int st) { return st > 1 ? (size_t) st-1 : 0; }
#define VINV_d ((g_dec == 0 ? (g_dec=decode,1) : 1) && decode == g_dec && VSAME(p,source) && p >= source && CUR(p) <= g_n && state >= 0 && state <= 3 && (g_q3=(i-g_f(state))/3)*3+g_f(state) == i && g_q3 <= g_n/4 && 4*g_q3+(size_t) state <= CUR(p))
#define VHEAP_d (decode=g_dec, VHAVOC_OBJ(g_dec), g_k=nd_size(), VASSUME(g_k <= g_n), p=source+g_k, VASSUME(zat(source,g_k)))
#define VINV_w2 (VSAME(p,source) && p >= source && CUR(p) <= g_n)
#define VHEAP_w2 (g_k=nd_size(), VASSUME(g_k <= g_n), p=source+g_k, VASSUME(zat(source,g_k)))
#define VINV_w3 VINV_w2
#define VHEAP_w3 (decode=g_dec, VHEAP_w2)
#endif
#if OP <= 2
#include "wizard/string.c"
#elif OP <= 5
#include "wizard/utility.c"
#endif
void harness(void)
{
#if OP == 1
  struct _StringInfo s={ 0 }; char *t; g_n=nd_size(); VASSUME(g_n <= LIM); s.datum=malloc(g_n+MaxCipherBlocksize); VASSUME(s.datum != 0); s.length=g_n; s.signature=WizardSignature;
  g_T=nd_size(); VASSUME(g_T <= LIM); g_v=g_T < g_n ? s.datum[g_T] : 0;
  t=StringInfoToHexString(&s);
  VASSERT(t != 0 && __CPROVER_r_ok(t,2*g_n+1) && t[2*g_n] == 0,"two digits per byte, terminated");
  if (g_T < g_n) VASSERT(t[2*g_T] == VHX[g_v >> 4] && t[2*g_T+1] == VHX[g_v & 15],"digits of the byte, high half first");
#elif OP == 2
  char *t; StringInfo *r; g_n=nd_size(); VASSUME(g_n <= 2*LIM); t=malloc(g_n+1); VASSUME(t != 0); g_s=t; g_T=nd_size(); VASSUME(g_T <= LIM);
  t[g_n]=0; if (g_T < g_n/2) { g_h0=hexv((unsigned char) t[2*g_T]); g_h1=hexv((unsigned char) t[2*g_T+1]); }
  r=HexStringToStringInfo(t);
  VASSERT(r != 0 && r->length == g_n/2 && __CPROVER_w_ok(r->datum,r->length+MaxCipherBlocksize),"one byte per two digits");
  if (g_T < g_n/2 && g_h0 >= 0 && g_h1 >= 0) VASSERT(r->datum[g_T] == g_h0*16+g_h1,"value of the digits");
#elif OP == 3
  unsigned char *m; char *t; size_t n=0,x,r; int k; g_Q=nd_size(); g_x=x=X; VASSUME(g_Q <= LIM && g_Q+x != 0); g_n=3*g_Q+x; m=malloc(g_n+8); VASSUME(m != 0); m+=8;
  g_G=nd_size(); VASSUME(g_G < g_Q+(x != 0)); r=g_G < g_Q ? 3 : x;
  for (k=0; k < 3; k++) g_b[0][k]=k < (int) r ? m[3*g_G+k] : 0;
  t=Base64Encode(m,g_n,&n);
  VASSERT(g_c >= 4*(g_Q+(x != 0))+1,"room for the text");
  VASSERT(t != 0 && n == 4*(g_Q+(x != 0)) && __CPROVER_r_ok(t,n+1) && t[n] == 0,"four characters per group, terminated");
  for (k=0; k < 4; k++) VASSERT(t[4*g_G+k] == e64(g_b[0],(int) r,k),"characters of the standard encoding");
#elif OP == 4
  char *t; unsigned char *d; size_t n=0; int k; g_Q=nd_size(); VASSUME(g_Q != 0 && g_Q <= LIM); g_pad=X; g_n=4*g_Q; t=malloc(g_n+1); VASSUME(t != 0); g_s=t; t[g_n]=0;
  g_G=nd_size(); VASSUME(g_G < g_Q);
  for (k=0; k < 3; k++) g_b[0][k]=nd_u8(); for (k=0; k < 3; k++) g_b[1][k]=g_G == g_Q-1 ? g_b[0][k] : nd_u8();
  for (k=0; k < 4; k++) t[4*g_G+k]=at(4*g_G+k); for (k=0; k < 4; k++) t[g_n-4+k]=at(g_n-4+k);
  d=Base64Decode(t,&n);
  VASSERT(d != 0 && n == 3*g_Q-(size_t) g_pad,"number of bytes encoded");
  for (k=0; k < 3; k++) if (3*g_G+(size_t) k < n) VASSERT(d[3*g_G+k] == g_b[0][k],"bytes encoded");
#elif OP == 5
  char *t; unsigned char *d; size_t n=1; g_n=nd_size(); VASSUME(g_n <= LIM); t=malloc(g_n+1); VASSUME(t != 0); g_s=t; t[g_n]=0;
  d=Base64Decode(t,&n);
  if (d != 0) VASSERT(n <= 3*((g_n+3)/4) && (n == 0 || __CPROVER_r_ok(d,n)),"bytes inside the storage"); else VASSERT(n == 0,"nothing decoded");
#elif OP == 7 /* arithmetic used by b64enc */
  size_t Q=nd_size(),x=nd_range(0,2),n; VASSUME(Q <= LIM); n=3*Q+x;
  VASSERT(n % 3 == x && 4*n/3 == 4*Q+x,"quotient and remainder");
#else /* the encodings are injective: decoding the characters of a group gives its bytes */
  uint8_t b=nd_u8(),c[3]; int k,j,n=(int) nd_range(1,3); uint32_t v=0;
  VASSERT(hexv((unsigned char) VHX[b >> 4])*16+hexv((unsigned char) VHX[b & 15]) == b,"hex digits give the byte back");
  for (k=0; k < 3; k++) c[k]=k < n ? nd_u8() : 0;
  for (k=0; k < 4; k++) { int x=0; for (j=0; j < 64; j++) if (V64[j] == e64(c,n,k)) x=j; v=v*64+(uint32_t) x; }
  VASSERT(v == (uint32_t) c[0]*65536+c[1]*256u+c[2],"characters give the bytes back");
#endif
  VREACH("end");
}
