/* Native: text encodings against the definition, round trips, arbitrary texts under the address checker. */
#include "wizard/studio.h"
#include "wizard/WizardsToolkit.h"
#include "vh.h"
static const char A[]="ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static size_t b64(const uint8_t *m,size_t n,char *o)
{
  size_t i,k=0;
  for (i=0; i < n; i+=3)
  {
    uint32_t v=(uint32_t) m[i] << 16 | (i+1 < n ? m[i+1] << 8 : 0) | (i+2 < n ? m[i+2] : 0);
    o[k++]=A[v >> 18]; o[k++]=A[v >> 12 & 63]; o[k++]=i+1 < n ? A[v >> 6 & 63] : '='; o[k++]=i+2 < n ? A[v & 63] : '=';
  }
  o[k]=0; return k;
}
void harness(void)
{
  size_t n=nd_range(1,nd_range(0,9) == 0 ? 3000 : 100),i,l; uint8_t *m=malloc(n); char *o=malloc(2*n+8),*t; unsigned char *d; StringInfo *s,*r;
  nd_bytes(m,n); if (nd_range(0,3) == 0) memset(m,(int) nd_range(0,255),n);
  t=Base64Encode(m,n,&l); VASSERT(t != NULL && l == b64(m,n,o) && strcmp(t,o) == 0,"Base64 text is the standard encoding");
  { char *x=malloc(3*l+1); size_t k=0; int ws=nd_bool(); for (i=0; i < l; i++) { if (ws && nd_range(0,9) == 0) x[k++]=" \n\r\t"[nd_range(0,3)]; x[k++]=t[i]; } if (ws && nd_bool()) x[k++]='\n'; x[k]=0;
    { char *y=malloc(k+1); memcpy(y,x,k+1); l=12345; d=Base64Decode(y,&l); VASSERT(d != NULL && l == n && memcmp(d,m,n) == 0,"Base64 round trip"); RelinquishWizardMemory(d); free(y); } free(x); }
  RelinquishWizardMemory(t);
  s=BlobToStringInfo(m,n); t=StringInfoToHexString(s); for (i=0; i < n; i++) sprintf(o+2*i,"%02x",m[i]); VASSERT(strcmp(t,o) == 0,"hexadecimal text");
  if (nd_bool()) for (i=0; i < 2*n; i++) if (nd_bool()) t[i]=(char) toupper((unsigned char) t[i]);
  r=HexStringToStringInfo(t); VASSERT(GetStringInfoLength(r) == n && memcmp(GetStringInfoDatum(r),m,n) == 0,"hexadecimal round trip"); DestroyStringInfo(r); DestroyStringInfo(s); DestroyString(t);
  /* any text */
  { size_t k=nd_range(0,24); char *y=malloc(k+1); for (i=0; i < k; i++) switch (nd_range(0,5)) { case 0: y[i]=(char) nd_range(1,255); break; case 1: y[i]='='; break; case 2: y[i]=' '; break; default: y[i]=A[nd_range(0,63)]; } y[k]=0;
    l=77; d=Base64Decode(y,&l); if (d == NULL) VASSERT(l == 0,"nothing decoded"); else { volatile unsigned char c; VASSERT(l <= 3*((k+3)/4),"decoded length"); for (i=0; i < l; i++) c=d[i]; (void) c; RelinquishWizardMemory(d); }
    r=HexStringToStringInfo(y); VASSERT(GetStringInfoLength(r) == k/2,"length of hexadecimal text"); DestroyStringInfo(r); free(y); }
  free(m); free(o);
}
