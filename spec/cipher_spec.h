/*
  Published definitions of the block ciphers, written from the standards (FIPS 197, the ChaCha, Serpent
  and Twofish papers), independent of the code under contract.  All loops have constant bounds.
*/
#ifndef CIPHER_SPEC_H
#define CIPHER_SPEC_H
#include <stdint.h>
#include <stddef.h>
#include "cipher_consts.h"
static inline uint32_t cs_rol(uint32_t x,int n) { return (x << n) | (x >> (32-n)); }
static inline uint32_t cs_ror(uint32_t x,int n) { return (x >> n) | (x << (32-n)); }
static inline uint32_t cs_ld(const uint8_t *p) { return (uint32_t) p[0] | ((uint32_t) p[1] << 8) | ((uint32_t) p[2] << 16) | ((uint32_t) p[3] << 24); }
static inline void cs_st(uint8_t *p,uint32_t v) { p[0]=(uint8_t) v; p[1]=(uint8_t) (v >> 8); p[2]=(uint8_t) (v >> 16); p[3]=(uint8_t) (v >> 24); }
/* ---- AES: state bytes in column order, round key words little endian as bytes w[4c..4c+3] */
static inline uint8_t cs_x2(uint8_t a) { return (uint8_t) ((a << 1) ^ ((a >> 7) ? 0x1b : 0)); }
static inline uint8_t cs_x3(uint8_t a) { return cs_x2(a)^a; }
static void spec_aes_mix(uint8_t *s)
{
  for (int c=0; c < 4; c++) { uint8_t a=s[4*c],b=s[4*c+1],d=s[4*c+2],e=s[4*c+3];
    s[4*c]=cs_x2(a)^cs_x3(b)^d^e; s[4*c+1]=a^cs_x2(b)^cs_x3(d)^e; s[4*c+2]=a^b^cs_x2(d)^cs_x3(e); s[4*c+3]=cs_x3(a)^b^d^cs_x2(e); }
}
static inline uint8_t cs_m9(uint8_t a) { return cs_x2(cs_x2(cs_x2(a)))^a; }
static inline uint8_t cs_mb(uint8_t a) { return cs_x2(cs_x2(cs_x2(a)))^cs_x2(a)^a; }
static inline uint8_t cs_md(uint8_t a) { return cs_x2(cs_x2(cs_x2(a)))^cs_x2(cs_x2(a))^a; }
static inline uint8_t cs_me(uint8_t a) { return cs_x2(cs_x2(cs_x2(a)))^cs_x2(cs_x2(a))^cs_x2(a); }
static void spec_aes_invmix(uint8_t *s)
{
  for (int c=0; c < 4; c++) { uint8_t a=s[4*c],b=s[4*c+1],d=s[4*c+2],e=s[4*c+3];
    s[4*c]=cs_me(a)^cs_mb(b)^cs_md(d)^cs_m9(e); s[4*c+1]=cs_m9(a)^cs_me(b)^cs_mb(d)^cs_md(e); s[4*c+2]=cs_md(a)^cs_m9(b)^cs_me(d)^cs_mb(e); s[4*c+3]=cs_mb(a)^cs_md(b)^cs_m9(d)^cs_me(e); }
}
static void spec_aes_ark(uint8_t *s,const uint32_t *w) { for (int i=0; i < 16; i++) s[i]^=(uint8_t) (w[i/4] >> (8*(i%4))); }
static void spec_aes_enc(const uint32_t *w,int rounds,const uint8_t *in,uint8_t *out)
{
  uint8_t s[16],t[16];
  for (int i=0; i < 16; i++) s[i]=in[i];
  spec_aes_ark(s,w);
  for (int r=1; r <= rounds; r++)
  {
    for (int c=0; c < 4; c++) for (int k=0; k < 4; k++) t[4*c+k]=spec_aes_s[s[4*((c+k)%4)+k]]; /* SubBytes, ShiftRows */
    if (r < rounds) spec_aes_mix(t);
    spec_aes_ark(t,w+4*r);
    for (int i=0; i < 16; i++) s[i]=t[i];
  }
  for (int i=0; i < 16; i++) out[i]=s[i];
}
/* equivalent inverse cipher (5.3.5): dw is the modified key schedule */
static void spec_aes_dec(const uint32_t *dw,int rounds,const uint8_t *in,uint8_t *out)
{
  uint8_t s[16],t[16];
  for (int i=0; i < 16; i++) s[i]=in[i];
  spec_aes_ark(s,dw+4*rounds);
  for (int r=rounds-1; r >= 0; r--)
  {
    for (int c=0; c < 4; c++) for (int k=0; k < 4; k++) t[4*c+k]=spec_aes_is[s[4*((c+4-k)%4)+k]];
    if (r > 0) spec_aes_invmix(t);
    spec_aes_ark(t,dw+4*r);
    for (int i=0; i < 16; i++) s[i]=t[i];
  }
  for (int i=0; i < 16; i++) out[i]=s[i];
}
static uint32_t spec_aes_sub(uint32_t x) { return (uint32_t) spec_aes_s[x & 255] | ((uint32_t) spec_aes_s[(x >> 8) & 255] << 8) | ((uint32_t) spec_aes_s[(x >> 16) & 255] << 16) | ((uint32_t) spec_aes_s[x >> 24] << 24); }
static void spec_aes_expand(const uint8_t *key,int nk,uint32_t *w)
{
  uint8_t rc=1; int n=4*(nk+7);
  for (int i=0; i < nk; i++) w[i]=cs_ld(key+4*i);
  for (int i=nk; i < n; i++)
  {
    uint32_t t=w[i-1];
    if (i%nk == 0) { t=spec_aes_sub(cs_ror(t,8)) ^ rc; rc=cs_x2(rc); }
    else if (nk > 6 && i%nk == 4) t=spec_aes_sub(t);
    w[i]=w[i-nk]^t;
  }
}
static void spec_aes_dkeys(const uint32_t *w,int rounds,uint32_t *dw)
{
  for (int r=0; r <= rounds; r++)
  {
    uint8_t s[16];
    for (int c=0; c < 4; c++) cs_st(s+4*c,w[4*r+c]);
    if (r > 0 && r < rounds) spec_aes_invmix(s);
    for (int c=0; c < 4; c++) dw[4*r+c]=cs_ld(s+4*c);
  }
}
/* ---- ChaCha20: keystream block for a 16-word input, xored to the block */
#define CS_QR(a,b,c,d) { a+=b; d=cs_rol(d^a,16); c+=d; b=cs_rol(b^c,12); a+=b; d=cs_rol(d^a,8); c+=d; b=cs_rol(b^c,7); }
static void spec_chacha(const uint32_t *in,const uint8_t *p,uint8_t *out)
{
  uint32_t x[16];
  for (int i=0; i < 16; i++) x[i]=in[i];
  for (int r=0; r < 10; r++)
  {
    for (int i=0; i < 4; i++) CS_QR(x[i],x[4+i],x[8+i],x[12+i]);
    for (int i=0; i < 4; i++) CS_QR(x[i],x[4+(i+1)%4],x[8+(i+2)%4],x[12+(i+3)%4]);
  }
  for (int i=0; i < 16; i++) cs_st(out+4*i,(x[i]+in[i]) ^ cs_ld(p+4*i));
}
static void spec_chacha_key(const uint8_t *key,int len,uint32_t *in)
{
  static const char sig[]="expand 32-byte k",tau[]="expand 16-byte k"; const char *c=len == 32 ? sig : tau;
  for (int i=0; i < 4; i++) { in[i]=cs_ld((const uint8_t *) c+4*i); in[4+i]=cs_ld(key+4*i); in[8+i]=cs_ld(key+(len == 32 ? 16 : 0)+4*i); in[12+i]=0; }
}
/* ---- Serpent */
static inline void spec_serpent_s(int k,uint32_t *x)
{
  uint32_t a=0,b=0,c=0,d=0;
  switch (k & 7)
  {
    case 0: SPEC_SERPENT_S0(x[0],x[1],x[2],x[3],a,b,c,d) break; case 1: SPEC_SERPENT_S1(x[0],x[1],x[2],x[3],a,b,c,d) break;
    case 2: SPEC_SERPENT_S2(x[0],x[1],x[2],x[3],a,b,c,d) break; case 3: SPEC_SERPENT_S3(x[0],x[1],x[2],x[3],a,b,c,d) break;
    case 4: SPEC_SERPENT_S4(x[0],x[1],x[2],x[3],a,b,c,d) break; case 5: SPEC_SERPENT_S5(x[0],x[1],x[2],x[3],a,b,c,d) break;
    case 6: SPEC_SERPENT_S6(x[0],x[1],x[2],x[3],a,b,c,d) break; default: SPEC_SERPENT_S7(x[0],x[1],x[2],x[3],a,b,c,d) break;
  }
  x[0]=a; x[1]=b; x[2]=c; x[3]=d;
}
static inline void spec_serpent_i(int k,uint32_t *x)
{
  uint32_t a=0,b=0,c=0,d=0;
  switch (k & 7)
  {
    case 0: SPEC_SERPENT_I0(x[0],x[1],x[2],x[3],a,b,c,d) break; case 1: SPEC_SERPENT_I1(x[0],x[1],x[2],x[3],a,b,c,d) break;
    case 2: SPEC_SERPENT_I2(x[0],x[1],x[2],x[3],a,b,c,d) break; case 3: SPEC_SERPENT_I3(x[0],x[1],x[2],x[3],a,b,c,d) break;
    case 4: SPEC_SERPENT_I4(x[0],x[1],x[2],x[3],a,b,c,d) break; case 5: SPEC_SERPENT_I5(x[0],x[1],x[2],x[3],a,b,c,d) break;
    case 6: SPEC_SERPENT_I6(x[0],x[1],x[2],x[3],a,b,c,d) break; default: SPEC_SERPENT_I7(x[0],x[1],x[2],x[3],a,b,c,d) break;
  }
  x[0]=a; x[1]=b; x[2]=c; x[3]=d;
}
static void spec_serpent_expand(const uint8_t *key,int len,uint32_t *k)
{
  uint8_t b[32]; uint32_t w[140];
  for (int i=0; i < 32; i++) b[i]=i < len ? key[i] : i == len ? 1 : 0;
  for (int i=0; i < 8; i++) w[i]=cs_ld(b+4*i);
  for (int i=0; i < 132; i++) w[i+8]=cs_rol(w[i]^w[i+3]^w[i+5]^w[i+7]^0x9e3779b9u^(uint32_t) i,11);
  for (int i=0; i < 33; i++) { for (int j=0; j < 4; j++) k[4*i+j]=w[8+4*i+j]; spec_serpent_s((35-i) & 7,k+4*i); }
}
static void spec_serpent_enc(const uint32_t *k,const uint8_t *in,uint8_t *out)
{
  uint32_t x[4];
  for (int i=0; i < 4; i++) x[i]=cs_ld(in+4*i);
  for (int r=0; r < 32; r++)
  {
    for (int i=0; i < 4; i++) x[i]^=k[4*r+i];
    spec_serpent_s(r,x);
    if (r < 31)
      {
        x[0]=cs_rol(x[0],13); x[2]=cs_rol(x[2],3); x[1]^=x[0]^x[2]; x[3]^=x[2]^(x[0] << 3);
        x[1]=cs_rol(x[1],1); x[3]=cs_rol(x[3],7); x[0]^=x[1]^x[3]; x[2]^=x[3]^(x[1] << 7);
        x[0]=cs_rol(x[0],5); x[2]=cs_rol(x[2],22);
      }
  }
  for (int i=0; i < 4; i++) cs_st(out+4*i,x[i]^k[128+i]);
}
static void spec_serpent_dec(const uint32_t *k,const uint8_t *in,uint8_t *out)
{
  uint32_t x[4];
  for (int i=0; i < 4; i++) x[i]=cs_ld(in+4*i)^k[128+i];
  for (int r=31; r >= 0; r--)
  {
    if (r < 31)
      {
        x[2]=cs_ror(x[2],22); x[0]=cs_ror(x[0],5); x[2]^=x[3]^(x[1] << 7); x[0]^=x[1]^x[3];
        x[3]=cs_ror(x[3],7); x[1]=cs_ror(x[1],1); x[3]^=x[2]^(x[0] << 3); x[1]^=x[0]^x[2];
        x[2]=cs_ror(x[2],3); x[0]=cs_ror(x[0],13);
      }
    spec_serpent_i(r,x);
    for (int i=0; i < 4; i++) x[i]^=k[4*r+i];
  }
  for (int i=0; i < 4; i++) cs_st(out+4*i,x[i]);
}
/* ---- Twofish */
static inline uint8_t cs_gf(uint8_t a,uint8_t c,unsigned p)
{ unsigned r=0,x=a; for (int i=0; i < 8; i++) { if ((c >> i) & 1) r^=x; x=(x << 1) ^ ((x >> 7) ? p : 0); x&=0xff; } return (uint8_t) r; }
#define CS_MDS(a,c) cs_gf(a,c,0x169)
static inline uint32_t spec_tf_mds0(uint8_t y) { return (uint32_t) y | ((uint32_t) CS_MDS(y,0x5b) << 8) | ((uint32_t) CS_MDS(y,0xef) << 16) | ((uint32_t) CS_MDS(y,0xef) << 24); }
static inline uint32_t spec_tf_mds1(uint8_t y) { return (uint32_t) CS_MDS(y,0xef) | ((uint32_t) CS_MDS(y,0xef) << 8) | ((uint32_t) CS_MDS(y,0x5b) << 16) | ((uint32_t) y << 24); }
static inline uint32_t spec_tf_mds2(uint8_t y) { return (uint32_t) CS_MDS(y,0x5b) | ((uint32_t) CS_MDS(y,0xef) << 8) | ((uint32_t) y << 16) | ((uint32_t) CS_MDS(y,0xef) << 24); }
static inline uint32_t spec_tf_mds3(uint8_t y) { return (uint32_t) CS_MDS(y,0x5b) | ((uint32_t) y << 8) | ((uint32_t) CS_MDS(y,0xef) << 16) | ((uint32_t) CS_MDS(y,0x5b) << 24); }
/* column t of h: the byte x of X through the q chain with key bytes l[k-1..0], then the MDS column */
static uint32_t spec_tf_h1(int t,uint8_t x,const uint8_t l[4][4],int k)
{
  uint8_t y=x;
  if (k == 4) y=((t == 0 || t == 3) ? spec_q1[y] : spec_q0[y]) ^ l[3][t];
  if (k >= 3) y=(t < 2 ? spec_q1[y] : spec_q0[y]) ^ l[2][t];
  y=((t == 0 || t == 2) ? spec_q0[y] : spec_q1[y]) ^ l[1][t];
  y=(t < 2 ? spec_q0[y] : spec_q1[y]) ^ l[0][t];
  y=(t == 0 || t == 2) ? spec_q1[y] : spec_q0[y];
  return t == 0 ? spec_tf_mds0(y) : t == 1 ? spec_tf_mds1(y) : t == 2 ? spec_tf_mds2(y) : spec_tf_mds3(y);
}
static const uint8_t spec_rs[4][8]={{1,0xa4,0x55,0x87,0x5a,0x58,0xdb,0x9e},{0xa4,0x56,0x82,0xf3,0x1e,0xc6,0x68,0xe5},{2,0xa1,0xfc,0xc1,0x47,0xae,0x3d,0x19},{0xa4,0x55,0x87,0x5a,0x58,0xdb,0x9e,3}};
/* S vector in the order h wants it: l[k-1]=S_0 */
static void spec_tf_s(const uint8_t *key,int k,uint8_t l[4][4])
{
  for (int i=0; i < k; i++) for (int r=0; r < 4; r++)
  { uint8_t v=0; for (int c=0; c < 8; c++) v^=cs_gf(key[8*i+c],spec_rs[r][c],0x14d); l[k-1-i][r]=v; }
}
static void spec_tf_subkeys(const uint8_t *key,int k,uint32_t K[40])
{
  uint8_t me[4][4],mo[4][4];
  for (int i=0; i < k; i++) for (int r=0; r < 4; r++) { me[i][r]=key[8*i+r]; mo[i][r]=key[8*i+4+r]; }
  for (int i=0; i < 20; i++)
  {
    uint32_t a=0,b=0;
    for (int t=0; t < 4; t++) { a^=spec_tf_h1(t,(uint8_t) (2*i),me,k); b^=spec_tf_h1(t,(uint8_t) (2*i+1),mo,k); }
    b=cs_rol(b,8); K[2*i]=a+b; K[2*i+1]=cs_rol(a+2*b,9);
  }
}
/* rounds with the key-dependent tables g[t][b] = column t of g at byte b */
static inline uint32_t spec_tf_g(const uint32_t g[4][256],uint32_t x) { return g[0][x & 255]^g[1][(x >> 8) & 255]^g[2][(x >> 16) & 255]^g[3][x >> 24]; }
static void spec_tf_enc(const uint32_t K[40],const uint32_t g[4][256],const uint8_t *in,uint8_t *out)
{
  uint32_t R[4];
  for (int i=0; i < 4; i++) R[i]=cs_ld(in+4*i)^K[i];
  for (int r=0; r < 16; r++)
  {
    uint32_t t0=spec_tf_g(g,R[0]),t1=spec_tf_g(g,cs_rol(R[1],8)),f0=t0+t1+K[2*r+8],f1=t0+2*t1+K[2*r+9],a=cs_ror(R[2]^f0,1),b=cs_rol(R[3],1)^f1;
    R[2]=R[0]; R[3]=R[1]; R[0]=a; R[1]=b;
  }
  cs_st(out,R[2]^K[4]); cs_st(out+4,R[3]^K[5]); cs_st(out+8,R[0]^K[6]); cs_st(out+12,R[1]^K[7]);
}
static void spec_tf_dec(const uint32_t K[40],const uint32_t g[4][256],const uint8_t *in,uint8_t *out)
{
  uint32_t R[4];
  R[2]=cs_ld(in)^K[4]; R[3]=cs_ld(in+4)^K[5]; R[0]=cs_ld(in+8)^K[6]; R[1]=cs_ld(in+12)^K[7];
  for (int r=15; r >= 0; r--)
  {
    uint32_t a=R[2],b=R[3],t0=spec_tf_g(g,a),t1=spec_tf_g(g,cs_rol(b,8)),f0=t0+t1+K[2*r+8],f1=t0+2*t1+K[2*r+9];
    R[2]=cs_rol(R[0],1)^f0; R[3]=cs_ror(R[1]^f1,1); R[0]=a; R[1]=b;
  }
  for (int i=0; i < 4; i++) cs_st(out+4*i,R[i]^K[i]);
}
#endif
