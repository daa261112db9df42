/*
  Specification of the digests: FIPS 180-4 (SHA-1, SHA-2), RFC 1321 (MD5), FIPS 202 / Keccak
  submission, ISO 3309 CRC-64.  Written from the standards, independently of the code under contract.
*/
#ifndef HASH_SPEC_H
#define HASH_SPEC_H
#include <stdint.h>
#include <stddef.h>
#include "hash_consts.h"
#define S_R32(x,n) (((x) >> (n)) | ((x) << (32-(n))))
#define S_L32(x,n) (((x) << (n)) | ((x) >> (32-(n))))
#define S_R64(x,n) (((x) >> (n)) | ((x) << (64-(n))))
static void spec_sha256_block(uint32_t H[8],const uint8_t *b)
{
  uint32_t w[64],v[8],t1,t2; int t;
  for (t=0; t < 16; t++)
    w[t]=((uint32_t) b[4*t] << 24) | ((uint32_t) b[4*t+1] << 16) | ((uint32_t) b[4*t+2] << 8) | b[4*t+3];
  for (t=16; t < 64; t++)
    w[t]=(S_R32(w[t-2],17) ^ S_R32(w[t-2],19) ^ (w[t-2] >> 10))+w[t-7]+
      (S_R32(w[t-15],7) ^ S_R32(w[t-15],18) ^ (w[t-15] >> 3))+w[t-16];
  for (t=0; t < 8; t++) v[t]=H[t];
  for (t=0; t < 64; t++)
  {
    t1=v[7]+(S_R32(v[4],6) ^ S_R32(v[4],11) ^ S_R32(v[4],25))+((v[4] & v[5]) ^ (~v[4] & v[6]))+
      spec_sha256_k[t]+w[t];
    t2=(S_R32(v[0],2) ^ S_R32(v[0],13) ^ S_R32(v[0],22))+((v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]));
    v[7]=v[6]; v[6]=v[5]; v[5]=v[4]; v[4]=v[3]+t1; v[3]=v[2]; v[2]=v[1]; v[1]=v[0]; v[0]=t1+t2;
  }
  for (t=0; t < 8; t++) H[t]+=v[t];
}
static void spec_sha512_block(uint64_t H[8],const uint8_t *b)
{
  uint64_t w[80],v[8],t1,t2; int t,i;
  for (t=0; t < 16; t++)
  {
    w[t]=0;
    for (i=0; i < 8; i++) w[t]|=(uint64_t) b[8*t+i] << (56-8*i);
  }
  for (t=16; t < 80; t++)
    w[t]=(S_R64(w[t-2],19) ^ S_R64(w[t-2],61) ^ (w[t-2] >> 6))+w[t-7]+
      (S_R64(w[t-15],1) ^ S_R64(w[t-15],8) ^ (w[t-15] >> 7))+w[t-16];
  for (t=0; t < 8; t++) v[t]=H[t];
  for (t=0; t < 80; t++)
  {
    t1=v[7]+(S_R64(v[4],14) ^ S_R64(v[4],18) ^ S_R64(v[4],41))+((v[4] & v[5]) ^ (~v[4] & v[6]))+
      spec_sha512_k[t]+w[t];
    t2=(S_R64(v[0],28) ^ S_R64(v[0],34) ^ S_R64(v[0],39))+((v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]));
    v[7]=v[6]; v[6]=v[5]; v[5]=v[4]; v[4]=v[3]+t1; v[3]=v[2]; v[2]=v[1]; v[1]=v[0]; v[0]=t1+t2;
  }
  for (t=0; t < 8; t++) H[t]+=v[t];
}
static const uint32_t spec_sha1_iv[5]={ 0x67452301U,0xefcdab89U,0x98badcfeU,0x10325476U,0xc3d2e1f0U };
static void spec_sha1_block(uint32_t H[5],const uint8_t *b)
{
  uint32_t w[80],v[5],f,k,T,x; int t;
  for (t=0; t < 16; t++)
    w[t]=((uint32_t) b[4*t] << 24) | ((uint32_t) b[4*t+1] << 16) | ((uint32_t) b[4*t+2] << 8) | b[4*t+3];
  for (t=16; t < 80; t++) { x=w[t-3] ^ w[t-8] ^ w[t-14] ^ w[t-16]; w[t]=S_L32(x,1); }
  for (t=0; t < 5; t++) v[t]=H[t];
  for (t=0; t < 80; t++)
  {
    if (t < 20) { f=(v[1] & v[2]) | (~v[1] & v[3]); k=0x5a827999U; }
    else if (t < 40) { f=v[1] ^ v[2] ^ v[3]; k=0x6ed9eba1U; }
    else if (t < 60) { f=(v[1] & v[2]) | (v[1] & v[3]) | (v[2] & v[3]); k=0x8f1bbcdcU; }
    else { f=v[1] ^ v[2] ^ v[3]; k=0xca62c1d6U; }
    T=S_L32(v[0],5)+f+v[4]+w[t]+k;
    v[4]=v[3]; v[3]=v[2]; v[2]=S_L32(v[1],30); v[1]=v[0]; v[0]=T;
  }
  for (t=0; t < 5; t++) H[t]+=v[t];
}
static const uint32_t spec_md5_iv[4]={ 0x67452301U,0xefcdab89U,0x98badcfeU,0x10325476U };
static void spec_md5_block(uint32_t H[4],const uint8_t *b)
{
  static const int r[4][4]={ {7,12,17,22},{5,9,14,20},{4,11,16,23},{6,10,15,21} };
  uint32_t x[16],v[4],f,T; int t,g;
  for (t=0; t < 16; t++)
    x[t]=b[4*t] | ((uint32_t) b[4*t+1] << 8) | ((uint32_t) b[4*t+2] << 16) | ((uint32_t) b[4*t+3] << 24);
  for (t=0; t < 4; t++) v[t]=H[t];
  for (t=0; t < 64; t++)
  {
    switch (t/16)
    {
      case 0: f=(v[1] & v[2]) | (~v[1] & v[3]); g=t; break;
      case 1: f=(v[1] & v[3]) | (v[2] & ~v[3]); g=(5*t+1) % 16; break;
      case 2: f=v[1] ^ v[2] ^ v[3]; g=(3*t+5) % 16; break;
      default: f=v[2] ^ (v[1] | ~v[3]); g=(7*t) % 16; break;
    }
    T=v[0]+(f+x[g]+spec_md5_k[t]);
    T=S_L32(T,r[t/16][t % 4])+v[1];
    v[0]=v[3]; v[3]=v[2]; v[2]=v[1]; v[1]=T;
  }
  for (t=0; t < 4; t++) H[t]+=v[t];
}
static void spec_keccak_f(uint64_t A[25])
{
  uint64_t C[5],D[5],B[25]; int r,x,y;
  for (r=0; r < 24; r++)
  {
    for (x=0; x < 5; x++) C[x]=A[x] ^ A[x+5] ^ A[x+10] ^ A[x+15] ^ A[x+20];
    for (x=0; x < 5; x++) D[x]=((C[(x+1) % 5] << 1) ^ (C[(x+1) % 5] >> 63)) ^ C[(x+4) % 5];
    for (x=0; x < 25; x++) A[x]^=D[x % 5];
    for (y=0; y < 5; y++)
      for (x=0; x < 5; x++)
      {
        unsigned int o=spec_keccak_rho[x+5*y];
        B[y+5*((2*x+3*y) % 5)]=o == 0 ? A[x+5*y] : (A[x+5*y] << o) ^ (A[x+5*y] >> (64-o));
      }
    for (y=0; y < 5; y++)
      for (x=0; x < 5; x++)
        A[x+5*y]=B[x+5*y] ^ (~B[(x+1) % 5+5*y] & B[(x+2) % 5+5*y]);
    A[0]^=spec_keccak_rc[r];
  }
}
/* CRC-64 (ISO 3309 polynomial x^64+x^4+x^3+x+1, reflected), one byte */
static uint64_t spec_crc64_byte(uint64_t crc,uint8_t b)
{
  int i;
  crc^=b;
  for (i=0; i < 8; i++) crc=(crc & 1) != 0 ? (crc >> 1) ^ 0xd800000000000000ULL : crc >> 1;
  return crc;
}
/* ---- whole-message functions (used by the native runs) ---- */
#if defined(V_NATIVE) || defined(SPEC_FULL)
#include <stdlib.h>
#include <string.h>
static void spec_put_be(uint8_t *o,uint64_t v,int n) { for (int i=0; i < n; i++) o[i]=(uint8_t) (v >> (8*(n-1-i))); }
static uint8_t *spec_md_pad(const uint8_t *m,size_t n,size_t bs,size_t lenbytes,int be,size_t *total)
{
  size_t t=((n+1+lenbytes+bs-1)/bs)*bs; uint8_t *p=calloc(1,t);
  if (n) memcpy(p,m,n);
  p[n]=0x80;
  for (int i=0; i < 8; i++)
    if (be) p[t-1-i]=(uint8_t) (((uint64_t) n*8) >> (8*i)); else p[t-8+i]=(uint8_t) (((uint64_t) n*8) >> (8*i));
  if (be && lenbytes == 16) p[t-9]=(uint8_t) ((uint64_t) n >> 61);
  *total=t; return p;
}
/* kind: 0 MD5 1 SHA1 2 SHA224 3 SHA256 4 SHA384 5 SHA512 6 SHA3(288) 7 224 8 256 9 384 10 512 11 CRC64; returns digest size */
static size_t spec_hash(int kind,const uint8_t *m,size_t n,uint8_t out[64])
{
  size_t t,i; uint8_t *p;
  if (kind <= 3)
    {
      uint32_t H[8]; int words=kind == 0 ? 4 : kind == 1 ? 5 : 8;
      const uint32_t *iv=kind == 0 ? spec_md5_iv : kind == 1 ? spec_sha1_iv : kind == 2 ? spec_sha224_iv : spec_sha256_iv;
      for (i=0; i < (size_t) words; i++) H[i]=iv[i];
      p=spec_md_pad(m,n,64,8,kind != 0,&t);
      for (i=0; i < t; i+=64)
        if (kind == 0) spec_md5_block(H,p+i); else if (kind == 1) spec_sha1_block(H,p+i); else spec_sha256_block(H,p+i);
      free(p);
      if (kind == 2) words=7;
      for (i=0; i < (size_t) words; i++)
        if (kind == 0) { out[4*i]=H[i]; out[4*i+1]=H[i] >> 8; out[4*i+2]=H[i] >> 16; out[4*i+3]=H[i] >> 24; }
        else spec_put_be(out+4*i,H[i],4);
      return 4*words;
    }
  if (kind <= 5)
    {
      uint64_t H[8]; const uint64_t *iv=kind == 4 ? spec_sha384_iv : spec_sha512_iv; size_t words=kind == 4 ? 6 : 8;
      for (i=0; i < 8; i++) H[i]=iv[i];
      p=spec_md_pad(m,n,128,16,1,&t);
      for (i=0; i < t; i+=128) spec_sha512_block(H,p+i);
      free(p);
      for (i=0; i < words; i++) spec_put_be(out+8*i,H[i],8);
      return 8*words;
    }
  if (kind <= 10)
    {
      static const size_t ds[5]={ 36,28,32,48,64 }; size_t d=ds[kind-6],rate=200-2*d,j; uint64_t A[25];
      memset(A,0,sizeof(A));
      t=(n/rate+1)*rate; p=calloc(1,t); if (n) memcpy(p,m,n); p[n]|=1; p[t-1]|=0x80;
      for (i=0; i < t; i+=rate)
      {
        for (j=0; j < rate; j++) A[j/8]^=(uint64_t) p[i+j] << (8*(j % 8));
        spec_keccak_f(A);
      }
      free(p);
      for (j=0; j < d; j++) out[j]=(uint8_t) (A[j/8] >> (8*(j % 8)));
      return d;
    }
  { uint64_t c=0; for (i=0; i < n; i++) c=spec_crc64_byte(c,m[i]); spec_put_be(out,c,8); return 8; }
}
#endif
#endif
