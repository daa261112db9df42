/*
  CRC-64: initialisation builds the table of the ISO 3309 polynomial and clears the remainder; each
  iteration of the update loop consumes exactly the next byte; the digest is the remainder, big endian.
*/
#include "vh.h"
#include "hash_spec.h"
static size_t g_len,g_i0; static const unsigned char *g_base; static uint64_t g_c0,g_init; static int v_visit_upd;
#define VINV_upd ((i <= g_len) && VSAME(p,g_base) && (p == g_base+i) && (i != 0 || crc_info->crc == g_init) && \
  (v_visit_upd < 2 || ((i == g_i0+1) && (crc_info->crc == spec_crc64_byte(g_c0,g_base[g_i0])))))
#define VHEAP_upd (VASSUME(i <= g_len), p=g_base+i, crc_info->crc=nd_u64(), g_c0=crc_info->crc, g_i0=i)
#include "wizard/crc64.c"
#include "private_StringInfo.h"
void harness(void)
{
  CRC64Info hh,*h=&hh; WizardSizeType tab[256]; struct _StringInfo in,dig; unsigned char digbuf[8+128]; size_t k=nd_range(0,255),L=nd_size(),q=nd_size(); unsigned char *d,v; int i;
  hh.digestsize=8; hh.blocksize=32; hh.crc_xor=tab; hh.crc=nd_u64(); hh.signature=WizardSignature; hh.digest=(StringInfo *) &dig;
  dig.length=8; dig.datum=digbuf; dig.signature=WizardSignature;
#ifdef INIT
  { CRC64Info *f=AcquireCRC64Info(); VASSERT(f->digestsize == 8 && GetStringInfoLength(f->digest) == 8 && f->blocksize == 32,"sizes"); f->crc_xor[255]=0; }
  VASSERT(InitializeCRC64(h) != WizardFalse,"initialise reports success");
  VASSERT(hh.crc == 0,"zero remainder");
  for (i=0; i < 256; i++) VASSERT(tab[i] == spec_crc64_byte(0,(uint8_t) i),"table");
#else
  VASSUME(L <= ((size_t) 1 << 48)); d=malloc(L+128); VASSUME(q < L+128); v=d[q];
  for (i=0; i < 256; i++) tab[i]=spec_crc64_byte(0,(uint8_t) i);
  in.length=L; in.datum=d; in.signature=WizardSignature; g_base=d; g_len=L; g_init=hh.crc;
  VASSERT(UpdateCRC64(h,(StringInfo *) &in) != WizardFalse,"update reports success");
  VASSERT(v_visit_upd == 1 && g_i0 == L && hh.crc == g_c0,"remainder is that after the last byte");
  VASSERT(d[q] == v && in.length == L && in.datum == d && hh.crc_xor == tab && tab[k] == spec_crc64_byte(0,(uint8_t) k),"frame");
  VASSERT(FinalizeCRC64(h) != WizardFalse,"finalise reports success");
  for (i=0; i < 8; i++) VASSERT(digbuf[i] == (uint8_t) (g_c0 >> (56-8*i)),"digest is the remainder, big endian");
  VASSERT(hh.crc == g_c0 && dig.length == 8,"frame");
#endif
  VREACH("end");
}
