/*
  Key rings.  The file layer (P12) is represented by its contract.  A key ring file is two headers
  and any number of records; a record is the fields 0 signature, 1 unused, 2/3 version, 4 time
  (not in version 1.0), 5 length of the id, 6 id, 7 length of the key, 8 key, 9 length of the nonce,
  10 nonce.  Reader and writer are both held to that layout; the file may end anywhere.
*/
#include "vh.h"
#include "wizard/studio.h"
#include "wizard/string_.h"
#include "wizard/file.h"
#include "wizard/magick.h"
#include "wizard/blob.h"
#include "private_StringInfo.h"
static uint8_t g_kv,g_nv;
/* byte strings by contract (P08): the datum is a handle on its length and two arbitrary bytes */
typedef struct { size_t n; uint8_t t,u; } H;
static H *v_h(size_t n) { H *h=malloc(sizeof(*h)); VASSUME(h != 0); h->n=n; h->t=nd_u8(); h->u=nd_u8(); return h; }
#define HD(s) ((H *) (s)->datum)
static int g_ph,g_open,g_end,g_match,g_done,g_bad,g_hdr,g_seek; static FileInfo *g_f; static size_t g_len[3]; static unsigned short g_maj,g_min;
static const unsigned char *g_idd,*g_hd,*g_md; static char g_path[2]="k";
static const StringInfo *g_in[3]; static size_t g_ts;
#define VINV_r (file_info == g_f && g_ph == 0 && g_open == 1 && !g_end && !g_bad && !g_done && status == WizardTrue && keyring_info->signature == WizardSignature && keyring_info->id == g_in[0])
#define VHEAP_r (file_info=g_f, id=0, key=0, nonce=0, keyring_info->protocol_major=nd_u16(), keyring_info->protocol_minor=nd_u16(), keyring_info->timestamp=(time_t) nd_size(), g_maj=nd_u16(), g_min=nd_u16(), g_len[0]=nd_size(), g_len[1]=nd_size(), g_len[2]=nd_size(), g_match=nd_bool(), g_idd=0)
static off_t v_lseek(int f,off_t o,int w) { VASSERT(g_open && f == 7 && o == 0 && w == SEEK_END,"to the end of the key ring"); if (nd_bool()) return -1; g_seek=1; return (off_t) nd_range(0,(size_t) 1 << 40); }
#define lseek v_lseek
static StringInfo *str(size_t n)
{ StringInfo *s=malloc(sizeof(*s)); VASSUME(s != 0); s->length=n; s->datum=(unsigned char *) v_h(n); s->signature=WizardSignature; return s; }
StringInfo *AcquireStringInfo(const size_t n) { return str(n); }
StringInfo *CloneStringInfo(const StringInfo *s) { StringInfo *r; VASSERT(s != 0 && s->signature == WizardSignature,"a byte string"); r=str(s->length); *HD(r)=*HD(s); return r; }
StringInfo *DestroyStringInfo(StringInfo *s) { VASSERT(s != 0 && s->signature == WizardSignature,"a byte string"); s->signature=0; free(s->datum); free(s); return 0; }
unsigned char *GetStringInfoDatum(const StringInfo *s) { VASSERT(s != 0 && s->signature == WizardSignature,"a byte string"); return s->datum; }
size_t GetStringInfoLength(const StringInfo *s) { VASSERT(s != 0 && s->signature == WizardSignature,"a byte string"); return s->length; }
char *StringInfoToHexString(const StringInfo *s) { return malloc(1); }
char *DestroyString(char *s) { return 0; }
char *ConstantString(const char *s) { char *r=malloc(2); VASSUME(r != 0); r[0]=s[0]; r[1]=0; return r; }
#include "wizard/keyring.c"
StringInfo *GetWizardMagick(const unsigned char *s,const size_t n)
{
  StringInfo *r=AcquireStringInfo(32);
  VASSERT(g_hdr >= 0 && g_hdr <= 1,"two headers"); g_md=r->datum; return r;
}
int CompareStringInfo(const StringInfo *a,const StringInfo *b)
{
  int c=nd_int();
  if (g_ph == -1) /* header */
    {
      VLIMIT((a->datum == g_hd && b->datum == g_md) || (b->datum == g_hd && a->datum == g_md),"headers are compared");
      g_ph=-2; g_hdr++; if (g_hdr == 2) g_ph=0;
      if (c != 0) g_bad=1;
      return c;
    }
  VLIMIT(g_idd != 0 && ((a == g_in[0] && b->datum == g_idd && b->length == g_len[0]) || (b == g_in[0] && a->datum == g_idd && a->length == g_len[0])),"identifiers are compared");
  VASSUME((c == 0) == g_match); return c;
}
FileInfo *AcquireFileInfo(const char *p,const char *q,const FileMode m,ExceptionInfo *e)
{
  VASSERT(p == g_path || (p[0] == g_path[0] && p[1] == 0),"the key ring named"); VASSERT(m == (OP == 1 ? ReadFileMode : WriteFileMode),"mode"); VASSERT(g_f == 0,"opened once");
  if (nd_bool()) return 0;
  g_f=malloc(1); VASSUME(g_f != 0); g_open=1; return g_f;
}
FileInfo *DestroyFileInfo(FileInfo *f,ExceptionInfo *e) { VASSERT(g_open == 1 && f == g_f,"an open key ring is closed"); g_open=0; return 0; }
const char *GetFilePath(const FileInfo *f) { VASSERT(g_open == 1 && f == g_f,"path of an open file"); return g_path; }
int GetFileDescriptor(const FileInfo *f) { VASSERT(g_open == 1 && f == g_f,"an open file"); return 7; }
const struct stat *GetFileProperties(const FileInfo *f) { static struct stat s; return &s; }
#if OP == 1
static int more(FileInfo *f)
{
  VASSERT(g_open == 1 && f == g_f,"an open file is read");
  VASSERT(!g_done,"nothing is read behind the record looked for");
  if (g_end || nd_bool()) { g_end=1; return 0; }
  return 1;
}
static void next(void) { g_ph++; if (g_ph == 4 && g_maj == 1 && g_min == 0) g_ph=5; if (g_ph == 11) { g_ph=0; if (g_match) g_done=1; } }
WizardBooleanType ReadFile32Bits(FileInfo *f,size_t *v)
{
  size_t x=nd_u32();
  if (!more(f)) { *v=nd_size(); return WizardFalse; }
  VASSERT(g_ph == 0 || g_ph == 1 || g_ph == 5 || g_ph == 7 || g_ph == 9,"a 32 bit field is read where there is one");
  if (g_ph == 0) { VASSERT(!g_bad,"nothing is read behind a damaged record"); g_match=nd_bool(); if (x != WizardSignature) g_bad=1; }
  if (g_ph == 5) g_len[0]=x;
  if (g_ph == 7) g_len[1]=x;
  if (g_ph == 9) g_len[2]=x;
  *v=x; next(); return WizardTrue;
}
WizardBooleanType ReadFile16Bits(FileInfo *f,unsigned short *v)
{
  unsigned short x=nd_u16();
  if (!more(f)) { *v=nd_u16(); return WizardFalse; }
  VASSERT(g_ph == 2 || g_ph == 3,"a 16 bit field is read where there is one"); if (g_ph == 2) g_maj=x; else g_min=x;
  *v=x; next(); return WizardTrue;
}
WizardBooleanType ReadFile64Bits(FileInfo *f,WizardSizeType *v)
{
  *v=nd_u64(); if (!more(f)) return WizardFalse;
  VASSERT(g_ph == 4,"a 64 bit field is read where there is one"); next(); return WizardTrue;
}
WizardBooleanType ReadFileChunk(FileInfo *f,void *d,const size_t n)
{
  unsigned char *p=d; int ok=more(f);
  VASSERT(((H *) d)->n >= n,"room for the bytes");
  ((H *) d)->t=nd_u8(); ((H *) d)->u=nd_u8();
  if (!ok) return WizardFalse;
  if (g_ph == -2) { VASSERT(n == 32,"a header"); g_hd=p; g_ph=-1; return WizardTrue; }
  VASSERT((g_ph == 6 && n == g_len[0]) || (g_ph == 8 && n == g_len[1]) || (g_ph == 10 && n == g_len[2]),"a field is read completely where there is one");
  if (g_ph == 6) g_idd=p;
  if (g_ph == 8) ((H *) d)->t=g_kv;
  if (g_ph == 10) ((H *) d)->u=g_nv;
  next(); return WizardTrue;
}
#else
static int room(FileInfo *f) { VASSERT(g_open == 1 && f == g_f,"an open file is written"); if (nd_bool()) { g_end=1; return 0; } return 1; }
WizardBooleanType WriteFile32Bits(FileInfo *f,const size_t v)
{
  VASSERT(g_seek && g_ph >= 0,"records go to the end of the key ring");
  VASSERT(g_ph == 0 ? v == WizardSignature : g_ph == 1 ? 1 : g_ph == 5 ? v == g_in[0]->length : g_ph == 7 ? v == g_in[1]->length : g_ph == 9 && v == g_in[2]->length,"a 32 bit field of the record");
  g_ph++; return room(f) ? WizardTrue : WizardFalse;
}
WizardBooleanType WriteFile16Bits(FileInfo *f,const unsigned short v)
{
  VASSERT(g_seek,"records go to the end of the key ring");
  VASSERT(g_ph == 2 || g_ph == 3,"a 16 bit field of the record"); if (g_ph == 2) g_maj=v; else { g_min=v; VASSERT(g_maj != 1 || g_min != 0,"labelled with the version of the layout"); }
  g_ph++; return room(f) ? WizardTrue : WizardFalse;
}
WizardBooleanType WriteFile64Bits(FileInfo *f,const WizardSizeType v) { VASSERT(g_seek,"records go to the end of the key ring"); VASSERT(g_ph == 4 && v == g_ts,"the time"); g_ph++; return room(f) ? WizardTrue : WizardFalse; }
WizardBooleanType WriteFileChunk(FileInfo *f,const void *d,const size_t n)
{
  if (g_ph == -2) { VASSERT(d == g_md && n == 32 && g_hdr < 2 && !g_seek,"a header"); if (++g_hdr == 2) g_ph=0; return room(f) ? WizardTrue : WizardFalse; }
  VASSERT(g_seek,"records go to the end of the key ring");
  VASSERT((g_ph == 6 && d == g_in[0]->datum && n == g_in[0]->length) || (g_ph == 8 && d == g_in[1]->datum && n == g_in[1]->length) || (g_ph == 10 && d == g_in[2]->datum && n == g_in[2]->length),"a field of the record, completely");
  g_ph++; return room(f) ? WizardTrue : WizardFalse;
}
static int g_asked;
WizardBooleanType ExportKeyringKey(KeyringInfo *k,ExceptionInfo *e)
{
  VASSERT(k->id->length == g_in[0]->length && HD(k->id)->t == HD(g_in[0])->t && k->path[0] == g_path[0],"the identifier is looked up first");
  g_asked=1; g_match=nd_bool(); return g_match ? WizardTrue : WizardFalse;
}
#endif
void harness(void)
{
  KeyringInfo *k=malloc(sizeof(*k)); ExceptionInfo *e=malloc(1); WizardBooleanType r;
  VASSUME(k != 0); k->signature=WizardSignature; k->path=g_path; g_kv=nd_u8(); g_nv=nd_u8();
  k->id=str(nd_u32()); g_in[0]=k->id; g_ph=-2; g_f=0;
#if OP == 1
  k->key=nd_bool() ? str(nd_u32()) : 0; k->nonce=nd_bool() ? str(nd_u32()) : 0;
  r=ExportKeyringKey(k,e);
  VASSERT(g_open == 0,"the key ring is closed");
  VASSERT(r == WizardFalse || r == WizardTrue,"an answer");
  if (r != WizardFalse)
    {
      VASSERT(g_done && !g_bad && !g_end,"found only in a record that was read completely");
      VASSERT(k->key->length == g_len[1] && HD(k->key)->t == g_kv,"the key of the record");
      VASSERT(k->nonce->length == g_len[2] && HD(k->nonce)->u == g_nv,"the nonce of the record");
      VREACH("found");
    }
  else VASSERT(g_f == 0 || g_bad || g_end,"refused only at the end of the key ring, in a damaged one or if there is none"), VASSERT(!g_done,"a complete record is found");
  VASSERT(k->id == g_in[0],"the identifier is kept");
#else
  k->key=str(nd_u32()); k->nonce=str(nd_u32()); g_in[1]=k->key; g_in[2]=k->nonce; k->protocol_major=nd_u16(); k->protocol_minor=nd_u16(); g_ts=nd_size(); k->timestamp=(time_t) g_ts;
  r=ImportKeyringKey(k,e);
  VASSERT(g_asked && g_open == 0,"looked up first, closed in the end");
  if (r != WizardFalse) VASSERT(!g_match && !g_end && g_ph == 11,"success only if the complete record was written");
  else VASSERT(g_match || g_f == 0 || g_end || !g_seek,"refused only if present or on an error");
  if (g_match) VASSERT(g_f == 0,"an identifier already there is not stored again");
  VASSERT(k->id == g_in[0] && k->key == g_in[1] && k->nonce == g_in[2],"the key is kept");
#endif
  VREACH("end");
}
