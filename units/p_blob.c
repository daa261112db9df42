/*
  Blobs.  The library calls below stand for the streams: they transfer any number of bytes up to
  the number asked for and may fail at any time.  g_pos counts the bytes transferred so far; byte T
  of the run is tracked.
*/
#include "vh.h"
#include "wizard/studio.h"
#include "wizard/exception.h"
#include "wizard/blob.h"
#include "wizard/utility.h"
#include <zlib.h>
#include <bzlib.h>
#define LIM ((size_t) 1 << 40)
static size_t g_n,g_pos,g_T,g_W; static unsigned char *g_data,g_v; static int g_end,g_hard,g_file;
#include "track.h"
/* outcome of a call that may transfer up to n bytes: number of bytes, 0 or -1 */
static ssize_t v_some(size_t n,int neg)
{
  VASSERT(!g_end && !g_hard,"no further transfer after the end of the stream or an error");
  if (nd_bool()) { errno=nd_bool() ? EINTR : EIO; if (errno != EINTR) g_hard=1; return neg && nd_bool() ? -1 : 0; }
  if (nd_bool()) { g_end=1; return 0; }
  return (ssize_t) nd_range(1,n);
}
static void v_got(unsigned char *b,size_t c) /* c bytes arrive at b */
{
  unsigned char v=0; int old=0;
  if (g_T < g_pos) { v=g_data[g_T]; old=1; }
  VHAVOC_OBJ(b-__CPROVER_POINTER_OFFSET(b));
  if (old) VASSUME(g_data[g_T] == v);
  g_pos+=c;
  if (!old && g_T < g_pos) VASSUME(g_data[g_T] == g_v);
}
static ssize_t v_in(void *b,size_t n,int neg)
{
  ssize_t c;
  VASSERT((unsigned char *) b == g_data+g_pos && n <= g_n-g_pos && __CPROVER_w_ok(b,n),"the transfer goes on where it stopped, inside the storage");
  c=v_some(n,neg); if (c > 0) v_got(b,(size_t) c);
  return c;
}
static ssize_t v_out(const void *b,size_t n,int neg)
{
  ssize_t c;
  VASSERT((const unsigned char *) b == g_data+g_pos && n <= g_n-g_pos,"the transfer goes on where it stopped, inside the run");
  c=v_some(n,neg); if (c > 0) g_pos+=(size_t) c;
  return c;
}
static int v_getc(void) { int v; if (g_end || nd_bool()) { g_end=1; return EOF; } v=g_pos == g_T ? g_v : nd_u8(); g_pos++; return v; }
static int v_putc(int c) { if (nd_bool()) return EOF; VASSERT(g_pos < g_n && (unsigned char) c == g_data[g_pos],"the next byte is written"); g_pos++; return (unsigned char) c; }
#undef getc
#undef putc
#undef gzgetc
#define getc(f) v_getc()
#define putc(c,f) v_putc(c)
#define gzgetc(f) v_getc()
#define gzputc(f,c) v_putc(c)
#define fread(b,s,n,f) ((size_t) v_in(b,(s)*(n),0))
#define fwrite(b,s,n,f) ((size_t) v_out(b,(s)*(n),0))
#define gzread(f,b,n) ((int) v_in(b,n,1))
#define gzwrite(f,b,n) ((int) v_out(b,n,0))
#define BZ2_bzread(f,b,n) ((int) v_in(b,(size_t) (n),1))
#define BZ2_bzwrite(f,b,n) ((int) v_out(b,(size_t) (n),1))
#if OP == 7 || OP == 8
static int g_flush;
#define fflush(f) (g_flush=nd_bool() ? EOF : 0)
#define fclose(f) (g_hard=(g_flush != 0 || nd_bool()), g_file=1, g_hard ? EOF : 0)
#define ferror(f) (nd_bool() || g_flush != 0)
#define fileno(f) 0
#define fstat(f,p) nd_int()
#endif
#if OP <= 2
#define VINV_a (i >= 0 && (size_t) i == g_pos && g_pos <= g_n && !g_end && !g_hard && (OP == 2 || g_T >= g_pos || g_data[g_T] == g_v))
#define VHEAP_a (OP == 2 ? (void) 0 : VHAVOC_OBJ(g_data), errno=nd_int(), g_pos=nd_size(), VASSUME(g_pos <= g_n), i=(ssize_t) g_pos)
#elif OP == 6
/* FileToBlob: g_W is the size of a seekable file, g_seek whether the file is seekable */
static int g_seek,g_fd,g_opened; static unsigned char g_mv; static unsigned char *g_map;
static off_t v_lseek(int f,off_t o,int w) { VASSERT(f == g_fd,"the open file is the one used"); if (!g_seek) return -1; if (w == SEEK_END) { g_end=2; return (off_t) g_W; } VASSERT(o == 0 && w == SEEK_SET,"to the beginning"); g_end=0; return 0; }
static int v_open(const char *p,int f,mode_t m) { return g_fd; }
static int v_close(int f) { VASSERT(f == g_fd && g_opened == 1,"the open file is closed once"); g_opened=0; return nd_bool() ? -1 : 0; }
static int v_fstat(int f,struct stat *s) { struct stat t; *s=t; return nd_bool() ? 0 : -1; }
static ssize_t v_read(int f,void *b,size_t n)
{
  ssize_t c; unsigned char v=0; int old=0;
  VASSERT(f == g_fd && g_end != 2,"the open file is read from its beginning");
  VASSERT(!g_end && !g_hard,"no further transfer after the end of the stream or an error");
  VASSERT(__CPROVER_POINTER_OFFSET(b) == g_pos && n >= 1 && __CPROVER_w_ok(b,n),"the transfer goes on where it stopped, inside the storage");
  if (nd_bool()) { errno=nd_bool() ? EINTR : EIO; if (errno != EINTR) g_hard=1; return -1; }
  if (nd_bool() || (g_seek && g_fd != 0 && g_pos >= g_W)) { g_end=1; return 0; }
  c=(ssize_t) nd_range(1,n); if (g_seek && g_fd != 0) VASSUME((size_t) c <= g_W-g_pos);
  g_data=(unsigned char *) b-g_pos;
  if (g_T < g_pos) { v=g_data[g_T]; old=1; }
  VHAVOC_OBJ(g_data);
  if (old) VASSUME(g_data[g_T] == v);
  g_pos+=(size_t) c;
  if (!old && g_T < g_pos) VASSUME(g_data[g_T] == g_v);
  return c;
}
#undef fileno
#define fileno(f) 0
#define lseek v_lseek
#define open v_open
#define close v_close
#define fstat v_fstat
#define read v_read
#define HAVE(b) (__CPROVER_POINTER_OFFSET(b) == 0 && __CPROVER_rw_ok(b,g_pos+quantum+1))
#define VINV_a (i == g_pos && g_pos <= LIM && (g_pos < extent || g_pos == 0) && !g_end && !g_hard && quantum >= 1 && quantum <= WizardMaxBufferExtent && (blob == 0 || (HAVE(blob) && (g_T >= g_pos || blob[g_T] == g_v))))
#define VHEAP_a (errno=nd_int(), g_pos=nd_size(), VASSUME(g_pos <= LIM), i=g_pos, blob=nd_bool() ? (unsigned char *) 0 : v_block(g_pos+quantum+1))
static unsigned char *v_block(size_t n) { unsigned char *p=malloc(n); VASSUME(p != 0); return p; }
static unsigned char *g_blob;
#define VINV_b ((g_blob == 0 ? (g_blob=blob,1) : 1) && blob == g_blob && i == g_pos && g_pos <= *length && !g_end && !g_hard && (g_T >= g_pos || blob[g_T] == g_v))
#define VHEAP_b (VHAVOC_OBJ(g_blob), errno=nd_int(), g_pos=nd_size(), VASSUME(g_pos <= *length), i=g_pos)
#endif
#include "wizard/blob.c"
#if OP <= 2
ssize_t ReadBlob(BlobInfo *b,const size_t n,void *d) { VASSERT(n >= 1,"something asked for"); return v_in(d,n,1); }
ssize_t WriteBlob(BlobInfo *b,const size_t n,const void *d) { VASSERT(n >= 1,"something asked for"); return v_out(d,n,1); }
#endif
#if OP == 6
void *MapBlob(int f,const MapMode m,const WizardOffsetType o,const size_t n)
{
  VASSERT(f == g_fd && o == 0 && m == ReadMode && n <= g_W,"the beginning of the file is mapped");
  if (n == 0 || nd_bool()) return 0;
  g_map=malloc(n); VASSUME(g_map != 0); if (g_T < n) VASSUME(g_map[g_T] == g_v);
  g_pos=n; return g_map;
}
WizardBooleanType UnmapBlob(void *p,const size_t n) { VASSERT(p == g_map && n == g_pos,"the mapping is released"); g_map=0; return nd_bool() ? WizardTrue : WizardFalse; }
#endif
void harness(void)
{
  static BlobInfo bi; BlobInfo *b=&bi; ssize_t r;
  b->signature=WizardSignature; b->debug=WizardFalse; b->mapped=WizardFalse; b->status=0;
  g_pos=0; g_end=g_hard=0; g_T=nd_size(); g_v=nd_u8(); errno=nd_int();
#if OP <= 4
  g_n=nd_size(); VASSUME(g_n <= LIM); VASSUME(g_T < g_n || g_T == 0); g_data=malloc(g_n+1); VASSUME(g_data != 0);
#if OP == 1
  b->type=nd_int(); VASSUME(b->type != UndefinedStream && b->type != BlobStream);
  r=ReadBlobChunk(b,g_n,g_data);
#elif OP == 2
  b->type=nd_int(); VASSUME(b->type != UndefinedStream && b->type != BlobStream);
  r=WriteBlobChunk(b,g_n,g_data);
#elif OP == 3
  b->type=TYPE; if (TYPE == ZipStream || TYPE == BZipStream) VASSUME(g_n < ((size_t) 1 << 31));
  r=ReadBlob(b,g_n,g_data); if (r < 0) r=0;
#else
  b->type=TYPE; if (TYPE == ZipStream || TYPE == BZipStream) VASSUME(g_n < ((size_t) 1 << 31));
  r=WriteBlob(b,g_n,g_data); if (r < 0) r=0;
#endif
  VASSERT(r >= 0 && (size_t) r <= g_n && (size_t) r == g_pos,"the number reported is the number transferred");
#if OP == 1 || OP == 3
  VASSERT(g_T >= g_pos || g_data[g_T] == g_v,"every byte is the one of the stream");
#endif
#if OP <= 2
  VASSERT((size_t) r == g_n || g_end || g_hard,"less only at the end of the stream or on an error");
#endif
#elif OP == 5 /* in memory: write at any offset */
  size_t U=nd_size(),n=nd_size(),o,len; unsigned char u,*d; int byte=BYTE;
  VASSUME(n <= LIM && (!byte || n == 1)); VASSUME(n >= 1 && g_T < n); b->type=BlobStream; b->extent=nd_size(); b->length=len=nd_size(); b->offset=(WizardOffsetType) nd_size(); b->quantum=nd_size(); o=(size_t) b->offset;
  VASSUME(b->extent >= 1 && b->extent <= LIM && len <= b->extent && o <= len && b->quantum >= 1 && b->quantum <= LIM); VASSUME(U < b->extent);
  b->data=malloc(b->extent); VASSUME(b->data != 0); u=b->data[U]; d=malloc(n); VASSUME(d != 0); g_v=d[g_T];
  TRACK(U); TRACK(o+g_T); TRACK(g_T);
  r=byte ? WriteBlobByte(b,*d) : WriteBlob(b,n,d);
  VASSERT(r == (ssize_t) n || (r == 0 && b->data == 0),"everything is written unless storage runs out"); VASSUME(r != 0);
  VASSERT((size_t) b->offset == o+n && b->length == (o+n > len ? o+n : len) && b->length <= b->extent && __CPROVER_rw_ok(b->data,b->extent),"the blob has grown as needed");
  VASSERT(b->data[o+g_T] == g_v && (U >= len || (U >= o && U < o+n) || b->data[U] == u) && d[g_T] == g_v,"exactly the bytes of the run are replaced");
#elif OP == 8 /* in memory: read */
  size_t m=nd_size(); int byte=BYTE; unsigned char *z; VASSUME(m >= 1 && m <= LIM && (!byte || m == 1)); b->type=BlobStream; b->extent=nd_size(); b->length=nd_size(); b->offset=(WizardOffsetType) nd_size();
  VASSUME(b->extent >= 1 && b->extent <= LIM && b->length <= b->extent && (size_t) b->offset <= b->length); b->data=malloc(b->extent); VASSUME(b->data != 0); b->eof=nd_bool() ? WizardTrue : WizardFalse; WizardBooleanType eof=b->eof;
  size_t left=b->length-(size_t) b->offset,at=(size_t) b->offset,len=b->length; z=malloc(m); VASSUME(z != 0); TRACK(g_T); if (g_T < left) VASSUME(b->data[at+g_T] == g_v);
  if (byte) { int c=ReadBlobByte(b); VASSERT(left == 0 ? c == EOF : (g_T != 0 || c == g_v),"the next byte"); r=left != 0; }
  else r=nd_bool() ? ReadBlob(b,m,z) : ReadBlobChunk(b,m,z);
  VASSERT(r == (ssize_t) (m < left ? m : left) && (size_t) b->offset == at+(size_t) r && b->length == len,"no more than there is");
  VASSERT(b->eof == (m > left ? WizardTrue : eof),"the end is noticed");
  if (!byte) VASSERT(g_T >= (size_t) r || z[g_T] == g_v,"the next bytes");
#elif OP == 6
  char name[2]; size_t ext=nd_size(),len=nd_size(); ExceptionInfo *e=malloc(1); unsigned char *p;
  name[0]=nd_bool() ? '-' : 'x'; name[1]=0; g_fd=name[0] == '-' ? 0 : nd_int(); VASSUME(g_fd >= -1 && (name[0] == '-' || g_fd != 0)); g_opened=1; g_seek=nd_bool();
  g_W=nd_size(); VASSUME(g_W <= LIM && ext <= LIM); TRACK(g_T);
  p=FileToBlob(name,ext,&len,e);
  if (g_fd == -1) { VASSERT(p == 0,"no file, no content"); }
  else VASSERT(g_opened == 0 && g_map == 0,"the file is closed");
  if (p != 0)
    {
      VASSERT(!g_hard,"a read error is reported");
      if (g_seek && g_fd != 0) VASSERT(len == (g_W < ext ? g_W : ext),"the whole file up to the extent");
      else VASSERT((g_end == 1 && len == (g_pos < ext ? g_pos : ext)) || (g_pos >= ext && len == ext),"the whole stream up to the extent");
      VASSERT(len <= g_pos && (g_T >= len || p[g_T] == g_v),"every byte is the one of the file");
      VASSERT(__CPROVER_rw_ok(p,len+1) && p[len] == 0,"closed by a zero byte");
      VREACH("content");
    }
#elif OP == 7 /* CloseBlob */
  b->type=nd_bool() ? FileStream : StandardStream; if (b->type == StandardStream) b->exempt=WizardTrue; else b->exempt=nd_bool() ? WizardTrue : WizardFalse; b->file_info.file=(FILE *) malloc(1); g_flush=0;
  WizardBooleanType ex=b->exempt; b->status=nd_bool() ? 0 : -1; int st=b->status;
  WizardBooleanType c=CloseBlob(b);
  if (ex == WizardFalse) VASSERT(g_file == 1,"the file is closed");
  if (g_flush != 0 || g_hard) VASSERT(c == WizardFalse,"a failed write is reported");
  if (g_flush == 0 && !g_hard && st == 0) VASSERT(c != WizardFalse,"success is reported");
#endif
  VREACH("end");
}
