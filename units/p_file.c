/*
  File transfers.  read and write stand for the system calls: they transfer any number of bytes up
  to the number asked for, fail for any reason at any time, and report the end of the file by 0.
  g_pos counts the bytes transferred so far, byte T of the run is tracked.
*/
#include "vh.h"
#include "wizard/studio.h"
#include "wizard/exception.h"
#include "wizard/file.h"
#define LIM ((size_t) 1 << 40)
static size_t g_n,g_pos,g_T; static unsigned char *g_data,g_v; static int g_fd,g_eof,g_hard;
static ssize_t v_transfer(int f,const void *b,size_t n)
{
  ssize_t c;
  VASSERT(f == g_fd,"the open file is the one used");
  VASSERT(!g_eof && !g_hard,"no further transfer after the end of the file or an error");
  VASSERT((const unsigned char *) b == g_data+g_pos,"the transfer goes on where it stopped");
  VASSERT(n >= 1 && n <= g_n-g_pos,"no more bytes asked for than remain");
  if (nd_bool()) { errno=nd_bool() ? EINTR : EIO; if (errno != EINTR) g_hard=1; return -1; }
  if (nd_bool()) { g_eof=1; return 0; }
  c=(ssize_t) nd_range(1,n); return c;
}
static ssize_t v_read(int f,void *b,size_t n)
{
  ssize_t c=v_transfer(f,b,n); unsigned char v=0; int old=0;
  if (c <= 0) return c;
  if (g_T < g_pos) { v=g_data[g_T]; old=1; }
  VHAVOC_OBJ(g_data);
  if (old) VASSUME(g_data[g_T] == v);
  g_pos+=(size_t) c;
  if (!old && g_T < g_pos) VASSUME(g_data[g_T] == g_v);
  return c;
}
static ssize_t v_write(int f,const void *b,size_t n)
{
  ssize_t c=v_transfer(f,b,n);
  if (c <= 0) return c;
  g_pos+=(size_t) c; return c;
}
#define read v_read
#define write v_write
#if OP == 1
#define VINV_a (i >= 0 && (size_t) i == g_pos && g_pos <= g_n && !g_eof && !g_hard && (g_T >= g_pos || g_data[g_T] == g_v))
#define VHEAP_a (VHAVOC_OBJ(g_data), errno=nd_int(), g_pos=nd_size(), VASSUME(g_pos <= g_n), i=(ssize_t) g_pos)
#elif OP == 2
#define VINV_a (i >= 0 && (size_t) i == g_pos && g_pos <= g_n && !g_eof && !g_hard)
#define VHEAP_a (errno=nd_int(), g_pos=nd_size(), VASSUME(g_pos <= g_n), i=(ssize_t) g_pos)
#endif
#if OP >= 3 /* the integer codecs against the contract of the runs of bytes */
static unsigned char g_file[16]; static size_t g_at,g_end;
#endif
#include "wizard/file.c"
#if OP >= 3
WizardBooleanType WriteFileChunk(FileInfo *f,const void *d,const size_t n)
{
  size_t k;
  VASSERT(__CPROVER_r_ok(d,n) && n >= 1 && n <= 8 && g_at+n <= sizeof(g_file),"bytes to be written");
  if (nd_bool()) { g_hard=1; return WizardFalse; }
  for (k=0; k < 8; k++) if (k < n) g_file[g_at+k]=((const unsigned char *) d)[k];
  g_at+=n; g_end=g_at; return WizardTrue;
}
WizardBooleanType ReadFileChunk(FileInfo *f,void *d,const size_t n)
{
  size_t k;
  VASSERT(__CPROVER_w_ok(d,n) && n >= 1 && n <= 8,"room for the bytes");
  if (nd_bool() || g_at+n > g_end) { g_hard=1; return WizardFalse; }
  for (k=0; k < 8; k++) if (k < n) ((unsigned char *) d)[k]=g_file[g_at+k];
  g_at+=n; return WizardTrue;
}
#endif
void harness(void)
{
  FileInfo fi; WizardBooleanType r;
  memset(&fi,0,sizeof(fi)); fi.signature=WizardSignature; g_fd=nd_int(); fi.file=g_fd; g_pos=0; g_eof=g_hard=0;
#if OP <= 2
  g_n=nd_size(); VASSUME(g_n <= LIM); g_T=nd_size(); VASSUME(g_T < g_n || g_T == 0);
  g_data=malloc(g_n+1); VASSUME(g_data != 0); errno=nd_int();
#if OP == 1
  g_v=nd_u8(); unsigned char guard=g_data[g_n];
  r=ReadFileChunk(&fi,g_data,g_n);
  if (r != WizardFalse) { VASSERT(g_pos == g_n,"success only if everything was read"); VASSERT(g_T >= g_n || g_data[g_T] == g_v,"every byte is the one of the file"); }
#else
  g_v=g_data[g_T];
  r=WriteFileChunk(&fi,g_data,g_n);
  if (r != WizardFalse) VASSERT(g_pos == g_n,"success only if everything was written");
  VASSERT(g_data[g_T] == g_v,"the source is unchanged");
#endif
  VASSERT(r != WizardFalse || g_eof || g_hard,"failure only at the end of the file or on an error");
  if (g_n == 0) VASSERT(r != WizardFalse,"an empty run succeeds");
#else
  g_at=0; g_end=0;
#if OP == 3
  unsigned short v=nd_u16(),w=nd_u16(); 
#define RD ReadFile16Bits
#define WR WriteFile16Bits
#define NB 2
#elif OP == 4
  size_t v=nd_u32(),w=nd_size();
#define RD ReadFile32Bits
#define WR WriteFile32Bits
#define NB 4
#else
  WizardSizeType v=nd_u64(),w=nd_u64();
#define RD ReadFile64Bits
#define WR WriteFile64Bits
#define NB 8
#endif
  r=WR(&fi,v); VASSERT((r == WizardFalse) == (g_hard != 0),"success is the success of the transfer");
  VASSUME(r != WizardFalse); VASSERT(g_at == NB,"occupies exactly its width");
  size_t k=nd_range(0,NB-1); VASSERT(g_file[k] == (unsigned char) ((uint64_t) v >> (8*k)),"least significant byte first");
  g_at=0; g_hard=0; r=RD(&fi,&w); VASSERT((r == WizardFalse) == (g_hard != 0),"success is the success of the transfer");
  if (r != WizardFalse) VASSERT(w == v && g_at == NB,"read back as the same value");
  g_at=nd_range(0,8); g_end=nd_range(0,8); g_hard=0; { size_t a=g_at; int b=ReadFileByte(&fi); VASSERT(b == EOF ? g_hard : (b == g_file[a] && g_at == a+1),"one byte"); }
#endif
  VREACH("end");
}
