/*
  Native: transfers through pipes and files with partial transfers, interruptions and errors
  injected between the library and the system calls.  Files live in the scratch directory the run starts in.
*/
#include "wizard/studio.h"
#include "wizard/WizardsToolkit.h"
#include "vh.h"
#include "wizard/blob.h"
#include "wizard/blob-private.h"
#include <sys/syscall.h>
static int on,budget,fail_at; static size_t moved;
static int hit(void) { if (!on) return 0; if (fail_at > 0 && --fail_at == 0) { errno=EIO; return -1; } if (budget > 0 && nd_range(0,2) == 0) { budget--; errno=EINTR; return -1; } return 0; }
static size_t part(size_t n) { return on && n > 1 && nd_bool() ? nd_range(1,n) : n; }
ssize_t read(int f,void *b,size_t n) { ssize_t r; if (hit()) return -1; r=syscall(SYS_read,f,b,part(n)); if (on && r > 0) moved+=(size_t) r; return r; }
ssize_t __read_chk(int f,void *b,size_t n,size_t o) { VASSERT(n <= o,"read within the storage"); return read(f,b,n); }
ssize_t write(int f,const void *b,size_t n) { ssize_t r; if (hit()) return -1; r=syscall(SYS_write,f,b,part(n)); if (on && r > 0) moved+=(size_t) r; return r; }
static void put(const char *p,const void *b,size_t n) { int f=open(p,O_WRONLY | O_CREAT | O_TRUNC,0600); VASSUME(f >= 0); while (n != 0) { ssize_t r=syscall(SYS_write,f,b,n); VASSUME(r > 0); b=(const char *) b+r; n-=(size_t) r; } close(f); }
static size_t get(const char *p,uint8_t *b,size_t n) { int f=open(p,O_RDONLY); size_t k=0; ssize_t r; VASSUME(f >= 0); while ((r=syscall(SYS_read,f,b+k,n-k)) > 0) k+=(size_t) r; close(f); return k; }
static void start(void) { on=1; budget=(int) nd_range(0,6); fail_at=nd_range(0,7) == 0 ? (int) nd_range(1,8) : 0; errno=nd_bool() ? EINTR : 0; moved=0; }
void harness(void)
{
  static int c; char p[64]; ExceptionInfo *e=AcquireExceptionInfo(); size_t cap=nd_range(0,5) == 0 ? 40000 : 600,n=nd_range(0,cap),i,m; uint8_t *d=malloc(n+8),*q=malloc(n+300); int failed; 
  nd_bytes(d,n+8); snprintf(p,sizeof(p),"f%d",(int) getpid()); (void) c; alarm(20);
  switch (nd_range(0,7))
  {
    case 0: /* FileInfo: write a run and integers, read them back */
    {
      FileInfo *f; size_t v32=nd_u32(),w32=0; WizardSizeType v64=nd_u64(),w64=0; unsigned short v16=nd_u16(),w16=0; WizardBooleanType s; uint8_t raw[14];
      unlink(p); f=AcquireFileInfo(p,p,WriteFileMode,e); if (f == NULL) { DestroyExceptionInfo(e); VASSUME(0); }
      start(); s=WriteFileChunk(f,d,n); failed=fail_at == 0; on=0; (void) failed;
      if (s == WizardFalse) { VASSERT(moved < n,"a complete write succeeds"); DestroyFileInfo(f,e); break; }
      VASSERT(moved == n,"success only if everything was written");
      start(); fail_at=0; s=WriteFile16Bits(f,v16) && WriteFile32Bits(f,v32) && WriteFile64Bits(f,v64); on=0; VASSERT(s,"integers written");
      DestroyFileInfo(f,e);
      m=get(p,q,n+300); VASSERT(m == n+14 && memcmp(q,d,n) == 0,"the file holds exactly the bytes written");
      for (i=0; i < 2; i++) raw[i]=(uint8_t) (v16 >> 8*i); for (i=0; i < 4; i++) raw[2+i]=(uint8_t) (v32 >> 8*i); for (i=0; i < 8; i++) raw[6+i]=(uint8_t) (v64 >> 8*i);
      VASSERT(memcmp(q+n,raw,14) == 0,"integers are stored least significant byte first");
      f=AcquireFileInfo(p,p,ReadFileMode,e); VASSERT(f != NULL,"opened"); memset(q,0,n);
      start(); s=ReadFileChunk(f,q,n); on=0; VASSERT((s != WizardFalse) == (moved == n),"success exactly if everything was read"); VASSERT(memcmp(q,d,moved) == 0,"the bytes of the file");
      if (s != WizardFalse) { start(); fail_at=0; s=ReadFile16Bits(f,&w16) && ReadFile32Bits(f,&w32) && ReadFile64Bits(f,&w64); VASSERT(s && w16 == v16 && w32 == v32 && w64 == v64,"integers are read back");
        errno=EINTR; VASSERT(ReadFileByte(f) == EOF && ReadFileChunk(f,raw,1) == WizardFalse,"nothing behind the end"); on=0; }
      DestroyFileInfo(f,e); break;
    }
    case 1: case 2: /* file to blob */
    {
      size_t x=nd_bool() ? ~(size_t) 0 >> 1 : nd_range(0,2*cap),l=77; uint8_t *b; put(p,d,n); start(); b=FileToBlob(p,x,&l,e); on=0;
      VASSERT(b != NULL && l == (n < x ? n : x) && memcmp(b,d,l) == 0 && b[l] == 0,"the content of the file"); b=RelinquishWizardMemory(b); break;
    }
    case 3: case 4: case 5: /* stream to blob */
    {
      size_t x=nd_bool() ? ~(size_t) 0 >> 1 : nd_range(0,2*cap),l=77; uint8_t *b; int fd[2],keep=dup(0); pid_t k; ssize_t r; size_t a=0;
      n=n > 60000 ? 60000 : n; VASSUME(pipe(fd) == 0); while (a < n && (r=syscall(SYS_write,fd[1],d+a,n-a)) > 0) a+=(size_t) r; close(fd[1]); dup2(fd[0],0); close(fd[0]); (void) k;
      start(); b=FileToBlob("-",x,&l,e); failed=fail_at; on=0; dup2(keep,0); close(keep);
      if (b != NULL) { VASSERT(l == (n < x ? n : x) && memcmp(b,d,l) == 0 && b[l] == 0,"the content of the stream"); { volatile uint8_t z; for (i=0; i < MaxCipherBlocksize; i+=MaxCipherBlocksize-1) z=b[l+i]; (void) z; } b=RelinquishWizardMemory(b); }
      else VASSERT(failed == 0,"refused only on an error");
      break;
    }
    default: /* blobs: written in pieces, read in pieces; compressed by name */
    {
      BlobInfo *b; size_t a=0; const char *x[]={"","",".gz",".bz2"}; int z=(int) nd_range(0,3); char name[80]; snprintf(name,sizeof(name),"%s%s",p,x[z]); unlink(name);
      b=OpenBlob(name,WriteBinaryBlobMode,WizardTrue,e); VASSERT(b != NULL,"opened");
      while (a < n) { size_t k=nd_range(1,n-a < 700 ? n-a : 700); ssize_t r; if (nd_bool()) r=WriteBlobChunk(b,k,d+a); else { k=nd_range(1,k < 6 ? k : 6); r=WriteBlob(b,k,d+a); } VASSERT(r == (ssize_t) k,"written"); a+=k; }
      VASSERT(CloseBlob(b) != WizardFalse,"closed"); b=DestroyBlob(b);
      b=OpenBlob(name,ReadBinaryBlobMode,WizardTrue,e); VASSERT(b != NULL,"opened"); a=0;
      for ( ; ; ) { size_t k=nd_range(1,900); ssize_t r; memset(q,0,k < n ? k : n); errno=nd_bool() ? EINTR : 0; if (k > n+300) k=n+300; switch (nd_range(0,3)) { case 0: k=1; { int ch=ReadBlobByte(b); r=ch == EOF ? 0 : 1; q[0]=(uint8_t) ch; } break; case 1: k=1+k%6; r=ReadBlob(b,k,q); break; default: r=ReadBlobChunk(b,k,q); break; }
        VASSERT(r >= 0 && r == (ssize_t) (k < n-a ? k : n-a),"as many as there are"); VASSERT(memcmp(q,d+a,(size_t) r) == 0,"the bytes written"); a+=(size_t) r; if (r == 0) break; }
      b=DestroyBlob(b); unlink(name); break;
    }
  }
  on=0; alarm(0); unlink(p); free(d); free(q); DestroyExceptionInfo(e);
}
