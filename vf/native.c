/* Driver of native runs: fuzz <seed> <seconds> <statefile> | one <seed> | replay <values-file> */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#include <string.h>
#include <setjmp.h>
#include <time.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
extern void harness(void);
static jmp_buf env;
static uint64_t s[2];
static int replay;
static uint64_t *vals; static size_t nvals,ival;
static volatile uint64_t *state; /* [0] seed of the current case, [1] cases, [2] accepted */
static uint64_t sm(uint64_t *x) { uint64_t z=(*x+=0x9e3779b97f4a7c15ULL); z=(z^(z>>30))*0xbf58476d1ce4e5b9ULL; z=(z^(z>>27))*0x94d049bb133111ebULL; return z^(z>>31); }
static uint64_t rnd(void) { uint64_t a=s[0],b=s[1]; s[0]=b; a^=a<<23; s[1]=a^b^(a>>17)^(b>>26); return s[1]+b; }
static uint64_t raw(void) { if (replay) return ival < nvals ? vals[ival++] : 0; return rnd(); }
uint64_t v_draw(int bits)
{
  uint64_t m=bits >= 64 ? ~0ULL : (1ULL<<bits)-1, v;
  if (replay) return raw() & m;
  v=rnd();
  switch (v>>60) { case 0: return 0; case 1: return m; case 2: return (v>>8)&7&m; case 3: return (m-((v>>8)&7))&m; case 4: return (1ULL<<((v>>8)%bits))&m; default: return rnd()&m; }
}
uint64_t v_range(uint64_t lo,uint64_t hi)
{
  uint64_t n=hi-lo,v;
  if (replay) { v=raw(); return (v >= lo && v <= hi) ? v : lo; }
  v=rnd();
  if (n == ~0ULL) return rnd();
  switch (v>>61) { case 0: return lo+((v>>8)%8)%(n+1); case 1: return hi-((v>>8)%8)%(n+1); case 2: return lo+(rnd()%(n+1 < 33 ? n+1 : 33)); default: return lo+rnd()%(n+1); }
}
void v_fail(const char *m)
{
  printf("FAIL %s\n",m); fflush(stdout); _exit(1);
}
void v_discard(void) { longjmp(env,1); }
static void seed(uint64_t x) { s[0]=sm(&x); s[1]=sm(&x)|1; }
int main(int argc,char **argv)
{
  static uint64_t dummy[4]; state=dummy;
  if (argc > 2 && !strcmp(argv[1],"replay"))
    {
      FILE *f=fopen(argv[2],"r"); size_t cap=0; unsigned long long x;
      if (!f) return 2;
      while (fscanf(f,"%llu",&x) == 1) { if (nvals == cap) { cap=cap*2+64; vals=realloc(vals,cap*8); } vals[nvals++]=x; }
      fclose(f); replay=1;
      if (setjmp(env) == 0) { harness(); printf("PASS\n"); } else printf("DISCARD\n");
      return 0;
    }
  if (argc > 2 && !strcmp(argv[1],"one"))
    {
      seed(strtoull(argv[2],0,10));
      if (setjmp(env) == 0) { harness(); printf("PASS\n"); } else printf("DISCARD\n");
      return 0;
    }
  if (argc > 4 && !strcmp(argv[1],"fuzz"))
    {
      uint64_t x=strtoull(argv[2],0,10)*1000003ULL; double secs=atof(argv[3]); struct timespec t0,t;
      uint64_t maxc=argc > 5 ? strtoull(argv[5],0,10) : ~0ULL;
      int fd=open(argv[4],O_RDWR|O_CREAT|O_TRUNC,0600);
      if (fd < 0 || ftruncate(fd,64)) return 2;
      state=mmap(0,64,PROT_READ|PROT_WRITE,MAP_SHARED,fd,0);
      clock_gettime(CLOCK_MONOTONIC,&t0);
      for (volatile uint64_t n=0; n < maxc; n++)
      {
        clock_gettime(CLOCK_MONOTONIC,&t);
        if (n && (t.tv_sec-t0.tv_sec)+(t.tv_nsec-t0.tv_nsec)*1e-9 > secs) break;
        state[0]=x+n; state[1]=n+1; seed(x+n);
        if (setjmp(env) == 0) { harness(); state[2]++; }
      }
      printf("DONE cases=%llu accepted=%llu\n",(unsigned long long) state[1],(unsigned long long) state[2]);
      return 0;
    }
  return 2;
}
