/*
  Option tables.  OP 1: the name of every code.  OP 2: every name of table TAB, as printed and with the
  letter cases exchanged, alone and in a list.
*/
#include "vh.h"
#include "wizard/studio.h"
#undef WizardPathExtent
#define WizardPathExtent 48
#include <ctype.h>
#undef isspace
#define isspace(c) ((c) == ' ' || ((c) >= 9 && (c) <= 13))
static int low(int c) { return c >= 'A' && c <= 'Z' ? c+32 : c; }
static int same(const char *a,const char *b) { int i; for (i=0; i < 40; i++) { if (low((unsigned char) a[i]) != low((unsigned char) b[i])) return 0; if (a[i] == 0) return 1; } return 0; }
int LocaleCompare(const char *a,const char *b) { return same(a,b) ? 0 : 1; }
size_t CopyWizardString(char *d,const char *s,const size_t n) { size_t i; for (i=0; i+1 < n && i < 40; i++) { d[i]=s[i]; if (s[i] == 0) return i; } d[i]=0; return i; }
char *strchr(const char *s,int c) { int i; for (i=0; i < 47; i++) { if (s[i] == (char) c) return (char *) s+i; if (s[i] == 0) return 0; } return 0; }
#include "wizard/option.c"
#define TABLES 14
#ifndef K0
#define K0 0
#define K1 100
#endif
void harness(void)
{
  int i;
#if OP == 1
  ssize_t t=(ssize_t) nd_size(); WizardOption o=(WizardOption) nd_range(0,TABLES-1); const OptionInfo *p=GetOptionInfo(o); const char *r=WizardOptionToMnemonic(o,t); int k=(int) nd_range(0,60),n=0,f=0;
  VASSERT(p != 0 && GetOptionInfo(WizardUndefinedOptions) == 0 && WizardOptionToMnemonic(WizardUndefinedOptions,t) == 0,"the table"); VASSERT(GetOptionInfo(WizardDebugOptions) == GetOptionInfo(WizardLogEventOptions),"log events and debug events are one table");
  for (n=0; n < 60 && p[n].mnemonic != 0; n++) if (p[n].type == t) f=1;
  VASSERT(r != 0,"a name"); if (!f) VASSERT(same(r,"undefined"),"no name for a code that is not in the table");
  else { int h=0; for (i=0; i < n; i++) if (r == p[i].mnemonic && p[i].type == t) h=1; VASSERT(h,"a name of the code"); VREACH("found"); }
#else
  const WizardOption o=(WizardOption) TAB; const OptionInfo *p=GetOptionInfo(o); int n=0,k,pre=0,c; char s[80]; ssize_t r;
  for (n=0; p[n].mnemonic != 0; n++) ;
  for (i=0; i < n; i++) { int j; for (j=0; j < i; j++) VASSERT(!same(p[i].mnemonic,p[j].mnemonic) || p[i].type == p[j].type,"a name has one code"); }
#if OP == 2
  int v; for (v=0; v < 4; v+=3) for (k=K0; k < n && k < K1; k++)
  {
    int m=0,l; const char *w=p[k].mnemonic; ssize_t want=p[k].type;
    for (l=0; w[l] != 0; l++) { c=w[l]; if (((c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'))) { if (v == 3) c^=32; } s[m++]=(char) c; }
    s[m]=0; VASSERT(ParseWizardOption(o,WizardFalse,s) == want && ParseWizardOption(o,WizardTrue,s) == want,"the name parses to its code");
    VASSERT(ParseWizardOption(o,WizardFalse,WizardOptionToMnemonic(o,want)) == want,"the name printed for the code parses back");
    s[m++]=','; s[m++]='~'; s[m]=0; VASSERT(ParseWizardOption(o,WizardTrue,s) == -1,"a list with an unknown member is refused"); VASSERT(ParseWizardOption(o,WizardFalse,s) == want,"only the first member");
  }
#else
  int l=(int) nd_range(0,LEN),m,sp=0; char z[LEN+1]; ssize_t want=-1; int dash=0;
  for (i=0; i < LEN; i++) { s[i]=(char) nd_u8(); if (i < l) { VASSUME(s[i] != 0 && s[i] != ',' && !isspace((unsigned char) s[i]) && s[i] != '!'); if (i == 0) VASSUME(s[i] != '-' && s[i] != '+'); } else s[i]=0; } s[LEN]=0;
  for (i=n-1; i >= 0; i--) if (same(s,p[i].mnemonic)) { want=p[i].type; dash=1; }
  if (!dash) { m=0; for (i=0; i < l; i++) if (i == 0 || (s[i] != '-' && s[i] != '_')) z[m++]=s[i]; z[m]=0; for (i=n-1; i >= 0; i--) if (same(z,p[i].mnemonic)) want=p[i].type; }
  r=ParseWizardOption(o,WizardFalse,s); VASSERT(r == want,"accepted exactly if it names an entry"); if (r == -1) VREACH("refused");
#endif
#endif
  VREACH("end");
}
