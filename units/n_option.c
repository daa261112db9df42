/* Native: every name of every table, lists of names, separators, negation and unknown names. */
#include "wizard/studio.h"
#include "wizard/WizardsToolkit.h"
#include "wizard/option.h"
#include "wizard/log.h"
#include "vh.h"
static void put(char *d,const char *w) { static const char *sep[]={""," ",","," , ","\t"}; strcat(d,sep[nd_range(0,4)]); d+=strlen(d); for (; *w; w++) *d++=(char) (isalpha((unsigned char) *w) && nd_bool() ? *w ^ 32 : *w); *d=0; }
void harness(void)
{
  WizardOption o=(WizardOption) nd_range(0,13); char **n=GetWizardOptions(o),s[2000]=""; size_t c,i,k; ssize_t want=0; int bad=0;
  VASSERT(n != NULL,"names"); for (c=0; n[c] != NULL; c++) { ssize_t t=ParseWizardOption(o,WizardFalse,n[c]); const char *m=WizardOptionToMnemonic(o,t); VASSERT(t != -1,"each name has a code"); VASSERT(ParseWizardOption(o,WizardFalse,m) == t,"the name printed for a code parses back to it"); }
  k=nd_range(1,6);
  for (i=0; i < k; i++) { size_t j=nd_range(0,c-1); ssize_t t=ParseWizardOption(o,WizardTrue,n[j]); int neg=o != WizardCommandOptions && nd_range(0,4) == 0; if (nd_range(0,20) == 0) { put(s,"nosuchname"); bad=1; } else if (neg) { char w[100]="!"; strcat(w,n[j]); put(s,w); want&=~t; } else { put(s,n[j]); want|=t; } if (i+1 < k) strcat(s,","); }
  VASSERT(ParseWizardOption(o,WizardTrue,s) == (bad ? -1 : want),"a list parses to the union of its members or is refused");
  { char w[40]; size_t l=nd_range(1,8),j; int f=0; for (i=0; i < l; i++) w[i]=(char) ("aeshm2-516x_zipCt0"[nd_range(0,17)]); if (*w == '-') *w='q'; w[l]=0; { char z[40]; size_t q=0; for (i=0; i < l; i++) if (i == 0 || (w[i] != '-' && w[i] != '_')) z[q++]=w[i]; z[q]=0; for (j=0; j < c; j++) if (strcasecmp(w,n[j]) == 0 || strcasecmp(z,n[j]) == 0) f=1; } VASSERT((ParseWizardOption(o,WizardFalse,w) != -1) == f,"accepted exactly if in the table"); }
  for (i=0; i < c; i++) { char w[200]; size_t j; snprintf(w,sizeof(w),"%s",n[i]); j=strlen(w); w[j]='x'; w[j+1]=0; for (k=0; k < c; k++) if (strcasecmp(w,n[k]) == 0) break; if (k == c) VASSERT(ParseWizardOption(o,WizardFalse,w) == -1,"longer names are refused"); w[j-1]=0; { char z[200]; size_t q=0,y; for (y=0; w[y]; y++) if (y == 0 || (w[y] != '-' && w[y] != '_')) z[q++]=w[y]; z[q]=0; for (k=0; k < c; k++) if (strcasecmp(w,n[k]) == 0 || strcasecmp(z,n[k]) == 0) break; } if (k == c && *w) VASSERT(ParseWizardOption(o,WizardFalse,w) == -1,"prefixes are refused"); }
  for (i=0; n[i] != NULL; i++) n[i]=DestroyString(n[i]); n=(char **) RelinquishWizardMemory(n);
}
