/*
  Environment of the functions under contract (trusted, listed in the evidence):
  process exit, message formatting, logging and the clock.
*/
#include "wizard/studio.h"
#include "wizard/exception.h"
#include "wizard/log.h"
#include "wizard/locale_.h"
#include "vh.h"
/* a fatal exit is an outcome no contract here allows unless the unit says so */
#if defined(V_OWN_EXIT)
#elif !defined(V_EXIT_OK)
void v_exit(int c) { (void) c; VASSERT(0,"no fatal exit"); VASSUME(0); }
#else
void v_exit(int c) { (void) c; VASSUME(0); }
#endif
#ifndef V_NO_FORMAT
WizardExport ssize_t FormatLocaleString(char *s,const size_t n,const char *f,...)
{ (void) f; if (n != 0) *s='\0'; return(0); }
#endif
WizardExport void CatchWizardException(const ExceptionType a,const char *b,const char *c)
{ (void) a; (void) b; (void) c; }
WizardExport WizardBooleanType ThrowWizardException(ExceptionInfo *e,const char *m,
  const char *f,const size_t l,const ExceptionType s,const char *t,const char *fmt,...)
{ (void) e; (void) m; (void) f; (void) l; (void) s; (void) t; (void) fmt; return(WizardTrue); }
#ifndef V_REAL_EXCEPTION
static ExceptionInfo v_exception;
WizardExport ExceptionInfo *AcquireExceptionInfo(void) { return(&v_exception); }
WizardExport void CatchException(ExceptionInfo *e) { (void) e; }
WizardExport ExceptionInfo *DestroyExceptionInfo(ExceptionInfo *e) { (void) e; return((ExceptionInfo *) NULL); }
WizardExport char *GetExceptionMessage(const int e) { char *m; (void) e; m=(char *) malloc(2); VASSUME(m != 0); m[0]='?'; m[1]='\0'; return(m); }
WizardExport const char *GetLocaleExceptionMessage(const ExceptionType t,const char *s) { (void) t; return(s); }
#endif
void WizardsToolkitTerminus(void) { }
time_t time(time_t *t) { time_t nd_value; if (t) *t=nd_value; return(nd_value); }
WizardExport WizardBooleanType LogWizardEvent(const LogEventType t,const char *m,const char *f,
  const size_t l,const char *fmt,...)
{ (void) t; (void) m; (void) f; (void) l; (void) fmt; return(WizardTrue); }
WizardExport WizardBooleanType IsEventLogging(void) { return(nd_bool() ? WizardTrue : WizardFalse); }
