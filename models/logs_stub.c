/* Logging has no effect on any decided property except where logs.c itself is
 * the subject: empty bodies (stated in every evidence file that uses this). */
#include "logs.h"
int Log_Init(ConfigFileInfo *c, BOOL a, BOOL b) { return 0; }
BOOL Log_Inited(void) { return FALSE; }
BOOL Log_DebugOn(void) { return FALSE; }
void Log_Print(const char *t, const char *f, ...) { }
void ShowRefusingMessage(IHeader *h, const char *m) { }
void ShowTimeOutMessage(const IHeader *h, char p) { }
void ShowErrorMessage(IHeader *h, char p) { }
void ShowNormalMessage(IHeader *h, char p) { }
void ShowBlockedMessage(IHeader *h, const char *m) { }
void ShowSocketError(const char *p, int e) { }
