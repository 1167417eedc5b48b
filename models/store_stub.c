/* StableBuffer and StringList as contracts: every Add returns fresh, stable room holding a
 * copy.  The real ones are decided under C24. */
#include "vp.h"
#include "stringlist.h"
#ifndef ST_MAX
#define ST_MAX 16
#endif
static void *SB_Add(StableBuffer *s, const void *Data, int Length, BOOL Align)
{
    char *p = malloc(Length), *q = (char *)Data; int k;
    if( Data != NULL ) for( k = 0; k < Length; ++k ) p[k] = q[k];
    return p;
}
static void SB_Nop(StableBuffer *s) { }
int StableBuffer_Init(StableBuffer *s) { s->Add = SB_Add; s->Clear = SB_Nop; s->Free = SB_Nop; return 0; }
static void *SL_Add(StringList *s, const char *str, const char *d)
{
    char *p = malloc(ST_MAX); int k;
    for( k = 0; k < ST_MAX - 1 && str[k]; ++k ) p[k] = str[k];
    vp_model(str[k] == 0, "model bound: string length");
    p[k] = 0;
    return p;
}
static void SL_Nop(StringList *s) { }
int StringList_Init(StringList *s, const char *ori, const char *d)
{ s->Add = SL_Add; s->Clear = SL_Nop; s->Free = SL_Nop; return 0; }
