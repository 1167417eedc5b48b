/*VP {
 "srcs": ["filter.c", "bst.c"],
 "models": ["logs_stub.c", "mem.c", "rw.c"],
 "rename": {"malloc@filter.c": "vp_malloc1", "free@filter.c": "vp_free1", "fopen@filter.c": "vp_fopen", "fclose@filter.c": "vp_fclose", "atexit@filter.c": "vp_atexit",
   "pthread_rwlock_init@filter.c": "vp_rw_init", "pthread_rwlock_destroy@filter.c": "vp_rw_destroy", "pthread_rwlock_rdlock@filter.c": "vp_rw_rdlock", "pthread_rwlock_wrlock@filter.c": "vp_rw_wrlock", "pthread_rwlock_unlock@filter.c": "vp_rw_unlock"},
 "sed": [["filter.c", "\\bsscanf\\b", "vp_sscanf"], ["filter.h", "^", "int vp_sscanf(const char *s, const char *f, ...);\n"]],
 "unwind": "6",
 "unwindset": {"vp_.*": 10, "ReadLine.*": 4, "Bst_.*": 5},
 "bounds": "up to three disabled types of any number (or texts that are no number), up to two disabled domains, up to two lines of a list that changes before a reload (a line may be too long), any of them absent; every query type and name; the reload switched on or off",
 "stubs": ["the configuration and the lines of files are decided under C22, rule lists under C15 (here: a name is matched by itself), the refusal under C20"],
 "variants": { "load": {"defs": ["RELOAD=0"]}, "reload": {"defs": ["RELOAD=1"]} }
} VP*/
#include "vp.h"
#include <stdio.h>
#include "filter.h"
#include "bst.h"
#include "readline.h"
#include "utils.h"
#include "scan.h"
#include "domainstatistic.h"
extern int vp_rw_held;
static Bst TheBst; static int BstGiven;
void *vp_malloc1(size_t n) { vp_assert(n <= sizeof(Bst) && !BstGiven, "room for the types"); BstGiven = 1; return &TheBst; }
static StringChunk Ch[4]; static int ChUsed, ChFreed[4];
void vp_free1(void *p)
{
    int k;
    if( p == NULL || p == &TheBst ) return;
    for( k = 0; k < 4; ++k ) if( p == &Ch[k] ) break;
    vp_assert(k < ChUsed && ChFreed[k] == 1, "a list is given back once, after its contents");
    ChFreed[k] = 2;
}
int vp_atexit(void (*f)(void)) { return 0; }
static int Opened, Closed, Line, Gen;
static char dummy[8];
FILE *vp_fopen(const char *p, const char *m) { ++Opened; Line = 0; return (FILE *)dummy; }
int vp_fclose(FILE *f) { ++Closed; return 0; }
/* elements of the tree of types */
typedef struct { Bst_NodeHead h; int e; } Room;
static Room R0, R1, R2; static int Rooms;
static void *SB_Add(StableBuffer *s, const void *D, int L, BOOL A) { vp_assert(L <= (int)sizeof(Room), "room fits"); switch( Rooms++ ) { case 0: return &R0; case 1: return &R1; default: return &R2; } }
static void SB_Clear(StableBuffer *s) { }
int StableBuffer_Init(StableBuffer *s) { s->Add = SB_Add; s->Clear = SB_Clear; s->Free = SB_Clear; return 0; }
/* configuration */
static int NT, ND, HasF, NLines[2], Reload;
static char T[3][2], D[2][2], F[2][2][2]; static int Long[2][2];
static StringList LT, LD, LF;
StringList *ConfigGetStringList(ConfigFileInfo *c, const char *k)
{
    if( k[8] == 'T' ) return NT ? &LT : NULL;
    if( k[8] == 'D' ) return ND ? &LD : NULL;
    return HasF ? &LF : NULL;
}
BOOL ConfigGetBoolean(ConfigFileInfo *c, const char *k) { return Reload; }
static void FreeL(StringList *l) { }
static int PT, PD, PF;
static const char *NextT(StringListIterator *i) { return PT < NT ? T[PT++] : NULL; }
static const char *NextD(StringListIterator *i) { return PD < ND ? D[PD++] : NULL; }
static const char *NextF(StringListIterator *i) { return PF < 1 ? (++PF, "f") : NULL; }
int StringListIterator_Init(StringListIterator *i, StringList *l)
{
    if( l == &LT ) { PT = 0; i->Next = NextT; }
    else if( l == &LD ) { PD = 0; i->Next = NextD; }
    else { PF = 0; i->Next = NextF; }
    return 0;
}
ReadLineStatus ReadLine(FILE *fp, char *b, int n)
{
    if( Line >= NLines[Gen] ) return READ_FAILED_OR_END;
    b[0] = F[Gen][Line][0]; b[1] = 0;
    return Long[Gen][Line++] ? READ_TRUNCATED : READ_DONE;
}
ReadLineStatus ReadLine_GoToNextLine(FILE *fp) { return READ_DONE; }
/* rule lists */
static char Rule[4][4]; static int NR[4];
int InitChunk(StringChunk **l) { if( *l != NULL ) return 0; vp_assert(ChUsed < 4, "lists"); *l = &Ch[ChUsed++]; return 0; }
int StringChunk_Add_Domain(StringChunk *l, const char *d, const void *a, int n) { int k = l - Ch; vp_assert(k >= 0 && k < ChUsed && !ChFreed[k] && NR[k] < 4, "added to a list in use"); Rule[k][NR[k]++] = d[0]; return 0; }
static char Dom[2]; static uint32_t Hash;
BOOL StringChunk_Domain_Match(StringChunk *l, const char *d, const uint32_t *h, void **a, DataCompare cb, void *x)
{
    int k = l - Ch, j;
    vp_assert(k >= 0 && k < ChUsed && !ChFreed[k], "asked of a list in use");
    vp_assert(vp_rw_held != 0, "the list is locked while it is used");
    vp_assert(d[0] == Dom[0] && (h == NULL || *h == Hash), "the query's name and its hash are asked for");
    for( j = 0; j < NR[k]; ++j ) if( Rule[k][j] == d[0] ) return TRUE;
    return FALSE;
}
void StringChunk_Free(StringChunk *l, BOOL b) { int k = l - Ch; vp_assert(k >= 0 && k < ChUsed && !ChFreed[k], "freed once"); vp_assert(vp_rw_held == 2 || l != &Ch[0], "a list in use is freed only when nobody uses it"); ChFreed[k] = 1; }
static IHeader h;
static int Refused;
int MsgContext_SendBackRefusedMessage(MsgContext *m) { vp_assert((IHeader *)m == &h, "the query is refused"); ++Refused; return 0; }
void ShowRefusingMessage(IHeader *x, const char *m) { }
int DomainStatistic_Add(IHeader *x, StatisticType t) { return 0; }
void vp_harness(void)
{
    int k, j, want = 0, r, ty = vp_u16();
    NT = vp_range(0, 3); ND = vp_range(0, 2); HasF = vp_bool(); Reload = vp_bool();
    for( k = 0; k < 10; ++k ) Val[k] = vp_u16();
    for( k = 0; k < 3; ++k ) { T[k][0] = vp_bool() ? '0' + k : 'x'; }
    for( k = 0; k < 2; ++k )
    {
        D[k][0] = vp_range('p', 's');
        NLines[k] = vp_range(0, 2);
        for( j = 0; j < 2; ++j ) { F[k][j][0] = vp_range('p', 's'); Long[k][j] = vp_bool(); }
    }
    Dom[0] = vp_range('p', 't'); Hash = vp_u32();
    LT.Free = FreeL;
    h.Type = ty; h.HashValue = Hash; h.Domain[0] = Dom[0]; h.Domain[1] = 0;
    for( k = 0; k < NT; ++k ) if( T[k][0] != 'x' && (int)Val[k] == ty ) want = 1;
    for( k = 0; k < ND; ++k ) if( D[k][0] == Dom[0] ) want = 1;
    {
        int g = RELOAD && Reload;
        if( HasF ) for( j = 0; j < NLines[g]; ++j ) if( !Long[g][j] && F[g][j][0] == Dom[0] ) want = 1;
    }
    vp_assert(Filter_Init((ConfigFileInfo *)dummy) == 0, "loaded");
    vp_assert(vp_rw_held == 0, "released after loading");
    if( RELOAD ) { Gen = 1; Filter_Update(); vp_assert(vp_rw_held == 0, "released after reloading"); }
    r = Filter_Out((MsgContext *)&h);
    vp_assert(vp_rw_held == 0, "released afterwards");
    vp_assert(!!r == want, "a query is refused iff its type or its name is disabled");
    vp_assert(Refused == want, "and told so, once");
    vp_assert(Opened == Closed, "files are closed");
    if( want ) vp_witness("refused"); else vp_witness("passed");
}
