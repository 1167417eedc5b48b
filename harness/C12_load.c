/*VP {
 "srcs": ["ipmisc.c"],
 "models": ["logs_stub.c", "mem.c", "rw.c"],
 "rename": {"pthread_rwlock_init@ipmisc.c": "vp_rw_init", "pthread_rwlock_destroy@ipmisc.c": "vp_rw_destroy", "pthread_rwlock_rdlock@ipmisc.c": "vp_rw_rdlock", "pthread_rwlock_wrlock@ipmisc.c": "vp_rw_wrlock", "pthread_rwlock_unlock@ipmisc.c": "vp_rw_unlock", "malloc@ipmisc.c": "vp_malloc1", "fopen@ipmisc.c": "vp_fopen", "fclose@ipmisc.c": "vp_fclose", "atexit@ipmisc.c": "vp_atexit"},
 "unwind": 8,
 "unwindset": {"vp_harness.*": 12, "ReadLine.*": 12, "LoadIPSubstitutingFromFile.*": 12, "strchr.*": 12, "vp_atexit.*": 2, "IpMiscMapping_Load.*": 5, "IPMisc_Init.*": 2},
 "bounds": "up to two blocked addresses, up to two pairs to substitute (or a half one), a file of up to two lines of NL bytes (letters, colons, blanks and tabs; or a line too long), any of them absent, addresses of both versions, text that is no address, negative answers blocked or not",
 "stubs": ["the configuration and the lines of the file are decided under C22", "the list of addresses is decided in C12_find"],
 "variants": {
  "lists": {"defs": ["NL=3", "FILE_=0"]},
  "file": {"defs": ["NL=7", "FILE_=1"]}
  }
} VP*/
#include "vp.h"
#include <stdio.h>
#include "ipmisc.h"
#include "readline.h"
#include "utils.h"
extern int vp_rw_held;
static IPMisc TheMisc; static int Given;
void *vp_malloc1(size_t n) { vp_assert(n <= sizeof(IPMisc) && !Given, "room for the mapping"); Given = 1; return &TheMisc; }
static int Opened, Closed, Line;
static char dummy[8];
FILE *vp_fopen(const char *p, const char *m) { ++Opened; return (FILE *)dummy; }
int vp_fclose(FILE *f) { ++Closed; return 0; }
int vp_atexit(void (*f)(void)) { return 0; }
static int NB, NS, NLn, Neg, HasFile;
static char T[2][2];                 /* blocked: one letter each (":" / "." / other) */
static char S[4][2];
static char L[2][NL + 1]; static int Long[2];
typedef struct { char a; int type, len; char d0; } Rec;
static Rec Got[8]; static int NG;
static StringList LB, LS, LF;
StringList *ConfigGetStringList(ConfigFileInfo *c, const char *k)
{
    if( k[0] == 'B' ) return NB ? &LB : NULL;
    if( k[14] == 0 ) return NS ? &LS : NULL;
    return HasFile ? &LF : NULL;
}
BOOL ConfigGetBoolean(ConfigFileInfo *c, const char *k) { return k[0] == 'B' ? Neg : 0; }
static int PosB, PosS, PosF;
static const char *NextB(StringListIterator *i) { return PosB < NB ? T[PosB++] : NULL; }
static const char *NextS(StringListIterator *i) { return PosS < NS ? S[PosS++] : NULL; }
static const char *NextF(StringListIterator *i) { return PosF < 1 ? (++PosF, "f") : NULL; }
int StringListIterator_Init(StringListIterator *i, StringList *l)
{
    if( l == &LB ) { PosB = 0; i->Next = NextB; }
    else if( l == &LS ) { PosS = 0; i->Next = NextS; }
    else { PosF = 0; i->Next = NextF; }
    return 0;
}
int ExpandPathTo(char *b, int n, const char *p) { b[0] = 'f'; b[1] = 0; return 0; }
ReadLineStatus ReadLine(FILE *fp, char *b, int n)
{
    int k;
    if( Line >= NLn ) return READ_FAILED_OR_END;
    for( k = 0; k <= NL; ++k ) b[k] = L[Line][k];
    return Long[Line++] ? READ_TRUNCATED : READ_DONE;
}
ReadLineStatus ReadLine_GoToNextLine(FILE *fp) { return READ_DONE; }
/* an address: its first character tells whether it is one */
int IPv6AddressToNum(const char *s, void *b) { ((char *)b)[0] = s[0]; return s[0] == ':' || s[0] == 'F' ? 16 : 0; }
int IPv4AddressToNum(const char *s, void *b) { ((char *)b)[0] = s[0]; return s[0] == 'f' || s[0] == 'g' ? 4 : 1; }
int DnsSimpleParser_Init(DnsSimpleParser *p, char *r, int l, BOOL t) { return -1; }
int DnsSimpleParserIterator_Init(DnsSimpleParserIterator *i, DnsSimpleParser *p) { return -1; }
void IpChunk_Free(IpChunk *ic) { }
int IpChunk_Init(IpChunk *ic) { return 0; }
BOOL IpChunk_Find(IpChunk *ic, unsigned char *Ip, int n, int *Type, const char **Data) { return FALSE; }
int IpChunk_Add(IpChunk *ic, const char *Ip, int Type, const void *Data, uint32_t n)
{
    vp_assert(ic == &TheMisc.c && NG < 8, "added to the new list");
    Got[NG].a = Ip[0]; Got[NG].type = Type; Got[NG].len = n; Got[NG].d0 = Data != NULL ? *(const char *)Data : 0;
    ++NG;
    return 0;
}
static int Blank(char c) { return c == ' ' || c == '\t'; }
static char Pick(void) { switch( vp_range(0, 4) ) { case 0: return ':'; case 1: return 'f'; case 2: return 'g'; case 3: return 'F'; default: return 'x'; } }
static Rec Want[8]; static int NW;
/* 6: the address replaced is IPv6 */
static void WantSub(char a, char s, int six)
{
    int ok = six ? s == ':' || s == 'F' : s == 'f' || s == 'g';
    if( !ok ) return;
    Want[NW].a = a; Want[NW].type = IP_MISC_TYPE_SUBSTITUTE; Want[NW].len = six ? 16 : 4; Want[NW].d0 = s; ++NW;
}
void vp_harness(void)
{
    int k, j, rc;
    Neg = vp_bool();
    NB = FILE_ ? 0 : vp_range(0, 2); NS = FILE_ ? 0 : vp_range(0, 4); HasFile = FILE_ ? 1 : vp_bool(); NLn = FILE_ ? vp_range(0, 2) : 0;
    for( k = 0; k < 2; ++k ) { T[k][0] = Pick(); T[k][1] = 0; }
    for( k = 0; k < 4; ++k ) { S[k][0] = Pick(); S[k][1] = 0; }
    for( k = 0; k < 2; ++k )
    {
        Long[k] = vp_bool();
        for( j = 0; j < NL; ++j )
        {
            char c = vp_range(0, 127);
            vp_assume(c == ' ' || c == '\t' || c == ':' || c == 'f' || c == 'F' || c == 'x' || c == 0);
            L[k][j] = c;
        }
        L[k][NL] = 0;
    }
    for( k = 0; k < NB; ++k ) { Want[NW].a = T[k][0]; Want[NW].type = IP_MISC_TYPE_BLOCK; ++NW; }
    for( k = 0; k + 1 < NS; k += 2 ) WantSub(S[k][0], S[k + 1][0], S[k][0] == ':');
    for( k = 0; k < 2; ++k )
    {
        /* first two words of the line */
        int a = 0, b, e, six = 0;
        if( k >= NLn || Long[k] ) continue;
        while( Blank(L[k][a]) ) ++a;
        for( e = a; L[k][e] != 0 && !Blank(L[k][e]); ++e ) if( L[k][e] == ':' ) six = 1;
        for( b = e; Blank(L[k][b]); ++b );
        if( L[k][a] == 0 || L[k][b] == 0 ) continue;
        WantSub(L[k][a], L[k][b], six);
    }
    rc = IpMiscMapping_Init((ConfigFileInfo *)dummy);
    vp_assert(rc == 0, "loading succeeds");
    vp_assert(vp_rw_held == 0, "released afterwards");
    vp_assert(Opened == Closed, "files are closed");
    vp_assert(NG == NW, "exactly the entries configured");
    k = vp_range(0, 7);
    if( k < NW )
    {
        vp_assert(Got[k].a == Want[k].a && Got[k].type == Want[k].type, "each entry is the one configured, of its kind");
        if( Want[k].type == IP_MISC_TYPE_SUBSTITUTE ) vp_assert(Got[k].len == Want[k].len && Got[k].d0 == Want[k].d0, "replaced by the address written after it");
        vp_witness("entry");
    }
    if( Given ) vp_assert(!!TheMisc.BlockNegative == !!Neg, "negative answers are blocked iff configured");
    vp_assert(Given || (NB == 0 && NS == 0 && !HasFile && !Neg), "without any option there is no list");
}
