/*VP {
 "srcs": ["cachettlcrtl.c"],
 "models": ["logs_stub.c", "mem.c", "sscanf_model.c", "libc.c"],
 "rename": {"memmove@cachettlcrtl.c": "vp_memmove"},
 "sed": [["cachettlcrtl.c", "\\bsscanf\\b", "vp_sscanf"], ["cachettlcrtl.h", "^", "int vp_sscanf(const char *s, const char *f, ...);\n"]],
 "unwind": "20",
 "bounds": "rules of any one- or two-character domain, one or two blanks, up to two $, any kind (whole or with characters changed), any arguments of the form NUMBER or NUMBERxPLUSNUMBER with numbers of one or two digits, parts of the rule missing",
 "stubs": ["scanning of texts modelled (%s with a width, %u, literals)", "the table of rules records what is added (decided under C15)"],
 "variants": {"orig": {"defs": ["KIND=0"]}, "nocache": {"defs": ["KIND=1"]}, "fixed": {"defs": ["KIND=2"]}, "vari": {"defs": ["KIND=3"]}, "other": {"defs": ["KIND=4"]}}
} VP*/
#include "vp.h"
#include "cachettlcrtl.h"
static int Added; static CtrlContent Got; static char Dom[4];
int StringChunk_Add_Domain(StringChunk *c, const char *d, const void *p, int n)
{
    int k;
    vp_assert(n == sizeof(CtrlContent), "the rule");
    for( k = 0; k < 3; ++k ) { Dom[k] = d[k]; if( !d[k] ) break; }
    Got = *(const CtrlContent *)p; ++Added;
    return 0;
}
int StringChunk_Init(StringChunk *c, StringList *l) { return 0; }
void StringChunk_Free(StringChunk *c, BOOL f) { }
int StringListIterator_Init(StringListIterator *i, StringList *s) { return -1; }
BOOL StringChunk_Domain_Match(StringChunk *c, const char *d, const uint32_t *h, void **o, DataCompare cb, void *e) { return FALSE; }

static char T[40]; static int N;
static void Put(char c) { vp_model(N < 39, "model bound: length"); T[N++] = c; }
static void Puts_(const char *s) { while( *s ) Put(*s++); }
static uint32_t Number(void)
{
    uint32_t v = 0; int k, n = vp_range(1, 2);
    for( k = 0; k < 2; ++k ) if( k < n ) { int d = vp_range(0, 9); Put('0' + d); v = v * 10 + d; }
    return v;
}
void vp_harness(void)
{
    static CacheTtlCtrl c;
    static const char *Kind[4] = {"orig", "nocache", "fixed", "vari"};
    int n = vp_range(1, 2), spread = vp_range(0, 2), k, rc, parts = vp_range(1, 3);
    uint32_t a = 0, b = 0; char d0 = vp_u8(), d1 = vp_u8();
    vp_assume(d0 > ' ' && d1 > ' ' && d0 < 127 && d1 < 127);
    Put(d0); if( n == 2 ) Put(d1);
    if( parts > 1 )
    {
        Put(' '); if( vp_bool() ) Put(' ');
        if( spread > 0 ) Put('$');
        if( spread > 1 ) Put('$');
#if KIND == 4
        { char x = vp_u8(), y = vp_u8(); vp_assume(x > ' ' && x < 127 && x != '$' && y > ' ' && y < 127 && !(x == 'o' && y == 'r')); Put(x); Put(y); Puts_("ig"); }
#else
        Puts_(Kind[KIND]);
#endif
    }
    if( parts > 2 )
    {
        Put(' ');
        a = Number();
        if( KIND == 3 ) { Puts_("x+"); b = Number(); }
    }
    Put(0);
    rc = CacheTtlCrtl_Add_From_String(&c, T);
    vp_assert(Added == (rc == 0), "added iff it succeeds");
    if( parts < 2 || KIND == 4 ) { vp_assert(rc != 0, "what is not a rule is rejected"); vp_witness("rejected"); return; }
    vp_assert(rc == 0, "a rule is accepted");
    vp_assert(Dom[0] == d0 && (n == 1 ? Dom[1] == 0 : Dom[1] == d1 && Dom[2] == 0), "the domain of the rule");
    vp_assert(Got.Infection == (spread == 0 ? TTL_CTRL_INFECTION_AGGRESSIVLY : spread == 1 ? TTL_CTRL_INFECTION_PASSIVLY : TTL_CTRL_INFECTION_NONE), "how it spreads");
    if( KIND == 0 ) vp_assert(Got.State == TTL_STATE_ORIGINAL, "kept as it is");
    if( KIND == 1 ) vp_assert(Got.State == TTL_STATE_NO_CACHE, "not cached");
    if( KIND == 2 ) vp_assert(Got.State == TTL_STATE_FIXED && Got.Coefficient == 0 && Got.Increment == a, "a fixed lifetime");
    if( KIND == 3 ) vp_assert(Got.State == TTL_STATE_VARIABLE && Got.Coefficient == a && Got.Increment == b, "a linear lifetime");
    vp_witness("accepted");
}
