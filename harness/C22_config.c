/*VP {
 "srcs": ["readconfig.c", "utils.c"],
 "models": ["logs_stub.c", "mem.c", "libc.c", "sscanf_model.c"],
 "rename": {"memmove@readconfig.c": "vp_memmove"},
 "sed": [["readconfig.c", "\\bsscanf\\b", "vp_sscanf"], ["readconfig.h", "^", "int vp_sscanf(const char *s, const char *f, ...);\n"], ["readconfig.c", "Buffer\\[2048\\]", "Buffer[12]"]],
 "defs": ["__NO_CTYPE"],
 "unwind": "12",
 "unwindset": {"ConfigRead.*": "LINES+2", "GetOptionOfAInfo.*": 3, "ParseString.*": 3, "Log.*": 4, "vp_harness.*": "LINES+2"},
 "bounds": "two or three option lines (a known key, an alias or an unknown key in several orders, different separators; values of up to three characters; string values with up to one more piece of a line that was cut) for an option of each type, every strategy for repeated lines, any default; numbers of up to two digits or no number",
 "stubs": ["lines come from the reader (C22_line)", "the option table finds a key (C15)", "string lists record what is added to them (C24)", "paths are not expanded further"],
 "variants": {
  "int_iu": {"defs": ["LINES=2", "KIND=0", "BLANKS=1", "KEYS=\"iu\""]},
  "int_ui": {"defs": ["LINES=2", "KIND=0", "BLANKS=0", "KEYS=\"ui\""]},
  "int_xi": {"defs": ["LINES=2", "KIND=0", "BLANKS=0", "KEYS=\"xi\""]},
  "int_uxi": {"defs": ["LINES=3", "KIND=0", "BLANKS=0", "KEYS=\"uxi\""]},
  "bool_iu": {"defs": ["LINES=2", "KIND=1", "BLANKS=1", "KEYS=\"iu\""]},
  "bool_ui": {"defs": ["LINES=2", "KIND=1", "BLANKS=0", "KEYS=\"ui\""]},
  "bool_xi": {"defs": ["LINES=2", "KIND=1", "BLANKS=0", "KEYS=\"xi\""]},
  "bool_uxi": {"defs": ["LINES=3", "KIND=1", "BLANKS=0", "KEYS=\"uxi\""]},
  "str_iu": {"defs": ["LINES=2", "KIND=2", "BLANKS=1", "KEYS=\"iu\""]},
  "str_ui": {"defs": ["LINES=2", "KIND=2", "BLANKS=0", "KEYS=\"ui\""]},
  "str_xi": {"defs": ["LINES=2", "KIND=2", "BLANKS=0", "KEYS=\"xi\""]},
  "str_uxi": {"defs": ["LINES=3", "KIND=2", "BLANKS=0", "KEYS=\"uxi\""]},
  "path_iu": {"defs": ["LINES=2", "KIND=3", "BLANKS=1", "KEYS=\"iu\""]}
  }
} VP*/
#include "vp.h"
#include "readconfig.h"
#include "readline.h"
#include "utils.h"

/* ---- option table ---- */
static struct { const char *key; ConfigOption o; } Opt[3]; static int Opts;
int StringChunk_Init(StringChunk *c, StringList *l) { return 0; }
int StringChunk_Add(StringChunk *c, const char *k, const void *d, int n)
{
    vp_assert(n == sizeof(ConfigOption) && Opts < 3, "an option");
    Opt[Opts].key = k; Opt[Opts].o = *(const ConfigOption *)d; ++Opts;
    return 0;
}
BOOL StringChunk_Match_NoWildCard(StringChunk *c, const char *s, const uint32_t *h, void **d, DataCompare cb, void *e)
{
    int k;
    for( k = 0; k < 3; ++k ) if( k < Opts && s[0] == Opt[k].key[0] && s[1] == 0 ) { *d = &Opt[k].o; return TRUE; }
    return FALSE;
}
const char *StringChunk_Enum_NoWildCard(StringChunk *c, int32_t *s, void **d) { return NULL; }
void StringChunk_Free(StringChunk *c, BOOL f) { }
int StringListIterator_Init(StringListIterator *i, StringList *s) { return -1; }
FILE *vp_nofile;

/* ---- string list: a log of what it holds ---- */
#define LG 40
static char Log[LG], Want[LG]; static int LogN, WantN, Trims;
static char *Put(char *l, int *n, const char *s, const char *d, char mark)
{
    int k;
    vp_model(*n + 8 < LG, "model bound: log");
    if( mark ) { l[(*n)++] = mark; l[(*n)++] = d && d[0] ? d[0] : '0'; }
    for( k = 0; k < 5 && s[k]; ++k ) l[(*n)++] = s[k];
    vp_model(k < 5, "model bound: value");
    return l;
}
static void SL_Clear(StringList *s) { LogN = 0; }
static const char *SL_Add(StringList *s, const char *t, const char *d) { return Put(Log, &LogN, t, d, '+'); }
static const char *SL_AppendLast(StringList *s, const char *t, const char *d) { return Put(Log, &LogN, t, d, '~'); }
static void SL_TrimAll(StringList *s, const char *t) { ++Trims; }
static const char *SB_Add(StringList *s, const char *t, const char *d) { return t; }
int StringList_Init(StringList *s, const char *t, const char *d)
{
    s->Clear = SL_Clear; s->Add = SL_Add; s->AppendLast = SL_AppendLast; s->TrimAll = SL_TrimAll;
    if( t != NULL ) Put(Log, &LogN, t, d, '+');
    return 0;
}
int ExpandPath(char *s, int n) { vp_assert(n > 0 && n < 12, "room behind the path"); return 0; }

/* ---- lines ---- */
static char Line[LINES][12], Rest[LINES][4];
static int Cut[LINES], Next_, Pending;
ReadLineStatus ReadLine(FILE *f, char *b, int n)
{
    int k;
    vp_assert(!Pending, "the rest of a line that was cut is not the next line");
    if( Next_ >= LINES ) return READ_FAILED_OR_END;
    for( k = 0; k < 12; ++k ) b[k] = Line[Next_][k];
    Pending = Cut[Next_]; ++Next_;
    return Pending ? READ_TRUNCATED : READ_DONE;
}
ReadLineStatus ReadLine_Rest(FILE *f, char *b, int n)
{
    int k;
    vp_assert(Pending, "there is a rest"); Pending = 0;
    for( k = 0; k < 4; ++k ) b[k] = Rest[Next_ - 1][k];
    return READ_DONE;
}
ReadLineStatus ReadLine_GoToNextLine(FILE *f) { vp_assert(Pending, "there is a rest"); Pending = 0; return READ_DONE; }

static const char Keys[] = KEYS;
void vp_harness(void)
{
    static ConfigFileInfo i;
    int k, strategy = vp_range(STRATEGY_DEFAULT, STRATEGY_APPEND_DISCARD_DEFAULT), specified = 0, reads = 0;
    VType v; int32_t number; int truth;
    vp_assume(ConfigInitInfo(&i) == 0);
    i.StrBuffer.Add = SB_Add;
    LogN = 0;
#if KIND == 0
    v.INT32 = number = vp_range(0, 99);
    ConfigAddOption(&i, "i", strategy, TYPE_INT32, v);
#elif KIND == 1
    v.boolean = truth = vp_bool();
    ConfigAddOption(&i, "i", strategy, TYPE_BOOLEAN, v);
#elif KIND == 2
    v.str = vp_bool() ? "dd" : NULL;
    if( v.str ) Put(Want, &WantN, "dd", ",", '+');
    ConfigAddOption(&i, "i", strategy, TYPE_STRING, v);
#else
    v.str = vp_bool() ? "dd" : NULL;
    if( v.str ) Put(Want, &WantN, "dd", ",", '+');
    ConfigAddOption(&i, "i", strategy, TYPE_PATH, v);
#endif
    ConfigAddAlias(&i, "i", "u", KIND == 2 ? "PR" : NULL, KIND == 2 && vp_bool() ? ";" : NULL);
    for( k = 0; k < LINES; ++k )
    {
        int key = Keys[k] == 'i' ? 0 : Keys[k] == 'u' ? 1 : 2, at = 2, m, q;
        char val[4] = {0, 0, 0, 0};
        Line[k][0] = Keys[k];
        Line[k][1] = " \t="[k];
        if( BLANKS ) Line[k][at++] = ' ';
        Cut[k] = vp_bool();
#if KIND == 0
        { int a = vp_range(0, 10), b = vp_range(0, 10); val[0] = a == 10 ? 'x' : '0' + a; val[1] = b == 10 ? 0 : '0' + b; m = 2; 
        if( k >= Next_ && key < 2 )
        {
            int num = b == 10 ? a : a * 10 + b;
            if( strategy == STRATEGY_APPEND ) { if( a < 10 ) number += num; }
            else if( strategy == STRATEGY_APPEND_DISCARD_DEFAULT ) { if( a < 10 ) number = specified ? number + num : num; specified = 1; }
            else if( a < 10 ) number = num;
            ++reads;
        } }
#elif KIND == 1
        { int a = vp_range(0, 5); const char *w = a == 0 ? "no" : a == 1 ? "Yes" : a == 2 ? "nO" : a == 3 ? "yes" : a == 4 ? "0" : "1"; int yes = a & 1;
        val[0] = w[0]; val[1] = w[1]; if( w[1] ) val[2] = w[2];
        if( k >= Next_ && key < 2 )
        {
            if( strategy == STRATEGY_APPEND || (strategy == STRATEGY_APPEND_DISCARD_DEFAULT && specified) ) truth |= yes;
            else truth = yes;
            specified = 1; ++reads;
        } }
#else
        val[0] = vp_u8(); val[1] = vp_u8();
        vp_assume(val[0] > ' ' && val[0] < 127 && val[1] > ' ' && val[1] < 127);
        if( KIND == 3 ) vp_assume(val[1] != '"' && (val[0] == '"' || val[0] != ' '));
        for( q = 0; q < 2; ++q ) { Rest[k][q] = vp_u8(); vp_assume(Rest[k][q] > ' ' && Rest[k][q] < 127); }
        if( k >= Next_ && key < 2 && !(KIND == 3 && Cut[k]) )
        {
            if( strategy <= STRATEGY_REPLACE || (strategy == STRATEGY_APPEND_DISCARD_DEFAULT && !specified) ) WantN = 0;
            specified = 1;
            if( KIND == 2 )
            {
                const char *d = key == 1 && Opt[1].o.Delimiters ? ";" : ",";
                if( key == 1 && strategy > STRATEGY_REPLACE ) Put(Want, &WantN, "PR", d, '+');
                Put(Want, &WantN, val, d, '+');
                if( Cut[k] ) Put(Want, &WantN, Rest[k], d, '~');
            }
            else Put(Want, &WantN, val[0] == '"' ? val + 1 : val, "", '+');
        }
        if( k >= Next_ && key < 2 ) ++reads;
#endif
        if( KIND == 3 && val[0] != '"' && Line[k][1] != '=' && vp_bool() )
        { /* quoted */ Line[k][at] = '"'; Line[k][at + 1] = val[0]; Line[k][at + 2] = val[1]; Line[k][at + 3] = '"'; }
        else for( q = 0; q < 3; ++q ) Line[k][at + q] = val[q];
    }
    vp_assert(ConfigRead(&i) == reads, "the number of options read");
    vp_assert(Next_ == LINES && !Pending, "all lines are read");
#if KIND == 0
    vp_assert(ConfigGetInt32(&i, "i") == number, "the number");
    vp_assert(ConfigGetInt32(&i, "u") == number, "the number by its other name");
#elif KIND == 1
    vp_assert(!!ConfigGetBoolean(&i, "i") == !!truth, "the truth value");
#else
    vp_assert(LogN == WantN, "the strings");
    k = vp_range(0, LG - 1); if( k < WantN ) vp_assert(Log[k] == Want[k], "each string with its delimiters");
    if( reads > 0 && KIND == 2 ) vp_assert(Trims > 0, "blanks are trimmed");
#endif
    for( k = 0; k < LINES; ++k ) if( Keys[k] != 'x' ) --reads;
    if( reads == 0 ) vp_witness("all read");
}
