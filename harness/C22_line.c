/*VP {
 "srcs": ["readline.c"],
 "models": ["logs_stub.c", "mem.c"],
 "rename": {"fgets@readline.c": "vp_fgets", "feof@readline.c": "vp_feof", "memmove@readline.c": "vp_memmove"},
 "sed": [["readline.c", "BlackHole\\[\\d+\\]", "BlackHole[3]"], ["readline.c", "char Buffer\\[\\d+\\]", "char Buffer[3]"]],
 "defs": ["__NO_CTYPE"],
 "unwind": "N+3",
 "unwindset": {"vp_fgets.*": "BUF+1", "ReadPartOfLine.0": "N/2+2", "ReadPartOfLine.1": "BLANK+3", "ReadLine_GoToNextLine.*": "N/2+2"},
 "bounds": "any file of up to N characters over two letters, blank, #, ;, line feed and carriage return (before line feeds only), with or without a line feed at the end, up to BLANK blank lines in a row; buffers of BUF characters, so that lines are cut anywhere; read as whole lines, or skipping what does not fit",
 "stubs": ["fgets and feof read a text in memory"],
 "variants": {
  "n6": {"defs": ["N=6", "BUF=4", "BLANK=2", "SKIP=0"]},
  "b3": {"defs": ["N=6", "BUF=3", "BLANK=1", "SKIP=0"]},
  "n7": {"defs": ["N=7", "BUF=3", "BLANK=2", "SKIP=0"], "tiers": ["thorough"]},
  "long": {"defs": ["N=6", "BUF=8", "BLANK=2", "SKIP=0"]},
  "skip": {"defs": ["N=7", "BUF=4", "BLANK=2", "SKIP=1"]},
  "n10": {"defs": ["N=10", "BUF=4", "BLANK=2", "SKIP=0"], "tiers": ["thorough"]},
  "skip10": {"defs": ["N=10", "BUF=4", "BLANK=2", "SKIP=1"], "tiers": ["thorough"]}
  }
} VP*/
#include "vp.h"
#include "common.h"
#include "readline.h"
static char T[N + 1];
static int Len, Pos, Eof;
char *vp_fgets(char *b, int n, FILE *f)
{
    int k;
    for( k = 0; k < n - 1 && k <= N; ++k )
    {
        if( Pos >= Len ) { Eof = 1; break; }
        b[k] = T[Pos++];
        if( b[k] == '\n' ) { ++k; break; }
    }
    if( k == 0 ) return NULL;
    b[k] = 0;
    return b;
}
int vp_feof(FILE *f) { return Eof; }

static const char Alpha[] = "ab #;\n\r";
/* one line of the file, as it has to be read: without comment, blanks around it and line end */
static char L[N + 2]; static int LN, Truncated;
static int At; /* in T */
static int NextLine(void) /* 0: end of file */
{
    int from, end, k;
    if( At >= Len ) return 0;
    from = At; end = -1;
    for( ; At < Len && T[At] != '\n'; ++At ) if( end < 0 && (T[At] == '#' || T[At] == ';') ) end = At;
    if( end < 0 ) end = At;
    ++At;
    while( from < end && (T[from] == ' ' || T[from] == '\r') ) ++from;
    while( end > from && (T[end - 1] == ' ' || T[end - 1] == '\r') ) --end;
    LN = end - from;
    for( k = 0; k <= N; ++k ) L[k] = k < LN ? T[from + k] : 0;
    return 1;
}
static char G[N + 8]; static int GN, Lead;
static void Append(const char *b) { int k; for( k = 0; k < BUF && b[k]; ++k ) { vp_assert(GN < N + 1, "no more text than there is"); G[GN++] = b[k]; } vp_assert(k < BUF, "terminated"); }


void vp_harness(void)
{
    char b[BUF];
    int k, from, blank = 0;
    ReadLineStatus s;
    /* the file from the beginning of a line on */
    Len = vp_range(0, N);
    for( k = 0; k < N; ++k ) { int a = vp_range(0, 6); if( k < Len ) T[k] = Alpha[a]; }
    for( k = 0; k < N; ++k ) vp_assume(k >= Len || T[k] != '\r' || (k + 1 < Len && T[k + 1] == '\n'));
    /* what has to be read */
    LN = 0;
    for( k = 0; k <= BLANK + 1; ++k ) { if( LN != 0 ) break; if( !NextLine() ) { LN = -1; break; } if( LN == 0 ) ++blank; }
    vp_assume(LN != 0);
    s = ReadLine((FILE *)b, b, BUF);
    if( s == READ_FAILED_OR_END )
    {
        vp_assert(LN < 0 && Pos >= Len, "only blank lines are passed over");
        vp_witness("end");
        return;
    }
    Append(b);
    Truncated = s == READ_TRUNCATED; Lead = GN;
    vp_assert(GN > 0 || Truncated, "no empty line");
    if( SKIP && Truncated ) ReadLine_GoToNextLine((FILE *)b);
    if( !SKIP )
        for( k = 0; k <= N / (BUF - 1); ++k )
        {
            if( s != READ_TRUNCATED ) break;
            s = ReadLine_Rest((FILE *)b, b, BUF);
            if( s != READ_FAILED_OR_END ) Append(b);
        }
    vp_assert(SKIP || s != READ_TRUNCATED, "the end of the line is reached");
    /* pieces begin and end with blanks where the line was cut */
    from = 0;
    while( GN > 0 && (G[GN - 1] == ' ' || G[GN - 1] == '\r') ) --GN;
    while( from < GN && (G[from] == ' ' || G[from] == '\r') ) ++from;
    vp_assert((Truncated && GN == from) || from == 0 || Lead == 0, "a line begins with its text");
    if( GN == from )
    {
        /* a line of blanks alone that was cut: nothing is there, as if it were passed over */
        vp_assert(Truncated, "blank lines are passed over");
        vp_witness("cut blank line");
        return;
    }
    if( SKIP && Truncated ) vp_assert(GN - from <= LN, "the beginning of the line");
    else vp_assert(GN - from == LN, "the whole line, without its comment");
    for( k = 0; k < N; ++k ) if( k < GN - from ) vp_assert(G[from + k] == L[k], "the text of the line");
    vp_assert(Pos == (At < Len ? At : Len) || (Pos == At - 1 && T[Pos] == '\n' && T[Pos - 1] == '\r'), "the next line is read next");
    if( Truncated ) vp_witness("cut");
    if( blank ) vp_witness("blank line passed over");
}
