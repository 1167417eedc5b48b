/*VP {
 "srcs": ["stringlist.c", "stablebuffer.c", "utils.c"],
 "models": ["logs_stub.c", "mem.c", "sb_arena.c"],
 "rename": {"memcpy@stablebuffer.c": "vp_memcpy", "memmove@stablebuffer.c": "vp_memmove", "malloc@stablebuffer.c": "blk", "free@stablebuffer.c": "unblk", "malloc@stringlist.c": "blk2", "free@stringlist.c": "unblk"},
 "unwind": "N+3",
 "bounds": "a text of N arbitrary bytes split at ',' and ' ', optionally a second text of M bytes added or appended to the last element, then trimmed of blanks and dots or not, then iterated",
 "stubs": ["blocks of memory are regions of one object; the block list is a contract (C24_array)"],
 "variants": {
  "split": {"defs": ["N=5", "M=0", "OP=0", "TRIM=0", "BM=16", "FIX=0"]},
  "trim": {"defs": ["N=3", "M=0", "OP=0", "TRIM=1", "BM=16", "FIX=1"]},
  "add": {"defs": ["N=2", "M=2", "OP=1", "TRIM=0", "BM=16", "FIX=0"]},
  "append": {"defs": ["N=3", "M=2", "OP=2", "TRIM=0", "BM=16", "FIX=0"]},
  "trim5": {"defs": ["N=4", "M=0", "OP=0", "TRIM=1", "BM=16", "FIX=1"], "tiers": ["thorough"]}
  }
} VP*/
#include "vp.h"
#include "stringlist.h"
static char spare[16];
void *blk2(size_t n) { vp_model(n <= sizeof(spare), "model bound: spare"); return spare; }

static char t[N + M + 2];
#define T (N + M + 2)
static int from[T], to[T], cnt;
static int Delim(char c) { return c == ',' || c == ' '; }
static int Junk(char c) { return c == '\t' || c == ' ' || c == '.'; }
static void Token(int a, int b)
{
    if( TRIM )
    {
        int k;
        for( k = 0; k < N + M; ++k ) if( a < b && Junk(t[a]) ) ++a;
        for( k = 0; k < N + M; ++k ) if( b > a && Junk(t[b - 1]) ) --b;
        if( a == b ) return;
    }
    from[cnt] = a; to[cnt] = b; ++cnt;
}
void vp_harness(void)
{
    StringList s;
    StringListIterator i;
    char one[N + 1], two[M + 1];
    int n = FIX ? N : vp_range(0, N), m = FIX ? M : vp_range(0, M), k, a = 0, x = vp_range(0, N + M), q;
    const char *p;
    for( k = 0; k < N; ++k ) { one[k] = k < n ? (char)vp_u8() : 0; vp_assume(k >= n || one[k] != 0); }
    for( k = 0; k < M; ++k ) { two[k] = k < m ? (char)vp_u8() : 0; vp_assume(k >= m || two[k] != 0); }
    one[N] = 0; two[M] = 0;
    if( OP == 2 ) vp_assume(n > 0);
    for( k = 0; k < N; ++k ) if( k < n ) t[k] = one[k];
    for( k = 0; k < M; ++k ) if( k < m ) t[n + k] = two[k];
    for( k = 0; k <= N + M; ++k )
    {
        if( OP == 1 && k == n ) { Token(a, k); a = k; }
        if( k == n + m ) { Token(a, k); break; }
        if( Delim(t[k]) ) { Token(a, k); a = k + 1; }
    }
    vp_assume(StringList_Init(&s, one, ", ") == 0);
    if( OP == 1 ) vp_assert(s.Add(&s, two, ", ") != NULL, "added");
    if( OP == 2 ) vp_assert(s.AppendLast(&s, two, ", ") > 0, "appended");
    if( TRIM ) s.TrimAll(&s, "\t .");
    vp_assume(StringListIterator_Init(&i, &s) == 0);
    for( q = 0; q < cnt; ++q )
    {
        p = i.Next(&i);
        vp_assert(p != NULL, "every element is there");
        if( x < to[q] - from[q] ) vp_assert(p[x] == t[from[q] + x], "its text");
        if( x == to[q] - from[q] ) vp_assert(p[x] == 0, "its end");
    }
    vp_assert(i.Next(&i) == NULL, "and nothing else");
    if( cnt > 1 ) vp_witness("several");
    vp_witness("end");
}
