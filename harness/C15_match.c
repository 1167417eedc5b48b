/*VP {
 "srcs": ["stringchunk.c"],
 "models": ["logs_stub.c", "hash_stub.c", "fnmatch_model.c", "store_stub.c", "ht_stub.c"],
 "unwind": "Q+2",
 "unwindset": {"vp_.*": 9, "SimpleHT_Init": 9, "SB_Add": 9, "SL_Add.*": 8, "StringChunk_Match_.*": "RULES+1", "fnmatch.*": 9, "str.*": "Q+2"},
 "bounds": "RULES rules of any text up to 4 characters over {a,b,.,*,?}, added in any order with distinct data, and any query of up to Q characters over {a,b,.} (including the empty root name); one hash bucket or several (collisions included)",
 "stubs": ["logging is empty", "HASH is some deterministic function of the text", "StableBuffer, StringList, Array and SimpleHT replaced by their contract (decided under C24)", "fnmatch modelled for * and ? under the solver, libc's natively"],
 "defs": ["ST_MAX=6"],
 "variants": {
 "r2": {"defs": ["RULES=2","Q=6"]},
 "r3": {"defs": ["RULES=3","Q=5"]}
 }
} VP*/
#include "vp.h"
#include "stringchunk.h"
#include "utils.h"
#include <fnmatch.h>
#define R 4


static const char Alpha[] = "ab.*?";
static char Rule[RULES][R + 1];
static char Q_[Q + 2];
static int Wild[RULES], Data[RULES];

static int Eq(const char *a, const char *b) { int k; for( k = 0; k <= Q; ++k ) { if( a[k] != b[k] ) return 0; if( !a[k] ) return 1; } return 0; }

void vp_harness(void)
{
    StringChunk c;
    int r, k, n, best = -1, bestlen = -1, wild = -1, got;
    int *d = NULL;
    vp_assert(StringChunk_Init(&c, NULL) == 0, "init");
    for( r = 0; r < RULES; ++r )
    {
        n = vp_range(1, R);
        for( k = 0; k < R; ++k )
        {
            int a = vp_range(0, 4);
            Rule[r][k] = k < n ? Alpha[a] : 0;
            if( k < n && a >= 3 ) Wild[r] = 1;
        }
        vp_assume(Rule[r][0] != '.');
        Data[r] = r + 1;
        vp_assert(StringChunk_Add_Domain(&c, Rule[r], &Data[r], sizeof(int)) == 0, "add");
    }
    n = vp_range(0, Q);
    for( k = 0; k < Q; ++k ) { int a = vp_range(0, 2); Q_[k] = k < n ? Alpha[a] : 0; }
    Q_[Q] = 0;
    /* what lies behind the text is stale, not part of it */
    if( n < Q ) { Q_[n] = 0; for( k = n + 1; k <= Q; ++k ) Q_[k] = k == Q ? 0 : '.'; }

    for( r = 0; r < RULES; ++r )
    {
        if( Wild[r] ) { if( wild < 0 && fnmatch(Rule[r], Q_, FNM_NOESCAPE) == 0 ) wild = r; continue; }
        for( k = 0; k < Q; ++k )
            if( k < n && (k == 0 || (k > 1 && Q_[k - 1] == '.')) && Eq(Q_ + k, Rule[r]) && n - k > bestlen ) { best = r; bestlen = n - k; }
    }
    got = StringChunk_Domain_Match(&c, Q_, NULL, (void **)&d, NULL, NULL);
    vp_assert(!!got == (best >= 0 || wild >= 0), "matched iff a rule is the name, a parent of it, or a wildcard pattern for it");
    if( got )
    {
        vp_assert(d != NULL && *d >= 1 && *d <= RULES, "data of a rule");
        if( best >= 0 ) { vp_assert(Eq(Rule[*d - 1], Rule[best]), "the most specific plain rule wins"); vp_witness("plain"); }
        else { vp_assert(*d - 1 == wild, "else the first wildcard rule that matches"); vp_witness("wild"); }
        if( bestlen >= 0 && bestlen < n ) vp_witness("parent");
    } else vp_witness("none");
    if( n == 0 ) vp_witness("root");
}
