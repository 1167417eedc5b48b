/*VP {
 "srcs": ["bst.c"],
 "models": ["logs_stub.c"],
 "unwind": 6,
 "unwindset": {"vp_.*": 16, "Bst_.*": 6},
 "bounds": "every tree of depth at most 3 (depth 4 in parts in the variants d2d, d2r, d2a) built by insertions, then DELS removals of any live elements, optionally one more insertion, then a lookup of any key or an enumeration; distinct keys",
 "stubs": ["logging is empty","StableBuffer replaced by its contract: every request returns fresh, stable, non-overlapping room (the real one is decided under C24)"],
 "variants": {
  "d2s": {"defs": ["NODES=7", "DELS=2", "ADDS=0", "VP_ENUM=0"]},
  "d2e": {"defs": ["NODES=7", "DELS=2", "ADDS=0", "VP_ENUM=1"]},
  "d2d": {"defs": ["DEEP=1", "NODES=7", "DELS=2", "ADDS=0", "VP_ENUM=0"]},
  "d1a": {"defs": ["NODES=7", "DELS=1", "ADDS=1", "VP_ENUM=0"]},
  "d2r": {"defs": ["NODES=9", "DELS=2", "ADDS=0", "VP_ENUM=0"], "tiers": ["thorough"]},
  "d3s": {"defs": ["NODES=7", "DELS=3", "ADDS=0", "VP_ENUM=0"], "tiers": ["thorough"]},
  "d2a": {"defs": ["NODES=9", "DELS=2", "ADDS=1", "VP_ENUM=0"], "tiers": ["thorough"]}
  }
} VP*/
#include "vp.h"
#include "bst.h"

typedef struct { int Key; int Tag; } El;
static int Cmp(const void *a, const void *b)
{
    int x = ((const El *)a)->Key, y = ((const El *)b)->Key;
    return x < y ? -1 : x > y;
}
typedef struct { Bst_NodeHead h; El e; } Room;
static Room R0, R1, R2, R3, R4, R5, R6, R7, R8, R9, R10, R11;
static int Next;
static void *SB_Add(StableBuffer *s, const void *Data, int Length, BOOL Align)
{
    vp_assert(Length <= (int)sizeof(Room), "room request fits one element");
    switch( Next )
    {
    case 0: return &R0; case 1: return &R1; case 2: return &R2; case 3: return &R3;
    case 4: return &R4; case 5: return &R5; case 6: return &R6; case 7: return &R7;
    case 8: return &R8; case 9: return &R9; case 10: return &R10; default: return &R11;
    }
}
static void SB_Clear(StableBuffer *s) { }
int StableBuffer_Init(StableBuffer *s) { s->Add = SB_Add; s->Clear = SB_Clear; s->Free = SB_Clear; return 0; }

#define N (NODES + ADDS)
/* level order; parents of the 8th and 9th node are the 5th (left's right) and the 6th (right's left) */
#ifdef DEEP   /* a right side of depth 4: the successor of the root may have a right child of its own */
static const int Keys[9] = {80, 40, 120, 100, 140, 110, 90};
static const int Par[9]  = {-1, 0, 0, 2, 2, 3, 3};
#else
static const int Keys[9] = {80, 40, 120, 20, 60, 100, 140, 50, 110};
static const int Par[9]  = {-1, 0, 0, 1, 1, 2, 2, 4, 5};
#endif
static const El *At[N];
static int Live[N], Key[N], Seen[N], Other;
static int Visit(Bst *t, const void *Data, void *Arg)
{
    int k, hit = 0;
    for( k = 0; k < N; ++k ) if( Live[k] && At[k] == Data ) { ++Seen[k]; hit = 1; }
    if( !hit ) ++Other;
    return 0;
}
void vp_harness(void)
{
    Bst t;
    int k, d;
    vp_assume(Bst_Init(&t, sizeof(El), Cmp) == 0);
    for( k = 0; k < NODES; ++k )
    {
        El e;
        Live[k] = (k == 0) || (vp_bool() && Live[Par[k]]);
        Key[k] = e.Key = Keys[k]; e.Tag = k; Next = k;
        if( Live[k] ) { At[k] = t.Add(&t, &e); vp_assert(At[k] != NULL, "insertion succeeds"); }
    }
    for( d = 0; d < DELS; ++d )
    {
        int w = vp_range(0, NODES - 1);
        vp_assume(Live[w]);
        for( k = 0; k < NODES; ++k ) if( k == w ) { t.Delete(&t, At[k]); Live[k] = 0; }
    }
    if( ADDS )
    {
        El e;
        int q = vp_range(0, 8);
        e.Key = Keys[q] + 5; e.Tag = NODES; Next = NODES;
        Key[NODES] = e.Key;
        At[NODES] = t.Add(&t, &e);
        vp_assert(At[NODES] != NULL, "insertion succeeds");
        for( k = 0; k < NODES; ++k )
            vp_assert(!(Live[k] && At[k] == At[NODES]), "a new element never takes a live element's room");
        Live[NODES] = 1;
    }
    for( k = 0; k < N; ++k )
        if( Live[k] ) vp_assert(At[k]->Key == Key[k] && At[k]->Tag == k, "a live element keeps its address and content");
    if( VP_ENUM )
    {
        t.Enum(&t, Visit, NULL);
        for( k = 0; k < N; ++k ) vp_assert(Seen[k] == (Live[k] ? 1 : 0), "enumeration visits every live element exactly once");
        vp_assert(Other == 0, "enumeration visits nothing else");
    } else {
        int want = 0, hit = 0;
        El q = {vp_range(0, 160), 0};
        const El *f;
        for( k = 0; k < N; ++k ) if( Live[k] && Key[k] == q.Key ) want = 1;
        f = t.Search(&t, &q, NULL);
        vp_assert((f != NULL) == want, "a key is found iff a live element has it");
        for( k = 0; k < N; ++k ) if( f != NULL && Live[k] && At[k] == f && Key[k] == q.Key ) hit = 1;
        if( f != NULL ) vp_assert(hit, "what a lookup returns is a live element with that key");
    }
    vp_witness("history finished");
    t.Free(&t);
}
